"""Property simulation: a path-sensitive, interprocedural dataflow analysis over
the IR.  A state is (automaton state of the rule, abstract store, facts on access
paths).  Calls are followed through wrappers and function-pointer tables; loops
are generalised at their back edges; states of a merge point with the same
automaton state are joined when there are too many.  No code is run and no path
is given to a solver: facts are intervals / null-ness / equality of access paths."""
import heapq
import time
from collections import defaultdict
from front import AnalysisBroken

NEG, POS = -(1 << 63), (1 << 64)
TOP = (NEG, POS, frozenset())

# external functions that do not write through their pointer arguments
READONLY = {'printf', 'fprintf', 'strlen', 'memcmp', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'write', 'send',
            'close', 'fsync', 'fdatasync', 'open', 'unlink', 'remove', 'mkdir', 'opendir', 'readdir', 'closedir', 'free',
            'atoi', 'atol', 'atoll', 'memchr', 'strchr', 'puts', 'fputs', 'execv', 'strerror', 'difftime', 'malloc', 'calloc',
            'strdup', 'strndup', 'lseek', 'flock', 'fcntl', 'exit', 'bind', 'listen', 'setsockopt', 'epoll_ctl', 'localtime',
            'llvm.x86.sse42.crc32.32.8', 'llvm.x86.sse42.crc32.64.64', 'putchar', 'fallocate', 'ftruncate', 'rename', 'pwrite',
            'realpath', 'time_', 'fflush', 'setvbuf', 'gai_strerror', 'getenv', 'fork', 'dup2', 'nftw', 'sigaction', 'freeaddrinfo',
            'llvm.va_start', 'llvm.va_end', 'llvm.stacksave.p0', 'llvm.stackrestore.p0', 'rand', 'srand', 'freopen', 'strstr'}
# external -> indexes of pointer arguments it writes to
WRITES = {'read': [1], 'recv': [1], 'memset': [0], 'memcpy': [0], 'strcpy': [0], 'strncpy': [0], 'sprintf': [0], 'snprintf': [0],
          'stat': [1], 'fstat': [1], 'statvfs': [1], 'gettimeofday': [0, 1], 'strftime': [0], 'getentropy': [0], 'strtoull': [1],
          'strtoul': [1], 'strtold': [1], 'accept': [1, 2], 'epoll_wait': [1], 'waitpid': [1], 'time': [0], 'getaddrinfo': [3],
          'sigemptyset': [0], 'asprintf': [0], 'realloc': [], 'pread': [1], 'strcat': [0], 'strncat': [0], 'memmove': [0]}
ALLOC = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup'}
NEGP = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}

_leaf = {}


def leaves(t):
    """fresh atoms a value depends on"""
    if type(t) is not tuple:
        return frozenset()
    r = _leaf.get(t)
    if r is None:
        k = t[0]
        if k in ('call', 'phi', 'join', 'old', 'al', 'any'):
            r = frozenset([t])
            if k == 'old':
                r = frozenset([t])
        elif k == 'ld':
            r = leaves(t[1])
            if t[4] != 0:
                r = r | frozenset([t])
        elif k in ('arg', 'g'):
            r = frozenset()
        else:
            r = frozenset()
            for x in t[1:]:
                if type(x) is tuple:
                    r = r | leaves(x)
        _leaf[t] = r
    return r


def subst(t, pred):
    """replace atoms for which pred holds by ('old', atom)"""
    if type(t) is not tuple or not leaves(t):
        return t
    if pred(t):
        return ('old', t) if t[0] != 'old' else t
    if t[0] in ('call', 'phi', 'join', 'old', 'al', 'any', 'arg', 'g'):
        return t
    return tuple(subst(x, pred) if type(x) is tuple else x for x in t)


def split(v):
    if type(v) is tuple and v[0] == '+':
        return v[1], v[2]
    return v, 0


def addr(v, off):
    if off == 0:
        return v
    if type(v) is tuple and v[0] == '+':
        o = v[2] + off
        return ('+', v[1], o) if o else v[1]
    return ('+', v, off)


def unique_root(r):
    while type(r) is tuple and r[0] in ('[]', '+'):
        r = r[1]
    return type(r) is tuple and (r[0] == 'al' or r[0] == 'g' or (r[0] == 'call' and r[1] in ALLOC))


def base_of(r):
    while type(r) is tuple and r[0] in ('[]', '+'):
        r = r[1]
    return r


class State:
    __slots__ = ('auto', 'cells', 'kill', 'facts', 'regs', 'trail', 'zero', 'dead')

    def __init__(self):
        self.dead = False
        self.auto = None
        self.cells = {}
        self.kill = {}
        self.facts = {}
        self.regs = {}
        self.trail = None
        self.zero = frozenset()

    def copy(self):
        s = State()
        s.auto = self.auto
        s.cells = dict(self.cells)
        s.kill = dict(self.kill)
        s.facts = dict(self.facts)
        s.regs = dict(self.regs)
        s.trail = self.trail
        s.zero = self.zero
        s.dead = self.dead
        return s

    def note(self, txt):
        self.trail = (self.trail, txt)

    def path(self, n=40):
        out, t = [], self.trail
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        # drop consecutive duplicates
        res = []
        for x in out:
            if not res or res[-1] != x:
                res.append(x)
        if len(res) > n:
            res = res[:5] + ['...'] + res[-(n - 6):]
        return res


class Rule:
    """base class; subclasses override what they need"""
    events = ()          # external or defined function names that are events
    classes = ()         # struct.field classes whose stores are events
    follow = ()          # defined functions that must be followed
    opaque = ()          # defined functions that are not followed
    follow_small = 400   # defined functions with a transitive size up to this are followed
    follow_all = False
    force = {}           # field class -> value (or function of the State) any load of it yields, unless stored on the path

    def initial(self):
        return None

    def on_call(self, sim, st, ins, name, args):
        return None

    def on_return(self, sim, st, ins, name, args, ret):
        """after a followed call; may return a list of (state, ret) replacing the outcome"""
        return None

    def on_store(self, sim, st, ins, key, cls, val):
        return None

    def apart(self, st):
        """states for which this differs are not joined"""
        return None

    def live(self, st):
        """atoms the automaton state refers to"""
        return frozenset()

    def on_enter(self, sim, st, fn, args):
        return None

    def on_load(self, sim, st, ins, key, cls, val):
        return None

    def on_branch(self, sim, st, ins, cond, truth):
        return None

    def on_null(self, sim, st, ins):
        """a load or store through a null pointer; True ends the path"""
        return None

    def on_loopentry(self, sim, st, fn, h):
        return None

    def on_backedge(self, sim, st, fn, h):
        return None

    def unroll(self, fn, h):
        """follow every iteration of the loop (only for shapes of a fixed size)"""
        return False

    def on_generalised(self, sim, st, fn, h):
        """after the state of a back edge was generalised"""
        return None

    def on_phi(self, sim, st, fn, rid, v, rng):
        """what is kept of the range of the value v a loop variable has after an iteration"""
        return None

    def on_trunc(self, sim, st, ins, val, bits):
        """a value is narrowed to the given number of bits"""
        return None

    def on_gep(self, sim, st, ins, base, idx, size):
        """a variable element index"""
        return None


class Enough(Exception):
    pass


class BudgetExceeded(AnalysisBroken):
    pass


class Sim:
    MAXGROUP = 12
    BUDGET = 4000000

    def __init__(self, prog, rule, maxgroup=None, budget=None):
        self.p = prog
        self.rule = rule
        if maxgroup:
            self.MAXGROUP = maxgroup
        self.budget = budget or self.BUDGET
        self.steps = 0
        self.nstates = 0
        self.stop_hits = 0      # stop once the rule has that many hits
        self.deadline = None
        self.cls = {}
        self.visited_fns = set()
        self.followed_calls = 0
        self.opaque_calls = defaultdict(int)
        self.stack = []
        self._relevance()
        self._loopmods = {}
        self._modsplit = {}
        self.tsize = {}

    def _relevance(self):
        p, r = self.p, self.rule
        ev = set(r.events)
        cl = set(r.classes)
        direct = set(r.follow) & set(p.defined)
        for n, f in p.defined.items():
            if n in ev:
                direct.add(n)
            if p.direct_mod[n] & cl:
                direct.add(n)
            if p.callees[n] & ev:
                direct.add(n)
        self.rel = set(direct)
        for n in p.defined:
            if p.reach[n] & direct:
                self.rel.add(n)

    def transitive_size(self, n):
        if n not in self.tsize:
            self.tsize[n] = self.p.size[n] + sum(self.p.size.get(c, 0) for c in self.p.reach[n] if c not in self.p.logfns)
        return self.tsize[n]

    def follows(self, n):
        if n in self.rule.opaque or n not in self.p.defined or n in self.p.logfns:
            return False
        if n in self.stack:
            return False
        if self.rule.follow_all:
            return True
        return n in self.rel or self.transitive_size(n) <= self.rule.follow_small

    # ---------------------------------------------------------------- values
    def rng(self, st, t):
        if type(t) is int:
            return (t, t, frozenset())
        if type(t) is not tuple:
            return TOP
        f = st.facts.get(t, TOP)
        k = t[0]
        s = None
        if k in ('g', 'al'):
            return (1, POS, frozenset([0]))
        if k == '+':
            return (1, POS, frozenset([0]))
        if k == '[]':
            return (NEG, POS, frozenset([0]))
        if k == 'cmp':
            s = (0, 1)
        elif k == 'zext':
            n = t[1]
            a = self.rng(st, t[2])
            hi = (1 << n) - 1
            if a[0] >= 0 and a[1] <= hi:
                f = self.meet(f, a)
            else:
                s = (0, hi)
                if 0 in a[2]:
                    f = self.meet(f, (NEG, POS, frozenset([0])))
        elif k == 'trunc':
            a = self.rng(st, t[2])
            if a[0] >= -(1 << (t[1] - 1)) and a[1] < (1 << t[1]):
                f = self.meet(f, a)
        elif k == 'op':
            o, x, y = t[1], t[2], t[3]
            if o == 'and' and type(y) is int and y >= 0:
                s = (0, y)
            elif o == 'add' and type(y) is int:
                a = self.rng(st, x)
                if a[0] > NEG and a[1] < POS:
                    s = (a[0] + y, a[1] + y)
                elif a[0] > NEG and y >= 0:
                    s = (a[0] + y, POS)
            elif o == 'add':
                a, b = self.rng(st, x), self.rng(st, y)
                if a[0] > NEG and b[0] > NEG and a[1] < POS and b[1] < POS:
                    s = (a[0] + b[0], a[1] + b[1])
                elif a[0] >= 0 and b[0] >= 0:
                    s = (a[0] + b[0], POS)
            elif o == 'sub':
                a, b = self.rng(st, x), self.rng(st, y)
                if a[0] > NEG and b[0] > NEG and a[1] < POS and b[1] < POS:
                    s = (a[0] - b[1], a[1] - b[0])
            elif o in ('mul', 'shl') and type(y) is int and 0 <= y < 64:
                a = self.rng(st, x)
                m = y if o == 'mul' else (1 << y)
                if a[0] >= 0 and a[1] < POS:
                    s = (a[0] * m, a[1] * m)
            elif o in ('lshr', 'udiv') and type(y) is int and y > 0:
                a = self.rng(st, x)
                m = y if o == 'udiv' else (1 << y)
                if a[0] >= 0 and a[1] < POS:
                    s = (a[0] // m, a[1] // m)
            elif o in ('urem', 'srem') and type(y) is int and y > 0:
                if o == 'urem' or self.rng(st, x)[0] >= 0:
                    s = (0, y - 1)
            elif o == 'or':
                a, b = self.rng(st, x), self.rng(st, y)
                if a[0] >= 0 and b[0] >= 0 and (0 in a[2] or 0 in b[2] or a[0] > 0 or b[0] > 0):
                    f = self.meet(f, (NEG, POS, frozenset([0])))
        elif k == 'call':
            if t[1] in ('strlen',):
                s = (0, POS)
        if s:
            f = self.meet(f, (s[0], s[1], frozenset()))
        return f

    @staticmethod
    def meet(a, b):
        lo, hi, ne = max(a[0], b[0]), min(a[1], b[1]), a[2] | b[2]
        while lo in ne and lo <= hi:
            lo += 1
        while hi in ne and lo <= hi:
            hi -= 1
        return (lo, hi, frozenset(x for x in ne if lo < x < hi) if len(ne) > 0 and lo != NEG or hi != POS else ne)

    def truth_zero(self, st, v):
        """is v zero/null: True, False or None"""
        if v is None or v == 'u':
            return None
        lo, hi, ne = self.rng(st, v)
        if lo == 0 and hi == 0:
            return True
        if lo > 0 or hi < 0 or 0 in ne:
            return False
        return None

    def evalcmp(self, st, pred, a, b):
        if a is None or b is None or a == 'u' or b == 'u':
            return None
        if a == b:
            return pred in ('eq', 'sge', 'sle', 'uge', 'ule')
        f = st.facts.get(('cmp', pred, a, b))
        if f and f[0] == f[1]:
            return bool(f[0])
        if pred in ('eq', 'ne'):
            f = st.facts.get(('cmp', 'eq', b, a)) or st.facts.get(('cmp', 'eq', a, b))
            if f and f[0] == f[1]:
                return bool(f[0]) == (pred == 'eq')
            for q in ('slt', 'sgt', 'ult', 'ugt'):
                f = st.facts.get(('cmp', q, a, b))
                if f and f[0] == 1:
                    return pred == 'ne'
            ra, rb = base_of(split(a)[0]), base_of(split(b)[0])
            if type(ra) is tuple and type(rb) is tuple and ra != rb and ra[0] in ('al', 'g') and rb[0] in ('al', 'g'):
                return pred == 'ne'
        A, B = self.rng(st, a), self.rng(st, b)
        if pred in ('eq', 'ne'):
            if A[0] == A[1] == B[0] == B[1]:
                return pred == 'eq'
            if A[1] < B[0] or B[1] < A[0] or (A[0] == A[1] and A[0] in B[2]) or (B[0] == B[1] and B[0] in A[2]):
                return pred == 'ne'
            return None
        if pred[0] == 'u':
            # unsigned comparison: usable when both are known non negative
            if A[0] < 0 or B[0] < 0:
                if pred == 'ult' and b == 0:
                    return False
                if pred == 'uge' and b == 0:
                    return True
                return None
        op = pred[1:]
        if A[0] >= 0 and B[0] >= 0:
            # signed and unsigned order agree; a strict order implies the other one
            o = ('u' if pred[0] == 's' else 's') + op
            f = st.facts.get(('cmp', o, a, b))
            if f and f[0] == f[1]:
                return bool(f[0])
            for q in 'su':
                f = st.facts.get(('cmp', q + 'lt', a, b))
                if f and f[0] == 1:
                    return op in ('lt', 'le')
                f = st.facts.get(('cmp', q + 'gt', a, b))
                if f and f[0] == 1:
                    return op in ('gt', 'ge')
        if op == 'lt':
            return True if A[1] < B[0] else False if A[0] >= B[1] else None
        if op == 'le':
            return True if A[1] <= B[0] else False if A[0] > B[1] else None
        if op == 'gt':
            return True if A[0] > B[1] else False if A[1] <= B[0] else None
        if op == 'ge':
            return True if A[0] >= B[1] else False if A[1] < B[0] else None
        return None

    def addfact(self, st, t, f):
        if type(t) is int:
            return f[0] <= t <= f[1] and t not in f[2]
        if type(t) is not tuple:
            return True
        cur = self.rng(st, t)
        n = self.meet(cur, f)
        if n[0] > n[1]:
            return False
        if n != TOP:
            st.facts[t] = n
        k = t[0]
        if k == 'zext' or k == 'trunc':
            # propagate to the operand where that is exact
            a = self.rng(st, t[2])
            if k == 'zext':
                if type(t[2]) is tuple and (t[2][0] in ('cmp',) or (n[0] == n[1] and n[0] == 0) or a[0] >= 0):
                    return self.addfact(st, t[2], n)
                if 0 in n[2] or n[0] > 0:
                    return self.addfact(st, t[2], (NEG, POS, frozenset([0])))
            else:
                if a[0] >= 0 and a[1] < (1 << t[1]):
                    return self.addfact(st, t[2], n)
        elif k == 'cmp' and n[0] == n[1]:
            return self.assume(st, t[1], t[2], t[3], bool(n[0]))
        elif k == 'op' and t[1] == 'add' and type(t[3]) is int:
            if n[0] > NEG or n[1] < POS:
                lo = n[0] - t[3] if n[0] > NEG else NEG
                hi = n[1] - t[3] if n[1] < POS else POS
                return self.addfact(st, t[2], (lo, hi, frozenset(x - t[3] for x in n[2])))
        elif k == 'op' and t[1] == 'xor' and t[3] == 1 and type(t[2]) is tuple and t[2][0] == 'cmp' and n[0] == n[1]:
            return self.addfact(st, t[2], (1 - n[0], 1 - n[0], frozenset()))
        return True

    def assume(self, st, pred, a, b, truth):
        """refine st with (a pred b) == truth; False when contradictory"""
        if not truth:
            pred = NEGP[pred]
        e = self.evalcmp(st, pred, a, b)
        if e is False:
            return False
        if a is None or b is None or a == 'u' or b == 'u':
            return True
        if type(a) is int and type(b) is not int:
            a, b, pred = b, a, SWAP[pred]
        if type(b) is int:
            c = b
            if pred == 'eq':
                return self.addfact(st, a, (c, c, frozenset()))
            if pred == 'ne':
                return self.addfact(st, a, (NEG, POS, frozenset([c])))
            A = self.rng(st, a)
            if pred in ('slt', 'sle', 'sgt', 'sge'):
                lo, hi = {'slt': (NEG, c - 1), 'sle': (NEG, c), 'sgt': (c + 1, POS), 'sge': (c, POS)}[pred]
                if pred in ('sgt', 'sge') and A[1] == POS:
                    hi = POS
                return self.addfact(st, a, (lo, hi, frozenset()))
            if pred in ('ult', 'ule') and c >= 0:
                return self.addfact(st, a, (0, c - 1 if pred == 'ult' else c, frozenset()))
            if pred in ('ugt', 'uge') and c >= 0:
                if A[0] >= 0:
                    return self.addfact(st, a, (c + 1 if pred == 'ugt' else c, POS, frozenset()))
                if pred == 'ugt' or c > 0:
                    return self.addfact(st, a, (NEG, POS, frozenset([0])))
            return True
        # both symbolic
        if pred in ('eq', 'ne'):
            key = ('cmp', 'eq', a, b) if repr(a) <= repr(b) else ('cmp', 'eq', b, a)
            v = 1 if pred == 'eq' else 0
            st.facts[key] = (v, v, frozenset())
            if pred == 'eq':
                A, B = self.rng(st, a), self.rng(st, b)
                m = self.meet(A, B)
                if m[0] > m[1]:
                    return False
                for x in (a, b):
                    if m != TOP and type(x) is tuple and x[0] not in ('g', 'al', '+'):
                        st.facts[x] = m
            return True
        st.facts[('cmp', pred, a, b)] = (1, 1, frozenset())
        st.facts[('cmp', NEGP[pred], a, b)] = (0, 0, frozenset())
        st.facts[('cmp', SWAP[pred], b, a)] = (1, 1, frozenset())
        st.facts[('cmp', SWAP[NEGP[pred]], b, a)] = (0, 0, frozenset())
        A, B = self.rng(st, a), self.rng(st, b)
        if pred[0] == 's' or (A[0] >= 0 and B[0] >= 0):
            op = pred[1:]
            d = 1 if op in ('lt', 'gt') else 0
            if op in ('lt', 'le'):
                if B[1] < POS and not self.addfact(st, a, (NEG, B[1] - d, frozenset())):
                    return False
                if A[0] > NEG and not self.addfact(st, b, (A[0] + d, POS, frozenset())):
                    return False
            else:
                if B[0] > NEG and not self.addfact(st, a, (B[0] + d, POS, frozenset())):
                    return False
                if A[1] < POS and not self.addfact(st, b, (NEG, A[1] - d, frozenset())):
                    return False
        elif pred[0] == 'u' and B[0] >= 0 and B[1] < (1 << 31) and pred in ('ult', 'ule'):
            if not self.addfact(st, a, (0, B[1] - (1 if pred == 'ult' else 0), frozenset())):
                return False
        return True

    # ---------------------------------------------------------------- memory
    def load(self, st, a, cls, ty=None, sz=None):
        if a is None or a == 'u' or type(a) is int:
            return None
        r, o = split(a)
        c = st.cells.get((r, o))
        if c is not None:
            return c[0]
        b = base_of(r)
        if b in st.zero and (r == b or True):
            return 0
        if type(r) is tuple and r[0] == 'g':
            v = self.const_load(r[1], o)
            if v is not None:
                return v
        c = cls or self.cls.get((r, o)) or ('al' if type(b) is tuple and b[0] == 'al' else '*raw')
        if c in self.rule.force:
            fv = self.rule.force[c]
            fv = fv(self, st, (r, o)) if callable(fv) else fv
            if fv is not None:
                return fv
        ver = st.kill.get(c, 0)
        if type(b) is tuple and b[0] == 'al':
            ver = st.kill.get(('root', b), 0)
        elif type(b) is tuple and b[0] == 'g':
            k2 = st.kill.get(('root', b), 0)
            if k2:
                ver = (ver, k2)
        return ('ld', r, o, c, ver)

    def const_load(self, g, off):
        G = self.p.globals.get(g)
        if not G or not G.get('init') or (g in self.p.stored and not G['const']):
            return None
        return self.const_at(G['init'], G['type'], off)

    def const_at(self, init, ty, off):
        if init[0] == 'z':
            return 0
        if init[0] == 'agg':
            if ty.startswith('['):
                n, et = ty[1:-1].split(' x ', 1)
                sz = self.tysize(et)
                if not sz:
                    return None
                k = off // sz
                if k >= len(init) - 1:
                    return None
                return self.const_at(init[1 + k], et, off % sz)
            if ty.startswith('%'):
                s = self.p.irstructs.get(ty[1:])
                if not s:
                    return None
                for k, (eo, et, es) in enumerate(s['elems']):
                    if eo <= off < eo + es:
                        return self.const_at(init[1 + k], et, off - eo)
            return None
        if off == 0:
            if init[0] == 'c':
                return init[1]
            if init[0] == 'n':
                return 0
            if init[0] == 'g':
                return ('g', init[1])
        return None

    def tysize(self, ty):
        if ty == 'ptr':
            return 8
        if ty.startswith('i') and ty[1:].isdigit():
            return max(1, int(ty[1:]) // 8)
        if ty.startswith('['):
            n, et = ty[1:-1].split(' x ', 1)
            return int(n) * (self.tysize(et) or 0)
        if ty.startswith('%'):
            s = self.p.irstructs.get(ty[1:])
            return s['size'] if s else None
        return {'double': 8, 'float': 4}.get(ty)

    def forget(self, st, pred):
        """atoms for which pred holds get a new meaning: rename their old occurrences"""
        hit = False
        for k, (v, c) in list(st.cells.items()):
            if any(pred(x) for x in leaves(v)) or any(pred(x) for x in leaves(k[0])):
                hit = True
                nk = (subst(k[0], pred), k[1])
                del st.cells[k]
                st.cells[nk] = (subst(v, pred), c)
        for k, v in list(st.regs.items()):
            if type(v) is tuple and any(pred(x) for x in leaves(v)):
                st.regs[k] = subst(v, pred)
        for t in list(st.facts):
            if any(pred(x) for x in leaves(t)):
                del st.facts[t]
        if st.zero:
            st.zero = frozenset(z for z in st.zero if not (type(z) is tuple and pred(z)))

    def fresh(self, st, t):
        self.forget(st, lambda x: x == t or x == ('old', t))
        return t

    def dead_ld(self, st, cls, site):
        self.forget(st, lambda x: x[0] == 'ld' and x[3] == cls and (x[4] == site or (type(x[4]) is tuple and site in x[4])))

    def killclass(self, st, cls, site, keep=None):
        """values of field class cls may have changed"""
        for k in [k for k, (v, c) in st.cells.items() if c == cls and k != keep and base_of(k[0])[0:1] != ('al',)]:
            del st.cells[k]
        if st.zero:
            # zero-initialised objects keep their zero fields unless the class is stored through an unknown pointer: materialise loss
            pass
        if st.kill.get(cls) == site:
            self.dead_ld(st, cls, site)
        else:
            self.forget(st, lambda x: x[0] == 'ld' and x[3] == cls and x[4] == site)
        st.kill[cls] = site

    def modsplit(self, name):
        m = self._modsplit.get(name)
        if m is None:
            mod = self.p.mod[name]
            m = self._modsplit[name] = [c[1:] for c in mod if c.startswith('@')], {c for c in mod if not c.startswith('@')}
        return m

    def killclasses(self, st, classes, site):
        """killclass for many classes at once"""
        for k in [k for k, (v, c) in st.cells.items() if c in classes and base_of(k[0])[0:1] != ('al',)]:
            del st.cells[k]
        dead = {c for c in classes if st.kill.get(c) == site}

        def pred(x):
            if x[0] != 'ld' or x[3] not in classes:
                return False
            return x[4] == site or x[3] in dead and type(x[4]) is tuple and site in x[4]
        self.forget(st, pred)
        for c in classes:
            st.kill[c] = site

    def killroot(self, st, a, site, keep=()):
        """everything reachable directly at the object a points into may have changed"""
        if type(a) is not tuple:
            return
        r, _ = split(a)
        b = base_of(r)
        for k in [k for k in st.cells if base_of(k[0]) == b and k not in keep]:
            if k not in st.cells:
                continue
            c = st.cells[k][1]
            del st.cells[k]
            if not (type(b) is tuple and b[0] == 'al'):
                self.killclass(st, c, site)
        if b in st.zero:
            st.zero = st.zero - {b}
        if type(b) is tuple and b[0] in ('al', 'g'):
            key = ('root', b)
            if st.kill.get(key) == site:
                self.forget(st, lambda x: x[0] == 'ld' and base_of(x[1]) == b and (x[4] == site or (type(x[4]) is tuple and site in x[4])))
            else:
                self.forget(st, lambda x: x[0] == 'ld' and base_of(x[1]) == b and x[4] == site)
            st.kill[key] = site

    def killfrom(self, st, a, site, n=None):
        """bytes from a on were written (n of them if known): what lies in front of them stays"""
        if type(a) is not tuple:
            return
        r, o = split(a)
        if r != base_of(r) or type(o) is not int:
            return self.killroot(st, a, site)
        self.killroot(st, a, site, {k for k in st.cells if k[0] == r and type(k[1]) is int and (k[1] < o or type(n) is int and k[1] >= o + n)})

    def store(self, st, a, cls, v, site, ins=None):
        if a is None or a == 'u' or type(a) is int:
            return
        r, o = split(a)
        b = base_of(r)
        c = cls or self.cls.get((r, o)) or ('al' if type(b) is tuple and b[0] == 'al' else '*raw')
        key = (r, o)
        if type(b) is tuple and b[0] == 'al':
            # element stores of an array: other elements of the same object with unknown index
            if type(r) is tuple and r[0] == '[]':
                for k in [k for k in st.cells if base_of(k[0]) == b and k != key]:
                    del st.cells[k]
                if b in st.zero:
                    st.zero = st.zero - {b}
                st.kill[('root', b)] = site
        elif c != '*raw':
            uniq = unique_root(r)
            for k in [k for k, (vv, cc) in st.cells.items() if cc == c and k != key]:
                kb = base_of(k[0])
                if type(kb) is tuple and kb[0] == 'al':
                    continue
                if uniq and unique_root(k[0]) and kb != b:
                    continue
                # same root object with a different constant offset cannot alias
                if kb == b and k[0] == r and k[1] != o:
                    continue
                del st.cells[k]
            if not (uniq and type(b) is tuple and b[0] == 'call'):
                if st.kill.get(c) == site:
                    self.dead_ld(st, c, site)
                else:
                    self.forget(st, lambda x: x[0] == 'ld' and x[3] == c and x[4] == site)
                # the value being stored may itself have been renamed
                st.kill[c] = site
        else:
            for k in [k for k in st.cells if base_of(k[0]) == b and k != key and st.cells[k][1] == '*raw'
                      and not (k[0] == r and type(o) is type(k[1]) is int and abs(k[1] - o) >= 8)]:
                del st.cells[k]
        st.cells[key] = (v, c)

    def copy_struct(self, st, dst, src, n, site):
        """memcpy between objects of known layout"""
        if type(dst) is not tuple:
            return
        dr, do = split(dst)
        moved = {}
        if type(src) is tuple:
            sr, so = split(src)
            for (r, o), (v, c) in list(st.cells.items()):
                if r == sr and so <= o < so + n:
                    moved[o - so] = (v, c)
            szero = base_of(sr) in st.zero
        else:
            szero = False
        layout = None
        for b in (base_of(dr), base_of(split(src)[0]) if type(src) is tuple else None):
            if type(b) is tuple and b[0] == 'al':
                aty = self.p.fns[b[1]].byid[b[2]].j['aty']
                layout = aty
                if self.tysize(aty) == n:
                    break
                layout = None
        if type(src) is tuple and src[0] == 'g':
            G = self.p.globals.get(src[1])
            if G and G['type'].startswith('%'):
                layout = G['type']
        if layout and layout.startswith('%'):
            for off, ty, sz, cls in self.scalars(layout):
                if off not in moved:
                    s = addr(src, off)
                    r2 = split(s)
                    moved[off] = (self.load(st, s, self.cls.get(r2) or cls), cls)
        if not moved:
            self.killroot(st, dst, site)
            return
        if type(base_of(dr)) is tuple and base_of(dr)[0] == 'al':
            for k in [k for k in st.cells if k[0] == dr and do <= k[1] < do + n]:
                del st.cells[k]
        for off, (v, c) in sorted(moved.items()):
            self.store(st, addr(dst, do * 0 + off), c if c != 'al' else None, v, site)

    def scalars(self, ty, base=0, cls=None):
        out = []
        if ty.startswith('%'):
            s = self.p.irstructs.get(ty[1:])
            if not s:
                return out
            names = {}
            d = self.p.structs.get(ty[1:])
            if d:
                for f in d['fields']:
                    names.setdefault(f['off'], f['name'])
            for eo, et, es in s['elems']:
                out += self.scalars(et, base + eo, ty[1:] + '.' + names.get(eo, '#%d' % eo))
        elif ty.startswith('['):
            n, et = ty[1:-1].split(' x ', 1)
            if int(n) <= 8:
                sz = self.tysize(et)
                for k in range(int(n)):
                    out += self.scalars(et, base + k * sz, cls)
        else:
            out.append((base, ty, self.tysize(ty), cls))
        return out

    # ---------------------------------------------------------------- operands
    def val(self, st, o, fn, args):
        k = o[0]
        if k == 'c':
            return o[1]
        if k == 'i':
            return st.regs.get(o[1])
        if k == 'a':
            return args[o[1]] if o[1] < len(args) else None
        if k == 'n':
            return 0
        if k == 'g':
            return ('g', o[1])
        if k == 'gep':
            return self.gep(st, self.val(st, o[1], fn, args), o[2], fn, args)
        if k == 'z':
            return 0
        if k == 'e':
            if o[1] in ('inttoptr', 'ptrtoint', 'bitcast') and len(o) > 2:
                return self.val(st, o[2], fn, args)
            return None
        return None

    def gep(self, st, base, steps, fn, args):
        a = base
        if a is None or a == 'u' or type(a) is int:
            if type(a) is int:
                for s in steps:
                    if s[0] == 'f':
                        a += s[3]
                    else:
                        i = self.val(st, s[1], fn, args)
                        if type(i) is not int:
                            return None
                        a += i * s[2]
                return a
            return None
        cls = None
        for s in steps:
            if s[0] == 'f':
                a = addr(a, s[3])
                cls = (s[1] + '.' + s[2]) if s[1] else None
                if cls:
                    self.cls[split(a)] = cls
            else:
                i = self.val(st, s[1], fn, args)
                if type(i) is int:
                    a = addr(a, i * s[2])
                else:
                    if i is None:
                        i = ('any', fn.name)
                    a = ('[]', a, i, s[2])
        return a

    # ---------------------------------------------------------------- run
    def run(self, fname, args, auto=None, setup=None):
        st = State()
        st.auto = self.rule.initial() if auto is None else auto
        if setup:
            setup(self, st)
        f = self.p.fn(fname)
        return self.exec(f, args, st, frozenset())

    def loopmod(self, fn, h):
        key = (fn.name, h)
        m = self._loopmods.get(key)
        if m is not None:
            return m
        classes, regs, allocas = set(), set(), set()
        for b in fn.loops[h]:
            for i in fn.blocks[b]:
                if i.op == 'dbg':
                    continue
                regs.add(i.id)
                if i.op == 'store':
                    c = self.p.cls_of_ptr(fn, i.ops[1])
                    if c:
                        classes.add(c)
                    allocas |= self._alloca_roots(fn, i.ops[1])
                elif i.op == 'call':
                    for t in self.p.targets(i):
                        if t in self.p.defined:
                            classes |= self.p.mod[t]
                            for o in i.ops:
                                allocas |= self._alloca_roots(fn, o)
                        elif t not in READONLY and t not in NOEFF:
                            for k in (WRITES.get(t) or range(len(i.ops))):
                                if k < len(i.ops):
                                    allocas |= self._alloca_roots(fn, i.ops[k])
        m = (frozenset(classes), frozenset(regs), frozenset(allocas))
        self._loopmods[key] = m
        return m

    def _alloca_roots(self, fn, o):
        out, st, seen = set(), [o], set()
        while st:
            x = st.pop()
            if not x or x[0] != 'i' or x[1] in seen:
                continue
            seen.add(x[1])
            i = fn.byid[x[1]]
            if i.op == 'alloca':
                out.add(i.id)
            elif i.op in ('getelementptr', 'bitcast'):
                st.append(i.ops[0])
            elif i.op == 'phi':
                st.extend(y[0] for y in i.ops)
            elif i.op == 'select':
                st.extend(i.ops[1:])
        return out

    def generalise(self, st, fn, h):
        classes, regs, allocas = self.loopmod(fn, h)
        site = ('loop', fn.name, h)
        for c in classes:
            if c.startswith('@'):
                self.killroot(st, ('g', c[1:]), site)
        self.killclasses(st, {c for c in classes if not c.startswith('@')}, site)
        for a in allocas:
            b = ('al', fn.name, a)
            if any(base_of(k[0]) == b for k in st.cells) or b in st.zero or ('root', b) in st.kill:
                self.killroot(st, b, site)

    def exec(self, fn, args, st, outer):
        """returns the exit states [(state, return value)]"""
        self.visited_fns.add(fn.name)
        self.stack.append(fn.name)
        saved = st.regs
        st = st.copy()
        st.regs = {}
        self.rule.on_enter(self, st, fn, args)
        pending = defaultdict(list)   # block -> [(state, pred)]
        pending[0].append((st, None))
        heap = [(0, 0)]
        inheap = {0}
        seen = defaultdict(set)
        exits = []
        while heap:
            _, b = heapq.heappop(heap)
            inheap.discard(b)
            group = pending.pop(b, [])
            ready = []
            for s, pb in group:
                self.phis(s, fn, b, pb, args)
                ready.append(s)
            ready = self.reduce(ready, fn, b, outer, seen[b], args)
            for s in ready:
                for s2, nb in self.block(s, fn, b, args, outer, exits):
                    live = fn.liveout[b]
                    s2.regs = {k: v for k, v in s2.regs.items() if k in live}
                    pending[nb].append((s2, b))
                    if nb not in inheap:
                        inheap.add(nb)
                        heapq.heappush(heap, (fn.rpo[nb], nb))
        self.stack.pop()
        # exit states: drop the frame
        out, dd = [], {}
        al = fn.name
        for s, v in exits:
            v2 = v
            s.regs = {}
            for k in [k for k in s.cells if type(base_of(k[0])) is tuple and base_of(k[0])[:2] == ('al', al)]:
                if not (type(v2) is tuple and base_of(split(v2)[0]) == base_of(k[0])):
                    del s.cells[k]
            for k in [k for k in s.kill if type(k) is tuple and k[0] == 'root' and k[1][:2] == ('al', al)]:
                del s.kill[k]
            if s.zero:
                s.zero = frozenset(z for z in s.zero if not (type(z) is tuple and z[:2] == ('al', al)))
            self.gc(s, outer | leaves(v2))
            key = (s.auto, v2, frozenset(s.cells.items()), frozenset(s.facts.items()), s.zero)
            if key not in dd:
                dd[key] = True
                out.append((s, v2))
        # too many exits: join those with the same automaton state and return class
        groups = defaultdict(list)
        for s, v in out:
            groups[(s.auto, self.rule.apart(s), self.retclass(s, v))].append((s, v))
        res = []
        for g in groups.values():
            if len(g) > self.MAXGROUP:
                for part in self.partition([s for s, v in g]):
                    ids = {id(s) for s in part}
                    sub = [(s, v) for s, v in g if id(s) in ids]
                    res.append(sub[0] if len(sub) == 1 else self.joinret(sub, fn))
            else:
                res.extend(g)
        return res

    def partition(self, g):
        """split states by the memory cells in which they hold different small constants"""
        parts = [g]
        keys = set.intersection(*[set(s.cells) for s in g])
        cand = []
        for k in keys:
            if not (type(base_of(k[0])) is tuple and base_of(k[0])[0] == 'al'):
                continue
            vals = {s.cells[k][0] for s in g}
            if 2 <= len(vals) <= 8 and all(type(v) is int for v in vals):
                cand.append((len(vals), repr(k), k))
        for _, _, k in sorted(cand):
            new = []
            for part in parts:
                d = defaultdict(list)
                for s in part:
                    d[s.cells[k][0]].append(s)
                new.extend(d.values())
            if len(new) > self.MAXGROUP:
                break
            parts = new
        return parts

    def retclass(self, s, v):
        if type(v) is int:
            return v
        if v is None:
            return None
        z = self.truth_zero(s, v)
        if z is True:
            return 0
        lo, hi, ne = self.rng(s, v)
        return ('nz' if z is False else 'u', lo < 0, hi < 0)

    def joinret(self, g, fn):
        # put the value in a pseudo register so that join handles it
        ss = []
        for s, v in g:
            s.regs = {'ret': v}
            ss.append(s)
        j = self.join(ss, fn, 'ret')
        v = j.regs.pop('ret', None)
        return (j, v)

    def phis(self, s, fn, b, pb, args):
        back = b in fn.loops and pb is not None and pb in fn.loops[b]
        plain = back and self.rule.unroll(fn, b)
        news = {}
        for i in fn.blocks[b]:
            if i.op == 'dbg':
                continue
            if i.op != 'phi':
                break
            for o, x in i.ops:
                if x == pb:
                    news[i.id] = self.val(s, o, fn, args)
                    break
        self.loopvals = news       # value each phi of the block gets
        if plain:
            regs = self.loopmod(fn, b)[1]
            for r in [r for r in s.regs if r in regs]:
                del s.regs[r]
            s.regs.update(news)
        elif back:
            self.rule.on_backedge(self, s, fn, b)
            classes, regs, allocas = self.loopmod(fn, b)
            firsts = {}
            # registers of the loop body are redefined in the next iteration
            for r in [r for r in s.regs if r in regs]:
                del s.regs[r]
            # a cell that holds the value a phi gets keeps holding it
            linked = defaultdict(list)
            for rid, v in news.items():
                if type(v) is tuple:
                    linked[rid] = [(k, c) for k, (x, c) in s.cells.items() if x == v and c != '*raw' and not (type(k[0]) is not tuple or leaves(k[0]))]
            self.generalise(s, fn, b)
            self.rule.on_generalised(self, s, fn, b)
            for rid, v in news.items():
                t = ('phi', fn.name, rid)
                inc = fn.byid[rid].ops
                lo = None
                init = [o for o, x in inc if x not in fn.loops[b]]
                step = [o for o, x in inc if x in fn.loops[b]]
                if all(o[0] == 'i' and self.steps_up(fn, fn.byid[o[1]], rid) for o in step):
                    lo = min([self.rng(s, self.val(s, o, fn, args))[0] if self.val(s, o, fn, args) is not None else NEG for o in init] or [NEG])
                    if lo == NEG:
                        lo = None
                same = False
                if len(init) == 1:
                    # unchanged through the loop
                    o = init[0]
                    iv = self.val(s, o, fn, args)
                    same = iv is not None and iv == v
                if same:
                    s.regs[rid] = v
                    continue
                keep = self.rng(s, v) if v is not None else TOP
                self.fresh(s, t)
                width = self.strides(fn, step, rid) if len(init) == 1 else None
                base = self.val(s, init[0], fn, args) if width else None
                if width and base is None and type(v) is tuple:
                    # the register is gone: one step back from the value of the next iteration
                    base = addr(v, -width)
                    if type(base) is tuple and base[0] == '[]' and base[2] == t and base[3] == width:
                        base = base[1]
                if type(base) is tuple:
                    # a pointer that walks over an array: an element at an unknown index
                    s.facts[t] = (0, POS, frozenset())
                    s.regs[rid] = ('[]', base, t, width)
                    continue
                s.regs[rid] = t
                for k, c in linked[rid]:
                    s.cells[k] = (t, c)
                if lo is not None:
                    s.facts[t] = (lo, POS, frozenset())
                kept = self.rule.on_phi(self, s, fn, rid, v, keep)
                if kept is not None:
                    self.addfact(s, t, kept)
        else:
            if b in fn.loops and pb is not None:
                self.rule.on_loopentry(self, s, fn, b)
            for rid, v in news.items():
                s.regs[rid] = v

    def strides(self, fn, step, rid):
        """the pointer advances by this many bytes in each iteration (None: by bytes, or not constantly)"""
        w = set()
        for o in step:
            i = fn.byid[o[1]] if o[0] == 'i' else None
            if i is None or i.op != 'getelementptr' or i.ops[0] != ['i', rid]:
                return None
            st = i.j['steps']
            if len(st) != 1 or st[0][0] != 'x' or st[0][1][0] != 'c' or st[0][1][1] <= 0:
                return None
            w.add(st[0][1][1] * st[0][2])
        return w.pop() if len(w) == 1 and min(w) > 1 else None

    def steps_up(self, fn, i, rid):
        """the value of the next iteration is the phi plus a constant >= 0"""
        if i.op == 'phi' and i.id == rid:
            return True
        return i.op == 'add' and i.ops[0] == ['i', rid] and i.ops[1][0] == 'c' and i.ops[1][1] >= 0

    def live_leaves(self, s, outer):
        l = set(outer)
        for v in s.regs.values():
            if type(v) is tuple:
                l |= leaves(v)
        for (r, o), (v, c) in s.cells.items():
            l |= leaves(v)
            l |= leaves(r)
        return l

    def gc(self, s, outer):
        outer = set(outer) | self.rule.live(s)
        # cells whose object is no longer referenced
        regl = set(outer)
        for v in s.regs.values():
            if type(v) is tuple:
                regl |= leaves(v)
        cell_by_base = defaultdict(list)
        for k in s.cells:
            bb = base_of(k[0])
            if type(bb) is tuple and bb[0] in ('call', 'phi', 'join', 'old', 'any'):
                cell_by_base[bb].append(k)
        if cell_by_base:
            live = set(regl)
            for k, (v, c) in s.cells.items():
                bb = base_of(k[0])
                if bb not in cell_by_base:
                    live |= leaves(v) | leaves(k[0])
            work = [b for b in cell_by_base if b in live]
            done = set(work)
            while work:
                b = work.pop()
                for k in cell_by_base[b]:
                    nl = leaves(s.cells[k][0]) - live
                    live |= nl
                    for x in cell_by_base:
                        if x in live and x not in done:
                            done.add(x)
                            work.append(x)
            for b, ks in cell_by_base.items():
                if b not in done:
                    for k in ks:
                        del s.cells[k]
            s.zero = frozenset(z for z in s.zero if z in live or (type(z) is tuple and z[0] not in ('call', 'phi')))
        live = self.live_leaves(s, outer)
        for t in list(s.facts):
            for x in leaves(t):
                if x in live:
                    continue
                if x[0] == 'ld' and self.current(s, x):
                    continue
                if x[0] == 'al' and x[1] in self.stack:
                    continue
                del s.facts[t]
                break

    def current(self, s, x):
        c, ver = x[3], x[4]
        b = base_of(x[1])
        if type(b) is tuple and b[0] == 'al':
            return s.kill.get(('root', b), 0) == ver
        if type(b) is tuple and b[0] == 'g' and s.kill.get(('root', b), 0):
            return ver == (s.kill.get(c, 0), s.kill.get(('root', b), 0))
        return s.kill.get(c, 0) == ver

    def reduce(self, states, fn, b, outer, seen, args):
        out = []
        merge = len(fn.pred[b]) > 1
        if not merge:
            return states
        groups = defaultdict(list)
        argl = frozenset().union(*[leaves(a) for a in args]) if args else frozenset()
        live = fn.livein[b] | {i.id for i in fn.blocks[b] if i.op == 'phi'}
        for s in states:
            s.regs = {k: v for k, v in s.regs.items() if k in live}
            self.gc(s, outer | argl)
            groups[(s.auto, self.rule.apart(s))].append(s)
        for (auto, _), g in groups.items():
            uniq = {}
            for s in g:
                uniq.setdefault(self.key(s), s)
            g = list(uniq.values())
            if len(g) > self.MAXGROUP or (b in fn.loops and len(g) + sum(1 for k in seen if k[0] == auto) > 3 * self.MAXGROUP):
                if b in fn.loops and len(g) + sum(1 for k in seen if k[0] == auto) > 6 * self.MAXGROUP:
                    g = [self.join(g, fn, b)]
                else:
                    g = [self.join(part, fn, b) for part in self.partition(g)]
            for s in g:
                k = self.key(s)
                if k in seen:
                    continue
                seen.add(k)
                out.append(s)
        self.nstates += len(out)
        return out

    def key(self, s):
        return (s.auto, frozenset(s.cells.items()), frozenset(s.facts.items()), frozenset(s.regs.items()), s.zero,
                frozenset(s.kill.items()))

    def join(self, g, fn, b):
        if len(g) == 1:
            return g[0]
        for s in g:
            pre = ('join', fn.name, b)
            self.forget(s, lambda x: x[:3] == pre)
        j = State()
        first = g[0]
        j.auto = first.auto
        j.trail = first.trail
        j.zero = frozenset.intersection(*[s.zero for s in g])
        pend, vary = [], []

        def hull(vals):
            lo, hi, ne, u = POS, NEG, None, set()
            for s, v in vals:
                r = self.rng(s, v) if v is not None else TOP
                lo, hi = min(lo, r[0]), max(hi, r[1])
                ex = r[2] if not (r[0] > 0 or r[1] < 0) else r[2] | {0}
                ne = ex if ne is None else ne & ex
                if u is not None and r[1] - r[0] < 32:
                    u |= set(range(r[0], r[1] + 1)) - r[2]
                else:
                    u = None
            if u is not None and hi - lo < 64:
                ne = frozenset(range(lo, hi + 1)) - u
            return (lo, hi, ne)
        for k in set().union(*[s.cells for s in g]):
            vs = []
            for s in g:
                c = s.cells.get(k)
                if c is None:
                    vs.append((s, self.load(s, addr(k[0], k[1]), None), None))
                else:
                    vs.append((s, c[0], c[1]))
            cl = next(c for _, _, c in vs if c is not None)
            if all(v == vs[0][1] for _, v, _ in vs):
                j.cells[k] = (vs[0][1], cl)
            else:
                vary.append((('join', fn.name, b, k), tuple(v for _, v, _ in vs), k, cl))
        # places that agree in every joined state keep agreeing: they share one atom
        same = {}
        for t, vs, k, cl in vary:
            same.setdefault(vs if None not in vs else t, []).append(t)
        for t, vs, k, cl in vary:
            a = same[vs if None not in vs else t]
            if len(a) > 1:
                a[:] = [min(a, key=repr)]
            j.cells[k] = (a[0], cl)
            if a[0] == t:
                pend.append((t, hull(list(zip(g, vs)))))
        for k in set.intersection(*[set(s.regs) for s in g]):
            vs = [(s, s.regs[k]) for s in g]
            if all(v == vs[0][1] for _, v in vs):
                j.regs[k] = vs[0][1]
            elif any(v is None for _, v in vs):
                j.regs[k] = ('join', fn.name, b, 'r', k)
            elif tuple(v for _, v in vs) in same:
                j.regs[k] = same[tuple(v for _, v in vs)][0]
            else:
                t = ('join', fn.name, b, 'r', k)
                j.regs[k] = t
                pend.append((t, hull(vs)))
        for k in set().union(*[s.kill for s in g]):
            vs = {s.kill.get(k, 0) for s in g}
            j.kill[k] = vs.pop() if len(vs) == 1 else ('join', fn.name, b)
        for t in set.intersection(*[set(s.facts) for s in g]):
            fs = [(s, t) for s in g]
            if all(s.facts[t] == first.facts[t] for s in g):
                j.facts[t] = first.facts[t]
            else:
                h = hull(fs)
                if h != TOP:
                    j.facts[t] = h
        for t, h in pend:
            if h != (NEG, POS, frozenset()):
                j.facts[t] = h
        return j

    # one basic block; yields (state, successor)
    def block(self, st, fn, b, args, outer, exits):
        work = [(st, 0)]
        out = []
        ins = fn.blocks[b]
        while work:
            s, k = work.pop()
            dead = False
            while k < len(ins):
                i = ins[k]
                k += 1
                if i.op in ('dbg', 'phi'):
                    continue
                self.steps += 1
                if self.stop_hits and len(self.rule.hits) >= self.stop_hits:
                    raise Enough()
                if self.steps > self.budget or (self.deadline and self.steps % 64 == 0 and time.time() > self.deadline):
                    raise BudgetExceeded('analysis budget exceeded in %s (%s)' % (fn.name, type(self.rule).__name__))
                if i.op == 'br':
                    su = i.j['succ']
                    if len(su) == 1:
                        out.append((s, su[0]))
                    else:
                        c = self.val(s, i.ops[0], fn, args)
                        z = self.truth_zero(s, c) if c is not None else None
                        if z is None and c is not None and type(c) is tuple and c[0] == 'cmp':
                            e = self.evalcmp(s, c[1], c[2], c[3])
                            if e is not None:
                                z = not e
                        for truth, nb in ((True, su[0]), (False, su[1])):
                            if z is not None and z == truth:
                                continue
                            s2 = s.copy() if z is None and truth else s
                            if z is None and c is not None:
                                if not self.addfact(s2, c, (1, 1, frozenset()) if truth else (0, 0, frozenset())):
                                    continue
                            if z is None and i.line:
                                s2.note('%s [%s]' % (i.loc, 'true' if truth else 'false'))
                            if c is not None:
                                self.rule.on_branch(self, s2, i, c, truth)
                            out.append((s2, nb))
                    dead = True
                    break
                if i.op == 'switch':
                    c = self.val(s, i.ops[0], fn, args)
                    left = s
                    cases = i.j['cases']
                    feasible = True
                    for v, nb in cases:
                        if c is None:
                            out.append((s.copy(), nb))
                            continue
                        e = self.evalcmp(left, 'eq', c, v)
                        if e is False:
                            continue
                        s2 = left.copy()
                        if self.assume(s2, 'eq', c, v, True):
                            s2.note('%s [case %d]' % (i.loc, v))
                            out.append((s2, nb))
                        if e is True:
                            feasible = False
                            break
                        if not self.assume(left, 'eq', c, v, False):
                            feasible = False
                            break
                    if feasible:
                        out.append((left, i.j['default']))
                    dead = True
                    break
                if i.op == 'ret':
                    v = self.val(s, i.ops[0], fn, args) if i.ops else None
                    # aggregates returned in registers
                    exits.append((s, v))
                    dead = True
                    break
                if i.op == 'unreachable':
                    dead = True
                    break
                if i.op == 'select':
                    c = self.val(s, i.ops[0], fn, args)
                    z = self.truth_zero(s, c) if c is not None else None
                    if z is None and c is not None and type(c) is tuple and c[0] == 'cmp':
                        e = self.evalcmp(s, c[1], c[2], c[3])
                        if e is not None:
                            z = not e
                    if z is None and c is not None:
                        s2 = s.copy()
                        ok2 = self.addfact(s2, c, (0, 0, frozenset()))
                        ok1 = self.addfact(s, c, (1, 1, frozenset()))
                        if ok2:
                            s2.regs[i.id] = self.val(s2, i.ops[2], fn, args)
                            if ok1:
                                work.append((s2, k))
                            else:
                                s = s2
                                continue
                        if ok1:
                            s.regs[i.id] = self.val(s, i.ops[1], fn, args)
                            continue
                        if not ok1 and not ok2:
                            dead = True
                            break
                        continue
                    if c is None:
                        s.regs[i.id] = None
                    else:
                        s.regs[i.id] = self.val(s, i.ops[2 if z else 1], fn, args)
                    continue
                if i.op == 'call':
                    res = self.call(s, i, fn, args, outer)
                    if not res:
                        dead = True
                        break
                    for s2, v in res[1:]:
                        if v is not None or i.ty:
                            s2.regs[i.id] = v
                        work.append((s2, k))
                    s, v = res[0]
                    if v is not None or i.ty:
                        s.regs[i.id] = v
                    continue
                self.simple(s, i, fn, args)
                if s.dead:
                    break
            if not dead and k >= len(ins):
                pass
        return out

    def simple(self, s, i, fn, args):
        op = i.op
        V = lambda n: self.val(s, i.ops[n], fn, args)
        if op == 'alloca':
            t = ('al', fn.name, i.id)
            s.regs[i.id] = t
        elif op == 'load':
            a = V(0)
            cls = self.p.cls_of_ptr(fn, i.ops[0])
            if type(a) is int and self.rule.on_null(self, s, i):
                s.dead = True
                return
            if 'eoff' in i.j:
                s.regs[i.id] = ('agg',) + tuple(self.load(s, addr(a, o), None) if type(a) is tuple else None for o in i.j['eoff'])
            else:
                v = self.load(s, a, cls)
                if v is None:
                    v = self.fresh(s, ('call', '?load', fn.name, i.id))
                s.regs[i.id] = v
                if type(a) is tuple:
                    r = split(a)
                    self.rule.on_load(self, s, i, r, cls or self.cls.get(r), v)
        elif op == 'store':
            v, a = V(0), V(1)
            cls = self.p.cls_of_ptr(fn, i.ops[1])
            if type(a) is int and self.rule.on_null(self, s, i):
                s.dead = True
                return
            site = ('st', fn.name, i.id)
            if 'eoff' in i.j:
                if type(v) is tuple and v[0] == 'agg':
                    for o, x in zip(i.j['eoff'], v[1:]):
                        self.store(s, addr(a, o) if type(a) is tuple else None, None, x, site)
                else:
                    for n, o in enumerate(i.j['eoff']):
                        if type(a) is tuple:
                            self.store(s, addr(a, o), None, ('ev', v, n) if v is not None else self.fresh(s, ('call', '?agg', fn.name, i.id, n)), site)
                return
            if v is None:
                v = self.fresh(s, ('call', '?val', fn.name, i.id))
            if type(a) is tuple:
                r = split(a)
                self.rule.on_store(self, s, i, r, cls or self.cls.get(r), v)
                if s.dead:
                    return
            self.store(s, a, cls, v, site, i)
        elif op == 'getelementptr':
            s.regs[i.id] = self.gep(s, V(0), i.j['steps'], fn, args)
            if s.regs[i.id] is None:
                s.regs[i.id] = self.fresh(s, ('call', '?gep', fn.name, i.id))
        elif op == 'icmp':
            a, b = V(0), V(1)
            pred = i.j['pred']
            e = self.evalcmp(s, pred, a, b)
            if e is not None:
                s.regs[i.id] = int(e)
            elif a is None or b is None:
                s.regs[i.id] = self.fresh(s, ('call', '?cmp', fn.name, i.id))
            else:
                if type(a) is int:
                    a, b, pred = b, a, SWAP[pred]
                s.regs[i.id] = ('cmp', pred, a, b)
        elif op in ('zext', 'sext', 'trunc'):
            v = V(0)
            if v is None:
                s.regs[i.id] = self.fresh(s, ('call', '?cast', fn.name, i.id))
                return
            n = int(i.j['from'][1:]) if i.j['from'].startswith('i') else 64
            m = int(i.ty[1:]) if i.ty.startswith('i') else 64
            if op == 'zext':
                if type(v) is int:
                    v = v & ((1 << n) - 1)
                elif v[0] == 'cmp':
                    pass
                else:
                    r = self.rng(s, v)
                    if not (n >= 32 and r[0] >= 0):
                        v = ('zext', n, v)
            elif op == 'trunc':
                self.rule.on_trunc(self, s, i, v, m)
                if type(v) is int:
                    v = v & ((1 << m) - 1)
                    if v >> (m - 1):
                        v -= 1 << m
                elif m == 1:
                    if v[0] == 'zext' or v[0] == 'cmp':
                        v = v[2] if v[0] == 'zext' else v
                    else:
                        v = ('trunc', 1, v)
                elif v[0] == 'cmp':
                    pass
                elif v[0] == 'zext' and v[1] <= m:
                    if v[1] == m:
                        v = v[2]
                else:
                    r = self.rng(s, v)
                    if not (m >= 16 and r[0] >= -(1 << (m - 1)) and r[1] < (1 << (m - 1))):
                        v = ('trunc', m, v)
            s.regs[i.id] = v
        elif op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast'):
            s.regs[i.id] = V(0)
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            s.regs[i.id] = self.binop(s, op, V(0), V(1), i, fn)
        elif op == 'extractvalue':
            v = V(0)
            n = i.j['idx'][0]
            if type(v) is tuple and v[0] == 'agg' and n + 1 < len(v):
                s.regs[i.id] = v[n + 1]
            else:
                s.regs[i.id] = ('ev', v, n) if v is not None else None
        elif op == 'insertvalue':
            v = V(0)
            n = i.j['idx'][0]
            l = list(v[1:]) if type(v) is tuple and v[0] == 'agg' else [None] * 4
            while len(l) <= n:
                l.append(None)
            l[n] = V(1)
            s.regs[i.id] = ('agg',) + tuple(l)
        elif i.ty:
            s.regs[i.id] = self.fresh(s, ('call', '?' + op, fn.name, i.id))

    def binop(self, s, op, a, b, i, fn):
        if a is None or b is None:
            return self.fresh(s, ('call', '?bin', fn.name, i.id))
        if type(a) is int and type(b) is int:
            try:
                bits = int(i.ty[1:])
                M = (1 << bits) - 1
                ua, ub = a & M, b & M
                r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: ua & ub, 'or': lambda: ua | ub,
                     'xor': lambda: ua ^ ub, 'shl': lambda: ua << (ub & 63), 'lshr': lambda: ua >> (ub & 63), 'ashr': lambda: a >> (ub & 63),
                     'udiv': lambda: ua // ub, 'urem': lambda: ua % ub, 'sdiv': lambda: int(a / b), 'srem': lambda: a - b * int(a / b)}[op]()
                r &= M
                if r >> (bits - 1) and bits > 1:
                    r -= 1 << bits
                return r
            except Exception:
                return self.fresh(s, ('call', '?bin', fn.name, i.id))
        if type(a) is int and op in ('add', 'mul', 'and', 'or', 'xor'):
            a, b = b, a
        if op == 'sub' and type(b) is int:
            op, b = 'add', -b
        if op == 'sub' and a == b:
            return 0
        if type(b) is int:
            if b == 0 and op in ('add', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if b == 0 and op in ('and', 'mul'):
                return 0
            if b == 1 and op in ('mul', 'udiv', 'sdiv'):
                return a
            if op == 'add':
                if a[0] == 'op' and a[1] == 'add' and type(a[3]) is int:
                    c = a[3] + b
                    return ('op', 'add', a[2], c) if c else a[2]
            if op == 'and' and a[0] == 'zext' and b == (1 << a[1]) - 1:
                return a
        if type(a) is int:
            return ('op', op, a, b)
        if op == 'and' and b == 1 and a[0] == 'cmp':
            return a
        if op == 'sub' and a[0] == 'op' and a[1] == 'add' and a[3] == b:
            return a[2]
        if op == 'sub' and a[0] == 'op' and a[1] == 'add' and a[2] == b:
            return a[3]
        if op == 'add' and a[0] == 'op' and a[1] == 'sub' and a[3] == b:
            return a[2]
        return ('op', op, a, b)

    # ---------------------------------------------------------------- calls
    def call(self, s, i, fn, args, outer):
        t = i.target()
        if t and t.startswith(('llvm.dbg', 'llvm.lifetime')):
            return [(s, None)]
        a = [self.val(s, o, fn, args) for o in i.ops]
        names = None
        if t:
            names = [(t, s)]
        else:
            names = self.resolve(s, i, fn, args)
        res = []
        for n, st in names:
            res.extend(self.call1(st, i, n, a, fn, outer, args))
        return res

    def resolve(self, s, i, fn, args):
        v = self.val(s, i.callee, fn, args)
        if type(v) is tuple and v[0] == 'g' and v[1] in self.p.fns:
            return [(v[1], s)]
        # load from an element of a constant table
        if type(v) is tuple and v[0] == 'ld':
            r, off = v[1], v[2]
            if type(r) is tuple and r[0] == '[]' and type(r[1]) is tuple and r[1][0] == 'g':
                g = self.p.globals.get(r[1][1])
                idx, sz = r[2], r[3]
                if g and g.get('init') and (r[1][1] not in self.p.stored or g['const']):
                    n = g['size'] // sz
                    out = []
                    for k in range(n):
                        f = self.const_load(r[1][1], k * sz + off)
                        if type(f) is tuple and f[0] == 'g':
                            s2 = s.copy()
                            if self.assume(s2, 'eq', idx, k, True):
                                s2.note('%s [table %s, slot %d: %s]' % (i.loc, r[1][1], k, f[1]))
                                out.append((f[1], s2))
                    # beyond the table: reported by the rule on dispatch tables, not followed here
                    return self.dedupe(out)
        ts = self.p.targets(i)
        if not ts:
            return [('?indirect', s)]
        return [(t, s.copy()) for t in ts]

    def dedupe(self, out):
        return out

    def call1(self, s, i, name, a, fn, outer, fargs):
        r = self.rule.on_call(self, s, i, name, a)
        if r is not None:
            return r
        site = ('c', fn.name, i.id)
        if name.startswith('llvm.mem') or name in ('memcpy', 'memset', 'memmove'):
            if 'memset' in name or name == 'memset':
                if type(a[0]) is tuple:
                    self.killroot(s, a[0], site)
                    rr, oo = split(a[0])
                    b = base_of(rr)
                    if a[1] == 0 and rr == b and oo == 0 and type(b) is tuple and b[0] == 'al':
                        s.zero = s.zero | {b}
            else:
                n = a[2]
                if type(n) is int and n <= 512:
                    self.copy_struct(s, a[0], a[1], n, site)
                else:
                    self.killfrom(s, a[0], site, n)
            return [(s, a[0])]
        f = self.p.defined.get(name)
        if f is not None and self.follows(name):
            self.followed_calls += 1
            live = set(outer)
            lo = fn.liveout[i.blk] | fn.use[i.blk]
            for k, v in s.regs.items():
                if type(v) is tuple:
                    live |= leaves(v)
            for v in fargs:
                if type(v) is tuple:
                    live |= leaves(v)
            for v in a:
                if type(v) is tuple:
                    live |= leaves(v)
            # byval arguments are copies
            callargs = list(a)
            saved = s.regs
            if i.loc:
                s.note('%s: call %s' % (i.loc, name))
            exits = self.exec(f, callargs, s, frozenset(live))
            out = []
            for s2, v in exits:
                s2.regs = dict(saved)
                rr = self.rule.on_return(self, s2, i, name, a, v)
                if rr is not None:
                    out.extend(rr)
                else:
                    out.append((s2, v))
            return out
        # not followed
        if f is not None:
            self.opaque_calls[name] += 1
            gl, cl = self.modsplit(name)
            for c in gl:
                self.killroot(s, ('g', c), site)
            self.killclasses(s, cl, site)
            for v in a if name not in self.p.logfns else ():
                if type(v) is tuple and type(base_of(split(v)[0])) is tuple and base_of(split(v)[0])[0] == 'al':
                    self.killroot(s, v, site)
            return [(s, self.fresh(s, ('call', name, fn.name, i.id)) if i.ty else None)]
        if name in ('exit', 'abort', '_exit', '__assert_fail'):
            return []
        if name not in READONLY:
            for k in WRITES.get(name, range(len(a))):
                if k < len(a) and type(a[k]) is tuple:
                    self.killfrom(s, a[k], site)
        v = None
        if i.ty:
            v = self.fresh(s, ('call', name, fn.name, i.id))
            if name == 'calloc':
                s.zero = s.zero | {v}
            if name in ('strcpy', 'strncpy'):
                v = a[0]
        return [(s, v)]


NOEFF = {'llvm.dbg.declare', 'llvm.dbg.value'}
