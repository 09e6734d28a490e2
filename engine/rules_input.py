"""What clients send: names, lengths, the request parser, fixed-size buffers."""
import re
import lib
import sim
from lib import commands, replies, strval, lin, ladd, lrange
from registry import prop
from rules_lookup import strip

LEN = 'resp_object_t.length'


def has(v, cls):
    """the value depends on a load of the field class"""
    if type(v) is not tuple:
        return False
    if v[0] == 'ld' and v[3] == cls:
        return True
    return any(has(x, cls) for x in v[1:] if type(x) is tuple)


MAXARG = 8 * 1024 * 1024     # the longest argument the parser lets through (decided by P14)


def argindex(key):
    """which element of an argument vector an access path of a resp_object_t goes through: a number, a term, or None"""
    r = key[0]
    if type(r) is tuple and r[0] == 'ld':
        b, o = r[1], r[2]
        if type(b) is tuple and b[0] == '[]' and b[3] == 8:
            return b[2]
        if type(o) is int and o % 8 == 0:
            return o // 8
    return None


class Args(sim.Rule):
    """request arguments have stable lengths in [0, MAXARG]; assume: index -> interval of its length; others: interval of all of index >= 1"""
    events = ()

    def __init__(self, p, assume=None, others=None):
        self.p = p
        self.rep = replies(p).fns
        self.opaque = tuple(self.rep)
        self.hits = []
        self.seen = set()
        self.n = 0
        self.assumed = assume or {}
        self.others = others
        self.force = {LEN: self.length}

    def initial(self):
        return 0

    def length(self, S, st, key):
        k = argindex(key)
        iv = (0, MAXARG)
        if type(k) is int:
            t = ('arg', 'length of argument %d' % k)
            if k in self.assumed:
                iv = self.assumed[k]
            elif self.others and k > 0:
                iv = self.others
        else:
            ver = st.kill.get(LEN, 0)
            t = ('ld', key[0], key[1], LEN, ver)
            if self.others:
                iv = self.others
        S.addfact(st, t, (iv[0], iv[1], frozenset()))
        return t

    def islen(self, v):
        if type(v) is not tuple:
            return False
        if v[0] == 'arg' and str(v[1]).startswith('length of'):
            return True
        if v[0] == 'ld' and v[3] == LEN:
            return True
        return any(self.islen(x) for x in v[1:] if type(x) is tuple)

    def on_call(self, S, st, ins, name, args):
        if name in self.rep:
            return [(st, 0)]
        return None

    def hit(self, st, ins, key, what):
        k = (ins.fn.name, ins.id, key)
        if k not in self.seen:
            self.seen.add(k)
            self.hits.append((key, what, ins.loc, st.path()))


def truncating(p):
    return tuple(n for n, f in p.defined.items() if any(i.op == 'trunc' and i.ty in ('i8', 'i16') and i.j['from'] != 'i1' for i in f.ins()))


class Narrow(Args):
    follow_small = 150

    def __init__(self, p, assume=None, others=None):
        Args.__init__(self, p, assume, others)
        self.follow = truncating(p)

    def on_trunc(self, S, st, ins, v, bits):
        if bits in (8, 16) and self.islen(v):
            self.n += 1
            lo, hi, _ = S.rng(st, v)
            if self.assumed or self.others:
                broken = lo >= (1 << bits)
            else:
                broken = hi >= (1 << bits) or lo < 0
            if broken:
                self.hit(st, ins, 'narrow', 'an argument length up to %s is narrowed to %d bits' % (hi, bits))


@prop('P13', 'Property simulation of every command handler and of the library api: wherever the length of a client supplied argument is narrowed to the 8 or 16 bits of a stored field, '
      'the interval of that length established by the checks on that path must fit. A narrowing inside a loop over the arguments is reported when it is reached with all arguments too long '
      'or with the first one too long.')
def p13(ctx):
    p = ctx.prog()
    seen = set()
    tot = 0
    for name, h in commands(p):
        if h in seen:
            continue
        seen.add(h)
        r, ex = ctx.refine(p, lambda: Narrow(p), h)
        tot += r.n
        n = r.n
        if r.hits:
            # arguments checked in one loop and used in another
            for kw in (dict(others=(256, MAXARG)), dict(assume={1: (256, MAXARG)}), dict(assume={2: (256, MAXARG)})):
                r, ex = ctx.refine(p, lambda: Narrow(p, **kw), h)
                if r.hits:
                    break
        for key, what, loc, path in r.hits[:2]:
            ctx.bad('narrow:%s' % name, loc, 'command %s: %s' % (name, what), path)
        if not r.hits:
            ctx.ok('narrow:%s' % name, 'command %s: %d narrowings of an argument length, all in range' % (name, n), p.defined[h].loc)
    ctx.need(tot, 8, 'narrowings of argument lengths')
    n = 0
    for name, f in sorted(p.defined.items()):
        if not name.startswith('zdb_api_') or not f.loc.startswith('libzdb/'):
            continue
        dp = f.j.get('diparams') or []
        args = [('arg', 'length of parameter %d' % k) if t == 'size_t' or 'unsigned long' in t else ('arg', 'parameter %d' % k) for k, t in enumerate(dp)]
        if not any(str(a[1]).startswith('length') for a in args):
            continue
        n += 1
        r, ex = ctx.refine(p, lambda: Narrow(p), f.name, args=args, setup=lambda S, st: [S.addfact(st, a, (0, MAXARG, frozenset())) for a in args if str(a[1]).startswith('length')])
        for key, what, loc, path in r.hits[:1]:
            ctx.bad('narrow:%s' % name, loc, 'library call %s: %s' % (name, what), path)
        if not r.hits:
            ctx.ok('narrow:%s' % name, 'library call %s: %d narrowings of a key length, all in range' % (name, r.n), f.loc)
    ctx.need(n, 5, 'library calls with a key')


# ------------------------------------------------------------------ bounds
FMT = re.compile(r'%([-+ 0#]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L)?([diouxXcspfeg%])')
COPY = {'memcpy': (0, 1, 2), 'memmove': (0, 1, 2), 'strncpy': (0, 1, 2), 'strndup': (None, 0, 1), 'memcmp': (None, 0, 2), 'bcmp': (None, 0, 2), 'memset': (0, None, 2), 'strcpy': (0, 1, None),
        'strcat': (0, 1, None), 'read': (1, None, 2), 'recv': (1, None, 2), 'pread': (1, None, 2), 'strncat': (0, 1, 2)}
UNTIL0 = {'strlen': (0,), 'strcmp': (0, 1), 'strcasecmp': (0, 1), 'atoi': (0,), 'atol': (0,), 'atoll': (0,), 'strtoul': (0,), 'strtoull': (0,), 'strtol': (0,), 'strdup': (0,), 'strcpy': (1,), 'strcat': (1,),
          'strchr': (0,), 'strrchr': (0,), 'puts': (0,)}


class Bounds(Args):
    """requests: element k of the argument vector is used only when k < argc; bytes beyond the length of an argument are not read;
    what is copied or printed into a local buffer or a block allocated on the path fits"""
    follow_small = 60

    def __init__(self, p, assume=None, others=None):
        Args.__init__(self, p, assume, others)
        self.force = dict(self.force)
        self.force['resp_request_t.argc'] = self.argc
        self.undecided = set()
        self.decided = set()
        self.argfns = argument_users(p)
        self.follow = self.argfns

    def initial(self):
        return ()

    def argc(self, S, st, key):
        t = ('arg', 'argc')
        S.addfact(st, t, (1, 1024, frozenset()))
        return t

    # -------------------------------------------------- argument vector
    def on_load(self, S, st, ins, key, cls, val):
        r, o = key
        k = None
        if type(r) is tuple and r[0] == 'ld' and r[3] == 'resp_request_t.argv':
            k = o // 8
        elif type(r) is tuple and r[0] == '[]' and r[3] == 8 and type(r[1]) is tuple and r[1][0] == 'ld' and r[1][3] == 'resp_request_t.argv':
            k = r[2]
        if k is None:
            return
        self.n += 1
        t = self.argc(S, st, None)
        self.decided.add((ins.fn.name, ins.id))
        if type(k) is int:
            if k < 0 or S.rng(st, t)[0] <= k:
                self.hit(st, ins, 'argument', 'argument %d is used when only %d were sent' % (k, max(S.rng(st, t)[0], 0)))
            return
        lo = lrange(S, st, lin(S, st, k))[0]
        below = S.evalcmp(st, 'slt', k, t) is True or lrange(S, st, ladd((1, lin(S, st, t)), (-1, lin(S, st, k))))[0] > 0
        if lo < 0 or not below:
            self.hit(st, ins, 'argument', 'an argument is used whose index is not known to be below the number of arguments')

    def argument(self, v):
        """(access path of the argument object, offset) when v points into the bytes of a request argument"""
        o = 0
        if type(v) is tuple and v[0] == '+':
            v, o = v[1], v[2]
        if type(v) is tuple and v[0] == 'ld' and v[3] == 'resp_object_t.buffer':
            return v, o
        return None

    def left(self, S, st, v):
        """bytes of the argument after the pointer"""
        a = self.argument(v)
        if not a:
            return None
        v, o = a
        off = S.p.field('resp_object_t', 'length')['off'] - S.p.field('resp_object_t', 'buffer')['off']
        n = S.load(st, sim.addr(sim.addr(v[1], v[2]), off), LEN)
        return ladd((1, lin(S, st, n)), (-1, (o, {})))

    # -------------------------------------------------- destinations
    def room(self, S, st, v):
        """bytes from v to the end of the object it points into, None when the object is not a local one"""
        if type(v) is not tuple:
            return None
        b = sim.base_of(sim.split(v)[0])
        size = None
        if type(b) is tuple and b[0] == 'al':
            i = S.p.fns[b[1]].byid[b[2]]
            n = S.tysize(i.j['aty'])
            size = (n, {}) if n else None
        elif type(b) is tuple and b[0] == 'call':
            for a, n in st.auto:
                if a == b:
                    size = lin(S, st, n)
        if size is None:
            return None
        off = lin(S, st, v)
        off = ladd((1, off), (-1, (0, {b: 1})))
        if off is None or b in off[1]:
            return None
        return ladd((1, size), (-1, off))

    def fits(self, S, st, ins, dst, n, what):
        """n: linear form of the number of bytes written at dst"""
        r = self.room(S, st, dst)
        if r is None:
            return
        key = (ins.fn.name, ins.id)
        if n is None:
            self.undecided.add(key)
            return
        lo, hi = lrange(S, st, ladd((1, r), (-1, n)))
        looped = any(type(x) is tuple and S.rng(st, x)[1] == sim.POS or S.rng(st, x)[0] == sim.NEG for x in list(r[1]) + list(n[1]))
        looped |= any(type(x) is tuple and x[0] == 'zext' and type(x[2]) is tuple and x[2][0] == 'op' for x in r[1])
        if lo >= 0:
            self.decided.add(key)
        elif any(self.islen(x) for x in n[1]) or not looped:
            self.hit(st, ins, 'overflow', '%s writes up to %d bytes beyond the end of the buffer' % (what, -lo) if lo > sim.NEG else '%s is not bounded by the size of the buffer' % what)
        else:
            self.undecided.add(key)

    def on_call(self, S, st, ins, name, args):
        if name in self.rep:
            return [(st, 0)]
        if name in ('malloc', 'calloc') and args[0] is not None:
            n = args[0] if name == 'malloc' else S.binop(st, 'mul', args[0], args[1], ins, ins.fn)
            out = S.fresh(st, ('call', name, ins.fn.name, ins.id))
            st.auto = tuple(x for x in st.auto if x[0] != out)[-3:] + ((out, n),)
            if name == 'calloc':
                st.zero = st.zero | {out}
            return [(st, out)]
        if name in ('sprintf', 'snprintf'):
            return self.printf(S, st, ins, name, args)
        base = name
        if name.startswith('llvm.mem'):
            base = name.split('.')[1]
        for k in UNTIL0.get(base, ()):
            if k < len(args) and self.argument(args[k]):
                self.decided.add((ins.fn.name, ins.id))
                self.hit(st, ins, 'unterminated', '%s reads an argument which is not terminated' % base)
        if base in COPY:
            d, s, n = COPY[base]
            ln = lin(S, st, args[n]) if n is not None else None
            if base in ('strcpy', 'strcat'):
                ln = self.strsize(S, st, args[s])
                ln = ladd((1, ln), (1, (1, {})))
            for k in ((0, 1) if base in ('memcmp', 'bcmp') else (s,)):
                if k is None:
                    continue
                left = self.left(S, st, args[k])
                if left is None or ln is None:
                    continue
                if base == 'strncpy' and False:
                    continue
                lo, hi = lrange(S, st, ladd((1, left), (-1, ln)))
                self.decided.add((ins.fn.name, ins.id))
                self.n += 1
                if lo < 0 and not self.asleft(S, st, left, args[n]):
                    self.hit(st, ins, 'overread', '%s reads beyond the end of the argument' % base)
            if d is not None and ln is not None:
                self.fits(S, st, ins, args[d], ln, base)
        return None

    def strsize(self, S, st, v):
        """linear form bounding the length of the string at v"""
        c = strval(S, v)
        if c is not None:
            return (len(c), {})
        r = self.room(S, st, v)
        if r is not None and not r[1]:
            return (max(r[0] - 1, 0), {})
        if type(v) is tuple and v[0] == 'ld' and v[3] == 'namespace_t.name':
            return (255, {})
        return None

    def asleft(self, S, st, left, n):
        """the length was found equal to the one of the argument (it may have been narrowed, never widened with its sign)"""
        if left[0] < 0 or list(left[1].values()) != [1] or n is None or 'sext' in repr(n):
            return False
        x, y = strip(list(left[1])[0]), strip(n)
        return any(k[0] == 'cmp' and k[1] == 'eq' and lo == hi == 1 and {strip(k[2]), strip(k[3])} == {x, y} for k, (lo, hi, _) in st.facts.items())

    def printf(self, S, st, ins, name, args):
        fi = 1 if name == 'sprintf' else 2
        fmt = strval(S, args[fi])
        tot = (0, {})
        least = 0
        if fmt is None:
            tot = None
        else:
            k = fi + 1
            lit = FMT.sub('', fmt)
            tot = (len(lit), {})
            least = len(lit)
            for m in FMT.finditer(fmt):
                conv = m.group(5)
                if conv == '%':
                    tot = ladd((1, tot), (1, (1, {})))
                    least += 1
                    continue
                width = 0
                prec = None
                if m.group(2) == '*':
                    k += 1
                    width = None
                elif m.group(2):
                    width = int(m.group(2))
                if m.group(3) == '*':
                    prec = lin(S, st, args[k]) if k < len(args) else None
                    k += 1
                elif m.group(3):
                    prec = (int(m.group(3)), {})
                v = args[k] if k < len(args) else None
                k += 1
                n = None
                if conv == 's':
                    n = self.strsize(S, st, v)
                    if prec is not None:
                        n = prec
                    left = self.left(S, st, v)
                    if left is not None:
                        self.n += 1
                        self.decided.add((ins.fn.name, ins.id))
                        if prec is None:
                            self.hit(st, ins, 'unterminated', 'an argument which is not terminated is printed')
                        elif lrange(S, st, ladd((1, left), (-1, prec)))[0] < 0:
                            self.hit(st, ins, 'overread', 'more bytes than the argument has are printed')
                elif conv == 'c':
                    n = (1, {})
                elif conv in 'diuoxXp':
                    big = m.group(4) in ('l', 'll', 'z', 'j', 't')
                    n = (20 if big else 11 if conv in 'di' else 10, {})
                    if conv in 'xXop':
                        n = (24 if conv == 'o' else 16 if big else 8, {})
                    if v is not None:
                        lo, hi = lrange(S, st, lin(S, st, v)) if conv in 'diu' else (sim.NEG, sim.POS)
                        if lo >= 0 and hi < sim.POS:
                            n = (len(str(hi)), {})
                            least += len(str(lo)) - 1
                    least += 1
                    if '+' in m.group(1) or '#' in m.group(1):
                        n = (n[0] + 2, {})
                else:
                    n = (330, {}) if False else None
                if n is not None and width:
                    n = (max(n[0], width), n[1]) if not n[1] else ladd((1, n), (1, (width, {})))
                if width is None:
                    n = None
                tot = ladd((1, tot), (1, n))
        if name == 'sprintf':
            self.fits(S, st, ins, args[0], ladd((1, tot), (1, (1, {}))), 'sprintf')
        else:
            self.fits(S, st, ins, args[0], lin(S, st, args[1]), 'snprintf')
        S.killroot(st, args[0], ('c', ins.fn.name, ins.id))
        t = lib.fresh(S, st, ins, name)
        hi = sim.POS
        if tot is not None:
            hi = lrange(S, st, tot)[1]
        S.addfact(st, t, (least, hi, frozenset()))
        return [(st, t)]


def argument_users(p):
    """functions that load a member of a request or of an argument object"""
    return lib.loaders(p, ('resp_request_t.', 'resp_object_t.'))


@prop('P15', 'Property simulation of every command handler with argument count and lengths as symbolic intervals: each access to an element of the argument vector must be below the argument '
      'count established on the path, each copy or compare of argument bytes within the length of the argument, and each copy or print into a local buffer or a block allocated by the command '
      'within its size, by linear arithmetic over the intervals of the path.')
def p15(ctx):
    p = ctx.prog()
    seen = set()
    und = set()
    for name, h in commands(p):
        if h in seen:
            continue
        seen.add(h)
        r, ex = ctx.refine(p, lambda: Bounds(p), h)
        for key, what, loc, path in r.hits[:3]:
            ctx.bad('%s:%s' % (key, name), loc, 'command %s: %s' % (name, what), path)
        if not r.hits:
            ctx.ok('bounds:' + name, 'command %s: %d uses of arguments or buffers in bounds' % (name, len(r.decided)), p.defined[h].loc)
        ctx.stats['uses of arguments and buffers decided'] += len(r.decided)
        und |= r.undecided - r.decided
    ctx.stats['writes whose position depends on a loop or an unbounded string (not decided)'] += len(und)
