"""The request parser: stays in its buffers, consumes each received byte once."""
import lib
import sim
from lib import commands, replies, lin, ladd, lrange
from linear import known, prove, equal
from registry import prop
import rules_conn

B = ('arg', 'buffer')
R, A = ('arg', 'consumed'), ('arg', 'unconsumed')
REQ, ARGV, ARG, ARGBUF = ('arg', 'request'), ('arg', 'argv'), ('arg', 'argument'), ('arg', 'argument buffer')
N, F, L, K = ('arg', 'argc'), ('arg', 'fillin'), ('arg', 'length'), ('arg', 'filled')
PL = 1 << 23
BUF, RQ, OB = 'buffer_t.', 'resp_request_t.', 'resp_object_t.'

KEYS = tuple(RQ + x for x in ('state', 'fillin', 'argc', 'argv')) + tuple(OB + x for x in ('length', 'filled', 'size', 'buffer'))

LEVELS = (20, 60)


def fz(l):
    return None if l is None else (l[0], tuple(sorted(l[1].items(), key=repr)))


def th(t):
    return None if t is None else (t[0], dict(t[1]))


class Parse(sim.Rule):
    """auto: (terminator position, unconsumed bytes, position of the first unconsumed byte, bytes of the argument stored, end of line found,
    blocks ((term, size)...), over)"""
    follow_small = 400

    def __init__(self, p, state, cap, alloc, states, execs):
        self.p = p
        self.state0, self.cap, self.alloc = state, cap, alloc
        self.EMPTY, self.HEADER, self.PAYLOAD = states
        self.rep = replies(p).fns
        self.disp = set(rules_conn.dispatchers(p))
        small = set()
        self.opaque = tuple(self.rep) + tuple(self.disp) + tuple(n for n, f in p.defined.items() if 'redis_client_t*' in (f.j.get('diparams') or [''])[0] and n not in self.disp and
                                                                 not any(c.startswith((BUF, RQ)) for c in p.mod[n]) and not any(c in p.callees[n] for c in ('memchr', 'memcpy')) and
                                                                 self.rep & rules_conn.below(p, n) and not self.disp & rules_conn.below(p, n) and len(f.j.get('diparams')) == 1)
        self.events = tuple(self.rep) + tuple(self.disp) + ('recv', 'memchr', 'memcpy', 'memmove', 'malloc', 'calloc', 'atoi', 'free')
        self.classes = tuple(BUF + x for x in ('reader', 'writer', 'remain', 'buffer')) + tuple(RQ + x for x in ('state', 'fillin', 'argc', 'argv')) + tuple(OB + x for x in ('length', 'filled', 'size', 'buffer'))
        self.hits = []
        self.acc = set()
        self.heads = set()
        self.force = {'redis_client_t.request': lambda S, st, k: self.nn(S, st, REQ),
                      BUF + 'buffer': lambda S, st, k: self.nn(S, st, B), BUF + 'reader': ('[]', B, R, 1), BUF + 'writer': ('[]', ('[]', B, R, 1), A, 1),
                      BUF + 'remain': ('op', 'sub', ('op', 'sub', self.cap, R), A),
                      RQ + 'state': state, RQ + 'fillin': F, RQ + 'argc': N, RQ + 'argv': ARGV if state != self.EMPTY else 0,
                      OB + 'length': self.olen, OB + 'size': self.osize, OB + 'filled': self.ofill, OB + 'buffer': self.obuf, '*raw': self.raw}
        if state == self.EMPTY:
            self.force[RQ + 'argc'] = 0
            self.force[RQ + 'fillin'] = ('arg', 'stale fillin')

    # ------------------------------------------------------------ entry values
    def nn(self, S, st, t):
        S.addfact(st, t, (1, sim.POS, frozenset([0])))
        return t

    def facts(self, S, st, state):
        S.addfact(st, R, (0, self.cap, frozenset()))
        S.addfact(st, A, (0, self.cap, frozenset()))
        st.facts[('cmp', 'sle', ('op', 'add', R, A), self.cap)] = (1, 1, frozenset())
        self.nn(S, st, B)
        self.nn(S, st, REQ)
        if state != self.EMPTY:
            S.addfact(st, N, (1, 1 << 20, frozenset()))
            S.addfact(st, F, (0, 1 << 20, frozenset()))
            S.assume(st, 'slt', F, N, True)
            self.nn(S, st, ARGV)
        if state == self.PAYLOAD:
            S.addfact(st, L, (0, PL, frozenset()))
            S.addfact(st, K, (0, PL + 1, frozenset()))
            st.facts[('cmp', 'slt', K, ('op', 'add', L, 2))] = (1, 1, frozenset())
            self.nn(S, st, ARGBUF)

    def blocks(self, state):
        b = [(B, (self.alloc, {}))]
        if state != self.EMPTY:
            b.append((ARGV, (0, {N: 8})))
        if state == self.PAYLOAD:
            b.append((ARGBUF, (2, {L: 1})))
        return tuple((t, fz(s)) for t, s in b)

    def canon(self, state, t=None):
        return (fz(t) if t else None, fz((0, {A: 1})), fz((0, {B: 1, R: 1})), fz((0, {K: 1})) if state == self.PAYLOAD else None, None, self.blocks(state), False)

    def initial(self):
        return self.canon(self.state0)

    def setup(self, S, st):
        self.facts(S, st, self.state0)

    def other(self, o):
        return o == ARG or type(o) is tuple and o[0] == 'arg' and str(o[1]).startswith('argument@')

    def raw(self, S, st, key):
        r, o = key
        a = lin(S, st, sim.addr(r, o))
        if a and a[1].get(ARGV) == 1:
            # another argument of the list, complete
            d = dict(a[1])
            del d[ARGV]
            if (a[0], d) == (0, {F: 8}):
                return self.nn(S, st, ARG)
            t = ('arg', 'argument@%d%s' % (a[0], sorted(map(repr, d))))
            return self.nn(S, st, t)
        return None

    def olen(self, S, st, key):
        o = key[0]
        if o == ARG:
            return L
        if self.other(o):
            t = ('arg', 'length of ' + o[1])
            S.addfact(st, t, (0, PL, frozenset()))
            return t
        return None

    def osize(self, S, st, key):
        o = key[0]
        if self.other(o):
            return ('op', 'add', self.olen(S, st, key), 2)
        return None

    def ofill(self, S, st, key):
        o = key[0]
        return K if o == ARG else None

    def obuf(self, S, st, key):
        o = key[0]
        if o == ARG:
            return self.nn(S, st, ARGBUF)
        if self.other(o):
            t = self.nn(S, st, ('arg', 'buffer of ' + o[1]))
            if not any(b == t for b, s in st.auto[5]):
                self.set(st, blocks=st.auto[5] + ((t, fz((2, {self.olen(S, st, key): 1}))),))
            return t
        return None

    # ------------------------------------------------------------ helpers
    def set(self, st, **kw):
        n = ('T', 'E', 'Q', 'P', 'M', 'blocks', 'over')
        st.auto = tuple(kw.get(x, v) for x, v in zip(n, st.auto))

    def live(self, st):
        out = set()
        a = st.auto
        for t in a[:5]:
            if t is not None:
                for x, k in t[1]:
                    out |= sim.leaves(x)
        for b, s in a[5]:
            out |= sim.leaves(b)
            for x, k in s[1]:
                out |= sim.leaves(x)
        return frozenset(out)

    def apart(self, st):
        return frozenset((k, v) for k, (v, c) in st.cells.items() if str(c).startswith(BUF) or c in KEYS)

    def hit(self, st, ins, key, what):
        loc = ins if isinstance(ins, str) else ins.loc
        self.hits.append((key, what, loc, st.path()))

    def inside(self, S, st, ins, a, n, what):
        """the n bytes (linear form) at address a are inside the block a points into"""
        l = lin(S, st, a)
        if l is None:
            return
        for b, s in st.auto[5]:
            if l[1].get(b) == 1:
                d = dict(l[1])
                del d[b]
                off = (l[0], d)
                self.acc.add((ins.fn.name, ins.id))
                E = []
                room = ladd((1, th(s)), (-1, off), (-1, n))
                if prove(S, st, off, E) and prove(S, st, room, E):
                    return
                E = known(S, st)
                if not prove(S, st, off, E):
                    self.hit(st, ins, 'before', '%s before the start of %s' % (what, self.name(b)))
                elif not prove(S, st, room, E):
                    self.hit(st, ins, 'beyond', '%s beyond the end of %s' % (what, self.name(b)))
                return
        b = sim.base_of(sim.split(a)[0]) if type(a) is tuple else None
        if type(b) is tuple and b[0] == 'al' and l[1].get(b, 0) in (0, 1):
            sz = self.p.fns[b[1]].byid[b[2]].j.get('aty')
            sz = S.tysize(sz) if sz else None
            d = dict(l[1])
            if sz is None or d.pop(b, None) is None:
                return
            self.acc.add((ins.fn.name, ins.id))
            if not (prove(S, st, (l[0], d)) and prove(S, st, ladd((1, (sz, {})), (-1, (l[0], d)), (-1, n)))):
                self.hit(st, ins, 'local', '%s beyond a local buffer' % what)

    @staticmethod
    def name(b):
        return {B: 'the receive buffer', ARGV: 'the list of arguments', ARGBUF: 'the memory of an argument'}.get(b, 'the memory of an argument' if b[0] == 'arg' else 'the block allocated for it')

    # ------------------------------------------------------------ events
    def on_gep(self, S, st, ins, base, idx, size):
        return None

    def on_load(self, S, st, ins, key, cls, val):
        if type(val) is tuple and cls in (None, '*raw') and type(key[0]) is tuple and repr(key[0]).find("'redis_clients_t.list'") >= 0:
            self.nn(S, st, val)
        if cls in (None, '*raw') and type(key[0]) is tuple:
            self.inside(S, st, ins, sim.addr(*key), (ins.sz or 1, {}), 'a read')

    def on_store(self, S, st, ins, key, cls, val):
        a = sim.addr(*key)
        if cls in (None, '*raw') and type(key[0]) is tuple:
            n = ins.sz or (8 if type(val) is tuple and val[0] == 'call' else 1)
            n = {'i8': 1, 'i16': 2, 'i32': 4, 'ptr': 8, 'i64': 8}.get(ins.j.get('vty') or '', n)
            self.inside(S, st, ins, a, (n, {}), 'a write')
            l = lin(S, st, a)
            if l and l[1].get(B) == 1:
                self.set(st, T=fz(l) if val == 0 else None)
        if cls == BUF + 'reader':
            v = lin(S, st, val)
            m = st.auto[4]
            if m is not None and v is not None and equal(S, st, v, th(m)):
                used = ladd((1, v), (-1, th(st.auto[2])))
                self.set(st, Q=fz(v), E=fz(ladd((1, th(st.auto[1])), (-1, used))), M=None)
        if cls == RQ + 'state' and val == self.PAYLOAD and st.auto[3] is None:
            self.set(st, P=fz((0, {})))      # a new argument: nothing of it was received yet
        if cls == RQ + 'fillin' and val != 0 and st.auto[3] is not None:
            o = self.argument(S, st)
            size = lin(S, st, S.load(st, sim.addr(o, self.p.field('resp_object_t', 'size')['off']), OB + 'size')) if o is not None else None
            if size is None or not equal(S, st, th(st.auto[3]), size):
                self.hit(st, ins, 'incomplete', 'an argument is taken as complete before all its bytes were received')
            self.set(st, P=None)

    def argument(self, S, st):
        """the object of the argument that is filled"""
        rq = REQ
        fi = self.p.field('resp_request_t', 'fillin')['off']
        av = self.p.field('resp_request_t', 'argv')['off']
        argv, f = S.load(st, sim.addr(rq, av), RQ + 'argv'), S.load(st, sim.addr(rq, fi), RQ + 'fillin')
        if type(argv) is not tuple:
            return None
        a = sim.addr(argv, f * 8) if type(f) is int else ('[]', argv, f, 8)
        return S.load(st, a, None)

    def consume(self, S, st, ins, src, n):
        if not equal(S, st, lin(S, st, src), th(st.auto[2])):
            self.hit(st, ins, 'position', 'the bytes taken as payload are not the next ones received')
        elif not prove(S, st, ladd((1, th(st.auto[1])), (-1, n))):
            self.hit(st, ins, 'more', 'more bytes are taken than were received')
        self.set(st, Q=fz(ladd((1, th(st.auto[2])), (1, n))), E=fz(ladd((1, th(st.auto[1])), (-1, n))))

    def on_call(self, S, st, ins, name, args):
        if name in self.rep:
            self.set(st, over=True)
            return [(st, 0)]
        if name in self.disp:
            argc, fi = lin(S, st, self.cell(S, st, RQ + 'argc')), lin(S, st, self.cell(S, st, RQ + 'fillin'))
            if st.auto[3] is not None or not prove(S, st, ladd((1, fi), (-1, argc))):
                self.hit(st, ins, 'early', 'a request is executed before all its arguments were received')
            return None
        if name in self.opaque:
            return None
        if name.startswith('llvm.memcpy'):
            name = 'memcpy'
        if name.startswith('llvm.memmove'):
            name = 'memmove'
        if name in ('recv', 'recvfrom', 'read'):
            n = lin(S, st, args[2])
            self.inside(S, st, ins, args[1], n, 'data is received')
            p = lin(S, st, args[1])
            E, Q = th(st.auto[1]), th(st.auto[2])
            if prove(S, st, (-E[0], {x: -k for x, k in E[1].items()})):
                self.set(st, Q=fz(p), E=fz((0, {})))      # nothing unconsumed
            elif not equal(S, st, p, ladd((1, Q), (1, E))):
                self.hit(st, ins, 'gap', 'the data received is not placed right after the data not consumed yet')
            s = st.copy()
            s.note('%s: nothing more to receive' % ins.loc)
            s2 = st.copy()
            self.set(s2, over=True)
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (1, self.alloc + 1, frozenset()))
            S.assume(st, 'sle', t, args[2], True)
            self.set(st, T=None, E=fz(ladd((1, th(st.auto[1])), (1, (0, {t: 1})))))
            return [(st, t), (s, -1), (s2, 0)]
        if name == 'memchr':
            n = lin(S, st, args[2])
            self.inside(S, st, ins, args[0], n, 'a search')
            self.set(st, M=None)
            s = st.copy()
            k = lib.fresh(S, st, ins, name)
            S.addfact(st, k, (0, 1 << 31, frozenset()))
            if not S.assume(st, 'slt', k, args[2], True) or not S.addfact(st, args[2], (1, sim.POS, frozenset())):
                return [(s, 0)]
            v = ('[]', args[0], k, 1)
            lv = lin(S, st, v)
            if equal(S, st, lin(S, st, args[0]), th(st.auto[2])):
                self.set(st, M=fz((lv[0] + 1, lv[1])))
            return [(st, v), (s, 0)]
        if name in ('memcpy', 'memmove'):
            n = lin(S, st, args[2])
            self.inside(S, st, ins, args[0], n, 'a copy writes')
            self.inside(S, st, ins, args[1], n, 'a copy reads')
            src, dst = lin(S, st, args[1]), lin(S, st, args[0])
            if src and src[1].get(B) == 1:
                if dst and dst[1].get(B) == 1:
                    E = th(st.auto[1])
                    if prove(S, st, (-E[0], {x: -k for x, k in E[1].items()})):
                        pass                    # everything was consumed
                    elif not equal(S, st, src, th(st.auto[2])) or not prove(S, st, ladd((1, n), (-1, E))):
                        self.hit(st, ins, 'moved', 'received data that is not consumed yet is not moved completely')
                    self.set(st, Q=fz(dst), T=None)
                else:
                    o = self.argument(S, st)
                    buf = lin(S, st, S.load(st, sim.addr(o, self.p.field('resp_object_t', 'buffer')['off']), OB + 'buffer')) if o is not None else None
                    if st.auto[3] is None or buf is None or dst is None or not equal(S, st, dst, ladd((1, buf), (1, th(st.auto[3])))):
                        self.hit(st, ins, 'place', 'payload bytes are not stored right after the ones received before')
                    self.consume(S, st, ins, args[1], n)
                    if st.auto[3] is not None:
                        self.set(st, P=fz(ladd((1, th(st.auto[3])), (1, n))))
            for a in (args[0],):
                if type(a) is tuple and sim.base_of(sim.split(a)[0])[0:1] == ('al',):
                    S.killroot(st, a, ('c', ins.fn.name, ins.id))
            return [(st, args[0])]
        if name in ('atoi', 'atol', 'strtol', 'strtoul', 'strtoll', 'strtoull', 'strlen', 'sscanf', 'strchr', 'atoll'):
            l = lin(S, st, args[0])
            if l and l[1].get(B) == 1:
                self.acc.add((ins.fn.name, ins.id))
                T = st.auto[0]
                if T is None or not prove(S, st, ladd((1, th(T)), (-1, l))):
                    self.hit(st, ins, 'string', 'a number is parsed from received data that is not terminated')
                t = lib.fresh(S, st, ins, name)
                S.addfact(st, t, (-(1 << 31), (1 << 31) - 1, frozenset()))
                return [(st, t)]
            return None
        if name in ('malloc', 'calloc'):
            if name == 'malloc':
                size = lin(S, st, args[0])
            else:
                x, y = (args[0], args[1]) if type(args[0]) is int else (args[1], args[0])
                ly = lin(S, st, y)
                size = (ly[0] * x, {t: k * x for t, k in ly[1].items()}) if type(x) is int and ly else None
            s = st.copy()
            t = lib.fresh(S, st, ins, name)
            self.nn(S, st, t)
            if name == 'calloc':
                st.zero = st.zero | {t}
            # an absurd size is refused by the allocator
            for v in args[:2]:
                if type(v) is tuple:
                    if not S.addfact(st, v, (0, sim.POS, frozenset())):
                        return [(s, 0)]
            if size is not None:
                b = tuple(x for x in st.auto[5] if x[0] != t)
                self.set(st, blocks=b + ((t, fz(size)),))
            if ins.fn.name != 'x' and type(args[0]) is tuple:
                pass
            return [(st, t), (s, 0)]
        return None

    def on_enter(self, S, st, fn, args):
        return None

    # ------------------------------------------------------------ invariant
    def cell(self, S, st, cls):
        sname, f = cls.split('.')
        fd = self.p.field(sname, f)
        if sname == 'resp_request_t':
            return S.load(st, sim.addr(REQ, fd['off']), cls)
        if sname == 'buffer_t':
            return S.load(st, sim.addr(self.client, self.p.field('redis_client_t', 'buffer')['off'] + fd['off']), cls)

    def invariant(self, S, st, where):
        E = known(S, st)
        rd, wr, rm = [lin(S, st, self.cell(S, st, BUF + x)) for x in ('reader', 'writer', 'remain')]
        base = self.cell(S, st, BUF + 'buffer')
        state = self.cell(S, st, RQ + 'state')
        if base != B or None in (rd, wr, rm):
            self.hit(st, where, 'buffer', 'the receive buffer is replaced')
            return None
        off = ladd((1, rd), (-1, (0, {B: 1})))
        av = ladd((1, wr), (-1, rd))
        e = th(st.auto[1])
        if not equal(S, st, av, e, E):
            self.hit(st, where, 'lost', 'received bytes are dropped or used twice: the reader and writer of the buffer do not delimit what is not consumed yet')
        elif not equal(S, st, rd, th(st.auto[2]), E) and not prove(S, st, (-e[0], {x: -k for x, k in e[1].items()}), E):
            self.hit(st, where, 'reader', 'the reader of the buffer is not at the first byte not consumed yet')
        elif not prove(S, st, off, E) or not prove(S, st, av, E):
            self.hit(st, where, 'order', 'the reader of the buffer is not between its start and its writer')
        elif not prove(S, st, ladd((1, (self.cap, {})), (-1, off), (-1, av), (-1, rm)), E):
            self.hit(st, where, 'remain', 'the space left in the buffer is larger than what is left')
        if st.auto[0] is not None:
            keep = 'w' if equal(S, st, th(st.auto[0]), wr, E) else 'e' if prove(S, st, (-e[0], {x: -k for x, k in e[1].items()}), E) else None
        else:
            keep = 'e' if prove(S, st, (-e[0], {x: -k for x, k in e[1].items()}), E) else None
        argv, argc, fi = [self.cell(S, st, RQ + x) for x in ('argv', 'argc', 'fillin')]
        if type(state) is not int:
            self.hit(st, where, 'state', 'the state of the request is not known')
            return None
        if state == self.EMPTY:
            if S.truth_zero(st, argv) is not True:
                self.hit(st, where, 'stale', 'the arguments of a request are still there when the next one starts')
        else:
            la, lf = lin(S, st, argc), lin(S, st, fi)
            blk = next((s for b, s in st.auto[5] if b == argv), None)
            if blk is None or not prove(S, st, ladd((1, th(blk)), (-8, la)) if False else (th(blk)[0] - 8 * la[0], minus(th(blk)[1], la[1], 8)), E):
                self.hit(st, where, 'argv', 'the list of arguments is smaller than the number of arguments')
            if not prove(S, st, lf, E) or not prove(S, st, ladd((1, la), (-1, lf), (-1, (1, {}))), E):
                self.hit(st, where, 'fillin', 'the argument that is filled is not one of the announced ones')
        if state == self.PAYLOAD:
            o = self.argument(S, st)
            if type(o) is not tuple:
                self.hit(st, where, 'object', 'no argument to fill')
                return None
            fl = lambda f: lin(S, st, S.load(st, sim.addr(o, self.p.field('resp_object_t', f)['off']), OB + f))
            ln, sz, fd, bf = fl('length'), fl('size'), fl('filled'), fl('buffer')
            blk = next((s for b, s in st.auto[5] if bf == (0, {b: 1})), None)
            if None in (ln, sz, fd, bf) or blk is None:
                self.hit(st, where, 'object', 'the argument has no memory')
            else:
                if not prove(S, st, ln, E) or not equal(S, st, sz, (ln[0] + 2, ln[1]), E) or not prove(S, st, ladd((1, th(blk)), (-1, sz)), E) or not prove(S, st, ladd((1, (PL, {})), (-1, ln)), E):
                    self.hit(st, where, 'size', 'the memory of an argument does not match its length')
                if st.auto[3] is None or not equal(S, st, fd, th(st.auto[3]), E):
                    self.hit(st, where, 'filled', 'the number of bytes stored is not remembered')
                elif not prove(S, st, fd, E) or not prove(S, st, ladd((1, sz), (-1, fd), (-1, (1, {}))), E):
                    self.hit(st, where, 'full', 'an argument that is complete still waits for data')
        return state, keep

    def relevant(self, S, fn, h):
        return any(c.startswith(BUF) for c in S.loopmod(fn, h)[0])

    def on_backedge(self, S, st, fn, h):
        self.inv = None
        if self.relevant(S, fn, h):
            self.heads.add((fn.name, h))
            self.inv = self.invariant(S, st, fn.loc)

    def on_generalised(self, S, st, fn, h):
        if not self.relevant(S, fn, h):
            return
        if self.inv is None:
            st.dead = True
            self.inv = (self.EMPTY, None)
        state, keep = self.inv
        for t in (R, A, N, F, L, K, ARG, ARGBUF, ARGV):
            S.fresh(st, t)
        for k in [k for k, (v, c) in st.cells.items() if str(c).startswith((BUF, RQ, OB)) or c == '*raw']:
            del st.cells[k]
        st.facts = {t: f for t, f in st.facts.items() if t[0] == 'ld' and t[3] == '*raw' and f[0] == 1}
        st.zero = frozenset()
        self.facts(S, st, state)

        def put(cls, v):
            sname, f = cls.split('.')
            o = self.p.field(sname, f)['off']
            if sname == 'buffer_t':
                a = sim.addr(self.client, self.p.field('redis_client_t', 'buffer')['off'] + o)
            else:
                a = sim.addr({'resp_request_t': REQ, 'resp_object_t': ARG}[sname], o)
            st.cells[sim.split(a)] = (v, cls)
        put(BUF + 'reader', ('[]', B, R, 1))
        put(BUF + 'writer', ('[]', B, R, 1) if keep == 'e' else ('[]', ('[]', B, R, 1), A, 1))
        put(BUF + 'remain', ('op', 'sub', self.cap, R) if keep == 'e' else ('op', 'sub', ('op', 'sub', self.cap, R), A))
        put(RQ + 'state', state)
        if state == self.EMPTY:
            put(RQ + 'argv', 0)
            put(RQ + 'argc', 0)
            put(RQ + 'fillin', ('arg', 'stale fillin'))
        else:
            put(RQ + 'argv', ARGV)
            put(RQ + 'argc', N)
            put(RQ + 'fillin', F)
            if state == self.PAYLOAD:
                st.cells[(('[]', ARGV, F, 8), 0)] = (ARG, '*raw')
        if keep == 'e':
            S.addfact(st, A, (0, 0, frozenset()))
        T = (0, {B: 1, R: 1, A: 1}) if keep == 'w' else None
        st.auto = self.canon(state, T)[:6] + (st.auto[6],)


def minus(a, b, k):
    d = dict(a)
    for x, c in b.items():
        d[x] = d.get(x, 0) - k * c
        if not d[x]:
            del d[x]
    return d


class New(sim.Rule):
    """what a new client starts with"""
    classes = tuple(BUF + x for x in ('reader', 'writer', 'remain', 'buffer')) + (RQ + 'state', RQ + 'argv', RQ + 'argc')
    events = ('malloc', 'calloc')

    def __init__(self, p):
        self.sizes = {}
        self.hits = []

    def initial(self):
        return None

    def on_call(self, S, st, ins, name, args):
        if name == 'malloc':
            s = st.copy()
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (1, sim.POS, frozenset([0])))
            self.sizes[t] = args[0]
            return [(st, t), (s, 0)]
        return None


def starts(ctx, p):
    """(capacity, allocated size, state, argv, argc) of new clients; checks that all agree"""
    out = []
    for n, f in sorted(p.defined.items()):
        if 'redis_client_t*' not in str(f.j.get('diret')) or not any(i.op == 'store' and p.cls_of_ptr(f, i.ops[1]) == 'redis_client_t.request' for i in f.ins()):
            continue
        r = New(p)
        S, ex = ctx.sim(p, r, n, [('arg', 'a%d' % k) for k in range(f.nparams)], maxgroup=400)
        for s, v in ex:
            if S.truth_zero(s, v) is True:
                continue
            bo = p.field('redis_client_t', 'buffer')['off']
            g = lambda x: S.load(s, sim.addr(v, bo + p.field('buffer_t', x)['off']), BUF + x)
            rq = S.load(s, sim.addr(v, p.field('redis_client_t', 'request')['off']), 'redis_client_t.request')
            h = lambda x: S.load(s, sim.addr(rq, p.field('resp_request_t', x)['off']), RQ + x)
            out.append((g('remain'), r.sizes.get(g('buffer')), g('reader') == g('buffer') == g('writer'), h('state'), h('argv'), h('argc'), f.loc))
    return out


@prop('P14', 'Abstract interpretation of the read loop with the request parser: an invariant over the receive buffer (start, reader, writer, space left), the list of arguments and the argument being filled is '
      'assumed on entry, proved on every back edge and exit and established by the constructor; under it every access to the buffer, the list and the argument memory is proved inside, numbers are parsed '
      'from terminated data only, and received bytes are consumed exactly once, in order, at the right place (linear inequalities over offsets and lengths).')
def p14(ctx):
    p = ctx.prog()
    st = starts(ctx, p)
    ctx.need(len(st), 1, 'constructors of clients')
    cap, alloc = st[0][0], st[0][1]
    names = ('RESP_EMPTY', 'RESP_FILLIN_HEADER', 'RESP_FILLIN_PAYLOAD')
    states = tuple(p.enum(x) for x in names)
    good = all(x[:2] == (cap, alloc) and x[2] and x[3] == states[0] and x[4] == 0 and x[5] == 0 for x in st) and type(cap) is int and type(alloc) is int and cap < alloc
    ctx.ob(good, 'start', st[0][6], 'a new client starts with an empty buffer of %s bytes (%s allocated) and no request' % (cap, alloc) if good else
           'a new client does not start with an empty buffer with room for a terminator and an empty request')
    if type(cap) is not int or type(alloc) is not int:
        return
    acc = set()
    for n in rules_conn.readers(p):
        f = p.defined[n]
        for state, sn in zip(states, names):
            box = {}

            def mk():
                r = Parse(p, state, cap, alloc, states, None)
                r.client = None
                o = r.on_load

                def on_load(S, s, ins, key, cls, val):
                    if r.client is None and type(key[0]) is tuple and cls in (None, '*raw') and type(val) is tuple and 'redis_clients_t.list' in repr(key[0]):
                        r.client = val
                    return o(S, s, ins, key, cls, val)
                r.on_load = on_load
                r.done = False
                e = r.on_enter

                def on_enter(S, s, fn, a):
                    r.S = S
                    return e(S, s, fn, a)
                r.on_enter = on_enter
                return r

            def bad(r, ex):
                if not r.done:
                    r.done = True
                    for s, v in ex:
                        if not s.auto[6]:
                            r.invariant(r.S, s, f.loc)
                return r.hits
            su = []

            def setup(S, s):
                S.rule.setup(S, s)
            r, ex = ctx.refine(p, mk, n, args=[('arg', 'fd')], bad=bad, setup=setup, levels=LEVELS)
            acc |= r.acc
            seen = set()
            for key, w, loc, path in r.hits:
                if key not in seen:
                    seen.add(key)
                    ctx.bad('%s:%s' % (key, n), loc, '%s: %s' % (n, w), path)
            if not r.hits:
                ctx.ok('parse:%s:%s' % (n, sn), '%s entered in state %s: %d paths, %d loop heads, accesses proved: %d' % (n, sn, len(ex), len(r.heads), len(r.acc)), f.loc)
    ctx.need(len(acc), 8, 'buffer accesses proved')
