"""The connection side: response queue, request dispatch, read loop, session life."""
import lib
import sim
from lib import commands, replies, strval, lin, ladd, lrange
from registry import prop

RESP = 'redis_response_t.'
CLI = 'redis_client_t.'
EAGAIN, EPIPE = 11, 32


def roots(p, skip=()):
    """functions that send without going through the reply functions, outermost first"""
    rep = replies(p).fns
    below = set().union(*[p.reach[r] for r in rep]) if rep else set()
    c = [n for n, f in p.defined.items() if 'send' in p.reach[n] | p.callees[n] and n not in rep and n not in below and not (p.reach[n] | p.callees[n]) & rep]
    return [n for n in c if not any(n in p.reach[m] | p.callees[m] for m in c if m != n)]


def autoleaves(a):
    """atoms in a nest of tuples of terms"""
    if type(a) is not tuple or not a:
        return frozenset()
    if type(a[0]) is str:
        return sim.leaves(a)
    return frozenset().union(*[autoleaves(x) for x in a])


class Queue(sim.Rule):
    """pending: a backlog exists when the function is entered"""
    follow_small = 300

    def __init__(self, p, pending, nulled=True):
        self.p = p
        self.pending = pending
        self.nulled = [True, True]     # the tail of an empty queue is null: at every iteration, at every exit
        self.events = ('send', 'free')
        self.classes = (CLI + 'responses', CLI + 'responsetail', RESP + 'next', RESP + 'reader', RESP + 'length')
        self.hits = []
        self.nsend = set()
        self.force = {'*raw': self.errno}
        if pending:
            self.force[CLI + 'responses'] = lambda S, st, k: self.nn(S, st, 'first pending response')
            self.force[CLI + 'responsetail'] = lambda S, st, k: self.nn(S, st, 'last pending response')
        else:
            self.force[CLI + 'responses'] = 0
            self.force[CLI + 'responsetail'] = 0 if nulled else lambda S, st, k: ('arg', 'stale tail')

    def live(self, st):
        return autoleaves(st.auto)

    @staticmethod
    def nn(S, st, n):
        t = ('arg', n)
        S.addfact(st, t, (1, sim.POS, frozenset([0])))
        return t

    # auto: (client, R, b0, l0, (position, sent), error, freed (H, next), last reader (root, value), copies)
    def initial(self):
        return (None, None, None, None, None, None, None, None, (), None)

    def setauto(self, st, **kw):
        names = ('cl', 'R', 'b0', 'l0', 'E', 'err', 'freed', 'last', 'copies', 'nx')
        st.auto = tuple(kw.get(n, v) for n, v in zip(names, st.auto))

    def errno(self, S, st, key):
        r = key[0]
        if type(r) is tuple and r[0] == 'call' and r[1] == '__errno_location' and st.auto[5] is not None:
            if st.auto[5] == 'again':
                return EAGAIN
            if st.auto[5] == 'pipe':
                return EPIPE
            t = ('arg', 'errno')
            S.addfact(st, t, (1, 200, frozenset([EAGAIN, EPIPE])))
            return t
        return None

    def hit(self, st, ins, key, what):
        loc = ins if isinstance(ins, str) else ins.loc
        self.hits.append((key, what, loc, st.path()))

    def at(self, S, st, R, f):
        fd = S.p.field('redis_response_t', f)
        return S.load(st, sim.addr(R, fd['off']), RESP + f)

    def cell(self, S, st, f):
        fd = S.p.field('redis_client_t', f)
        return S.load(st, sim.addr(st.auto[0], fd['off']), CLI + f)

    def same(self, S, st, a, b):
        if a == b:
            return True
        d = ladd((1, lin(S, st, a) if not isinstance(a, list) else a[0]), (-1, lin(S, st, b) if not isinstance(b, list) else b[0]))
        d = lib.lsolve(S, st, d)
        return d is not None and d[0] == 0 and not d[1]

    def on_branch(self, S, st, ins, cond, truth):
        if st.auto[1] is not None and st.auto[5] is None and not self.left(S, st):
            self.setauto(st, err='done')
        if st.auto[6] and st.auto[9] is None:
            self.setauto(st, nx=S.truth_zero(st, st.auto[6][1]))      # keeps the two cases apart at joins

    def pos(self, S, st):
        b, r = st.auto[4]
        return [ladd((1, lin(S, st, b)), (1, lin(S, st, r)))]

    def end(self, S, st):
        return [ladd((1, lin(S, st, st.auto[2])), (1, lin(S, st, st.auto[3])))]

    def on_load(self, S, st, ins, key, cls, val):
        fr = st.auto[6]
        if fr and key[0] == fr[0] and cls and cls.startswith(RESP):
            self.hit(st, ins, 'freed', 'a response is used after it was released')
        if cls == RESP + 'reader':
            self.setauto(st, last=(sim.addr(key[0], key[1] - S.p.field('redis_response_t', 'reader')['off']), val))

    def on_call(self, S, st, ins, name, args):
        if name == 'free' and type(args[0]) is tuple:
            R = st.auto[1]
            head = args[0]
            if R is not None and head == R:
                if self.left(S, st) and st.auto[5] not in ('pipe', 'other'):
                    self.hit(st, ins, 'dropped', 'a response is released before all of it was sent')
                self.setauto(st, freed=(R, self.at(S, st, R, 'next')), R=None, b0=None, l0=None, E=None, err=None)
            return [(st, None)]
        if name in ('memcpy', 'memmove') or name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.setauto(st, copies=st.auto[8][-2:] + ((args[0], args[1], args[2]),))
            return None
        if name != 'send':
            return None
        self.nsend.add((ins.fn.name, ins.id))
        fd, buf, n = args[0], args[1], args[2]
        if not (type(fd) is tuple and fd[0] == 'ld' and fd[3] == CLI + 'fd'):
            self.hit(st, ins, 'descriptor', 'data is sent to something else than the socket of the client')
            return None
        self.setauto(st, cl=sim.addr(fd[1], fd[2] - S.p.field('redis_client_t', 'fd')['off']))
        pend = self.cell(S, st, 'responses')
        last = st.auto[7]
        R = last[0] if last and last[1] == buf else None
        if R is None:
            self.hit(st, ins, 'position', 'what is sent is not the next part of a response')
            return None
        if S.truth_zero(st, pend) is not True and pend != R:
            self.hit(st, ins, 'order', 'data is sent while earlier responses are still pending')
        if st.auto[1] != R:
            self.setauto(st, R=R, b0=buf, l0=self.at(S, st, R, 'length'), E=(buf, 0), err=None)
        if not self.same(S, st, buf, self.pos(S, st)):
            self.hit(st, ins, 'position', 'the part that is sent does not follow the part sent before')
        if not self.same(S, st, [ladd((1, lin(S, st, buf)), (1, lin(S, st, n)))], self.end(S, st)):
            self.hit(st, ins, 'length', 'the number of bytes sent is not what is left of the response')
        out = []
        for e in ('again', 'pipe', 'other'):
            s = st.copy()
            self.setauto(s, E=(buf, 0), err=e)
            s.note('%s: send %s' % (ins.loc, {'again': 'would block', 'pipe': 'finds the connection closed', 'other': 'fails'}[e]))
            out.append((s, -1))
        t = lib.fresh(S, st, ins, name)
        if S.addfact(st, t, (0, sim.POS, frozenset())):
            S.assume(st, 'sle', t, n, True)
            self.setauto(st, E=(buf, t), err=None)
            st.note('%s: send takes a part' % ins.loc)
            out.append((st, t))
        return out

    def left(self, S, st):
        """may bytes of the current response be unsent"""
        if st.auto[5] is not None:
            return st.auto[5] != 'done'
        if st.auto[4] is None:
            return True
        if self.same(S, st, self.pos(S, st), self.end(S, st)):
            return False
        n = self.at(S, st, st.auto[1], 'length')
        return not (S.truth_zero(st, n) is True or S.rng(st, n)[1] <= 0)

    def consistent(self, S, st, where):
        R = st.auto[1]
        if R is None or st.auto[4] is None or st.auto[5] in ('pipe', 'other'):
            return
        rd, ln = self.at(S, st, R, 'reader'), self.at(S, st, R, 'length')
        if not self.same(S, st, rd, self.pos(S, st)):
            self.hit(st, where, 'position', 'the response does not remember how much of it was sent')
        elif not self.same(S, st, [ladd((1, lin(S, st, rd)), (1, lin(S, st, ln)))], self.end(S, st)):
            self.hit(st, where, 'length', 'the remaining length of the response does not match the part already sent')

    def on_backedge(self, S, st, fn, h):
        if st.auto[1] is not None:
            if st.auto[5] == 'again':
                self.hit(st, fn.loc, 'busy', 'sending continues although the socket would block')
            self.consistent(S, st, fn.loc)
        else:
            self.unlinked(S, st, fn.loc)

    def on_generalised(self, S, st, fn, h):
        R = st.auto[1]
        if R is None:
            self.setauto(st, freed=None, last=None, nx=None)
            return
        k = ('call', '@sent', fn.name, h)
        S.fresh(st, k)
        S.addfact(st, k, (0, sim.POS, frozenset()))
        for f, v in (('reader', ('[]', st.auto[2], k, 1)), ('length', ('op', 'sub', st.auto[3], k))):
            r, o = sim.split(sim.addr(R, S.p.field('redis_response_t', f)['off']))
            st.cells[(r, o)] = (v, RESP + f)
        self.setauto(st, E=(('[]', st.auto[2], k, 1), 0), err=None, last=None)

    def unlinked(self, S, st, where):
        """a released response is not in the queue any more"""
        fr = st.auto[6]
        if not fr or st.auto[0] is None or not self.pending:
            return
        if self.cell(S, st, 'responses') != fr[1]:
            self.hit(st, where, 'queue', 'after a response was sent the queue does not start with the next one')
        elif S.truth_zero(st, fr[1]) is not False and S.truth_zero(st, self.cell(S, st, 'responsetail')) is not True:
            self.nulled[0] = False

    # -------------------------------------------------- end of an entry point
    def queued(self, S, st, where, payload, length):
        """what is not sent yet of (payload, length) is the last element of the queue; nothing else changed"""
        if st.auto[0] is None:
            self.setauto(st, cl=('arg', 'client'))
        R = st.auto[1]
        if R is not None and not self.same(S, st, st.auto[2], payload):
            return self.hit(st, where, 'position', 'what is sent first is not the start of the reply')
        if R is not None and not self.same(S, st, st.auto[3], length):
            return self.hit(st, where, 'length', 'the length of the response is not the length of the reply')
        first, tail = self.cell(S, st, 'responses'), self.cell(S, st, 'responsetail')
        if self.pending:
            if first != ('arg', 'first pending response'):
                return self.hit(st, where, 'queue', 'queueing a response replaces the start of the queue')
            X = self.at(S, st, ('arg', 'last pending response'), 'next')
        else:
            X = first
        if tail != X or type(X) is not tuple or S.truth_zero(st, X) is not False and not sim.unique_root(X):
            return self.hit(st, where, 'queue', 'a reply is neither sent nor appended to the queue')
        if S.truth_zero(st, self.at(S, st, X, 'next')) is not True:
            return self.hit(st, where, 'queue', 'the end of the queue is not terminated')
        P = self.pos(S, st) if R is not None else payload
        E = [ladd((1, lin(S, st, payload)), (1, lin(S, st, length)))]
        rd, ln = self.at(S, st, X, 'reader'), self.at(S, st, X, 'length')
        left = [ladd((1, E[0]), (-1, P[0] if isinstance(P, list) else lin(S, st, P)))]
        if not self.same(S, st, ln, left):
            return self.hit(st, where, 'length', 'the queued response does not have the length of what is left to send')
        if self.same(S, st, rd, P):
            return
        for dst, src, n in st.auto[8]:
            # rd = dst + d holds what was at src + d
            d = ladd((1, lin(S, st, rd)), (-1, lin(S, st, dst)))
            if self.same(S, st, [ladd((1, lin(S, st, src)), (1, d))], P):
                room = ladd((1, lin(S, st, n)), (-1, d), (-1, lin(S, st, ln)))
                if self.same(S, st, [room], 0) or lrange(S, st, room)[0] >= 0:
                    return
        self.hit(st, where, 'position', 'the queued response does not start with the first byte not sent yet')


@prop('P17', 'Property simulation of the reply functions and of the delayed writer with every outcome of send (progress, would block, closed, error): while a backlog exists nothing but the first pending response '
      'is sent; each send continues exactly where the previous one stopped; what is left is appended at the end of the queue with the right position and length; a response leaves '
      'the queue only when it was sent completely or the connection failed, and is not used afterwards. Every function that changes the queue is covered.')
def p17(ctx):
    p = ctx.prog()
    entered = set()
    CL, PL, LN, DS = ('arg', 'client'), ('arg', 'payload'), ('arg', 'length'), ('arg', 'destructor')

    def setup(S, st):
        S.addfact(st, LN, (1, 1 << 40, frozenset()))
        S.addfact(st, CL, (1, sim.POS, frozenset([0])))
    tot = 0
    nulled = True
    for n in roots(p):
        f = p.defined[n]
        def mk():
            r = Queue(p, True)
            r.fin = False
            return r

        def bad(r, ex):
            if not r.fin:
                r.fin = True
                for s, v in ex:
                    if s.auto[1] is not None:
                        r.consistent(r.S, s, f.loc)
                        if r.cell(r.S, s, 'responses') != s.auto[1]:
                            r.hit(s, f.loc, 'queue', 'a response that was not sent completely leaves the queue')
                    else:
                        r.unlinked(r.S, s, f.loc)
                        if s.auto[0] is not None and r.S.truth_zero(s, r.cell(r.S, s, 'responses')) is not False and r.S.truth_zero(s, r.cell(r.S, s, 'responsetail')) is not True:
                            r.nulled[1] = False
            return r.hits or not any(r.nulled)
        r, ex = refine_with_sim(ctx, p, mk, n, [('arg', 'a%d' % k) for k in range(len(f.j.get('diparams') or []))], bad, None)
        entered |= r.visited
        tot += len(r.nsend)
        nulled = nulled and any(r.nulled)
        for key, w, loc, path in r.hits[:2]:
            ctx.bad('%s:%s' % (key, n), loc, '%s: %s' % (n, w), path)
        if not r.hits:
            ctx.ok('writer:' + n, '%s: %d paths' % (n, len(ex)), f.loc)
    for n in sorted(replies(p).fns):
        f = p.defined[n]
        for pending in (False, True):
            def mk():
                r = Queue(p, pending, nulled)
                r.fin = False
                return r

            def bad(r, ex):
                if not r.fin:
                    r.fin = True
                    S = r.S
                    for s, v in ex:
                        if S.truth_zero(s, v) is False or (s.auto[5] in ('pipe', 'other')):
                            continue     # reply refused or connection lost
                        if s.auto[1] is not None or s.auto[6] is not None and not pending:
                            if s.auto[6] is not None or not r.left(S, s):
                                if S.truth_zero(s, r.cell(S, s, 'responses')) is not True and not pending:
                                    r.hit(s, f.loc, 'queue', 'a reply is both sent and queued')
                                continue
                        r.queued(S, s, f.loc, PL, LN)
                return r.hits
            box = {}

            def mk2():
                r = mk()
                box['r'] = r
                return r
            r, ex = refine_with_sim(ctx, p, mk2, n, [CL, PL, LN, DS][:len(f.j['diparams'])], bad, setup)
            entered |= r.visited
            tot += len(r.nsend)
            what = 'a backlog exists' if pending else 'no backlog'
            for key, w, loc, path in r.hits[:2]:
                ctx.bad('%s:%s:%s' % (key, n, pending), loc, '%s, %s: %s' % (n, what, w), path)
            if not r.hits:
                ctx.ok('queue:%s:%s' % (n, pending), '%s, %s: %d paths' % (n, what, len(ex)), f.loc)
    ctx.need(tot, 3, 'send calls simulated')
    # who changes the queue
    k = 0
    for n, f in sorted(p.defined.items()):
        for i in f.ins():
            if i.op != 'store' or p.cls_of_ptr(f, i.ops[1]) not in (CLI + 'responses', CLI + 'responsetail', RESP + 'next', RESP + 'reader', RESP + 'length'):
                continue
            k += 1
            if n in entered:
                continue
            end = {'malloc', 'calloc', 'free'} & (p.callees[n] | p.reach[n]) and not {'send', 'recv'} & p.reach[n]
            v = lib.consts(p, f, i.ops[0])
            if not end and v != {0}:
                ctx.bad('writer:%s' % n, i.loc, '%s changes the response queue outside the functions that keep it in order' % n)
    ctx.need(k, 8, 'stores to the queue')


def refine_with_sim(ctx, p, mk, fname, args, bad, setup, **kw):
    """Ctx.refine for rules whose verdict looks at exit states: the rule gets the simulator as attribute S"""
    def mk2():
        r = mk()
        r.visited = set()
        r.S = None
        e = r.on_enter

        def on_enter(S, st, fn, a):
            r.S = S
            r.visited.add(fn.name)
            return e(S, st, fn, a)
        r.on_enter = on_enter
        return r
    return ctx.refine(p, mk2, fname, args=args, bad=bad, setup=setup, **kw)


# ------------------------------------------------------------------ dispatch
CMD = 'command_t.'
LEN = 'resp_object_t.length'


class Named(sim.Rule):
    """how the name argument compares with the name of the table entry looked at:
    equal, prefix (the argument is a shorter prefix of it), longer (it is a prefix of the argument), other"""
    follow_small = 200

    def __init__(self, p, how, arg):
        self.p = p
        self.how, self.arg = how, arg
        self.rep = replies(p).fns
        self.opaque = tuple(self.rep)
        self.hs = {h for _, h in commands(p)}
        self.names = {n.upper() for n, _ in commands(p)}
        self.tables = {('g', n) for n, g in p.globals.items() if g.get('init') and any("'%s'" % h in repr(g['init']) for h in self.hs)}
        self.events = tuple(self.rep) + tuple(self.hs)
        self.classes = (CLI + 'watching', CLI + 'executed')
        self.hits = []
        self.ncmp = set()
        self.force = {LEN: self.length, 'resp_object_t.type': self.type, 'resp_request_t.argc': self.argc, 'redis_client_t.ns': self.ns,
                      '*raw': self.char}

    def initial(self):
        return (0, None, 0, 0)   # handler run or watch set, executed, compared, replied

    def nn(self, S, st, n, lo, hi):
        t = ('arg', n)
        S.addfact(st, t, (lo, hi, frozenset()))
        return t

    def length(self, S, st, key):
        return self.nn(S, st, 'length of argument', 0 if self.how == 'prefix' else 1, 1 << 23)

    def argc(self, S, st, key):
        return self.nn(S, st, 'argc', self.arg + 1, 1024)

    def ns(self, S, st, key):
        return self.nn(S, st, 'namespace', 1, sim.POS)

    def type(self, S, st, key):
        return self.nn(S, st, 'type', 0, 2)

    def entry(self, v):
        """value is the name string of a table entry"""
        if type(v) is not tuple:
            return False
        if v[0] == 'ld':
            return v[3] == CMD + 'command' or sim.base_of(v[1]) in self.tables
        return v[0] == 'g' and (self.p.strconst(v[1]) or '').upper() in self.names

    def isarg(self, v):
        return type(v) is tuple and (v[0] == 'ld' and v[3] == 'resp_object_t.buffer' or v[0] == 'call' and v[1] in ('strndup', 'malloc', 'calloc') or v[0] == 'al' or v[0] == '+' and self.isarg(v[1]))

    def char(self, S, st, key):
        """a character of the name of the entry at the length of the argument"""
        r, o = key
        if type(r) is tuple and r[0] == '[]' and type(r[1]) is tuple and self.entry(r[1]) and o == 0 and self.islen(S, st, r[2]):
            t = ('arg', 'character of the entry at the length of the argument')
            if self.how == 'prefix':
                S.addfact(st, t, (-128, 127, frozenset([0])))
            elif self.how == 'equal':
                return 0
            return t
        return None

    def islen(self, S, st, v):
        return v == ('arg', 'length of argument') or lib.lin(S, st, v) == (0, {('arg', 'length of argument'): 1})

    def holds(self, S, v, fp):
        r, o = sim.split(v)
        if type(r) is tuple and r[0] == 'g':
            return any(S.const_load(r[1], o + k) == fp for k in (0, 8, 16, 24))
        return type(r) is tuple and r[0] == '[]'

    def namelen(self, S, st):
        t = ('arg', 'length of the entry')
        S.addfact(st, t, (1, 16, frozenset()))
        n = self.length(S, st, None)
        if self.how == 'equal':
            return n
        if self.how == 'prefix':
            S.assume(st, 'slt', n, t, True)
        elif self.how == 'longer':
            S.assume(st, 'slt', t, n, True)
        return t

    def result(self, S, st, ins, name, same):
        self.ncmp.add((ins.fn.name, ins.id))
        st.auto = st.auto[:2] + (1,) + st.auto[3:]
        if same is True:
            return [(st, 0)]
        t = lib.fresh(S, st, ins, name)
        if same is False:
            S.addfact(st, t, (sim.NEG, sim.POS, frozenset([0])))
            return [(st, t)]
        s0 = st.copy()
        s0.note('%s: %s finds no difference' % (ins.loc, name))
        S.addfact(st, t, (sim.NEG, sim.POS, frozenset([0])))
        return [(st, t), (s0, 0)]

    def on_call(self, S, st, ins, name, args):
        if name in self.rep:
            st.auto = st.auto[:3] + (1,)
            return [(st, 0)]
        if name in self.hs and ins.target() is None:
            ex = st.auto[1]
            v = S.load(st, sim.addr(('arg', 'client'), S.p.field('redis_client_t', 'executed')['off']), CLI + 'executed')
            fp = st.regs.get(ins.callee[1]) if ins.callee and ins.callee[0] == 'i' else None
            if type(fp) is tuple and fp[0] == 'ld' and fp[1] != sim.split(v)[0] or type(fp) is tuple and fp[0] == 'g' and not self.holds(S, v, fp):
                self.hit(st, ins, 'executed', 'the handler that runs is not the one of the entry recorded as executed')
            st.auto = (1,) + st.auto[1:]
            st.note('%s: a handler runs' % ins.loc)
            return [(st, lib.fresh(S, st, ins, 'handler'))]
        if name == 'strlen' and self.entry(args[0]):
            return [(st, self.namelen(S, st))]
        if name in ('strcasecmp', 'strncasecmp', 'strcmp', 'strncmp', 'memcmp', 'bcmp'):
            a, b = args[0], args[1]
            if self.entry(a):
                a, b = b, a
            if not (self.entry(b) and self.isarg(a)):
                return None
            how = self.how
            if name == 'strcasecmp' or name == 'strcmp':
                if type(a) is tuple and a[0] == 'ld':
                    return self.result(S, st, ins, name, None)       # not terminated
                return self.result(S, st, ins, name, None if how == 'any' else how == 'equal')
            n = args[2]
            if how == 'any':
                same = None
            elif how == 'other':
                same = False
            elif how == 'equal':
                same = True
            else:
                arglen = self.islen(S, st, n)
                entlen = n == ('arg', 'length of the entry')
                if not arglen and not entlen:
                    same = None
                elif how == 'prefix':
                    same = arglen       # up to the length of the argument there is no difference
                    if entlen:
                        same = None if type(a) is tuple and a[0] == 'ld' else False
                else:
                    same = entlen
            return self.result(S, st, ins, name, same)
        return None

    def on_store(self, S, st, ins, key, cls, val):
        if cls == CLI + 'watching' and S.truth_zero(st, val) is not True:
            st.auto = (1,) + st.auto[1:]
            st.note('%s: the client waits for a command' % ins.loc)

    def hit(self, st, ins, key, what):
        self.hits.append((key, what, ins.loc, st.path()))


@prop('P20', 'The dispatcher and WAIT are simulated with the name argument assumed equal to the table entry looked at, a shorter prefix of it, an extension of it, or different: library compares '
      'and lengths get the value they have in that case. Only in the equal case a handler may run or be waited for, and there it must be the handler of the entry recorded as executed; the names '
      'of the command table are distinct, and every entry has a handler.')
def p20(ctx):
    p = ctx.prog()
    hs = {h for _, h in commands(p)}
    names = [n.upper() for n, _ in commands(p)]
    dup = sorted({n for n in names if names.count(n) > 1})
    ctx.ob(not dup, 'table', '', 'the command table has %d distinct names' % len(set(names)) if not dup else 'the command table has two entries named %s' % dup[0])
    disp = [n for n, f in p.defined.items() if n not in hs and any(i.target() is None and set(p.targets(i)) >= hs for i in f.calls())]
    ctx.need(len(disp), 1, 'dispatchers')
    wait = {h for n, h in commands(p) if n.upper() == 'WAIT'}
    tot = 0
    for fn, arg in [(d, 0) for d in disp] + [(w, 1) for w in sorted(wait)]:
        if fn in disp and len(disp) > 1 and fn not in [c for c in disp]:
            continue
        f = p.defined[fn]
        args = [('arg', 'client' if 'redis_client_t' in t else 'a%d' % k) for k, t in enumerate(f.j.get('diparams') or ['redis_client_t *'])]
        for how in ('equal', 'any', 'prefix', 'longer', 'other'):
            text = {'equal': 'is', 'any': 'is or is not', 'prefix': 'is a prefix of', 'longer': 'starts with', 'other': 'differs from'}[how]
            act = 'a handler runs' if arg == 0 else 'the client waits'
            if how == 'equal':
                # compared equal on the first entry: it runs, unless an error is replied for another reason
                isbad = lambda s: not s.auto[0] and not s.auto[3]
            elif how == 'any':
                isbad = lambda s: False       # later entries: only that the right handler runs
            else:
                isbad = lambda s: s.auto[0]
            r, ex = ctx.refine(p, lambda: Named(p, how, arg), fn, args=args, bad=lambda r, ex: r.hits or any(isbad(s) for s, v in ex))
            tot += len(r.ncmp)
            bad = [s for s, v in ex if isbad(s)]
            key = '%s:%s' % (how, fn)
            for k, w, loc, path in r.hits[:1]:
                ctx.bad('%s:%s' % (k, fn), loc, '%s: %s' % (fn, w), path)
            if bad and how == 'equal':
                ctx.bad(key, f.loc, '%s: nothing happens although the argument is the name of the entry' % fn, bad[0].path())
            elif bad:
                ctx.bad(key, f.loc, '%s: %s although the argument only %s the name of the entry' % (fn, act, text), bad[0].path())
            elif how == 'equal' and not any(s.auto[0] for s, v in ex):
                ctx.bad(key, f.loc, '%s: no path acts on a matching name' % fn)
            elif not r.hits:
                ctx.ok(key, '%s, the argument %s the name of an entry: %d paths' % (fn, text, len(ex)), f.loc)
    ctx.need(tot, 4, 'name compares simulated')
