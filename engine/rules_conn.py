"""Life of a session: namespaces that disappear, the read loop and the event loop, release of a client."""
import lib
import sim
from lib import commands, replies, strval, lin, ladd, lrange, lsolve
from registry import prop

NS = 'redis_client_t.ns'
LISTLEN = 'redis_clients_t.length'
LIST = 'redis_clients_t.list'
NSLIST = 'ns_root_t.namespaces'
NSLEN = 'ns_root_t.length'


def handlers(p):
    return {h for _, h in commands(p)}


def dispatchers(p):
    hs = handlers(p)
    return [n for n, f in p.defined.items() if any(i.target() is None and set(p.targets(i)) >= hs for i in f.calls())]


def below(p, n):
    return p.reach[n] | p.callees[n]


def readers(p):
    """functions that receive from a client"""
    return sorted(n for n, f in p.defined.items() if {'recv', 'recvfrom', 'recvmsg'} & p.callees[n] or 'read' in p.callees[n] and any(i.target() == 'read' and 'S' in lib.fdkind(p, i) for i in f.calls()))


def executors(p):
    """outermost functions that run a complete request but do not receive"""
    d = set(dispatchers(p))
    rd = set(readers(p))
    c = {n for n in p.defined if (n in d or below(p, n) & d) and not (n in rd or below(p, n) & rd) and n not in handlers(p)}
    c = {n for n in c if not any(h in c for h in ())}
    return {n for n in c if not any(m != n and n in below(p, m) and m in c for m in c)} or d


def eventloops(p):
    return sorted(n for n, f in p.defined.items() if {'epoll_wait', 'epoll_pwait', 'kevent', 'poll', 'select'} & p.callees[n])


def closers(p):
    """functions that release a client: close its socket and free it"""
    out = set()
    for n, f in p.defined.items():
        if 'free' in p.callees[n] and any(i.target() == 'close' and 'S' in lib.fdkind(p, i) for i in f.calls()):
            out.add(n)
    return out


# ------------------------------------------------------------------ event loop
class Loop(sim.Rule):
    """what the event loop does with a client after reading from it returned the value v.
    auto: (state, descriptor): idle, read, freed"""
    def __init__(self, p, rd, v):
        self.p, self.v = p, v
        self.rd = set(rd)
        self.cl = closers(p)
        self.opaque = tuple(self.rd | self.cl)
        self.waits = ('epoll_wait', 'epoll_pwait', 'kevent', 'poll', 'select')
        self.events = tuple(self.rd | self.cl) + self.waits
        self.did = {}
        self.hits = []
        self.n = 0
        self.stray = []

    def initial(self):
        return ('idle', None)

    def out(self, st, what, loc):
        self.did.setdefault(what, (loc, st.path()))

    def flush(self, st, loc):
        """the next thing happens: nothing was done for the client that was read"""
        if st.auto[0] == 'read':
            self.out(st, 'none', loc)
        st.auto = ('idle', None)

    def on_call(self, S, st, ins, name, args):
        if name in self.rd:
            self.flush(st, ins.loc)
            self.n += 1
            st.auto = ('read', args[0])
            st.note('%s: %s returns %s' % (ins.loc, name, self.v))
            return [(st, self.v)]
        if name in self.cl:
            if st.auto[0] == 'read' and st.auto[1] == args[0]:
                self.out(st, 'free', ins.loc)
                st.auto = ('freed', args[0])
            elif st.auto[0] == 'freed' and st.auto[1] == args[0]:
                self.stray.append((ins.loc, 'a client is released twice', st.path()))
            return None
        if name in self.waits:
            self.flush(st, ins.loc)
            for a in args:
                S.killroot(st, a, ('c', ins.fn.name, ins.id))
            t = lib.fresh(S, st, ins, name)
            s = st.copy()
            S.addfact(st, t, (1, 1024, frozenset()))
            return [(st, t), (s, 0)]
        if st.auto[0] == 'freed' and st.auto[1] is not None and name in self.p.defined and name not in self.p.logfns and any(a == st.auto[1] for a in args) and (self.p.defined[name].j.get('diparams') or [''])[0] == 'int':
            self.stray.append((ins.loc, '%s is called for a client that was released' % name, st.path()))
        return None

    def on_backedge(self, S, st, fn, h):
        # the loop over the events: leave the state when the descriptor is not of this iteration any more
        if st.auto[0] != 'idle' and any({i.op for i in fn.blocks[b]} and any(t in self.rd or below(self.p, t) & self.rd for i in fn.blocks[b] if i.op == 'call' for t in self.p.targets(i) if t in self.p.defined) for b in fn.loops[h]):
            self.flush(st, fn.loc)


def reactions(ctx, p, values):
    """value -> 'free', 'stop', 'none' or 'mixed'"""
    key = ('reactions', tuple(sorted(values)))
    memo = p.__dict__.setdefault('_memo', {})
    if key in memo:
        return memo[key]
    rd = readers(p)
    out, where, stray = {}, {}, []
    for v in sorted(values):
        for root in eventloops(p):
            r, ex = ctx.refine(p, lambda: Loop(p, rd, v), root, args=[('arg', 'handler')], bad=lambda r, ex: len(r.did) + bool([1 for s, x in ex if s.auto[0] == 'read']) > 1, levels=(3, 8))
            ctx.need(r.n, 1, 'read calls of the event loop')
            did = dict(r.did)
            for s, x in ex:
                if s.auto[0] == 'read':
                    did.setdefault('stop', (p.defined[root].loc, s.path()))
            out[v] = next(iter(did)) if len(did) == 1 else 'mixed' if did else 'none'
            where[v] = did
            stray += r.stray
    memo[key] = (out, where, stray)
    return memo[key]


# ------------------------------------------------------------------ read loop
class Read(sim.Rule):
    """auto: what happened last: None, 'drained' (recv would block or failed), 'eof', ('done', v), 'malformed'"""
    follow_small = 200

    def __init__(self, p, values):
        self.p = p
        self.values = values
        self.rep = replies(p).fns
        self.ex = executors(p)
        self.rdfns = set(readers(p))
        self.opaque = tuple(self.rep) + tuple(self.ex)
        self.events = tuple(self.rep) + tuple(self.ex) + ('recv', 'recvfrom', 'recvmsg', 'read')
        self.hits = []
        self.nex = set()
        self.nrecv = set()
        self.force = {'*raw': self.errno}

    def initial(self):
        return None

    def errno(self, S, st, key):
        r = key[0]
        if type(r) is tuple and r[0] == 'call' and r[1] == '__errno_location' and st.auto == 'drained':
            return 11
        return None

    def on_phi(self, S, st, fn, rid, v, rng):
        if fn.name in self.rdfns and type(v) is int and -16 <= v <= 16:
            return (v, v, frozenset())
        if type(v) is tuple and rng[0] >= -16 and rng[1] <= 16 and fn.name in self.rdfns:
            return rng
        if type(v) is tuple and rng[2]:
            return (sim.NEG, sim.POS, rng[2])
        return None

    def over(self, st, ins, what):
        a = st.auto
        if a == 'eof':
            self.hits.append(('eof', '%s after the connection was closed' % what, ins.loc, st.path()))
        elif a == 'malformed':
            self.hits.append(('malformed', '%s after a malformed request was answered' % what, ins.loc, st.path()))
        elif type(a) is tuple:
            self.hits.append(('after', '%s although the previous request ended the connection or the server' % what, ins.loc, st.path()))
        else:
            return False
        st.dead = True
        return True

    def on_call(self, S, st, ins, name, args):
        if name in self.rep:
            st.auto = 'malformed'
            st.note('%s: a reply outside of a command: the request is malformed' % ins.loc)
            return [(st, 0), ]
        if name in self.ex:
            self.nex.add(ins.id)
            if self.over(st, ins, 'a request is executed'):
                return []
            out = []
            S.killroot(st, args[0], ('c', ins.fn.name, ins.id))
            for c in self.p.mod[name]:
                if not c.startswith('@'):
                    S.killclass(st, c, ('c', ins.fn.name, ins.id))
            for v, term in self.values:
                s = st.copy()
                s.auto = ('done', v) if term else None
                s.note('%s: %s returns %s' % (ins.loc, name, v))
                out.append((s, v))
            return out
        if name in ('recv', 'recvfrom', 'recvmsg', 'read'):
            self.nrecv.add(ins.id)
            if self.over(st, ins, 'data is read'):
                return []
            s, s2 = st.copy(), st.copy()
            s.auto = 'drained'
            s.note('%s: nothing more to receive' % ins.loc)
            s2.auto = 'eof'
            s2.note('%s: the peer closed the connection' % ins.loc)
            st.auto = None
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (1, 1 << 20, frozenset()))
            return [(st, t), (s, -1), (s2, 0)]
        return None


def statuses(p):
    """the return values of the status enumeration"""
    vals = {v for k, v in (p.enums or {}).items() if k.startswith('RESP_STATUS')}
    return vals


def returned(p, h):
    f = p.defined[h]
    out = {}
    for i in f.ins():
        if i.op == 'ret' and i.ops:
            for ch, x in [((), x) for x in lib.origins(p, f, i.ops[0])]:
                out[x[1] if x[0] == 'c' else '?'] = i.loc
    return out


@prop('P19', 'The event loop is simulated once for every status a read can return: it has to release the client, end the server or keep the client, the same on every path. The read loop is simulated with '
      'every outcome of recv and of the execution of a request: once a request returned a status that ends the connection or the server, the connection was closed by the peer, or a malformed request was '
      'answered, nothing more is received or executed and the loop returns a status that does the same; otherwise, as the sockets are watched edge-triggered, it is left only when nothing more can be received. '
      'Return values of the handlers are resolved: only STOP ends the server.')
def p19(ctx):
    p = ctx.prog()
    vals = statuses(p) | {0, 1}
    stop = {h for n, h in commands(p) if n.upper() == 'STOP'}
    rets = {}
    for e in executors(p) | set(dispatchers(p)):
        vals |= {v for v in returned(p, e) if isinstance(v, int)}
    for n, h in commands(p):
        for v, loc in returned(p, h).items():
            if isinstance(v, int):
                vals.add(v)
                rets.setdefault(v, (h, loc))
    react, where, stray = reactions(ctx, p, vals)
    for v in sorted(vals):
        d = where[v]
        if react[v] == 'mixed':
            k = 'none' if 'none' in d else sorted(d)[0]
            ctx.bad('loop:%d' % v, d[k][0], 'the event loop does not always do the same with a client whose read returned %d: %s' % (v, ', '.join(sorted(d))), d[k][1])
        else:
            ctx.ok('loop:%d' % v, 'read returned %d: %s' % (v, react[v]))
    for loc, what, path in stray[:1]:
        ctx.bad('released', loc, 'event loop: ' + what, path)
    ctx.ob('free' in react.values(), 'frees', '', 'a status makes the event loop release the client')
    # handlers
    ds = dispatchers(p)
    for n, h in commands(p):
        f = p.defined[h]
        bad = [(v, loc) for v, loc in returned(p, h).items() if isinstance(v, int) and react[v] != 'none' and not (h in stop and react[v] == 'stop')]
        ctx.ob(not bad, 'handler:' + n, bad[0][1] if bad else f.loc, '%s returns %s' % (h, bad[0][0] if bad else sorted(map(str, returned(p, h)))) + (', which makes the event loop %s' % {'free': 'disconnect the client', 'stop': 'stop the server', 'mixed': 'behave differently'}[react[bad[0][0]]] if bad else ''))
    # read loop
    edge = False
    for f in p.defined.values():
        for i in f.ins():
            if i.op == 'store' and (p.cls_of_ptr(f, i.ops[1]) or '').endswith('epoll_event.events'):
                c = lib.consts(p, f, i.ops[0])
                if c is None or any(x & (1 << 31) for x in c):
                    edge = True
    tot = 0
    for n in readers(p):
        f = p.defined[n]
        feas = {0, 1} | set(rets)
        for e in executors(p) | set(ds):
            feas |= {v for v in returned(p, e) if isinstance(v, int)}
        values = [(v, react[v] != 'none') for v in sorted(feas)]

        def badexits(ex):
            out = []
            for s, v in ex:
                a = s.auto
                rv = react.get(v) if isinstance(v, int) else None
                if rv is None and type(v) is tuple:
                    lo, hi, ne = _S[0].rng(s, v)
                    rs = {react.get(x, 'none') for x in range(max(lo, -2), min(hi, 40) + 1) if x not in ne} if hi - lo < 100 else {'none', 'free', 'stop'}
                    rv = rs.pop() if len(rs) == 1 else 'any'
                if a == 'eof' and rv != 'free':
                    out.append(('eof', 'the client stays although it closed the connection', s))
                elif a == 'malformed' and rv != 'free':
                    out.append(('malformed', 'the connection stays although a malformed request was received and not consumed', s))
                elif type(a) is tuple and rv != react[a[1]]:
                    out.append(('status', 'the status %d of the request is not returned' % a[1], s))
                elif a is None and rv not in ('free', 'stop') and edge:
                    out.append(('undrained', 'reading stops although there may be more to receive and no new event will come', s))
                elif a == 'drained' and rv in ('free', 'stop', 'any'):
                    out.append(('drained', 'a client without anything to receive is disconnected', s))
            return out
        _S = [None]

        def mk():
            r = Read(p, values)
            e = r.on_enter

            def on_enter(S, st, fn, a):
                _S[0] = S
                return e(S, st, fn, a)
            r.on_enter = on_enter
            return r
        r, ex = ctx.refine(p, mk, n, args=[('arg', 'fd')], bad=lambda r, ex: r.hits or badexits(ex))
        tot += len(r.nex)
        seen = set()
        for key, w, loc, path in r.hits:
            if key not in seen:
                seen.add(key)
                ctx.bad('%s:%s' % (key, n), loc, '%s: %s' % (n, w), path)
        for key, w, s in badexits(ex):
            if key not in seen:
                seen.add(key)
                ctx.bad('%s:%s' % (key, n), f.loc, '%s: %s' % (n, w), s.path())
        if not seen:
            ctx.ok('read:' + n, '%s: %d paths, %d receive sites, %d execution sites' % (n, len(ex), len(r.nrecv), len(r.nex)), f.loc)
    ctx.need(tot, 1, 'executions in the read loop')


# ------------------------------------------------------------------ removed namespaces
class Gone(sim.Rule):
    """a request of a session whose namespace was removed"""
    follow_small = 250

    def __init__(self, p):
        self.p = p
        self.rep = replies(p).fns
        self.hs = handlers(p)
        self.opaque = tuple(self.rep)
        self.events = tuple(self.rep) + tuple(self.hs) + ('send',)
        self.classes = (NS,)
        self.force = {NS: 0}
        self.hits = []

    def initial(self):
        return 0        # replies

    def on_call(self, S, st, ins, name, args):
        if name in self.rep:
            st.auto = min(2, st.auto + 1)
            return [(st, 0)]
        if name in self.hs and ins.target() is None:
            self.hits.append(('handler', 'a command runs although the namespace of the session was removed', ins.loc, st.path()))
            return []
        return None

    def on_null(self, S, st, ins):
        self.hits.append(('null', 'the removed namespace of the session is used', ins.loc, st.path()))
        return True


class Walk(sim.Rule):
    """a loop over all clients; done(U): the clients before U are treated. auto: (U, all)
    search: a loop over the namespaces; treated: compared with the namespace"""

    def __init__(self, p, attached, search=False):
        self.p = p
        self.attached = attached
        self.search = search
        self.LIST, self.LEN = (NSLIST, NSLEN) if search else (LIST, LISTLEN)
        self.classes = (NS,)
        self.hits = []
        self.n = 0

    def initial(self):
        return ((0, ()), False)

    def live(self, st):
        return frozenset().union(*[sim.leaves(x) for x, k in st.auto[0][1]]) if st.auto[0][1] else frozenset()

    @staticmethod
    def u(st):
        return st.auto[0][0], dict(st.auto[0][1])

    def setu(self, st, l, allof=False):
        st.auto = ((l[0], tuple(sorted(l[1].items(), key=repr))), allof)

    def index(self, S, st, elem):
        """the linear form of the index of a list element value"""
        if type(elem) is tuple and elem[0] == 'ld':
            a = sim.addr(elem[1], elem[2])
            l = lin(S, st, a)
            for x, k in list(l[1].items()):
                if type(x) is tuple and x[0] == 'ld' and x[3] == self.LIST and k == 1:
                    d = dict(l[1])
                    del d[x]
                    if l[0] % 8 == 0 and all(v % 8 == 0 for v in d.values()):
                        return l[0] // 8, {y: v // 8 for y, v in d.items()}
        return None

    def on_load(self, S, st, ins, key, cls, val):
        if self.search:
            i = self.index(S, st, val)
            if i is not None and cls != self.LIST:
                S.assume(st, 'eq', val, ('arg', 'ns'), False)
                if i == self.u(st):
                    self.n += 1
                    self.setu(st, (i[0] + 1, i[1]))
            return
        if type(val) is tuple and self.index(S, st, val) is not None and cls != LIST:
            S.addfact(st, val, (1, sim.POS, frozenset([0])))
        if cls == NS:
            S.assume(st, 'eq', val, ('arg', 'ns'), self.attached)

    def on_store(self, S, st, ins, key, cls, val):
        if cls != NS:
            return
        self.n += 1
        i = self.index(S, st, key[0])
        if not self.attached:
            self.hits.append(('others', 'a session of another namespace is detached', ins.loc, st.path()))
        elif S.truth_zero(st, val) is True and i is not None and i == self.u(st):
            st.note('%s: session detached' % ins.loc)
            self.setu(st, (i[0] + 1, i[1]))

    def on_backedge(self, S, st, fn, h):
        self.match = None
        if not self.attached:
            return
        for rid, v in S.loopvals.items():
            l = lin(S, st, v) if v is not None else None
            if l is not None and l == self.u(st):
                self.match = ('phi', fn.name, rid)
                return
        if self.listloop(fn, h):
            self.hits.append(('missed', 'an element of the list is not looked at' if self.search else 'a session that uses the namespace is not detached', fn.loc, st.path()))

    def listloop(self, fn, h):
        return any(i.op == 'load' and self.p.cls_of_ptr(fn, i.ops[0]) == self.LIST for b in fn.loops[h] for i in fn.blocks[b])

    def on_generalised(self, S, st, fn, h):
        if self.attached and self.match:
            self.setu(st, (0, {self.match: 1}))

    def on_branch(self, S, st, ins, cond, truth):
        if type(cond) is not tuple or cond[0] != 'cmp':
            return
        for a, b in ((cond[2], cond[3]), (cond[3], cond[2])):
            if type(b) is tuple and b[0] == 'ld' and b[3] == self.LEN and lin(S, st, a) == self.u(st):
                for q in ('ult', 'slt'):
                    e = S.evalcmp(st, q, a, b)
                    if e is False or S.evalcmp(st, 'eq', a, b) is True:
                        st.auto = (st.auto[0], True)


def detachers(p):
    """functions with a namespace argument that clear the namespace of sessions"""
    out = []
    for n, f in p.defined.items():
        dp = f.j.get('diparams') or []
        if len(dp) == 1 and 'namespace_t*' in dp[0] and any(i.op == 'store' and p.cls_of_ptr(f, i.ops[1]) == NS and lib.consts(p, f, i.ops[0]) == {0} for i in f.ins()):
            out.append(n)
    return out


def nsfree(p):
    """{function: parameter} that releases a namespace object"""
    out = {}
    for n, f in p.defined.items():
        dp = f.j.get('diparams') or []
        for i in f.calls():
            if i.target() == 'free' and i.ops[0][0] == 'a' and i.ops[0][1] < len(dp) and 'namespace_t*' in dp[i.ops[0][1]]:
                out[n] = i.ops[0][1]
    return out


class Remove(sim.Rule):
    """auto: (detached namespaces, removed from the list)"""
    follow_small = 150

    def __init__(self, p, det, fre):
        self.p, self.det, self.fre = p, set(det), fre
        self.rep = replies(p).fns
        self.opaque = tuple(self.det) + tuple(fre) + tuple(self.rep)
        self.events = self.opaque
        self.classes = (NS,)
        self.hits = []
        self.n = 0
        self.kick = set()
        self.force = {NSLEN: lambda S, st, k: self.pos(S, st)}

    def pos(self, S, st):
        t = ('arg', 'number of namespaces')
        S.addfact(st, t, (1, 1 << 32, frozenset()))
        return t

    @staticmethod
    def elem(r):
        return type(r) is tuple and (r[0] == 'ld' and r[3] == NSLIST or r[0] == '[]' and type(r[1]) is tuple and r[1][0] == 'ld' and r[1][3] == NSLIST)

    def on_load(self, S, st, ins, key, cls, val):
        # the slot looked at after the sessions were detached is the one of the namespace
        if st.auto[0] is not None and self.elem(key[0]) and cls in (None, '*raw') and type(val) is tuple:
            S.assume(st, 'eq', val, st.auto[0], True)

    def initial(self):
        return (None, None, None)     # detached, is another one than the caller's, slot cleared

    def live(self, st):
        return frozenset().union(*[sim.leaves(x) for x in st.auto if type(x) is tuple]) if any(type(x) is tuple for x in st.auto) else frozenset()

    def same(self, S, st, a, b):
        return a == b or S.evalcmp(st, 'eq', a, b) is True

    def on_call(self, S, st, ins, name, args):
        if name in self.det:
            own = S.load(st, sim.addr(('arg', 'client'), S.p.field('redis_client_t', 'ns')['off']), NS)
            ok = S.evalcmp(st, 'eq', own, args[0]) is False
            st.auto = (args[0], ok, st.auto[2])
            st.note('%s: sessions are detached' % ins.loc)
            return None
        if name in self.fre:
            self.n += 1
            x = args[self.fre[name]]
            if type(x) is tuple and x[0] == 'call' and x[1] in ('malloc', 'calloc'):
                st.dead = True      # not published yet
                return []
            if st.auto[0] is None or not self.same(S, st, st.auto[0], x):
                self.hits.append(('order', 'a namespace is released although sessions were not detached from it', ins.loc, st.path()))
            elif not st.auto[1]:
                self.hits.append(('own', 'the namespace in use by the calling session is released', ins.loc, st.path()))
            if st.auto[2] is None or not self.same(S, st, st.auto[2], x):
                self.hits.append(('slot', 'a released namespace stays in the list of namespaces', ins.loc, st.path()))
            st.dead = True
            return []
        if name in self.rep:
            return [(st, 0)]
        return None

    def on_store(self, S, st, ins, key, cls, val):
        if cls == NS and S.truth_zero(st, val) is not True:
            st.auto = (None, None) + st.auto[2:]
        r = key[0]
        if S.truth_zero(st, val) is not True or st.auto[0] is None or type(r) is not tuple:
            return
        if r == st.auto[2]:
            return
        if self.elem(r):
            old = S.load(st, sim.addr(r, key[1]), None)
            if self.same(S, st, old, st.auto[0]):
                st.auto = st.auto[:2] + (st.auto[0],)
                st.note('%s: slot cleared' % ins.loc)
                self.kick.add(ins.fn.name)
                return
        if r[0] == '[]' and type(r[1]) is tuple and r[1][0] == 'ld' and r[1][3] == NSLIST:
            i = r[2]
            while type(i) is tuple and i[0] in ('zext', 'trunc', 'sext'):
                i = i[2]
            if type(i) is tuple and i[0] == 'ld' and i[3] == 'namespace_t.idlist' and i[2] == S.p.field('namespace_t', 'idlist')['off']:
                st.auto = st.auto[:2] + (i[1],)
                st.note('%s: slot cleared' % ins.loc)


class Slot(sim.Rule):
    """namespace_t.idlist is the index of the slot that holds the namespace"""
    follow_small = 100
    classes = ('namespace_t.idlist',)

    def __init__(self, p):
        self.p = p
        self.hits = []

    def initial(self):
        return (None, None, None)   # namespace, index, slot

    def live(self, st):
        return frozenset().union(*[sim.leaves(x) for x in st.auto if type(x) is tuple]) if any(type(x) is tuple for x in st.auto) else frozenset()

    def on_store(self, S, st, ins, key, cls, val):
        r = key[0]
        if cls == 'namespace_t.idlist':
            st.auto = (r, val, st.auto[2])
        elif type(r) is tuple and r[0] == '[]' and type(r[1]) is tuple and cls in (None, '*raw') and r[3] == 8 and (repr(r[1]).find('.namespaces') >= 0 or r[1][0] == 'call' and r[1][1] == 'realloc') and S.truth_zero(st, val) is not True:
            st.auto = (st.auto[0], st.auto[1], (r[2], val))


@prop('P18', 'Request execution is simulated for a session whose namespace pointer is null: no command runs, the pointer is not used, one reply is queued and the status returned makes the event loop release '
      'the client. The function that detaches sessions is proved by induction over the list of clients (start, step, end, every attached session cleared, no other). Every command handler that releases a namespace has detached '
      'the sessions of that namespace before, refuses the namespace of the caller, and has cleared its slot of the list.')
def p18(ctx):
    p = ctx.prog()
    vals = statuses(p) | {0, 1}
    react, where, stray = reactions(ctx, p, vals)
    for n in sorted(executors(p)):
        f = p.defined[n]
        args = [('arg', 'client') for t in (f.j.get('diparams') or [''])]
        badv = lambda ex: [(s, v) for s, v in ex if not (isinstance(v, int) and react.get(v) == 'free')]
        # only the paths that reach the dispatcher count: a request of a replication that is dropped does not
        r, ex = ctx.refine(p, lambda: Gone(p), n, args=args, bad=lambda r, ex: r.hits or [1 for s, v in ex if s.auto == 0 and False] or [1 for s, v in badv(ex) if s.auto])
        for key, w, loc, path in r.hits[:2]:
            ctx.bad('%s:%s' % (key, n), loc, '%s: %s' % (n, w), path)
        b = [x for x in badv(ex) if x[0].auto]
        if b:
            ctx.bad('status:' + n, f.loc, '%s: the session is told that its namespace is gone but is not disconnected' % n, b[0][0].path())
        for d in dispatchers(p):
            r2, ex2 = ctx.refine(p, lambda: Gone(p), d, args=[('arg', 'client')], bad=lambda r, ex: r.hits or [1 for s, v in ex if s.auto != 1] or badv(ex))
            silent = [s for s, v in ex2 if s.auto != 1]
            ctx.ob(not silent, 'reply:' + d, p.defined[d].loc, '%s: one reply on each of %d paths' % (d, len(ex2)) if not silent else '%s: not exactly one reply to a session whose namespace was removed' % d, silent and silent[0].path())
            b = badv(ex2)
            ctx.ob(not b, 'status:' + d, p.defined[d].loc, '%s: returns a status that releases the client' % d if not b else '%s: a session whose namespace was removed is not disconnected' % d, b and b[0][0].path())
            for key, w, loc, path in r2.hits[:2]:
                ctx.bad('%s:%s' % (key, d), loc, '%s: %s' % (d, w), path)
        if not r.hits and not b:
            ctx.ok('request:' + n, '%s without a namespace: %d paths' % (n, len(ex)), f.loc)
    det = detachers(p)
    proved = []
    for n in det:
        f = p.defined[n]
        r, ex = ctx.refine(p, lambda: Walk(p, True), n, args=[('arg', 'ns')], bad=lambda r, ex: r.hits or not all(s.auto[1] for s, v in ex) or not ex)
        some = [s for s, v in ex if not s.auto[1]]
        r2, ex2 = ctx.refine(p, lambda: Walk(p, False), n, args=[('arg', 'ns')])
        for key, w, loc, path in (r.hits + r2.hits)[:2]:
            ctx.bad('%s:%s' % (key, n), loc, '%s: %s' % (n, w), path)
        if some and not r.hits:
            ctx.bad('end:' + n, f.loc, '%s: ends before all sessions were looked at' % n, some[0].path())
        if not some and not r.hits and not r2.hits:
            ctx.ok('detach:' + n, '%s: every session of the namespace, and no other, is detached' % n, f.loc)
    ctx.need(len(det), 1, 'functions that detach sessions')
    fre = nsfree(p)
    ctx.need(len(fre), 1, 'functions that release a namespace')
    tot = 0
    for name, h in commands(p):
        if not (below(p, h) & set(fre)) or h in fre:
            continue
        r, ex = ctx.refine(p, lambda: Remove(p, det, fre), h)
        hits = list(r.hits)
        for kf in sorted(r.kick):
            g = p.defined[kf]
            if not g.loops:
                continue
            dp = g.j.get('diparams') or []
            r3, ex3 = ctx.refine(p, lambda: Walk(p, True, True), kf, args=[('arg', 'ns') if 'namespace_t*' in t else ('arg', 'a%d' % k) for k, t in enumerate(dp)],
                                 bad=lambda r, ex: r.hits or not all(s.auto[1] for s, v in ex))
            if r3.hits or not all(s.auto[1] for s, v in ex3):
                ctx.bad('search:' + kf, g.loc, '%s: does not look at every slot for the namespace that is removed' % kf, r3.hits and r3.hits[0][3])
            else:
                ctx.ok('search:' + kf, '%s looks at every slot until the namespace is found' % kf, g.loc)
        tot += r.n
        seen = set()
        for key, w, loc, path in hits:
            if key not in seen:
                seen.add(key)
                ctx.bad('%s:%s' % (key, name), loc, '%s: %s' % (name, w), path)
        if not hits:
            ctx.ok('remove:' + name, '%s: sessions detached and slot cleared before each release (%d)' % (name, r.n), p.defined[h].loc)
    ctx.need(tot, 1, 'releases of a namespace by commands')
    # the slot index
    k = 0
    for n, f in sorted(p.defined.items()):
        if not any(i.op == 'store' and p.cls_of_ptr(f, i.ops[1]) == 'namespace_t.idlist' for i in f.ins()):
            continue
        bad = lambda ex: [s for s, v in ex if s.auto[0] is not None and (s.auto[2] is None or strip(s.auto[2][0]) != strip(s.auto[1]) or s.auto[2][1] != s.auto[0])]
        r, ex = ctx.refine(p, lambda: Slot(p), n, args=[('arg', 'a%d' % j) for j in range(f.nparams)], bad=lambda r, ex: bad(ex))
        ex = [(s, v) for s, v in ex if s.auto[0] is not None]
        # values set while the object is initialised (constant) are overwritten when it is pushed
        ex = [(s, v) for s, v in ex if not (isinstance(s.auto[1], int) and s.auto[2] is None)]
        k += len(ex)
        b = bad(ex)
        ctx.ob(not b, 'slot:' + n, f.loc, '%s: the recorded slot is the one that holds the namespace' % n, b and b[0].path())
    ctx.need(k, 1, 'stores of the slot of a namespace')


def strip(v):
    while type(v) is tuple and v[0] in ('zext', 'trunc', 'sext'):
        v = v[2]
    return v
