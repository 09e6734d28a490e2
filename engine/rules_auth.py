"""Authentication: what a session can become with a wrong password, and the single use of a challenge."""
import lib
import sim
from lib import commands, replies, strval
from registry import prop

SECRETS = ('namespace_t.password', 'zdbd_settings_t.adminpwd')
EXACT = {'strcmp': None, 'memcmp': 2, 'strncmp': 2, 'bcmp': 2, 'timingsafe_bcmp': 2, 'CRYPTO_memcmp': 2}
LOOSE = {'strcasecmp', 'strncasecmp', 'strcoll', 'strstr', 'strcasestr', 'fnmatch'}


class Auth(sim.Rule):
    """compares of a value with a stored secret (or a digest of one) have the given outcome;
    a compare that does not look at the whole of both strings may match a wrong password"""

    def __init__(self, p, force, match=False):
        self.p = p
        self.force = dict(force)
        self.match = match
        self.rep = replies(p).fns
        self.opaque = tuple(self.rep)
        self.events = tuple(self.rep) + tuple(EXACT) + ('free',)
        self.classes = ('redis_client_t.admin', 'redis_client_t.ns', 'redis_client_t.writable', 'redis_client_t.nonce', 'redis_client_t.master', 'redis_client_t.mirror')
        self.hits = []
        self.ncmp = set()
        self.ndig = set()
        self.loose = []

    def initial(self):
        return (0, 0, 0, 0, 0)   # digest compared, admin granted, ns stored, error replied, secret of the current namespace

    def secret(self, v):
        if type(v) is not tuple:
            return False
        if v[0] == 'ld' and v[3] in SECRETS:
            return True
        return v[0] == 'call' and str(v[1]).startswith('@digest') or (v[0] == 'old' and self.secret(v[1]))

    def other(self, st, ins, vals):
        """the secret belongs to the namespace the session already uses"""
        for v in vals:
            if type(v) is tuple and v[0] == 'ld' and v[3] == SECRETS[0]:
                r = v[1]
                cur = type(r) is tuple and r[0] == 'ld' and r[3] == 'redis_client_t.ns'
                st.auto = st.auto[:4] + (1 if cur else 0,)

    def lengths(self, S, st, n, sec):
        """the compare length equals the length of the secret and the length of the input was checked to be the same"""
        for t, f in st.facts.items():
            if t[0] == 'cmp' and t[1] == 'eq' and f[0] == 1:
                a, b = t[2], t[3]
                for x, y in ((a, b), (b, a)):
                    if type(x) is tuple and x[0] == 'call' and x[1] == 'strlen' and repr(y).find("'resp_object_t.length'") >= 0:
                        if n in (x, y) or S.evalcmp(st, 'eq', n, x):
                            return True
        return False

    def on_call(self, S, st, ins, name, args):
        if name in self.rep:
            s = strval(S, args[1])
            if s is not None and s.startswith('-'):
                st.auto = st.auto[:3] + (1,) + st.auto[4:]
            return [(st, 0)]
        f = self.p.defined.get(name)
        if f is not None and any(self.secret(a) for a in args) and (f.j.get('ret') or ins.ty) == 'ptr':
            # a digest of the secret
            self.other(st, ins, args)
            self.ndig.add((ins.fn.name, ins.id))
            out = []
            s0 = st.copy()
            out.append((s0, 0))
            t = S.fresh(st, ('call', '@digest', ins.fn.name, ins.id))
            S.addfact(st, t, (1, sim.POS, frozenset([0])))
            out.append((st, t))
            return out
        if name in EXACT or name in LOOSE:
            sec = [a for a in args[:2] if self.secret(a)]
            if not sec:
                return None
            self.ncmp.add((ins.fn.name, ins.id))
            if any(type(a) is tuple and a[0] in ('call', 'old') for a in sec):
                st.auto = (1,) + st.auto[1:]
            self.other(st, ins, sec)
            s0 = st.copy()
            t = lib.fresh(S, st, ins, name)
            s0.note('%s: the password matches' % ins.loc)
            if self.match:
                return [(s0, 0)]
            S.addfact(st, t, (sim.NEG, sim.POS, frozenset([0])))
            st.note('%s: the password does not match' % ins.loc)
            out = [(st, t)]
            whole = name == 'strcmp' or (name in EXACT and self.lengths(S, st, args[EXACT[name]], sec[0]))
            if not whole:
                s0.note('%s: %s compares only a part, a wrong password can match' % (ins.loc, name))
                out.append((s0, 0))
            return out
        return None

    def on_store(self, S, st, ins, key, cls, val):
        if cls == 'redis_client_t.admin' and S.truth_zero(st, val) is not True:
            st.auto = (st.auto[0], 1) + st.auto[2:]
            st.note('%s: administrator rights granted' % ins.loc)
        if cls == 'redis_client_t.ns' and S.truth_zero(st, val) is not True:
            st.auto = st.auto[:2] + (1,) + st.auto[3:]
            st.note('%s: namespace selected' % ins.loc)


CL = ('arg', 'client')
F = lambda S, st, cls: S.load(st, sim.addr(CL, S.p.field('redis_client_t', cls)['off']), 'redis_client_t.' + cls)


def scen(ctx, p, key, h, text, mk, bad, good=None):
    """bad(S?, state) -> text of the violation or None"""
    r, ex = ctx.refine(p, mk, h, bad=lambda r, ex: any(bad(s) for s, v in ex))
    b = [(s, bad(s)) for s, v in ex if bad(s)]
    if b:
        ctx.bad(key, p.defined[h].loc, '%s: %s' % (text, b[0][1]), b[0][0].path())
    else:
        ctx.ok(key, '%s: %d paths, %d compares with the secret' % (text, len(ex), len(r.ncmp)), p.defined[h].loc)
    return r, ex


class Dummy:
    pass


@prop('P11', 'Property simulation of AUTH and SELECT with every comparison against a stored password (or the digest of one and the challenge) assumed to fail; '
      'compares that do not cover both strings completely may also succeed. No path may grant administrator rights, enter a private protected namespace, or enter a public protected one '
      'with write access. With the comparison assumed to succeed the challenge must be gone at exit, and without challenge nothing is granted. No other command grants any of it. '
      'The constructor of a session takes the initial rights from the settings; the challenge comes from the kernel generator.')
def p11(ctx):
    p = ctx.prog()
    S0 = sim.Sim(p, sim.Rule())

    def get(st, field):
        off = p.field('redis_client_t', field)['off']
        return S0.load(st, sim.addr(CL, off), 'redis_client_t.' + field)

    NN = lambda c: {c: lambda S, st, key: nonnull(S, st, key, c)}

    def nonnull(S, st, key, c):
        t = ('ld', key[0], key[1], c, st.kill.get(c, 0))
        S.addfact(st, t, (1, sim.POS, frozenset([0])))
        return t
    auth, select = lib.handler(p, 'AUTH'), lib.handler(p, 'SELECT')
    ADM, NSP = NN('zdbd_settings_t.adminpwd'), NN('namespace_t.password')
    # AUTH
    r, _ = scen(ctx, p, 'auth:wrong', auth, 'AUTH with a wrong password', lambda: Auth(p, ADM), lambda s: 'administrator rights are granted' if s.auto[1] else None)
    ctx.need(len(r.ncmp), 1, 'compares with the administrator password')
    ctx.need(len(r.ndig), 1, 'digests of the administrator password')
    r, ex = scen(ctx, p, 'auth:once', auth, 'AUTH SECURE', lambda: Auth(p, ADM, True), lambda s: 'the challenge stays usable' if s.auto[0] and S0.truth_zero(s, get(s, 'nonce')) is not True else None)
    if not any(s.auto[1] for s, v in ex):
        ctx.broken('AUTH grants nothing with the right password: the rule is blind')
    scen(ctx, p, 'auth:once-wrong', auth, 'AUTH SECURE with a wrong digest', lambda: Auth(p, ADM), lambda s: 'the challenge stays usable' if s.auto[0] and S0.truth_zero(s, get(s, 'nonce')) is not True else None)
    scen(ctx, p, 'auth:challenge', auth, 'AUTH SECURE without challenge', lambda: Auth(p, dict(ADM, **{'redis_client_t.nonce': 0, 'resp_request_t.argc': 3}), True),
         lambda s: 'administrator rights are granted' if s.auto[1] else None)
    # SELECT
    r, _ = scen(ctx, p, 'select:private', select, 'SELECT of a private namespace with a wrong or no password', lambda: Auth(p, dict(NSP, **{'namespace_t.public': 0})),
                lambda s: 'the namespace is entered' if s.auto[2] else None)
    ctx.need(len(r.ncmp), 2, 'compares with a namespace password')
    ctx.need(len(r.ndig), 1, 'digests of a namespace password')
    r, ex = scen(ctx, p, 'select:public', select, 'SELECT of a public protected namespace with a wrong or no password', lambda: Auth(p, dict(NSP, **{'namespace_t.public': 1})),
                 lambda s: 'the namespace is entered with write access' if s.auto[2] and S0.truth_zero(s, get(s, 'writable')) is not True else None)
    if not any(s.auto[2] for s, v in ex):
        ctx.broken('SELECT never enters a public namespace: the rule is blind')
    scen(ctx, p, 'select:wrong-public', select, 'SELECT of a public protected namespace with an error reply', lambda: Auth(p, dict(NSP, **{'namespace_t.public': 1})),
         lambda s: 'the namespace is entered although an error was replied' if s.auto[2] and s.auto[3] else None)
    r, ex = scen(ctx, p, 'select:once', select, 'SELECT SECURE', lambda: Auth(p, NSP, True), lambda s: 'the challenge stays usable' if s.auto[0] and S0.truth_zero(s, get(s, 'nonce')) is not True else None)
    bad = [s for s, v in ex if s.auto[2] and s.auto[4]]
    ctx.ob(not bad, 'select:which', p.defined[select].loc, 'the password %s' % ('compared is that of the namespace in use and not of the selected one' if bad else 'compared is that of the selected namespace'), bad[0].path() if bad else None)
    if not any(s.auto[2] for s, v in ex):
        ctx.broken('SELECT enters nothing with the right password: the rule is blind')
    scen(ctx, p, 'select:once-wrong', select, 'SELECT SECURE with a wrong digest', lambda: Auth(p, NSP), lambda s: 'the challenge stays usable' if s.auto[0] and S0.truth_zero(s, get(s, 'nonce')) is not True else None)
    scen(ctx, p, 'select:challenge', select, 'SELECT SECURE without challenge', lambda: Auth(p, dict(NSP, **{'redis_client_t.nonce': 0, 'resp_request_t.argc': 4}), True),
         lambda s: 'the namespace is entered' if s.auto[2] else None)
    # nobody else
    from rules_gates import Gate
    seen = set()
    n = 0
    for name, h in commands(p):
        if h in seen or h in (auth, select):
            continue
        seen.add(h)
        n += 1
        r, ex = ctx.refine(p, lambda: Grant(p), h)
        if r.hits:
            ctx.bad('grant:' + name, r.hits[0][2], 'command %s %s' % (name, r.hits[0][1]), r.hits[0][3])
        else:
            ctx.ok('grant:' + name, 'command %s grants no session rights' % name, p.defined[h].loc)
    ctx.need(n, 25, 'other commands')
    # new sessions
    new = [n for n, f in p.defined.items() if stores(p, f, 'redis_client_t.admin') and stores(p, f, 'redis_client_t.fd')]
    ctx.need(len(new), 1, 'session constructors')
    for c in new:
        for key, force, fld, text in (('admin', ADM, 'admin', 'a new session is administrator although a password is set'),
                                      ('protect', {'zdbd_settings_t.protect': 1}, 'writable', 'a new session of a protected server may write to the default namespace'),
                                      ('mirror', {}, 'mirror', 'a new session is a mirror'), ('master', {}, 'master', 'a new session is a master'), ('nonce', {}, 'nonce', 'a new session owns a challenge')):
            r, ex = ctx.refine(p, lambda: NewSession(p, force, fld), c, args=[('arg', 'fd')])
            if r.hits:
                ctx.bad('new-session:' + key, r.hits[0][2], text, r.hits[0][3])
            else:
                ctx.ob(r.n > 0, 'new-session:' + key, p.defined[c].loc, 'session constructor: %s set from the settings' % fld)
    # the challenge
    gens = [n for n in p.defined for i in p.defined[n].calls() if i.target() in ('getentropy', 'getrandom')]
    src = set()
    for f in p.defined.values():
        for i in f.ins():
            if i.op == 'store' and p.cls_of_ptr(f, i.ops[1]) == 'redis_client_t.nonce':
                for x in values(p, f, i.ops[0]):
                    if x[0] == 'c' and x[1] == 0:
                        continue
                    src.add(x[1] if x[0] == 'fn' else '?')
    ctx.need(len(src), 1, 'sources of the challenge')
    for s in sorted(src):
        f = p.defined.get(s)
        if not f:
            ctx.bad('challenge', '', 'a challenge is not produced by a function of the program')
            continue
        r = Random(p)
        S, ex = ctx.sim(p, r, s, [])
        bad = [st for st, v in ex if S.truth_zero(st, v) is not True and not st.auto]
        bad += [st for st in r.weak]
        ctx.ob(not bad, 'challenge:' + s, f.loc, 'the challenge %s' % ('is built although the kernel generator was not asked or failed' if bad else 'is made from getentropy/getrandom output only, failure checked'), bad[0].path() if bad else None)


def values(p, f, o):
    """as origins, but stops at calls of defined functions"""
    if o[0] in ('c', 'n'):
        return [('c', o[1] if o[0] == 'c' else 0)]
    if o[0] == 'i':
        d = f.byid[o[1]]
        if d.op == 'call':
            return [('fn', d.target())]
        if d.op == 'phi':
            return [y for x, _ in d.ops for y in (values(p, f, x) if x != o else [])]
        if d.op == 'select':
            return values(p, f, d.ops[1]) + values(p, f, d.ops[2])
    return [('?', o)]


def stores(p, f, cls):
    return any(i.op == 'store' and p.cls_of_ptr(f, i.ops[1]) == cls for i in f.ins())


class Random(sim.Rule):
    """auto: the kernel generator filled the buffer"""
    events = ('getentropy', 'getrandom', 'rand', 'random', 'time', 'gettimeofday', 'clock_gettime', 'lrand48')

    def __init__(self, p):
        self.weak = []

    def initial(self):
        return 0

    def on_call(self, S, st, ins, name, args):
        if name == 'getentropy':
            s = st.copy()
            S.killroot(st, args[0], ('c', ins.fn.name, ins.id))
            st.auto = 1
            s.note('%s: %s fails' % (ins.loc, name))
            return [(st, 0), (s, -1)]
        if name == 'getrandom':
            s, s2 = st.copy(), st.copy()
            S.killroot(st, args[0], ('c', ins.fn.name, ins.id))
            st.auto = 1
            t = lib.fresh(S, s2, ins, name, '~short')
            S.addfact(s2, t, (0, sim.POS, frozenset()))
            if not S.assume(s2, 'slt', t, args[1], True):
                return [(st, args[1]), (s, -1)]
            return [(st, args[1]), (s, -1), (s2, t)]
        if name in self.events:
            st.note('%s: %s is not a generator' % (ins.loc, name))
            self.weak.append(st.copy())
        return None


class Grant(sim.Rule):
    """no command but AUTH and SELECT grants rights or enters a namespace"""
    classes = ('redis_client_t.admin', 'redis_client_t.writable', 'redis_client_t.ns')
    force = {'redis_client_t.admin': 0}

    def __init__(self, p):
        self.opaque = tuple(replies(p).fns)
        self.hits = []

    def initial(self):
        return 0

    def on_store(self, S, st, ins, key, cls, val):
        if cls in self.classes and S.truth_zero(st, val) is not True:
            self.hits.append((cls, 'stores %s' % cls, ins.loc, st.path()))
            st.dead = True


class NewSession(sim.Rule):
    def __init__(self, p, force, fld):
        self.classes = ('redis_client_t.' + fld,)
        self.force = force
        self.hits = []
        self.n = 0

    def initial(self):
        return 0

    def on_store(self, S, st, ins, key, cls, val):
        if cls == self.classes[0]:
            self.n += 1
            if S.truth_zero(st, val) is not True:
                self.hits.append((cls, 'x', ins.loc, st.path()))
