"""Shared vocabulary of the rules: which program, which command tables, what a
descriptor refers to, what a reply is, how obligations and violations are kept."""
import json
import os
import time
from collections import Counter, defaultdict
import flow
import prog
import sim
from front import AnalysisBroken

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

PATH_FIELDS = {'data_root_t.datadir': 'pD', 'data_root_t.datafile': 'pD',
               'index_root_t.indexdir': 'pI', 'index_root_t.indexfile': 'pI',
               'namespace_t.indexpath': 'pN', 'namespace_t.datapath': 'pN',
               'redis_client_t.fd': 'S'}
WRITERS = {'write', 'pwrite', 'pwrite64', 'writev', 'pwritev', 'sendfile', 'copy_file_range', 'fwrite', 'dprintf'}
SYNCS = {'fsync', 'fdatasync', 'syncfs', 'sync_file_range'}
REMOVERS = {'unlink', 'unlinkat', 'remove', 'rmdir', 'nftw', 'ftw', 'rename', 'renameat', 'truncate', 'ftruncate', 'ftruncate64'}
MAKERS = {'mkdir', 'mkdirat', 'symlink', 'link', 'mknod'}
LETHAL = ('exit', 'abort', '_exit')


def open_label(ls):
    for a, b in (('pD', 'D'), ('pI', 'I'), ('pN', 'N')):
        if a in ls:
            return b
    return None


_flows = {}


def fileflow(p):
    k = (p.name, p.config)
    if k not in _flows:
        _flows[k] = flow.Flow(p, PATH_FIELDS, open_label)
    return _flows[k]


def fdkind(p, ins, n=0):
    """which kind of file the descriptor operand n of a call refers to: D(ata) I(ndex) N(amespace descriptor) S(ocket) or ''"""
    ls = fileflow(p).of(ins.fn, ins.ops[n])
    return ''.join(x for x in 'DINS' if x in ls)


def pathkind(p, ins, n=0):
    ls = fileflow(p).of(ins.fn, ins.ops[n])
    return open_label(ls) or ''


def origins(p, fn, o, seen=None):
    """where a value comes from: ('c', n) ('load', class, ins) ('call', ins of an external) ('arg', fn, n) ('?', x); follows phi, casts,
    and the return values of defined functions"""
    seen = seen if seen is not None else set()
    k = (fn.name, repr(o))
    if k in seen:
        return []
    seen.add(k)
    if o[0] == 'c':
        return [('c', o[1])]
    if o[0] == 'n':
        return [('c', 0)]
    if o[0] == 'a':
        return [('arg', fn, o[1])]
    if o[0] == 'i':
        d = fn.byid[o[1]]
        out = []
        if d.op == 'phi':
            for x, _ in d.ops:
                out += origins(p, fn, x, seen)
            return out
        if d.op == 'select':
            return origins(p, fn, d.ops[1], seen) + origins(p, fn, d.ops[2], seen)
        if d.op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze'):
            return origins(p, fn, d.ops[0], seen)
        if d.op == 'load':
            c = p.cls_of_ptr(fn, d.ops[0])
            if c:
                return [('load', c, d)]
            if d.ops[0][0] == 'i' and fn.byid[d.ops[0][1]].op == 'alloca':
                for i in fn.ins():
                    if i.op == 'store' and i.ops[1] == d.ops[0]:
                        out += origins(p, fn, i.ops[0], seen)
                return out or [('?', d)]
            return [('?', d)]
        if d.op == 'call':
            for t in p.targets(d):
                if t in p.defined:
                    for i in p.defined[t].ins():
                        if i.op == 'ret' and i.ops:
                            for x in origins(p, p.defined[t], i.ops[0], seen):
                                if x[0] == 'arg' and x[1] is p.defined[t] and x[2] < len(d.ops):
                                    out += origins(p, fn, d.ops[x[2]], seen)
                                else:
                                    out.append(x)
                else:
                    out.append(('call', d))
            return out
        return [('?', d)]
    return [('?', o)]


def deep_origins(p, fn, o, chain=(), depth=6):
    """as origins, with arguments followed to every caller; yields (call chain, origin)"""
    out = []
    chain = (fn.name,) + chain
    for x in origins(p, fn, o):
        if x[0] == 'arg' and x[1] is fn and depth:
            ss = p.sites.get(fn.name, [])
            if not ss:
                out.append((chain, x))
            for i in ss:
                if x[2] < len(i.ops):
                    out += deep_origins(p, i.fn, i.ops[x[2]], chain, depth - 1)
        else:
            out.append((chain, x))
    return out


def consts(p, fn, o):
    """the set of constants a value can be, None when it can be something else"""
    r = set()
    for ch, x in deep_origins(p, fn, o):
        if x[0] != 'c':
            return None
        r.add(x[1])
    return r


class Ctx:
    def __init__(self, prop, tier, config):
        self.prop, self.tier, self.config = prop, tier, config
        self.obs = []
        self.stats = Counter()
        self.notes = []
        self.deferred = []
        self.t0 = time.time()
        self.fine = 0        # seconds spent in refinements
        self.alarms = 0

    def prog(self, name='zdb'):
        p = prog.load(name, self.config)
        self.stats['functions of %s' % name] = len(p.defined)
        return p

    def ok(self, key, text='', where=''):
        self.obs.append((key, True, where, text, None))

    def bad(self, key, where, text, trail=None):
        self.obs.append((key, False, where, text, trail))

    def ob(self, cond, key, where, text, trail=None):
        (self.ok(key, text, where) if cond else self.bad(key, where, text, trail))
        return cond

    def need(self, n, least, what):
        self.stats[what] += n
        if n < least:
            self.broken('%s: %d %s found, at least %d expected: the rule has lost its anchor' % (self.prop, n, what, least))

    def broken(self, why):
        """the rule saw nothing to judge: the run is worthless unless it shows a violation (decided at its end)"""
        self.deferred.append(why)

    def sim(self, p, rule, fname, args, auto=None, setup=None, **kw):
        S = sim.Sim(p, rule, **kw)
        ex = S.run(fname, args, auto, setup)
        self.stats['functions followed'] = max(self.stats['functions followed'], len(S.visited_fns))
        self.stats['abstract states'] += S.nstates
        self.stats['instructions interpreted'] += S.steps
        return S, ex


    FINE = 300   # seconds for all refinements of a check

    def refine(self, p, mk, fname, args=None, bad=None, levels=(2, 5, 12), auto=None, setup=None, **kw):
        """simulate with coarse joins first; joins only add behaviour, so a clean coarse run decides.
        An alarm is kept only when the finest run that can be finished still shows it."""
        hits = bad is None
        bad = bad or (lambda r, ex: r.hits)
        args = args if args is not None else [('arg', 'client')]
        last = None
        for n, mg in enumerate(levels):
            r = mk()
            S = sim.Sim(p, r, maxgroup=mg, **kw)
            fine = last is not None
            if fine:
                S.deadline = time.time() + (10 if self.alarms else max(20, (self.FINE - self.fine) / 2))
                if hits:
                    S.stop_hits = 3
            t0 = time.time()
            try:
                try:
                    ex = S.run(fname, args, auto, setup)
                finally:
                    if fine:
                        self.fine += time.time() - t0
            except sim.Enough:
                ex = last[1]
            except sim.BudgetExceeded:
                if not fine:
                    raise
                if not (hits and r.hits):
                    r, ex = last
                self.notes.append('%s: refinement %d of %s did not finish, the verdict of the coarser run stands' % (self.prop, n, fname))
                self.count(S)
                self.alarms += 1
                return r, ex
            self.count(S)
            if not bad(r, ex):
                break
            last = (r, ex)
            self.stats['refinements'] += 1
        else:
            self.alarms += 1
        return r, ex

    def count(self, S):
        self.stats['functions followed'] = max(self.stats['functions followed'], len(S.visited_fns))
        self.stats['abstract states'] += S.nstates
        self.stats['instructions interpreted'] += S.steps


def loaders(p, fields):
    """the defined functions that load one of the field classes (prefixes)"""
    k = ('loaders', fields)
    if k not in p.__dict__.setdefault('_memo', {}):
        p._memo[k] = tuple(n for n, f in p.defined.items()
                           if any(i.op == 'load' and (p.cls_of_ptr(f, i.ops[0]) or '').startswith(fields) for i in f.ins()))
    return p._memo[k]


# ------------------------------------------------------------------ commands
def commands(p):
    """[(name, handler)] of the command table, from its initialiser"""
    g = p.globals.get('commands_handlers')
    if not g or not g.get('init'):
        # the table: a constant array of (string, function) pairs that contains SET
        for n, G in p.globals.items():
            if G.get('init') and n in p.tables and len(p.tables[n]) > 20:
                g = G
                break
    if not g:
        raise AnalysisBroken('command table not found')
    out = []

    def walk(o):
        if not isinstance(o, list) or not o:
            return
        if o[0] == 'agg':
            strs = [x for x in o[1:] if isinstance(x, list) and x and x[0] == 'g' and p.strconst(x[1]) is not None]
            fns = [x for x in o[1:] if isinstance(x, list) and x and x[0] == 'g' and x[1] in p.defined]
            if strs and fns:
                out.append((p.strconst(strs[0][1]), fns[0][1]))
                return
            for x in o[1:]:
                walk(x)
    walk(g['init'])
    if len(out) < 20:
        raise AnalysisBroken('command table has only %d readable entries' % len(out))
    return out


def handler(p, name):
    for n, f in commands(p):
        if n.upper() == name:
            return f
    raise AnalysisBroken('command %s is not in the command table' % name)


def strval(S, v):
    """constant string a value points to"""
    if type(v) is tuple and v[0] == 'g':
        return S.p.strconst(v[1])
    return None


# ------------------------------------------------------------------ replies
class Replies:
    """recognises reply calls: the functions that queue bytes for a client.  They are found as
    the functions of the server program that (transitively) send() and take (client, buffer, length)"""

    def __init__(self, p):
        self.fns = set()
        for n, f in p.defined.items():
            dp = f.j.get('diparams') or []
            if 'send' in (p.reach[n] | p.callees[n]) and len(dp) >= 3 and dp[0].startswith('redis_client_t') and 'void' in dp[1]:
                self.fns.add(n)
        # outermost wrappers only
        if not self.fns:
            raise AnalysisBroken('no reply function found')

    def kind(self, S, st, args):
        """'error', 'ok' or 'unknown' from the first byte of the reply"""
        s = strval(S, args[1])
        if s is not None:
            return 'error' if s.startswith('-') else 'ok'
        return 'unknown'


_rep = {}


def replies(p):
    k = id(p)
    if k not in _rep:
        _rep[k] = Replies(p)
    return _rep[k]


def fork(S, st, ins, name, outcomes):
    """outcomes: list of (value, [(pred, value)...facts], auto) -> [(state, value)]"""
    out = []
    for v, facts, auto in outcomes:
        s = st.copy()
        good = True
        for pred, b in facts:
            if not S.assume(s, pred, v, b, True):
                good = False
                break
        if not good:
            continue
        if auto is not None:
            s.auto = auto
        out.append((s, v))
    return out


def fresh(S, st, ins, name, tag=''):
    t = ('call', name + tag, ins.fn.name, ins.id)
    return S.fresh(st, t)


def write_outcomes(S, st, ins, name, args, ok_auto, fail_auto, lenarg=2):
    """split a write-like call into complete, failed and short"""
    n = args[lenarg]
    out = []
    s = st.copy()
    s.auto = ok_auto
    s.note('%s: %s completes' % (ins.loc, name))
    out.append((s, n))
    s = st.copy()
    s.auto = fail_auto
    s.note('%s: %s fails' % (ins.loc, name))
    out.append((s, -1))
    # short: 0 <= r < n
    if not (type(n) is int and n <= 1):
        s = st.copy()
        t = fresh(S, s, ins, name, '~short')
        if S.addfact(s, t, (0, sim.POS, frozenset())) and S.assume(s, 'slt', t, n, True):
            s.auto = fail_auto
            s.note('%s: %s is short' % (ins.loc, name))
            out.append((s, t))
    return out


# ------------------------------------------------------------------ linear terms
def lin(S, st, t, depth=12):
    """a value as (constant, {term: coefficient}); casts that keep the value are looked through"""
    if type(t) is int:
        return t, {}
    if type(t) is not tuple or depth == 0:
        return None
    k = t[0]
    lo, hi, _ = S.rng(st, t)
    if lo == hi:
        return lo, {}
    if k == 'zext':
        a = S.rng(st, t[2])
        if a[0] >= 0 and a[1] < (1 << t[1]):
            return lin(S, st, t[2], depth - 1)
    elif k == 'trunc':
        a = S.rng(st, t[2])
        if a[0] >= 0 and a[1] < (1 << t[1]):
            return lin(S, st, t[2], depth - 1)
        l = lin(S, st, t[2], depth - 1)
        a = lrange(S, st, l)
        if a[0] >= 0 and a[1] < (1 << (t[1] - 1)):
            return l
    elif k == 'op':
        o = t[1]
        if o in ('add', 'sub'):
            a, b = lin(S, st, t[2], depth - 1), lin(S, st, t[3], depth - 1)
            if a and b:
                s = 1 if o == 'add' else -1
                d = dict(a[1])
                for x, c in b[1].items():
                    d[x] = d.get(x, 0) + s * c
                    if not d[x]:
                        del d[x]
                return a[0] + s * b[0], d
        elif o in ('mul', 'shl') and type(t[3]) is int and 0 <= t[3] < 1 << 20:
            a = lin(S, st, t[2], depth - 1)
            m = t[3] if o == 'mul' else 1 << t[3]
            if a and m < 1 << 40:
                return a[0] * m, {x: c * m for x, c in a[1].items()}
    elif k == '+':
        a = lin(S, st, t[1], depth - 1)
        if a:
            return a[0] + t[2], a[1]
    elif k == '[]':
        a, b = lin(S, st, t[1], depth - 1), lin(S, st, t[2], depth - 1)
        if a and b:
            d = dict(a[1])
            for x, c in b[1].items():
                d[x] = d.get(x, 0) + c * t[3]
                if not d[x]:
                    del d[x]
            return a[0] + b[0] * t[3], d
    return 0, {t: 1}


def ladd(*terms):
    """sum of (sign, linear form)"""
    c, d = 0, {}
    for s, l in terms:
        if l is None:
            return None
        c += s * l[0]
        for x, k in l[1].items():
            d[x] = d.get(x, 0) + s * k
            if not d[x]:
                del d[x]
    return c, d


def lrange(S, st, l):
    """interval of a linear form"""
    if l is None:
        return sim.NEG, sim.POS
    lo = hi = l[0]
    for x, k in l[1].items():
        a = S.rng(st, x)
        u, v = (a[0], a[1]) if k > 0 else (a[1], a[0])
        lo = sim.NEG if abs(u) >= -sim.NEG else lo + k * u if lo > sim.NEG else lo
        hi = sim.POS if abs(v) >= -sim.NEG else hi + k * v if hi < sim.POS else hi
    return lo, hi


def lsolve(S, st, l):
    """a linear form with the terms replaced that the equalities of the path determine"""
    if l is None or not l[1]:
        return l
    eqs = []
    for t, f in st.facts.items():
        if t[0] == 'cmp' and t[1] == 'eq' and f[0] == 1:
            d = ladd((1, lin(S, st, t[2])), (-1, lin(S, st, t[3])))
            if d and len(d[1]) == 1:
                eqs.append(d)
    for c, d in eqs:
        (x, k), = d.items()
        if abs(k) == 1 and x in l[1]:
            n = l[1][x]
            r = dict(l[1])
            del r[x]
            l = (l[0] - n * c * k, r)
    return l
