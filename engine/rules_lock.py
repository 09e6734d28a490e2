"""One server per index and data directory: the locks of zdb_open."""
from collections import namedtuple
import lib
import sim
from registry import prop
from rules_record import get, norm, put

K = namedtuple('K', 'path fd locked opened')
SET = 'zdb_settings_t'
DIRS = {SET + '.indexpath': 'I', SET + '.datapath': 'D'}
LOCKS = {SET + '.indexlock', SET + '.datalock'}


class Lock(sim.Rule):
    def __init__(self, p, what):
        self.p, self.what = p, what
        self.work = ('namespaces_init', 'namespaces_destroy', 'redis_listen', 'zdb_open')
        self.work = tuple(x for x in self.work if x in p.defined and not (what == 'open' and x == 'zdb_open'))
        self.events = ('open', 'flock', 'lockf', 'snprintf', 'sprintf', 'close') + self.work
        self.follow_all = what != 'serve'
        self.opaque = self.work + tuple(n for n in ('zdb_dir_exists', 'zdb_dir_create', 'zdb_warnp', 'hook_destroy') if n in p.defined)
        self.hits, self.checked = [], set()

    def initial(self):
        return K((), (), (), 0)

    def on_null(self, S, st, ins):
        return True

    def apart(self, st):
        return tuple(sorted(k for k, v in st.auto.locked)), st.auto.opened

    def live(self, st):
        r = set()

        def walk(x):
            if type(x) is tuple and x:
                if type(x) is K or type(x[0]) is not str or x[0] in ('I', 'D', 'path'):
                    for y in x:
                        walk(y)
                else:
                    r.update(sim.leaves(x))
        walk(st.auto)
        return frozenset(r)

    def hit(self, st, ins, key, text):
        self.hits.append((key, text, getattr(ins, 'loc', '') or '', st.path()))

    def on_call(self, S, st, ins, name, args):
        a = st.auto
        site = ('c', ins.fn.name, ins.id)
        if name in ('snprintf', 'sprintf'):
            k = 1 if name == 'sprintf' else 2
            f = lib.strval(S, args[k])
            S.killroot(st, args[0], site)
            v = None
            if f is not None and f.count('%') == 1 and f.startswith('%s/') and len(args) > k + 1:
                d = norm(args[k + 1])
                if type(d) is tuple and d[0] == 'ld' and d[3] in DIRS:
                    v = ('path', DIRS[d[3]], f)
            st.auto = a._replace(path=put(a.path, norm(args[0]), v))
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (0, 1 << 20, frozenset()))
            return [(st, t)]
        if name == 'open':
            f = get(a.path, norm(args[0]))
            t = lib.fresh(S, st, ins, name, '~' + f[1] if f else '')
            s2 = st.copy()
            S.addfact(st, t, (3, 1 << 20, frozenset()))
            st.auto = a._replace(fd=put(a.fd, t, get(a.path, norm(args[0]))))
            return [(st, t), (s2, -1)]
        if name in ('flock', 'lockf'):
            f = get(a.fd, norm(args[0]))
            self.checked.add(('lock', ins.fn.name, ins.id, f and f[1]))
            s2 = st.copy()
            # LOCK_EX, with or without LOCK_NB
            if name == 'flock' and f and type(args[1]) is int and args[1] & ~4 == 2:
                st.auto = a._replace(locked=put(a.locked, f[1], norm(args[0])))
            elif name == 'flock' and args[1] == 8:
                st.auto = a._replace(locked=tuple(x for x in a.locked if x[1] != norm(args[0])))
            return [(st, 0), (s2, -1)]
        if name == 'close':
            st.auto = a._replace(locked=tuple(x for x in a.locked if x[1] != norm(args[0])))
            x = norm(args[0])
            if self.what == 'close' and type(x) is tuple and x[0] == 'ld' and x[3] in LOCKS:
                self.checked.add(('close', x[3]))
                if not a.opened:
                    self.hit(st, ins, 'close', 'a lock is given back before the namespaces are closed')
            return [(st, 0)]
        if name in self.work:
            if name == 'namespaces_destroy':
                st.auto = a._replace(opened=1)
            elif name == 'zdb_open':
                self.checked.add(('opened',))
                t = lib.fresh(S, st, ins, name)
                s2 = st.copy()
                S.addfact(st, t, (1, sim.POS, frozenset([0])))
                st.auto = a._replace(opened=1)
                return [(st, t), (s2, 0)]
            elif name == 'redis_listen':
                self.checked.add(('serve',))
                if not a.opened:
                    self.hit(st, ins, 'serve', 'clients are served although the database was not opened')
            elif name == 'namespaces_init':
                self.checked.add(('work',))
                self.held(S, st, ins, 'work', 'the namespaces are loaded')
            return [(st, lib.fresh(S, st, ins, name) if ins.ty else None)]
        if name in self.opaque:
            return [(st, lib.fresh(S, st, ins, name) if ins.ty else None)]
        return None

    def held(self, S, st, ins, key, text):
        for d, f, what in (('I', 'indexlock', 'index'), ('D', 'datalock', 'data')):
            v = get(st.auto.locked, d)
            if v is None:
                self.hit(st, ins, '%s:%s' % (key, what), '%s although the lock of the %s directory is not held' % (text, what))
                continue
            x = norm(S.load(st, sim.addr(('arg', 'settings'), self.p.field(SET, f)['off']), '%s.%s' % (SET, f)))
            if x != v:
                self.hit(st, ins, '%s:%s' % (key, f), '%s and the lock of the %s directory is not kept for zdb_close' % (text, what))

    def finish(self, S, exits):
        class I:
            loc = self.p.defined['zdb_open'].loc
        for st, ret in exits:
            if ret == 0 or S.truth_zero(st, ret) is True:
                self.checked.add(('refused',))
            else:
                self.checked.add(('done',))
                self.held(S, st, I, 'done', 'the database is opened')


@prop('P27', 'Property simulation of zdb_open with every failure of open and flock: at the loading of the namespaces and at every successful return an exclusive flock is held on one fixed file in each of the two directories and kept in the settings. '
      'Property simulation of zdb_close (locks given back after the namespaces are closed) and of the start of the server (served only after zdb_open succeeded); every close() of the program is looked at for the locks.')
def p27(ctx):
    p = ctx.prog()
    for n in ('zdb_open', 'zdb_close', 'namespaces_init', 'namespaces_destroy', 'redis_listen'):
        if n not in p.defined:
            ctx.broken('%s not found' % n)

    def run(what, fn, args, need, end=False):
        def bad(r, ex):
            if end:
                r.finish(sim.Sim(p, r), ex)
            return r.hits
        r, ex = ctx.refine(p, lambda: Lock(p, what), fn, args=args, bad=bad)
        for k, text, loc, path in r.hits[:4]:
            ctx.bad('%s:%s' % (fn, k), loc, text, path)
        if not r.hits:
            if not need <= {x[0] for x in r.checked}:
                ctx.broken('%s: not all steps were seen: %s' % (fn, sorted(map(str, r.checked))))
            ctx.ok(fn, '%s: %d steps on %d paths' % (fn, len(r.checked), len(ex)), p.defined[fn].loc)
        return len(r.checked)
    n = run('open', 'zdb_open', [('arg', 'settings')], {'lock', 'work', 'done', 'refused'}, True)
    n += run('close', 'zdb_close', [('arg', 'settings')], {'close'})
    starts = sorted(f for f in p.defined if 'zdb_open' in p.callees[f])
    if not starts:
        ctx.broken('no call of zdb_open found')
    for f in starts:
        m = len(p.defined[f].j.get('diparams') or [])
        n += run('serve', f, [('arg', 'a%d' % i) for i in range(m)], {'opened', 'serve'} if 'redis_listen' in p.reach[f] | p.callees[f] else {'opened'})
    # nobody else serves, nobody else closes the locks
    allowed = {'zdb_close'} | p.reach['zdb_close'] | p.callees['zdb_close']
    for f, fn in sorted(p.defined.items()):
        if 'redis_listen' in p.callees[f] and f not in starts and not any(f in p.reach[s] | p.callees[s] for s in starts):
            ctx.bad('serve:' + f, fn.loc, '%s serves clients without zdb_open' % f, [])
        for b in fn.blocks:
            for i in b:
                if i.op == 'call' and i.target() in ('close', 'flock', 'dup2') and i.ops:
                    hit = [o for o in lib.origins(p, fn, i.ops[0]) if o[0] == 'load' and o[1] in LOCKS]
                    n += 1
                    if hit and f not in allowed:
                        ctx.bad('close:' + f, i.loc, 'a lock is given back while the database is open', [])
    ctx.need(n, 10, 'steps and calls of close')
