"""What SCAN, RSCAN, KEYCUR and KSCAN answer: the walk made, and the cursor of its last record."""
import re
import time
from collections import namedtuple
import lib
import sim
from lib import replies
from registry import prop
from rules_lookup import equal, strip
from rules_record import EN, IT, norm

L = namedtuple('L', 'recs place out done cursor')
ST, BK = 'index_scan_t', 'index_bkey_t'


class List(sim.Rule):
    LIMIT, FEW, MANY = 3, 3, 3

    def middle(self, a):
        return self.FEW < len(a.recs) < self.MANY


    def __init__(self, p, forward, argc):
        self.p, self.forward, self.argc = p, forward, argc
        self.steps = {'index_first_header': ('first', True), 'index_last_header': ('first', False), 'index_next_header': ('next', True), 'index_previous_header': ('next', False)}
        self.sent = replies(p).fns
        self.events = tuple(self.steps) + tuple(self.sent) + ('sprintf', 'snprintf', 'memcpy', 'memmove', 'malloc', 'calloc', 'realloc', 'gettimeofday', 'free', 'index_entry_deserialize', 'index_get')
        self.follow_all = True
        self.opaque = tuple(n for n in ('zdb_warnp', 'zdb_verbosep', 'zdbd_timelog', 'zdb_timelog', 'command_error_frozen', 'namespace_is_frozen') if n in p.defined) + tuple(self.steps) + tuple(self.sent) + ('index_entry_deserialize', 'index_get')
        self.force = {'resp_request_t.argc': argc}
        self.classes = (ST + '.status',)
        self.off = {f: p.field(IT, f)['off'] for f in ('id', 'idlength', 'length', 'timestamp', 'crc')}
        self.key = p.structs[BK]['size']
        self.good = p.enum('INDEX_SCAN_SUCCESS')
        self.others = [p.enum(x) for x in ('INDEX_SCAN_NO_MORE_DATA', 'INDEX_SCAN_UNEXPECTED')]
        self.hits, self.checked = [], set()

    def initial(self):
        return L((), None, (), 0, None)

    def unroll(self, fn, h):
        return True

    def on_null(self, S, st, ins):
        return True

    def apart(self, st):
        a = st.auto
        return len(a.recs), a.done, len(a.out)

    def live(self, st):
        r = set()

        def walk(x):
            if type(x) is tuple and x:
                if type(x) is L or type(x[0]) is not str or x[0] in ('n', 'm', 'k'):
                    for y in x:
                        walk(y)
                else:
                    r.update(sim.leaves(x))
        walk(st.auto)
        return frozenset(r)

    def hit(self, st, ins, key, text):
        self.hits.append((key, text, getattr(ins, 'loc', '') or '', st.path()))

    def same(self, S, st, a, b):
        return norm(a) == norm(b) or strip(a) == strip(b) or equal(S, st, a, b)

    def fieldof(self, S, st, h, f):
        return S.load(st, sim.addr(h, self.off[f]), '%s.%s' % (IT, f))

    def on_call(self, S, st, ins, name, args):
        a = st.auto
        site = ('c', ins.fn.name, ins.id)
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            name = 'memcpy'
        if name in self.steps:
            return self.step(S, st, ins, name, args, site)
        if name == 'index_entry_deserialize':
            t = lib.fresh(S, st, ins, name)
            s2 = st.copy()
            S.addfact(st, t, (1, sim.POS, frozenset([0])))
            g = lambda f: norm(S.load(st, sim.addr(t, self.p.field(EN, f)['off']), '%s.%s' % (EN, f)))
            st.auto = a._replace(place=(g('indexid'), g('idxoffset')))
            return [(st, t), (s2, 0)]
        if name == 'index_get':
            g = lambda o, *fs: g(S.load(st, sim.addr(o, self.p.field(*fs[0])['off']), '%s.%s' % fs[0]), *fs[1:]) if fs else o
            v = g(('arg', 'client'), ('redis_client_t', 'request'), ('resp_request_t', 'argv'))
            v = S.load(st, sim.addr(v, 8), '*raw')
            want = [g(('arg', 'client'), ('redis_client_t', 'ns'), ('namespace_t', 'index')), g(v, ('resp_object_t', 'buffer')), g(v, ('resp_object_t', 'length'))]
            if not all(self.same(S, st, x, y) for x, y in zip(args, want)):
                self.hit(st, ins, 'key', 'the record looked up is not the one of the key given')
            t = lib.fresh(S, st, ins, name)
            s2 = st.copy()
            S.addfact(st, t, (1, sim.POS, frozenset([0])))
            st.auto = a._replace(place=t)
            return [(st, t), (s2, 0)]
        if name in ('malloc', 'calloc', 'realloc'):
            if self.middle(a) and name != 'realloc':
                return []
            kept = []
            if name == 'realloc' and type(args[0]) is tuple:
                r, o = sim.split(args[0])
                kept = [(k, v) for (q, k), v in st.cells.items() if q == r and type(k) is int]
                S.killroot(st, args[0], site)
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (1, sim.POS, frozenset([0])))
            for k, v in kept:
                st.cells[(t, k)] = v
            return [(st, t)]
        if name in ('sprintf', 'snprintf'):
            if self.middle(a):
                return []
            k = 1 if name == 'sprintf' else 2
            conv = re.findall(r'%[-+ #0-9.*]*((?:hh|h|ll|l|j|z|t)?[a-zA-Z])', (lib.strval(S, args[k]) or '').replace('%%', ''))
            for c, x in zip(conv, args[k + 1:]):
                x = strip(x)
                if c in ('d', 'i') and type(x) is tuple and x[0] == 'ld' and x[3] in (IT + '.length', IT + '.timestamp'):
                    self.hit(st, ins, 'sign', 'a number of 32 bits is answered as a negative one when its first bit is set')
            st.auto = a._replace(out=a.out + tuple(('n', norm(x)) for x in args[k + 1:]))
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (0, 1 << 12, frozenset()))
            return [(st, t)]
        if name in ('memcpy', 'memmove'):
            d = args[0]
            b = sim.base_of(sim.split(d)[0]) if type(d) is tuple else None
            c = sim.base_of(sim.split(args[1])[0]) if type(args[1]) is tuple else None
            if type(b) is tuple and (b[0] == 'call' and b[1] in ('malloc', 'calloc', 'realloc') or b[0] == 'al' and type(c) is tuple and c[0] == 'al' and args[2] == self.key and S.tysize(self.p.fns[b[1]].byid[b[2]].j['aty']) != self.key):
                if args[2] == self.key:
                    f = tuple(norm(S.load(st, sim.addr(args[1], self.p.field(BK, x)['off']), '%s.%s' % (BK, x))) for x in ('idlength', 'fileid', 'length', 'idxoffset', 'crc'))
                    st.auto = a._replace(out=a.out + (('k',) + f,))
                elif type(args[2]) is tuple:
                    st.auto = a._replace(out=a.out + (('m', norm(args[1]), norm(args[2])),))
                return None if args[2] != self.key else [(st, d)]
            return None
        if name in self.sent:
            if replies(self.p).kind(S, st, args) != 'error':
                self.answer(S, st, ins)
            else:
                self.checked.add(('error',))
            return [(st, lib.fresh(S, st, ins, name))]
        if name in self.opaque or name in ('gettimeofday', 'free'):
            return [(st, lib.fresh(S, st, ins, name) if ins.ty else None)]
        return None

    def step(self, S, st, ins, name, args, site):
        a = st.auto
        kind, fwd = self.steps[name]
        if len(a.recs) >= self.LIMIT:
            return []
        if fwd != self.forward:
            self.hit(st, ins, 'direction', '%s walks in the other direction' % name)
        ns = S.load(st, sim.addr(('arg', 'client'), self.p.field('redis_client_t', 'ns')['off']), 'redis_client_t.ns')
        if not self.same(S, st, args[1], S.load(st, sim.addr(ns, self.p.field('namespace_t', 'index')['off']), 'namespace_t.index')):
            self.hit(st, ins, 'index', 'the index is not the one of the namespace of the client')
        if kind == 'first':
            if a.place is not None or self.argc > 1:
                self.hit(st, ins, 'start', 'the walk starts again')
        else:
            self.checked.add(('step', len(a.recs)))
            if a.place is None:
                self.hit(st, ins, 'start', 'the walk starts nowhere')
            elif not (self.same(S, st, args[2], a.place[0]) and self.same(S, st, args[3], a.place[1])):
                self.hit(st, ins, 'place', 'the walk does not continue at the last record answered')
        outs = []
        for status in [self.good] + (self.others if not self.middle(a) else []):
            s = st.copy()
            S.killroot(s, args[0], site)
            n = len(a.recs)
            v = {f: S.fresh(s, ('call', '%s%d' % (f, n), ins.fn.name, ins.id)) for f in ('header', 'fileid', 'target')}
            for f in ('fileid', 'target'):
                S.addfact(s, v[f], (0, (1 << 32) - 1, frozenset()))
            if status == self.good:
                S.addfact(s, v['header'], (1, sim.POS, frozenset([0])))
                s.auto = a._replace(recs=a.recs + ((v['header'], v['fileid'], v['target']),), place=(v['fileid'], v['target']))
            else:
                s.auto = a._replace(done=1)
            for f, x in list(v.items()) + [('status', status)]:
                S.store(s, sim.addr(args[0], self.p.field(ST, f)['off']), '%s.%s' % (ST, f), x, site)
            outs.append((s, None))
        return outs

    def keycur(self, S, st, ins):
        a = st.auto
        self.checked.add(('answer', 0))
        if a.place is None:
            return self.hit(st, ins, 'empty', 'a cursor is answered without a record')
        g = lambda f: norm(S.load(st, sim.addr(a.place, self.p.field(EN, f)['off']), '%s.%s' % (EN, f)))
        want = [('n', self.key), ('k', g('idlength'), g('indexid'), g('length'), g('idxoffset'), g('crc'))]
        if len(want) != len(a.out) or not all(x[0] == y[0] and all(self.same(S, st, u, v) for u, v in zip(x[1:], y[1:])) for x, y in zip(a.out, want)):
            self.hit(st, ins, 'content:cursor', 'the cursor answered is not the one of the record of the key')

    def answer(self, S, st, ins):
        if self.forward is None:
            return self.keycur(S, st, ins)
        a = st.auto
        self.checked.add(('answer', len(a.recs)))
        if not a.recs:
            return self.hit(st, ins, 'empty', 'a listing is answered without a record')
        h, f, t = a.recs[-1]
        g = lambda h, x: norm(self.fieldof(S, st, h, x))
        want = [('n', self.key), ('k', g(h, 'idlength'), f, g(h, 'length'), t, g(h, 'crc')), ('n', len(a.recs))]
        for h, f, t in a.recs:
            want += [('n', g(h, 'idlength')), ('m', norm(sim.addr(h, self.off['id'])), g(h, 'idlength')), ('n', g(h, 'length')), ('n', g(h, 'timestamp'))]
        if len(want) != len(a.out):
            return self.hit(st, ins, 'count', 'the listing answered does not consist of the %d records of the walk' % len(a.recs))
        for i, (x, y) in enumerate(zip(a.out, want)):
            if x[0] != y[0] or len(x) != len(y) or not all(self.same(S, st, u, v) for u, v in zip(x[1:], y[1:])):
                what = ['size of the cursor', 'cursor', 'number of records'][i] if i < 3 else ['length of the id', 'id', 'size', 'time'][(i - 3) % 4]
                return self.hit(st, ins, 'content:' + what, 'the %s answered is not the one of the record of the walk' % what)


@prop('P49', 'Property simulation of SCAN and RSCAN over every walk of up to three records: each step is compared with the place of the last record, the reply with the list of the records obtained, its cursor with the last of them.')
def p49(ctx):
    p = ctx.prog()
    n = 0
    for cmd, fwd in (('SCAN', True), ('RSCAN', False)):
        h = lib.handler(p, cmd)
        for argc in (1, 2):
            r, ex = ctx.refine(p, lambda: List(p, fwd, argc), h, args=[('arg', 'client')])
            k0 = '%s:%s' % (cmd, 'start' if argc == 1 else 'cursor')
            for k, text, loc, path in r.hits[:4]:
                ctx.bad('%s:%s' % (k0, k), loc, text, path)
            if not r.hits:
                if not {('answer', 1), ('answer', 2), ('error',), ('step', 1)} <= r.checked:
                    ctx.broken('%s: not all steps were seen: %s' % (k0, sorted(map(str, r.checked))))
                ctx.ok(k0, '%s %s: %d kinds of steps and answers on %d paths' % (cmd, 'from the start' if argc == 1 else 'with a cursor', len(r.checked), len(ex)), p.defined[h].loc)
            n += len(r.checked)
            if argc == 1 and not r.hits:
                # the list grows after 32 records: walks of 32 to 34 of them
                g = None
                for mg in (1, 8):
                    g = List(p, fwd, argc)
                    g.LIMIT, g.FEW, g.MANY = 34, 2, 32
                    S = sim.Sim(p, g, maxgroup=mg)
                    S.deadline = time.time() + 100
                    S.stop_hits = 1
                    try:
                        S.run(h, [('arg', 'client')])
                    except sim.Enough:
                        pass
                    except sim.BudgetExceeded:
                        if not g.hits:
                            g = None
                            break
                    ctx.count(S)
                    if not g.hits:
                        break
                if g is None:
                    ctx.notes.append('%s: walks of more than 32 records were not finished' % cmd)
                    continue
                for k, text, loc, path in g.hits[:1]:
                    ctx.bad('%s:long:%s' % (cmd, k), loc, text, path)
                if not g.hits:
                    if ('answer', 33) not in g.checked:
                        ctx.broken('%s: no walk of 33 records was seen' % cmd)
                    ctx.ok('%s:long' % cmd, '%s: answers of 32 to 34 records' % cmd, p.defined[h].loc)
    h = lib.handler(p, 'KEYCUR')
    r, ex = ctx.refine(p, lambda: List(p, None, 2), h, args=[('arg', 'client')])
    for k, text, loc, path in r.hits[:4]:
        ctx.bad('KEYCUR:%s' % k, loc, text, path)
    if not r.hits:
        if not {('answer', 0), ('error',)} <= r.checked:
            ctx.broken('KEYCUR: not all steps were seen: %s' % sorted(map(str, r.checked)))
        ctx.ok('KEYCUR', 'KEYCUR: %d kinds of answers on %d paths' % (len(r.checked), len(ex)), p.defined[h].loc)
    ctx.need(n, 20, 'steps and answers')
