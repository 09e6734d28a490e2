"""When a SET writes: not without room, and not skipped unless the data is there already."""
from collections import namedtuple
import lib
import linear
import sim
from lib import lin
from registry import prop
from rules_read import R, Reader, BOUNDS
from rules_record import Record, get, norm, put

R2 = namedtuple('R2', R._fields + ('eq', 'wrote', 'indexed'))
BIG = 1 << 62
SIZES = {'index_stats_t.datasize': (0, BIG), 'namespace_t.maxsize': (0, BIG), 'index_entry_t.length': (0, (1 << 32) - 1)}


class Setter(Reader):
    """follows a SET up to its answer: the writes (data_insert, index_set) succeed or fail, comparisons of stored data with the request are known"""

    def __init__(self, p, mode, start):
        Reader.__init__(self, p, {'index_root_t.mode': mode}, 'index_get', 'zdb_crc32', 'SET', start)
        self.own = ('data_insert', 'index_set')
        self.skip = tuple(x for x in ('data_next_offset', 'index_jump_next', 'data_jump_next') if x in p.defined)
        self.opaque += self.own + self.skip
        self.events = self.events + self.own + self.skip + ('memcmp', 'bcmp')
        self.quota = []

    def initial(self):
        return R2(*Reader.initial(self), 0, 0, 0)

    def on_load(self, S, st, ins, key, cls, val):
        b = BOUNDS.get(cls) or SIZES.get(cls)
        if b and type(val) is tuple:
            S.addfact(st, val, b + (frozenset(),))

    def asked(self, S, st, ins, args):
        Reader.asked(self, S, st, ins, args)

    def on_call(self, S, st, ins, name, args):
        self.S = S
        a = st.auto
        if name in self.skip:
            return [(st, lib.fresh(S, st, ins, name) if ins.ty else None)]
        if name in ('memcmp', 'bcmp'):
            why = self.compared(S, st, args)
            s2 = st.copy()
            t = lib.fresh(S, s2, ins, name)
            out = []
            if S.addfact(s2, t, (sim.NEG, sim.POS, frozenset([0]))):
                s2.note('%s: the data differs' % ins.loc)
                out.append((s2, t))
            st.auto = a._replace(eq=1 if why is None else why)
            st.note('%s: the data compares equal' % ins.loc)
            return [(st, 0)] + out
        if name == 'data_insert':
            self.room(S, st, ins, args)
            t = lib.fresh(S, st, ins, name)
            s2 = st.copy()
            s2.auto = a._replace(failed=1)
            s2.note('%s: the data is not written' % ins.loc)
            out = [(s2, 0)]
            if S.addfact(st, t, (1, 1 << 62, frozenset())):
                st.auto = a._replace(wrote=1)
                out.append((st, t))
            return out
        if name == 'index_set':
            t = lib.fresh(S, st, ins, name)
            s2 = st.copy()
            s2.auto = a._replace(failed=1)
            s2.note('%s: the index is not written' % ins.loc)
            if not self.replaces(S, st, args):
                self.hit(st, ins, 'set:replaced', 'the entry replaced is not the one the lookup of the key returned')
            out = [(s2, 0)]
            if S.addfact(st, t, (1, sim.POS, frozenset([0]))):
                st.auto = a._replace(indexed=a.wrote)
                out.append((st, t))
            return out
        return Reader.on_call(self, S, st, ins, name, args)

    def replaces(self, S, st, args):
        e = self.found(st.auto)
        x = self.norm(args[2])
        if e is None:
            return x == 0 or S.truth_zero(st, x) is True
        return x == e['at']

    def same(self, S, st, a, b):
        if Reader.same(self, S, st, a, b):
            return True
        x, y = self.lin(S, st, a), self.lin(S, st, b)
        if x is None or y is None:
            return False
        keeps = lambda v: not (type(v) is tuple and v[0] == 'trunc') or 0 <= S.rng(st, v[2])[0] and S.rng(st, v[2])[1] < 1 << v[1]
        if keeps(a) and keeps(b) and S.evalcmp(st, 'eq', a, b) is True:
            return True
        a, b = (next(iter(z[1])) if z[0] == 0 and list(z[1].values()) == [1] else z[0] if not z[1] else None for z in (x, y))
        return a is not None and b is not None and Reader.same(self, S, st, a, b)

    def silent(self, f, *args):
        n = len(self.hits)
        f(*args)
        r = [h[1] for h in self.hits[n:]]
        del self.hits[n:]
        return r

    def compared(self, S, st, args):
        """None when the comparison is the one of the whole stored payload with the whole payload of the request, else why not"""
        e = self.found(st.auto)
        if e is None:
            return 'no entry was found for the key'
        n = self.norm(args[2])
        b, l = self.request(S, st, 2)
        x, y = self.lin(S, st, n), self.lin(S, st, l)
        if x is None or y is None or x[0] != y[0] or self.plain(x[1]) != self.plain(y[1]):
            return 'the length compared is not the one of the new payload'
        if self.same(S, st, n, e['length']) and self.same(S, st, e['length'], 0):
            return None     # both are empty
        for x, y in ((args[0], args[1]), (args[1], args[0])):
            if self.flat(self.norm(y)) == self.flat(self.norm(b)):
                r = self.silent(self.payload, S, st, None, x, n, e)
                return r[0] if r else None
        return 'the payload of the request is not compared'

    def room(self, S, st, ins, args):
        """what is written fits in the namespace"""
        p = self.p
        self.checked.add(('room', ins.fn.name, ins.id))
        ns = self.ns(S, st)
        m = S.load(st, sim.addr(ns, p.field('namespace_t', 'maxsize')['off']), 'namespace_t.maxsize')
        if m == 0 or S.truth_zero(st, m) is True or S.rng(st, m)[1] == 0:
            return
        ix = S.load(st, sim.addr(ns, p.field('namespace_t', 'index')['off']), 'namespace_t.index')
        d = S.load(st, sim.addr(ix, p.field('index_root_t', 'stats')['off'] + p.field('index_stats_t', 'datasize')['off']), 'index_stats_t.datasize')
        n = S.load(st, sim.addr(args[1], p.field('data_request_t', 'datalength')['off']), 'data_request_t.datalength')
        e = self.found(st.auto)
        for x, (lo, hi) in ((m, (0, BIG)), (d, (0, BIG))):
            if type(x) is tuple:
                S.addfact(st, x, (lo, hi, frozenset()))
        l = lib.ladd((1, self.lin(S, st, m)), (-1, self.lin(S, st, d)), (-1, self.lin(S, st, n)))
        if e is not None:
            l = lib.ladd((1, l), (1, self.lin(S, st, e['length'])))
        k = linear.known(S, st)
        k = [(c, self.plain(t)) for c, t in k]
        if l is None or not linear.prove(S, st, (l[0], self.plain(l[1])), k):
            self.hit(st, ins, 'set:room', 'data is written although the namespace has a maximum size and it is not established that what it holds, without the version replaced, and the new data fit in')

    def plain(self, d):
        r = {}
        for x, k in d.items():
            x = self.flat(self.norm(x))
            r[x] = r.get(x, 0) + k
        return {x: k for x, k in r.items() if k}

    def answer(self, S, st, ins, kind, m):
        a = st.auto
        if kind == 'unknown':
            self.hit(st, ins, 'answer:form', 'the reply is not a well-formed protocol item made of known parts')
        elif kind == 'nil':
            if a.indexed:
                if not a.failed:
                    self.hit(st, ins, 'set:nil', 'unchanged is answered although the data was written')
            else:
                self.unchanged(S, st, ins)
        elif kind != 'error':
            self.written(S, st, ins)
        st.auto = st.auto._replace(asked=1)

    def unchanged(self, S, st, ins):
        self.checked.add(('unchanged', ins.fn.name, ins.id))
        a = st.auto
        if a.eq == 1:
            return
        self.hit(st, ins, 'set:unchanged', 'a SET is answered as unchanged, and not written, although it is not established that the data stored is the same (%s)' % (
            a.eq or 'stored payload and new payload were not compared'))

    def written(self, S, st, ins):
        self.checked.add(('written', ins.fn.name, ins.id))
        if not st.auto.indexed:
            self.hit(st, ins, 'set:lost', 'a SET is acknowledged although it was not written')

    def finish(self, exits):
        S, p = self.S, self.p
        for st, ret in exits:
            a = st.auto
            if self.start[0] == 'client':
                if a.out or a.asked is None:
                    self.hit(st, None, 'end:silent', 'the command ends without a complete answer')
                continue
            v = self.norm(S.load(st, sim.addr(ret, p.field('zdb_api_t', 'status')['off']), 'zdb_api_t.status'))

            class I:
                loc = p.defined[self.fn].loc
                fn = p.defined[self.fn]
                id = 0
            if v == p.enum('ZDB_API_UP_TO_DATE'):
                self.unchanged(S, st, I)
            elif v in (p.enum('ZDB_API_BUFFER'), p.enum('ZDB_API_SUCCESS'), p.enum('ZDB_API_ENTRY'), p.enum('ZDB_API_TRUE')):
                self.written(S, st, I)
            elif type(v) is not int:
                self.hit(st, I, 'answer:form', 'the status answered is not known')


def sets(p):
    have = dict(lib.commands(p))
    seen = set()
    for mode in ('ZDB_MODE_KEY_VALUE', 'ZDB_MODE_SEQUENTIAL'):
        for name in ('SET', 'SETX', 'zdb_api_set'):
            api = name.startswith('zdb_')
            fn = name if api else have.get(name)
            if fn is None or (fn, mode) in seen:
                continue
            seen.add((fn, mode))
            if fn not in p.defined:
                raise lib.AnalysisBroken('%s not found' % fn)
            args = [('arg', x) for x in ('ns', 'key', 'ksize', 'payload', 'psize')] if api else [('arg', 'client')]
            yield name, fn, mode, ('ns', args[0]) if api else ('client', args[0]), args


def run(ctx, keys, need):
    p = ctx.prog()
    n = 0
    for name, fn, mode, start, args in sets(p):
        def mk():
            r = Setter(p, p.enum(mode), start)
            r.fn = fn
            return r

        def setup(S, st):
            for x, hi in ((('arg', 'psize'), (1 << 32) - 1), (('arg', 'ksize'), 1 << 32)):
                if x in args:
                    S.addfact(st, x, (0, hi, frozenset()))

        def bad(r, ex):
            r.finish(ex)
            r.hits = [h for h in r.hits if h[0] in keys]
            return r.hits
        r, ex = ctx.refine(p, mk, fn, args=args, bad=bad, levels=(12, 40), setup=setup)
        got = [x for x in r.checked if x[0] in need]
        if not r.hits and {x[0] for x in got} != set(need):
            ctx.broken('%s: what to judge was not seen (%s)' % (name, sorted({x[0] for x in got})))
        n += len(got)
        seen = set()
        for k, text, loc, path in r.hits:
            if k not in seen and len(seen) < 4:
                seen.add(k)
                ctx.bad('set:%s:%s:%s' % (name, mode[9:], k), loc or p.defined[fn].loc, '%s: %s' % (name, text), path)
        if not r.hits:
            ctx.ok('set:%s:%s' % (name, mode[9:]), '%s: %d answers and writes are justified on %d paths' % (name, len(got), len(ex)), p.defined[fn].loc)
    return n


@prop('P42', 'Property simulation of SET, SETX and zdb_api_set in both modes: every answer is reached with the knowledge of what was written, of the bytes read from the data files '
      'and of the comparisons made; obligations at each answer (unchanged, stored) and at each replacement of an entry.',
      ['memcmp compares; data_insert and index_set do what they report (P01, P30)'])
def p42(ctx):
    n = run(ctx, ('set:unchanged', 'set:lost', 'set:replaced', 'set:nil', 'end:silent', 'answer:form', 'key:argument', 'key:namespace', 'key:cut'), ('unchanged', 'written'))
    ctx.need(n, 8, 'answers')


class Counted(Record):
    """what the namespace counts (live keys, live payload bytes) follows what is stored"""

    def begin(self, S, st):
        for x, hi in ((('arg', 'psize'), (1 << 32) - 1), (('arg', 'ksize'), 1 << 32)):
            S.addfact(st, x, (0, hi, frozenset()))
        self.S = S
        self.before = self.counts(S, st)

    def on_load(self, S, st, ins, key, cls, val):
        b = BOUNDS.get(cls) or SIZES.get(cls)
        if b and type(val) is tuple:
            S.addfact(st, val, b + (frozenset(),))

    def counts(self, S, st):
        ix = self.roots(S, st)[0]
        o = self.p.field('index_root_t', 'stats')['off']
        return tuple(lib.lin(S, st, S.load(st, sim.addr(ix, o + self.p.field('index_stats_t', f)['off']), 'index_stats_t.' + f)) for f in ('entries', 'datasize'))

    def success(self, S, st, ins, reply):
        st.auto = st.auto._replace(done=st.auto.done | 16)

    def write(self, S, st, ins, args):
        a = st.auto
        s2 = st.copy()
        s2.auto = a._replace(pos=put(a.pos, self.fdof(args[0]), None))
        s2.note('%s: the write fails' % ins.loc)
        return Record.write(self, S, st, ins, args) + [(s2, -1)] if lib.fdkind(self.p, ins) in ('D', 'I') else Record.write(self, S, st, ins, args)

    def on_store(self, S, st, ins, key, cls, val):
        n = len(self.hits)
        Record.on_store(self, S, st, ins, key, cls, val)
        del self.hits[n:]

    def plain(self, d):
        r = {}
        for x, k in d.items():
            x = self.flat(norm(x))
            r[x] = r.get(x, 0) + k
        return {x: k for x, k in r.items() if k}

    def finish(self, exits):
        S = self.S
        self.hits = []
        for st, ret in exits:
            a = st.auto
            upd = type(a.entry) is tuple
            now = self.counts(S, st)
            old = dict(a.old).get('length') if upd else 0
            new = self.request(S, st, 2)[1] if self.cmd == 'SET' else 0
            want = [(-1, {}) if self.cmd == 'DEL' else (0 if upd else 1, {}), lib.ladd((1, lib.lin(S, st, norm(new))), (-1, lib.lin(S, st, norm(old))))]
            for what, b, n, w in zip(('keys', 'payload bytes'), self.before, now, want):
                self.checked.add((what, a.done & 16, upd))
                d = lib.ladd((1, n), (-1, b))
                d = d if d is None else (d[0], self.plain(d[1]))
                w = (w[0], self.plain(w[1]))
                ok = d == w
                if not a.done & 16 and d == (0, {}):
                    ok = True
                elif not a.done & 16 and not any(x[0] in ('new', 'old', 'flag') for x in a.items):
                    ok = False
                if not ok:
                    class I:
                        loc = self.p.defined[self.fn].loc
                    self.hit(st, I, 'count:' + what.replace(' ', '-'), 'the number of %s counted is not changed by what the command did to the namespace%s' % (what, '' if a.done & 16 else ', which failed'))


@prop('P37', 'Property simulation of SET, SETX and zdb_api_set up to the insertion of the data: with a maximum size, a linear inequality over the counted size, the new and the replaced length has to follow from the comparisons '
      'made on the path; and of these and DEL, zdb_api_del to their end: the counters change by exactly the key and the bytes stored, replaced or removed.',
      ['sizes are below 2^62'])
def p37(ctx):
    n = run(ctx, ('set:room', 'set:replaced'), ('room',))
    p = ctx.prog()
    todo = [(a, b, c, d, e, 'SET') for a, b, c, d, e in sets(p)]
    for mode in ('ZDB_MODE_KEY_VALUE', 'ZDB_MODE_SEQUENTIAL'):
        todo.append(('DEL', lib.handler(p, 'DEL'), mode, ('client', ('arg', 'client')), [('arg', 'client')], 'DEL'))
        todo.append(('zdb_api_del', 'zdb_api_del', mode, ('ns', ('arg', 'ns')), [('arg', x) for x in ('ns', 'key', 'ksize')], 'DEL'))
    for name, fn, mode, start, args, kind in todo:
        if fn not in p.defined:
            raise lib.AnalysisBroken('%s not found' % fn)
        rr = []

        def mk():
            r = Counted(p, {'index_root_t.mode': p.enum(mode)}, 'index_get', 'zdb_crc32', kind, mode.endswith('SEQUENTIAL'), start)
            r.fn = fn
            rr.append(r)
            return r

        def bad(r, ex):
            r.finish(ex)
            return r.hits
        r, ex = ctx.refine(p, mk, fn, args=args, bad=bad, setup=lambda S, st: rr[-1].begin(S, st))
        if not r.hits and not any(x[1] for x in r.checked):
            ctx.broken('%s: no acknowledgement was seen' % name)
        n += len(r.checked)
        seen = set()
        for k, text, loc, path in r.hits:
            if k not in seen:
                seen.add(k)
                ctx.bad('count:%s:%s:%s' % (name, mode[9:], k), loc, '%s: %s' % (name, text), path)
        if not r.hits:
            ctx.ok('count:%s:%s' % (name, mode[9:]), '%s: %d outcomes counted exactly on %d paths' % (name, len(r.checked), len(ex)), p.defined[fn].loc)
    ctx.need(n, 20, 'insertions and outcomes')
