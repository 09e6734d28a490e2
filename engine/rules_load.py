"""Loading an index: each record of each file reaches memory as it is, a record that was not written completely never does."""
from collections import namedtuple
import lib
import linear
import sim
from lib import ladd
from registry import prop
from rules_lookup import equal
from rules_read import freeze, thaw
from rules_record import EN, IT, get, norm, put

A = namedtuple('A', 'pos buf next rec entry reg linked removed pushed cut head failed ro looked')
FIELDS = ('offset', 'length', 'flags', 'crc', 'timestamp', 'parentid', 'parentoff')


class Load(sim.Rule):
    def __init__(self, p, mode, flags, seq):
        self.p = p
        self.seq, self.deleted = seq, bool(flags)
        self.force = {'index_root_t.mode': mode, 'index_header_t.mode': mode, IT + '.flags': flags}
        if seq:
            self.force['index_root_t.seqid'] = self.map
        self.lookups = ('index_get', 'index_entry_get')
        self.opaque = tuple(n for n in self.lookups + ('index_branch_append', 'index_entry_delete_memory', 'index_seqid_push', 'index_availity_check', 'index_rehash', 'zdb_crc32') if n in p.defined)
        self.events = self.opaque + ('memcpy', 'memmove', 'malloc', 'calloc', 'open', 'read', 'write', 'lseek', 'lseek64', 'ftruncate', 'ftruncate64', 'free')
        self.classes = ('index_root_t.previous', 'index_root_t.nextentry', 'index_root_t.nextid')
        self.hits, self.checked = [], set()
        self.item, self.header = p.structs[IT]['size'], p.structs['index_header_t']['size']
        self.off = {f: p.field(IT, f)['off'] for f in FIELDS + ('idlength', 'id')}
        self.size = {g['name']: g['size'] for g in p.structs[IT]['fields'] if g.get('size')}
        self.RO = p.enum('INDEX_READ_ONLY')

    def map(self, S, st, key):
        t = ('ld', key[0], key[1], 'index_root_t.seqid', 0)
        S.addfact(st, t, (1, sim.POS, frozenset([0])))
        return t

    def initial(self):
        return A((), None, None, None, None, (), (), (), None, None, None, 0, 0, 0)

    def live(self, st):
        r = set()

        def walk(x):
            if type(x) is tuple and x:
                if type(x[0]) is str:
                    r.update(sim.leaves(x))
                else:
                    for y in x:
                        walk(y)
        walk(tuple(st.auto))
        return frozenset(r)

    def apart(self, st):
        a = st.auto
        return a.buf is None, a.rec is None, a.entry and a.entry[0], bool(a.removed), a.cut is None, a.head, a.failed, a.ro, a.pushed is None

    def hit(self, st, ins, key, text):
        self.hits.append((key, text, getattr(ins, 'loc', '') or '', st.path()))

    def on_null(self, S, st, ins):
        return True

    def lin(self, S, st, v):
        l = lib.lin(S, st, v)
        if l is None:
            return None
        d = {}
        for x, k in l[1].items():
            x = norm(x)
            d[x] = d.get(x, 0) + k
        return l[0], {x: k for x, k in d.items() if k}

    def root(self, S, st, f):
        return S.load(st, sim.addr(('arg', 'root'), self.p.field('index_root_t', f)['off']), 'index_root_t.' + f)

    def field(self, S, st, rec, f):
        return S.load(st, sim.addr(rec, self.off[f]), '%s.%s' % (IT, f))

    def on_branch(self, S, st, ins, cond, truth):
        if not st.auto.ro and type(cond) is tuple and self.readonly(S, st):
            st.auto = st.auto._replace(ro=1)

    def readonly(self, S, st):
        if st.auto.ro:
            return True
        for t, f in st.facts.items():
            if t[0] == 'op' and t[1] == 'and' and self.RO in t[2:4] and (f[0] > 0 or 0 in f[2]) and any(type(x) is tuple and norm(x)[0] == 'ld' and norm(x)[3] == 'index_root_t.status' for x in t[2:4]):
                return True
        v = norm(self.root(S, st, 'status'))
        if type(v) is int:
            return bool(v & self.RO)
        # a value with the bit set
        while type(v) is tuple and v[0] == 'op' and v[1] == 'or':
            if any(type(x) is int and x & self.RO for x in v[2:4]):
                return True
            v = norm(v[2] if type(v[3]) is int else v[3])
        return S.truth_zero(st, ('op', 'and', v, self.RO)) is False

    # ------------------------------------------------------------ events
    def on_call(self, S, st, ins, name, args):
        a = st.auto
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            name = 'memcpy'
        if name in ('memcpy', 'memmove'):
            self.inside(S, st, ins, args[1], args[2])
            st.auto = st.auto._replace(reg=put(a.reg, args[0], (args[1], norm(args[2]))))
            return None
        if name in ('malloc', 'calloc'):
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (1, sim.POS, frozenset([0])))
            if name == 'calloc':
                st.zero = st.zero | {t}
            return [(st, t)]
        if name == 'open':
            s2 = st.copy()
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (0, sim.POS, frozenset()))
            self.file(S, st, ins)
            self.file(S, s2, ins)
            st.auto = st.auto._replace(pos=((t, (0, ())),), head=None, failed=0)
            s2.auto = s2.auto._replace(pos=(), head=None, failed=1)
            return [(st, t), (s2, -1)]
        if name in ('lseek', 'lseek64'):
            t = lib.fresh(S, st, ins, 'lseek')
            S.addfact(st, t, (0, sim.POS, frozenset()))
            w, l = args[2], None
            if w == 0:
                l = freeze(self.lin(S, st, args[1]))
            elif w == 2 and args[1] == 0:
                l = (0, ((t, 1),))
            elif w == 1 and args[1] == 0:
                l = get(a.pos, norm(args[0]))
            st.auto = a._replace(pos=put(a.pos, norm(args[0]), l))
            return [(st, args[1] if w == 0 else t)]
        if name == 'read':
            return self.take(S, st, ins, args)
        if name == 'write':
            s2 = st.copy()
            s2.auto = a._replace(failed=1)
            if norm(args[2]) == self.header:
                st.auto = a._replace(head='written')
            return [(st, args[2]), (s2, -1)]
        if name in ('ftruncate', 'ftruncate64'):
            s2 = st.copy()
            st.auto = a._replace(cut=freeze(self.lin(S, st, args[1])))
            s2.auto = a._replace(failed=1)
            return [(st, 0), (s2, -1)]
        if name == 'free':
            if a.buf is not None and args[0] == a.buf[0]:
                self.done(S, st, ins)
            return None
        if name in self.lookups:
            self.checked.add(('lookup', ins.fn.name))
            rec = a.rec
            if a.buf is not None:
                if rec is None or args[1] != sim.addr(rec, self.off['id']) or equal(S, st, args[2], self.field(S, st, rec, 'idlength')) is not True:
                    self.hit(st, ins, 'lookup', 'the key looked up while a record is loaded is not the one of the record')
                self.inside(S, st, ins, args[1], args[2])
            st.auto = st.auto._replace(looked=1)
            s2 = st.copy()
            t = lib.fresh(S, s2, ins, name)
            s2.auto = s2.auto._replace(entry=('existing', t))
            S.addfact(s2, t, (1, sim.POS, frozenset([0])))
            return [(st, 0), (s2, t)]
        if name == 'index_branch_append':
            st.auto = a._replace(linked=a.linked + (args[2],), entry=('new', args[2]))
            return None
        if name == 'index_entry_delete_memory':
            st.auto = a._replace(removed=a.removed + (args[1],))
            return [(st, 0)]
        if name == 'index_seqid_push':
            ok = equal(S, st, args[1], self.root(S, st, 'nextentry')) is True and equal(S, st, args[2], self.root(S, st, 'indexid')) is True
            if not ok:
                self.hit(st, ins, 'map', 'the file is not mapped to the first id it holds')
            st.auto = a._replace(pushed=(a.pushed or 0) + 1)
            return None
        if name == 'index_rehash':
            return [(st, None)]
        return None

    def take(self, S, st, ins, args):
        a = st.auto
        fd, buf, n = norm(args[0]), args[1], norm(args[2])
        pos = get(a.pos, fd)
        out = []
        site = ('c', ins.fn.name, ins.id)
        for k in ('all', 'none', 'error'):
            s = st.copy()
            S.killroot(s, buf, site)
            if k == 'all':
                nxt = freeze(ladd((1, thaw(pos)), (1, self.lin(S, s, n)))) if pos is not None else None
                s.auto = a._replace(pos=put(a.pos, fd, nxt))
                if n == self.header and pos == (0, ()):
                    s.auto = s.auto._replace(head='read')
                elif type(n) is tuple:
                    if pos != (0, ()):
                        self.hit(s, ins, 'start', 'the contents of the file are not read from its start')
                    self.checked.add(('contents',))
                    s.auto = s.auto._replace(buf=(buf, n), next=(self.header, ((buf, 1),)), rec=None, entry=None, cut=None, linked=(), removed=())
                out.append((s, args[2]))
            else:
                s.auto = a._replace(failed=0 if k == 'none' else 1, pos=put(a.pos, fd, None), head='empty' if n == self.header and k == 'none' else a.head)
                s.note('%s: %s' % (ins.loc, 'nothing to read' if k == 'none' else 'the read fails'))
                out.append((s, 0 if k == 'none' else -1))
        return out

    def within(self, S, st, addr):
        """linear form of an address in the contents"""
        a = st.auto
        if a.buf is None or a.next is None or type(addr) is not tuple:
            return None
        l = self.lin(S, st, addr)
        if l is None:
            return None
        mine = {x for x, _ in a.next[1]} | {a.buf[0]}
        return l if mine & set(l[1]) else None

    def inside(self, S, st, ins, addr, n):
        l = self.within(S, st, addr)
        if l is None:
            return
        a = st.auto
        end = ladd((1, (0, {a.buf[0]: 1})), (1, self.lin(S, st, a.buf[1])))
        w = self.lin(S, st, n)
        left = ladd((1, end), (-1, l), (-1, w)) if w is not None else None
        self.checked.add(('inside', ins.fn.name, ins.id))
        if left is None or not linear.prove(S, st, self.flat(left), self.known(S, st)):
            self.hit(st, ins, 'beyond', 'a record that is not complete is read, beyond the end of the contents of the file')

    def known(self, S, st):
        return [self.flat(x) for x in linear.known(S, st)]

    def flat(self, l):
        """casts left out of the terms; the address of the contents does not matter"""
        d = {}
        for x, k in l[1].items():
            x = norm(x)
            d[x] = d.get(x, 0) + k
        return l[0], {x: k for x, k in d.items() if k}

    def on_load(self, S, st, ins, key, cls, val):
        if not cls or not cls.startswith(IT + '.'):
            return
        f = cls.split('.')[1]
        if f not in self.off and f not in self.size:
            return
        a = st.auto
        addr = sim.addr(key[0], key[1])
        if f == 'idlength' and type(val) is tuple:
            S.addfact(st, val, (0, 255, frozenset()))
        if self.within(S, st, addr) is None:
            return
        self.inside(S, st, ins, addr, self.size.get(f, 1))
        if a.rec is None:
            rec = sim.addr(addr, -self.p.field(IT, f)['off'])
            if freeze(self.lin(S, st, rec)) != a.next:
                self.hit(st, ins, 'position', 'the record is not taken from where the one before ends')
            if self.seq and a.pushed != 1:
                self.hit(st, ins, 'map', 'the file is not mapped to its first id before its records are loaded')
            st.auto = a._replace(rec=rec, reg=(), entry=None, linked=(), removed=(), looked=0)

    # ------------------------------------------------------------ the record
    def on_backedge(self, S, st, fn, h):
        class I:
            loc = fn.loc
        a = st.auto
        if a.buf is None or a.rec is None:
            if a.buf is not None and a.next is not None and any(self.within(S, st, v) is not None for v in S.loopvals.values() if type(v) is tuple):
                self.hit(st, I, 'skipped', 'a record is passed over')
            elif a.buf is None or a.next is None:
                self.file(S, st, I)
                st.auto = self.initial()
            return
        I.loc = fn.loc
        self.record(S, st, I)
        # where the next one starts
        n = self.field(S, st, a.rec, 'idlength')
        want = ladd((1, self.lin(S, st, a.rec)), (1, self.lin(S, st, n)), (self.item, (1, {})))
        nxt = None
        for rid, v in S.loopvals.items():
            l = self.lin(S, st, v) if type(v) is tuple else None
            if l is None:
                continue
            for base in ((0, {}), (0, {a.buf[0]: 1})):
                d = ladd((1, self.flat(l)), (1, base), (-1, self.flat(want)))
                if d == (0, {}):
                    nxt = ladd((1, base), (1, (0, {('phi', fn.name, rid): 1})))
        if nxt is None:
            self.hit(st, I, 'advance', 'the next record is not looked for where this one ends')
        st.auto = a._replace(rec=None, next=freeze(nxt), entry=None, reg=(), linked=(), removed=(), cut=None)

    def record(self, S, st, I):
        a = st.auto
        rec = a.rec
        off = ladd((1, self.lin(S, st, rec)), (-1, (0, {a.buf[0]: 1})))
        prev = self.lin(S, st, self.root(S, st, 'previous'))
        if prev is None or ladd((1, self.flat(prev)), (-1, self.flat(off))) != (0, {}):
            self.hit(st, I, 'previous', 'after a record is loaded it is not the one new records are linked to')
        if self.seq:
            self.checked.add(('counted',))
            for f in ('nextentry', 'nextid'):
                l = self.lin(S, st, self.root(S, st, f))
                t = list(l[1].items()) if l else []
                if not (l and l[0] == 1 and len(t) == 1 and t[0][1] == 1 and t[0][0][0] == 'ld' and t[0][0][3] == 'index_root_t.' + f) and not (f == 'nextid' and l == (1, {})):
                    self.hit(st, I, 'counter', 'a record loaded is not counted once in %s' % f)
            return
        if not a.looked:
            self.hit(st, I, 'replaced', 'a record is loaded without looking for the entry of an older version of the key')
            return
        if a.entry is None:
            if not self.deleted:
                self.hit(st, I, 'missing', 'a record loaded leaves no entry in memory')
            return
        kind, e = a.entry
        gone = any(x == e for x in a.removed)
        self.checked.add((kind, self.deleted))
        if self.deleted:
            if not gone:
                self.hit(st, I, 'deleted', 'the key of a record flagged deleted stays in memory')
            return
        if a.removed:
            self.hit(st, I, 'removed', 'the key of a record that is not flagged deleted is removed from memory')
            return
        g = {f: S.load(st, sim.addr(e, self.p.field(EN, f)['off']), '%s.%s' % (EN, f)) for f in FIELDS + ('idlength', 'dataid', 'indexid', 'idxoffset', 'namespace')}
        for f in FIELDS:
            if f.startswith('parent') and kind == 'existing':
                continue            # linked to the version it replaces
            if equal(S, st, g[f], self.field(S, st, rec, f)) is not True:
                self.hit(st, I, 'field:' + f, 'the %s in memory is not the one of the record loaded' % f)
        ix = self.root(S, st, 'indexid')
        if equal(S, st, g['indexid'], ix) is not True:
            self.hit(st, I, 'field:indexid', 'the entry in memory does not name the index file loaded')
        if equal(S, st, g['dataid'], ix) is not True and equal(S, st, g['dataid'], S.load(st, sim.addr(rec, self.p.field(IT, 'dataid')['off']), IT + '.dataid')) is not True:
            self.hit(st, I, 'field:dataid', 'the entry in memory does not name the data file of the record')
        l = self.lin(S, st, norm(g['idxoffset']))
        if l is None or ladd((1, self.flat(l)), (-1, self.flat(off))) != (0, {}):
            self.hit(st, I, 'field:idxoffset', 'the entry in memory does not hold the position of the record')
        if kind == 'new':
            r = get(a.reg, sim.addr(e, self.p.field(EN, 'id')['off']))
            n = self.field(S, st, rec, 'idlength')
            if equal(S, st, g['idlength'], n) is not True or r is None or r[0] != sim.addr(rec, self.off['id']) or equal(S, st, r[1], n) is not True:
                self.hit(st, I, 'key', 'the key of the entry in memory is not the one of the record')
            if equal(S, st, g['namespace'], self.root(S, st, 'namespace')) is not True:
                self.hit(st, I, 'namespace', 'the entry loaded does not belong to the namespace of the index')

    def done(self, S, st, ins):
        """the contents are not used any more"""
        a = st.auto
        self.checked.add(('end',))
        end = ladd((1, (0, {a.buf[0]: 1})), (1, self.lin(S, st, a.buf[1])))
        nxt = thaw(a.next)
        ok = nxt is not None and linear.prove(S, st, self.flat(ladd((1, nxt), (-1, end))), self.known(S, st))
        if not ok and a.cut is not None and nxt is not None:
            ok = self.flat(ladd((1, thaw(a.cut)), (1, (0, {a.buf[0]: 1})), (-1, nxt))) == (0, {})
        if not ok and not self.readonly(S, st):
            self.hit(st, ins, 'tail', 'what follows the last complete record stays in the file: records written later are not found when it is loaded again')
        st.auto = a._replace(buf=None, next=None, rec=None, cut=None)

    def file(self, S, st, I):
        a = st.auto
        if a.buf is not None:
            self.done(S, st, I)
        self.checked.add(('file', a.head))
        if a.head == 'empty' and not a.failed and not self.readonly(S, st):
            self.hit(st, I, 'header', 'an empty index file is used without a header: it can not be loaded again')

    def finish(self, S, exits):
        class I:
            loc = self.p.defined[ENTRY].loc
        for st, ret in exits:
            self.file(S, st, I)


class Torn(Load):
    """a record appended to an index file is there completely or not at all"""

    def __init__(self, p, mode):
        Load.__init__(self, p, mode, 0, False)
        del self.force[IT + '.flags']
        self.opaque += tuple(n for n in ('index_dirty_set',) if n in p.defined)

    def on_call(self, S, st, ins, name, args):
        a = st.auto
        if name == 'write':
            if lib.fdkind(self.p, ins) != 'I':
                return None
            pos = get(a.pos, norm(args[0]))
            s2 = st.copy()
            st.auto = a._replace(pos=put(a.pos, norm(args[0]), None))
            if pos is not None and len(pos[1]) == 1 and pos[0] == 0 and pos[1][0][0][0] == 'call':
                self.checked.add(('append', ins.fn.name, ins.id))
                s2.auto = a._replace(failed=pos, pos=put(a.pos, norm(args[0]), None))
                s2.note('%s: only a part can be written' % ins.loc)
            t = lib.fresh(S, s2, ins, name)
            S.addfact(s2, t, (-1, sim.POS, frozenset()))
            return [(st, args[2])] + ([(s2, t)] if S.assume(s2, 'slt', t, args[2], True) else [])
        if name in ('ftruncate', 'ftruncate64'):
            if a.failed and freeze(self.lin(S, st, args[1])) == a.failed:
                st.auto = a._replace(failed=0)
            return None
        if name in ('open', 'read', 'free', 'index_seqid_push'):
            return None
        return Load.on_call(self, S, st, ins, name, args)

    def on_load(self, S, st, ins, key, cls, val):
        pass

    def on_backedge(self, S, st, fn, h):
        pass

    def finish(self, S, exits):
        class I:
            loc = self.p.defined['index_set'].loc
        for st, ret in exits:
            if st.auto.failed:
                self.hit(st, I, 'torn', 'a part of a record that could not be written completely stays in the index file: records appended behind it can not be loaded')


ENTRY = 'index_internal_load'


@prop('P44', 'Property simulation of the loading of an index: each record in turn, from behind the header to the end of the contents, against the entry in memory it leaves, the counters and the position of the next record.', [])
def p44(ctx):
    p = ctx.prog()
    if ENTRY not in p.defined:
        raise lib.AnalysisBroken('%s not found' % ENTRY)
    D = p.enum('INDEX_ENTRY_DELETED')
    n = 0
    for what, mode, flags in (('entries', 'ZDB_MODE_KEY_VALUE', 0), ('deleted entries', 'ZDB_MODE_KEY_VALUE', D), ('sequential', 'ZDB_MODE_SEQUENTIAL', 0), ('sequential, deleted', 'ZDB_MODE_SEQUENTIAL', D)):
        seq = mode == 'ZDB_MODE_SEQUENTIAL'

        def bad(r, ex):
            r.finish(sim.Sim(p, r), ex)
            return r.hits
        r, ex = ctx.refine(p, lambda: Load(p, p.enum(mode), flags, seq), ENTRY, args=[('arg', 'root')], bad=bad, levels=(1, 3, 8))
        if not r.hits and not {('contents',), ('end',)} <= r.checked:
            ctx.broken('%s: the contents of the index files were not seen' % what)
        if not r.hits and not ({('counted',)} if seq else {('new', bool(flags)), ('existing', bool(flags))}) <= r.checked:
            ctx.broken('%s: no record was seen to be loaded' % what)
        seen = set()
        for k, text, loc, path in r.hits:
            if k not in seen and len(seen) < 5:
                seen.add(k)
                ctx.bad('%s:%s' % (what, k), loc, text, path)
        if not r.hits:
            ctx.ok(what, '%s: %d obligations hold on %d paths' % (what, len(r.checked), len(ex)), p.defined[ENTRY].loc)
        n += len(r.checked)
    for mode in ('ZDB_MODE_KEY_VALUE', 'ZDB_MODE_SEQUENTIAL'):
        for old in (0, ('arg', 'existing')):
            def bad(r, ex):
                r.finish(sim.Sim(p, r), ex)
                return r.hits
            r, ex = ctx.refine(p, lambda: Torn(p, p.enum(mode)), 'index_set', args=[('arg', 'root'), ('arg', 'set'), old], bad=bad, levels=(3, 12))
            what = 'append, %s, %s' % (mode[9:].lower().replace('_', '-'), 'update' if old else 'insertion')
            if not any(x[0] == 'append' for x in r.checked):
                ctx.broken('%s: no record is appended' % what)
            n += len(r.checked)
            if r.hits:
                ctx.bad('torn:' + what, r.hits[0][2], r.hits[0][1], r.hits[0][3])
            else:
                ctx.ok('torn:' + what, 'what can not be appended completely is taken back on %d paths' % len(ex), p.defined['index_set'].loc)
    ctx.need(n, 20, 'loads of a record, records and files loaded')
