"""What a lookup returns: the entry of exactly the key asked for, in the namespace asked; and that the lists of entries stay complete."""
from collections import namedtuple
import lib
import sim
from lib import lin
from registry import prop
from rules_read import R, Reader, freeze, thaw
from rules_record import EN, IT, get, norm, put

L = namedtuple('L', 'eq ne nexts nul crc reg slot first tail made failed links')
BR = 'index_branch_t'
COMPARE = ('memcmp', 'bcmp', 'strncmp')


def strip(v):
    """casts left out everywhere"""
    if type(v) is not tuple:
        return v
    v = norm(v)
    return tuple(strip(x) for x in v) if type(v) is tuple else v


def forms(v):
    """the value, and as it is when widened"""
    v = norm(v)
    return [v] if type(v) is not tuple else [v] + [('zext', w, v) for w in (8, 16, 32)] + [('sext', w, v) for w in (8, 16, 32)]


def equal(S, st, a, b):
    """True, False or None (not known)"""
    for x in forms(a):
        for y in forms(b):
            e = S.evalcmp(st, 'eq', x, y)
            if e is not None:
                return e
    return None


def isnot(S, st, v, c):
    for x in forms(v):
        lo, hi, ex = S.rng(st, x)
        if hi < c or lo > c or c in ex:
            return True
    return False


class Lists(sim.Rule):
    """walks over the lists of entries: which entries were compared with the key, which end of which list was reached"""

    def __init__(self, p, key, force=()):
        self.p = p
        self.key = key                              # (address, length) of the key the bucket is chosen with
        self.force = dict(force)
        self.opaque = ('zdb_crc32', 'zdb_hexdump')
        self.events = ('zdb_crc32',) + COMPARE + ('memcpy', 'memmove', 'malloc', 'calloc')
        self.classes = ('index_entry_t.next', BR + '.list', BR + '.last')
        self.off = {f: p.field(EN, f)['off'] for f in ('id', 'idlength', 'namespace', 'next')}
        self.hits, self.shapes, self.checked = [], {}, set()

    def initial(self):
        return L((), (), (), (), (), (), None, None, None, (), 0, ())

    def hit(self, st, ins, key, text):
        self.hits.append((key, text, getattr(ins, 'loc', '') or '', st.path()))

    def on_null(self, S, st, ins):
        return True

    def live(self, st):
        r = set()

        def walk(x):
            if type(x) is tuple and x:
                if type(x[0]) is str:
                    r.update(sim.leaves(x))
                else:
                    for y in x:
                        walk(y)
        walk(tuple(st.auto))
        return frozenset(r)

    def apart(self, st):
        return len(st.auto.nexts), bool(st.auto.eq), st.auto.slot

    # ------------------------------------------------------------ events
    def on_call(self, S, st, ins, name, args):
        a = st.auto
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            name = 'memcpy'
        if name in ('memcpy', 'memmove'):
            st.auto = a._replace(reg=put(a.reg, args[0], (args[1], norm(args[2]))))
            return None
        if name == 'zdb_crc32':
            t = lib.fresh(S, st, ins, name)
            st.auto = a._replace(crc=put(a.crc, t, (args[0], norm(args[1]))))
            return [(st, t)]
        if name in COMPARE:
            x = (args[0], args[1], norm(args[2]))
            s2 = st.copy()
            st.auto = a._replace(eq=a.eq + (x,))
            if name == 'strncmp':       # ends at a zero byte
                st.auto = a
            s2.auto = a._replace(ne=a.ne + (x,))
            t = lib.fresh(S, s2, ins, name)
            S.addfact(s2, t, (-sim.POS, sim.POS, frozenset([0])))
            return [(st, 0), (s2, t)]
        if name in ('malloc', 'calloc'):
            t = lib.fresh(S, st, ins, name)
            s2 = st.copy()
            s2.auto = a._replace(failed=1)
            st.auto = a._replace(made=tuple(x for x in a.made if x != t) + (t,))
            S.addfact(st, t, (1, sim.POS, frozenset([0])))
            if name == 'calloc':
                st.zero = st.zero | {t}
            return [(st, t), (s2, 0)]
        return None

    def crcs(self, st, v):
        """the value with each checksum of the key as a token, None if it depends on something else"""
        v = norm(v)
        if type(v) is not tuple:
            return v
        c = get(st.auto.crc, v)
        if c is not None:
            return ('crc',) if self.iskey(st, *c) else None
        if v[0] == 'ld' and type(v[1]) is tuple and v[1][0] == 'g':
            return v[:3]
        if v[0] in ('op', 'cmp'):
            o = [self.crcs(st, x) for x in v[2:]]
            if None in o:
                return None
            if v[0] == 'op' and v[1] in ('and', 'or', 'xor', 'add', 'mul'):
                o.sort(key=repr)
            return v[:2] + tuple(o)
        return None

    def iskey(self, st, ptr, n):
        src = ptr
        for _ in range(3):
            r = get(st.auto.reg, src)
            if r is None:
                break
            if norm(r[1]) != norm(n) and norm(n) != self.key[1]:
                return False
            src = r[0]
        return (src == self.key[0] or ptr == self.key[0]) and norm(n) == self.key[1]

    def on_load(self, S, st, ins, key, cls, val):
        a = st.auto
        k, o = key
        base = k[1] if type(k) is tuple and k[0] == '[]' else None
        idx = k[2] if base is not None else None
        if base is None and type(k) is tuple and k[0] == 'ld' and k[3] == 'index_root_t.branches':
            base, idx = k, o
        if type(base) is tuple and base[0] == 'ld' and base[3] == 'index_root_t.branches':
            s = self.crcs(st, idx)
            self.shapes[(ins.fn.name, ins.id)] = (s, ins.loc)
            st.auto = a._replace(slot=sim.addr(k, o))
            return
        if cls == 'index_entry_t.next' and key[1] == self.off['next']:
            x = sim.addr(k, o - self.off['next'])
            if x not in a.nexts:
                st.auto = a._replace(nexts=a.nexts + (x,))
        elif cls == BR + '.list' and a.first is None:
            st.auto = a._replace(first=(k, val))
        elif cls == BR + '.last' and a.tail is None:
            st.auto = a._replace(tail=(k, val))

    def on_branch(self, S, st, ins, cond, truth):
        # a cursor is found to be the end of its list
        if type(cond) is tuple and cond[0] == 'cmp' and cond[1] in ('eq', 'ne') and 0 in cond[2:4]:
            if (cond[1] == 'eq') == bool(truth):
                x = cond[2] if cond[3] == 0 else cond[3]
                if type(x) is tuple:
                    st.auto = st.auto._replace(nul=st.auto.nul + (x,))

    def on_store(self, S, st, ins, key, cls, val):
        if cls == 'index_entry_t.next':
            st.auto = st.auto._replace(links=put(st.auto.links, sim.addr(key[0], key[1]), val))

    # ------------------------------------------------------------ lookups
    def part(self, S, st, e, f):
        return S.load(st, sim.addr(e, self.off[f]), '%s.%s' % (EN, f))

    def space(self, S, st):
        return S.load(st, sim.addr(('arg', 'index'), self.p.field('index_root_t', 'namespace')['off']), 'index_root_t.namespace')

    def compared(self, st, lst, e):
        i = sim.addr(e, self.off['id'])
        return [norm(n) for a, b, n in lst if {a, b} == {i, self.key[0]}]

    def differs(self, S, st, e):
        a = st.auto
        if equal(S, st, self.part(S, st, e, 'idlength'), self.key[1]) is False:
            return True
        if equal(S, st, self.part(S, st, e, 'namespace'), self.space(S, st)) is False:
            return True
        # comparing less bytes and finding a difference is a difference too
        return bool(self.compared(st, a.ne, e)) and self.shorter(S, st, self.compared(st, a.ne, e), e)

    def shorter(self, S, st, ns, e):
        l = norm(self.part(S, st, e, 'idlength'))
        return any(n in (self.key[1], l) for n in ns)

    def passed(self, S, st, where):
        for e in st.auto.nexts:
            self.checked.add(('pass', repr(norm(e))[:80]))
            if not self.differs(S, st, e):
                self.hit(st, where, 'skip', 'an entry is passed over although it was not shown to differ from the key asked for (length, namespace or all bytes)')

    def on_backedge(self, S, st, fn, h):
        if st.auto.nexts:
            class I:
                loc = fn.loc
            self.passed(S, st, I)
            st.auto = st.auto._replace(nexts=(), eq=(), ne=(), nul=())

    def finish(self, S, exits):
        class I:
            loc = self.p.defined['index_get'].loc
        for st, ret in exits:
            ret = norm(ret)
            a = st.auto
            self.passed(S, st, I)
            if ret == 0:
                self.checked.add(('absent',))
                if not any(self.end(x) for x in a.nul):
                    self.hit(st, I, 'absent', 'the key is answered as absent before the end of its list was reached')
                continue
            if type(ret) is not tuple:
                self.hit(st, I, 'unknown', 'what is returned is not known')
                continue
            self.checked.add(('found',))
            n = norm(self.part(S, st, ret, 'idlength'))
            if equal(S, st, n, self.key[1]) is not True:
                self.hit(st, I, 'idlength', 'the entry returned may have a key of another length')
            if equal(S, st, self.part(S, st, ret, 'namespace'), self.space(S, st)) is not True:
                self.hit(st, I, 'namespace', 'the entry returned may belong to another namespace')
            if not any(x in (n, self.key[1]) for x in self.compared(st, a.eq, ret)):
                self.hit(st, I, 'bytes', 'the key of the entry returned was not compared with the key asked for over its whole length')

    def end(self, x):
        """a value that marks the end when null: the lists of a root, a bucket, the first entry, the next entry, or the cursor over them"""
        if x[0] == 'ld':
            if x[3] in ('index_root_t.branches', BR + '.list', 'index_entry_t.next'):
                return True
            k = x[1]
            return type(k) is tuple and k[0] == '[]' and type(k[1]) is tuple and k[1][0] == 'ld' and k[1][3] == 'index_root_t.branches'
        if x[0] == 'phi':
            f = self.p.defined.get(x[1])
            i = f.byid.get(x[2]) if f else None
            for o, _ in (i.ops if i is not None and i.op == 'phi' else ()):
                d = f.byid.get(o[1]) if o[0] == 'i' else None
                if d is not None and d.op == 'load' and self.p.cls_of_ptr(f, d.ops[0]) == 'index_entry_t.next':
                    return True
        return False


class Slot(Reader):
    """sequential mode: the record read, the id it carries, and the entry filled from it"""
    same2 = None

    def __init__(self, p):
        self.cmd, self.start, self.p = 'LOOKUP', ('index', ('arg', 'index')), p
        self.force = {'index_root_t.mode': p.enum('ZDB_MODE_SEQUENTIAL'), 'index_item_t.flags': 0, 'index_entry_t.flags': 0}
        self.lookup = self.crc = None
        self.rep = self.aside = ()
        self.opaque = ('zdb_hexdump',)
        self.events = COMPARE + ('memcpy', 'memmove', 'read', 'pread', 'pread64', 'lseek', 'lseek64', 'open', 'sprintf', 'snprintf', 'malloc', 'calloc')
        self.classes = ()
        self.hits, self.checked, self.S = [], set(), None
        self.hid = -1
        self.head, self.item = p.structs['index_header_t']['size'], p.structs[IT]['size']

    def on_call(self, S, st, ins, name, args):
        self.S = S
        a = st.auto
        if name in COMPARE:
            x = (args[0], args[1], norm(args[2]))
            s2 = st.copy()
            if name != 'strncmp':
                st.auto = a._replace(crc=a.crc + (('eq', self.resolve(S, st, x)),))
            s2.auto = a._replace(failed=1)
            t = lib.fresh(S, s2, ins, name)
            S.addfact(s2, t, (-sim.POS, sim.POS, frozenset([0])))
            return [(st, 0), (s2, t)]
        if name in ('sprintf', 'snprintf'):
            k = 1 if name == 'sprintf' else 2
            f = lib.strval(S, args[k])
            S.killroot(st, args[0], ('c', ins.fn.name, ins.id))
            if f is not None and f.endswith(('/i%u', '/i%d')) and len(args) > k + 2:
                st.auto = a._replace(path=put(a.path, args[0], self.norm(args[k + 2])))
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (0, 1 << 20, frozenset()))
            return [(st, t)]
        if name in ('read', 'pread', 'pread64') and type(args[0]) is tuple:
            out = self.take(S, st, ins, name, args)
            if lib.fdkind(self.p, ins) == 'I':
                self.hits = [x for x in self.hits if x[0] != 'read:file']
            return out
        return Reader.on_call(self, S, st, ins, name, args)

    def resolve(self, S, st, x):
        """what is compared: local copies by what they hold"""
        def one(v):
            b, o = sim.split(v) if type(v) is tuple else (v, 0)
            r = get(st.auto.reg, v)
            if r is not None and norm(r[1]) == x[2]:
                return r[0]
            if type(b) is tuple and b[0] == 'al':
                c = S.load(st, v, 'al')
                if type(c) is tuple and c[0] == 'ld':
                    r = get(st.auto.reg, sim.addr(c[1], c[2]))
                    return r[0] if r is not None else sim.addr(c[1], c[2])
            return v
        return (one(x[0]), one(x[1]), x[2])

    def whence(self, st, v):
        """address a value was loaded from; through local copies"""
        v = norm(v)
        if type(v) is tuple and v[0] == 'ld':
            k = sim.addr(v[1], v[2])
            r = get(st.auto.reg, k)
            return r[0] if r is not None else k
        return None

    def finish(self, exits):
        S, p = self.S, self.p

        class I:
            loc = p.defined['index_get'].loc
        I = I()
        key, n = ('arg', 'id'), ('arg', 'idlength')
        for st, ret in exits:
            a = st.auto
            ret = norm(ret)
            if ret == 0:
                self.checked.add(('absent',))
                if not (a.failed or isnot(S, st, n, 8) or self.unlike(S, st)):
                    self.hit(st, I, 'absent', 'the id is answered as absent although its record was read and carries it')
                continue
            if type(ret) is not tuple:
                self.hit(st, I, 'unknown', 'what is returned is not known')
                continue
            self.checked.add(('found',))
            if equal(S, st, n, 8) is not True:
                self.hit(st, I, 'idlength', 'an entry is returned for a key that has not the length of an id')
            e = {f: self.norm(S.load(st, sim.addr(ret, p.field(EN, f)['off']), '%s.%s' % (EN, f))) for f in
                 ('idlength', 'offset', 'idxoffset', 'length', 'dataid', 'indexid', 'crc', 'parentid', 'parentoff', 'timestamp')}
            src = [(b, g) for b, g in a.got if self.from_item(e['offset'], b, 'offset')]
            if not src:
                self.hit(st, I, 'source', 'the entry returned is not filled from a record read from an index file')
                continue
            buf, (f, pos, size) = src[-1]
            for x in ('length', 'dataid', 'crc', 'parentid', 'parentoff', 'timestamp'):
                if not self.from_item(e[x], buf, x):
                    self.hit(st, I, 'field:' + x, 'the %s of the entry returned is not the one of the record read' % x)
            if not (self.from_item(e['idlength'], buf, 'idlength') or self.same(S, st, e['idlength'], 8)):
                self.hit(st, I, 'field:idlength', 'the key length of the entry returned is not the one of the record read')
            if not self.same(S, st, e['indexid'], f):
                self.hit(st, I, 'indexid', 'the entry returned does not name the index file its record was read from')
            if freeze(lin(S, st, norm(e['idxoffset']))) != pos and norm(e['idxoffset']) != norm(self.value(pos)):
                self.hit(st, I, 'idxoffset', 'the entry returned does not hold the position its record was read from')
            d = None if pos is None or f is None else thaw(pos)
            if not (d and type(f) is tuple and f[0] == 'ld' and f[3] == 'index_seqmap_t.fileid'):
                self.hit(st, I, 'position', 'the record is not read from the file and at the place the id is mapped to')
            else:
                s = ('ld', f[1], f[2] - p.field('index_seqmap_t', 'fileid')['off'] + p.field('index_seqmap_t', 'seqid')['off'], 'index_seqmap_t.seqid')
                w = self.item + 8
                t = {x: k for x, k in d[1].items() if k}
                ks = [x for x, k in t.items() if k == w and self.whence(st, x) == key]
                ss = [x for x, k in t.items() if k == -w and type(x) is tuple and x[:4] == s]
                if d[0] != self.head or len(t) != 2 or not ks or not ss:
                    self.hit(st, I, 'position', 'the record is not read from the place the id is mapped to (behind the header, one record for each id since the first of the file)')
            ln = self.norm(size)
            if not (type(ln) is int and ln >= self.item + 8 or S.rng(st, ln)[0] >= self.item + 8):
                self.hit(st, I, 'size', 'the record is not read completely')
            i = sim.addr(buf, p.field(IT, 'id')['off'])
            got = [x for k, x in a.crc if k == 'eq' and {x[0], x[1]} == {i, key} and x[2] == 8]
            if not got and not self.equal8(S, st, i, key):
                self.hit(st, I, 'id', 'the id of the record returned was not compared with the one asked for')

    def on_store(self, S, st, ins, key, cls, val):
        if type(key[0]) is tuple and key[0][0] == 'ld':
            S.addfact(st, key[0], (-sim.POS, sim.POS, frozenset([0])))      # what is written through is no null pointer
        return Reader.on_store(self, S, st, ins, key, cls, val)

    def value(self, pos):
        d = thaw(pos)
        if d and d[0] == 0 and len(d[1]) == 1:
            (x, k), = d[1].items()
            return x if k == 1 else None

    def from_item(self, v, buf, f):
        v = norm(v)
        return type(v) is tuple and v[0] == 'ld' and sim.addr(v[1], v[2]) == sim.addr(buf, self.p.field(IT, f)['off'])

    def equal8(self, S, st, i, key):
        for x, y in self.facts8(S, st):
            if {self.whence(st, x), self.whence(st, y)} == {i, key}:
                return True
        return False

    def facts8(self, S, st):
        return st.auto.text

    def on_branch(self, S, st, ins, cond, truth):
        if type(cond) is tuple and cond[0] == 'cmp' and cond[1] in ('eq', 'ne') and (cond[1] == 'eq') == bool(truth):
            if all(type(x) is tuple for x in cond[2:4]):
                st.auto = st.auto._replace(text=st.auto.text + ((cond[2], cond[3]),))
        elif type(cond) is tuple and cond[0] == 'cmp' and cond[1] in ('eq', 'ne') and all(type(x) is tuple for x in cond[2:4]):
            i = {self.whence(st, x) for x in cond[2:4]}
            if ('arg', 'id') in i and any(sim.addr(b, self.p.field(IT, 'id')['off']) in i for b, _ in st.auto.got):
                st.auto = st.auto._replace(failed=1)

    def unlike(self, S, st):
        """the record read has a key of another length"""
        for b, g in st.auto.got:
            if isnot(S, st, S.load(st, sim.addr(b, self.p.field(IT, 'idlength')['off']), IT + '.idlength'), 8):
                return True
        return False


@prop('P43', 'Property simulation of the lookup of a key. Key-value mode: every entry of the list walked is either shown to differ (length, namespace, bytes) before it is passed, '
      'or is returned with all of them shown equal; absent is answered only at the end of the list; insertion, lookup and removal choose the list by the same function of the key. '
      'Sequential mode: the record is read at the place the id is mapped to, carries that id, and the entry returned is that record.',
      ['the list of index files (first id of each) is searched for the right one: the search itself is not proved to find it, a wrong one cannot answer another record',
       'that callers hand the removal the entry in front of the one removed is not proved'])
def p43(ctx):
    p = ctx.prog()
    for n in ('index_get', 'index_set', 'index_entry_delete_memory'):
        if n not in p.defined:
            raise lib.AnalysisBroken('%s not found' % n)
    KV = p.enum('ZDB_MODE_KEY_VALUE')
    eo, ln = p.field(EN, 'id')['off'], p.field(EN, 'idlength')['off']
    shapes = {}
    key = (('arg', 'id'), ('arg', 'idlength'))

    def run(fn, args, mk, fin):
        def bad(r, ex):
            fin(r, ex)
            return r.hits
        return ctx.refine(p, mk, fn, args=args, bad=bad, levels=(12, 40))

    def mk():
        return Lists(p, key, {'index_root_t.mode': KV, 'index_entry_t.flags': 0})

    # the lookup
    r, ex = run('index_get', [('arg', 'index'), ('arg', 'id'), ('arg', 'idlength')], mk, lambda r, ex: r.finish(sim.Sim(p, r), ex))
    if not r.hits and not {('found',), ('absent',)} <= r.checked:
        ctx.broken('no entry returned or not found was seen')
    report(ctx, 'lookup', r, ex, 'index_get')
    shapes['lookup'] = r.shapes
    n = len(r.checked)
    # insertion and removal use the same list
    for what, fn, args, k, fin in (
            ('insertion', 'index_set', [('arg', 'index'), ('arg', 'set'), 0], None, inserted),
            ('removal', 'index_entry_delete_memory', [('arg', 'index'), ('arg', 'entry')], (sim.addr(('arg', 'entry'), eo), ('ld', ('arg', 'entry'), ln, EN + '.idlength', 0)), None)):
        if k is None:
            e = ('ld', ('arg', 'set'), p.field('index_set_t', 'entry')['off'], 'index_set_t.entry', 0)
            k = (('ld', ('arg', 'set'), p.field('index_set_t', 'id')['off'], 'index_set_t.id', 0), ('ld', e, ln, EN + '.idlength', 0))
        r, ex = run(fn, args, lambda: Lists(p, k, {'index_root_t.mode': KV}), fin or (lambda r, ex: None))
        shapes[what] = r.shapes
        if fin:
            report(ctx, what, r, ex, fn)
            n += len(r.checked)
    allv = {}
    for what, s in shapes.items():
        if not s:
            ctx.broken('%s: no list of a key is chosen' % what)
        for v, loc in s.values():
            allv.setdefault(v, []).append((what, loc))
    n += sum(len(s) for s in shapes.values())
    if len(allv) == 1 and None not in allv:
        ctx.ok('bucket', 'lookup, insertion and removal choose the list of a key the same way: %s' % (list(allv)[0],), p.defined['index_get'].loc)
    else:
        ref = {v for v, _ in shapes['insertion'].values()}
        for v, ws in allv.items():
            if v is None or v not in ref or ws[0][0] == 'insertion' and len(ref) > 1:
                ctx.bad('bucket:%s' % ws[0][0], ws[0][1], '%s does not choose the list of a key by the same function of the whole key as the others' % ws[0][0], [])
    # removal from a list
    rm = 'index_branch_remove'
    if rm not in p.defined:
        raise lib.AnalysisBroken('%s not found' % rm)
    before = len(ctx.obs)
    k = removed(ctx, p, rm)
    if len(ctx.obs) == before:
        ctx.ok('removal', 'removing an entry keeps the others: %d cases' % k, p.defined[rm].loc)
    n += k
    # sequential mode
    r, ex = run('index_get', [('arg', 'index'), ('arg', 'id'), ('arg', 'idlength')], lambda: Slot(p), lambda r, ex: r.finish(ex))
    if not r.hits and not {('found',), ('absent',)} <= r.checked:
        ctx.broken('sequential: no entry returned or not found was seen')
    report(ctx, 'sequential', r, ex, 'index_get')
    n += len(r.checked)
    # entries flagged deleted, in each mode
    D = p.enum('INDEX_ENTRY_DELETED')
    for mode in (KV, p.enum('ZDB_MODE_SEQUENTIAL')):
        r = Lists(p, key, {'index_root_t.mode': mode, 'index_entry_t.flags': D, IT + '.flags': D})
        S = sim.Sim(p, r, maxgroup=12)
        for st, ret in S.run('index_get', [('arg', 'index'), ('arg', 'id'), ('arg', 'idlength')]):
            n += 1
            if norm(ret) != 0:
                r.hit(st, p.defined['index_get'], 'deleted', 'an entry flagged deleted is returned by the lookup')
        report(ctx, 'deleted:%d' % mode, r, [1], 'index_get')
    ctx.need(n, 8, 'returns, entries passed and lists chosen')


def report(ctx, what, r, ex, fn):
    seen = set()
    for k, text, loc, path in r.hits:
        if k not in seen and len(seen) < 4:
            seen.add(k)
            ctx.bad('%s:%s' % (what, k), loc, text, path)
    if not r.hits:
        ctx.ok(what, '%s: %d obligations agree on %d paths' % (what, len(r.checked), len(ex)), ctx.prog().defined[fn].loc)


def inserted(r, exits):
    """after an insertion the list is the old one and the new entry"""
    p = r.p
    S = sim.Sim(p, r)
    ln, la, nx = p.field(BR, 'list')['off'], p.field(BR, 'last')['off'], r.off['next']

    class I:
        loc = p.defined['index_set'].loc
    for st, ret in exits:
        a = st.auto
        ret = norm(ret)
        if ret == 0 or a.slot is None:
            if ret != 0 and a.made and not any(x[0] == 'ld' and x[3] == 'index_root_t.branches' for x in a.nul):
                r.hit(st, I, 'unlinked', 'an entry is returned that was not put into a list')
            continue
        b = S.load(st, a.slot, None)
        lst, last = (S.load(st, sim.addr(b, o), c) for o, c in ((ln, BR + '.list'), (la, BR + '.last')))
        nxt = S.load(st, sim.addr(ret, nx), 'index_entry_t.next')
        if get(a.links, sim.addr(ret, nx)) == 0:
            nxt = 0                         # (writing to another entry does not change one just allocated)
        l0 = a.first[1] if a.first else None
        t0 = a.tail[1] if a.tail else None
        z = [None if x is None else True if x == 0 else S.truth_zero(st, x) for x in (l0, t0)]
        if z[0] is not None and z[1] is not None and z[0] != z[1]:
            continue                        # a list has a first entry exactly when it has a last one
        empty = z[0] if z[0] is not None else z[1]
        r.checked.add(('linked', empty))
        if equal(S, st, lst, ret) is True and (empty and nxt == 0 or l0 is not None and empty is not True and equal(S, st, nxt, l0) is True):
            ok = equal(S, st, last, ret) is True if empty else empty is False and t0 is None or equal(S, st, last, t0) is True
        else:
            ok = empty is False and nxt == 0 and equal(S, st, last, ret) is True and type(t0) is tuple
            ok = ok and equal(S, st, get(a.links, sim.addr(t0, nx)) or 0, ret) is True
            ok = ok and (l0 is None or equal(S, st, lst, l0) is True)
        if not ok:
            r.hit(st, I, 'chain', 'after the insertion the list does not consist of the entries it had and the new one')


def removed(ctx, p, fn):
    """the removal itself, for an entry that is the first one or not, the last one or not"""
    ln, la, nx = p.field(BR, 'list')['off'], p.field(BR, 'last')['off'], p.field(EN, 'next')['off']
    b, e = ('arg', 'branch'), ('arg', 'entry')
    n = 0
    for first in (0, 1):
        for last in (0, 1):
            prev = 0 if first else ('arg', 'previous')
            l0 = e if first else ('arg', 'head')
            t0 = e if last else ('arg', 'tail')
            n0 = 0 if last else ('arg', 'next')

            def setup(S, st):
                for x in (b, e, prev, l0, t0, n0):
                    if type(x) is tuple:
                        S.addfact(st, x, (1, sim.POS, frozenset([0])))
                for x in (prev, l0, t0, n0):
                    if type(x) is tuple and x != e:
                        S.assume(st, 'eq', e, x, False)
                S.store(st, sim.addr(b, ln), BR + '.list', l0, ('s', 1))
                S.store(st, sim.addr(b, la), BR + '.last', t0, ('s', 2))
                S.store(st, sim.addr(e, nx), EN + '.next', n0, ('s', 3))
                if prev:
                    S.store(st, sim.addr(prev, nx), EN + '.next', e, ('s', 4))
                    S.store(st, sim.addr(e, nx), EN + '.next', n0, ('s', 5))

            r = Lists(p, (None, None))
            S = sim.Sim(p, r, maxgroup=12)
            case = ('first' if first else 'inner') + (' and last' if last else '')
            for st, ret in S.run(fn, [b, e, prev], None, setup):
                n += 1
                h = S.load(st, sim.addr(b, ln), BR + '.list')
                t = S.load(st, sim.addr(b, la), BR + '.last')
                if first and equal(S, st, h, n0) is not True or not first and equal(S, st, h, l0) is not True:
                    ctx.bad('remove:head:%s' % case, p.defined[fn].loc, 'removing the %s entry of a list leaves a wrong first entry' % case, st.path())
                elif prev and equal(S, st, S.load(st, sim.addr(prev, nx), EN + '.next'), n0) is not True:
                    ctx.bad('remove:next:%s' % case, p.defined[fn].loc, 'removing the %s entry of a list loses the entries behind it' % case, st.path())
                elif equal(S, st, t, prev if last else t0) is not True:
                    ctx.bad('remove:tail:%s' % case, p.defined[fn].loc, 'removing the %s entry of a list leaves a wrong last entry: what is appended next is lost' % case, st.path())
    return n
