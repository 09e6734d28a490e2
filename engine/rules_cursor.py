"""Cursors: HISTORY <key> <cursor>, SCAN <cursor>, RSCAN <cursor>. Any bytes can be sent as a cursor."""
from collections import namedtuple
import lib
import sim
from lib import commands, ladd, replies
from registry import prop
from rules_lookup import COMPARE, equal, strip
from rules_read import freeze, thaw
from rules_record import EN, IT, get, norm, put

C = namedtuple('C', 'rec size same path fd pos used')
ARGV, BUF, LEN, ARGC = 'resp_request_t.argv', 'resp_object_t.buffer', 'resp_object_t.length', 'resp_request_t.argc'


class Cursor(sim.Rule):
    def __init__(self, p, user):
        self.p, self.user = p, user
        self.events = ('read', 'pread', 'pread64', 'lseek', 'lseek64', 'open', 'malloc', 'calloc', 'sprintf', 'snprintf', 'close', 'memcpy', 'memmove') + COMPARE
        self.follow_all = True
        self.opaque = tuple(n for n in ('index_item_header_dump', 'zdb_hexdump', 'zdb_warnp', 'zdb_verbosep', 'zdb_debughex', 'index_get', 'index_entry_is_deleted') if n in p.defined) + tuple(replies(p).fns)
        self.events += tuple(replies(p).fns)
        self.force = {ARGC: 3} if user else {}
        self.item = p.structs[IT]['size']
        self.off = {g['name']: g['off'] for g in p.structs[IT]['fields']}
        self.hits, self.checked = [], set()

    def initial(self):
        return C(None, None, (), (), (), (), 0)

    def live(self, st):
        r = set()

        def walk(x):
            if type(x) is tuple and x:
                if type(x) is C or type(x[0]) is not str:
                    for y in x:
                        walk(y)
                else:
                    r.update(sim.leaves(x))
        walk(st.auto)
        return frozenset(r)

    def on_null(self, S, st, ins):
        return True

    def hit(self, st, ins, key, text):
        self.hits.append((key, text, getattr(ins, 'loc', '') or '', st.path()))

    def lin(self, S, st, v):
        l = lib.lin(S, st, v)
        if l is None:
            return None
        d = {}
        for x, k in l[1].items():
            x = strip(x)
            d[x] = d.get(x, 0) + k
        return l[0], {x: k for x, k in d.items() if k}

    def fieldof(self, S, st, f):
        return S.load(st, sim.addr(st.auto.rec, self.off[f]), '%s.%s' % (IT, f))

    def sure(self, S, st, a, b):
        """a == b on this path (compared, or the same value)"""
        x, y = strip(a), strip(b)
        if x == y or equal(S, st, a, b):
            return True
        for k, (lo, hi, _) in st.facts.items():
            if k[0] == 'cmp' and k[1] == 'eq' and lo == hi == 1 and {strip(k[2]), strip(k[3])} == {x, y}:
                return True
        return False

    def behind(self, st, a):
        """offset of an address in the record read"""
        if st.auto.rec is None:
            return None
        a = norm(a)
        for o in sorted(set(self.off.values()) | {0}):
            if a == norm(sim.addr(st.auto.rec, o)):
                return o
        return None

    def within(self, S, st, ins, a, n):
        """only bytes which were read are used"""
        o = self.behind(st, a)
        if o is None:
            return False
        self.checked.add(('bytes', ins.fn.name, ins.id))
        l = ladd((1, st.auto.size and thaw(st.auto.size)), (-1, (o, {})), (-1, self.lin(S, st, n)))
        if l is not None:
            idl = strip(self.fieldof(S, st, 'idlength'))
            if idl in l[1] or l[1]:
                # the number of bytes read instead of an equal length
                for x in list(l[1]):
                    for y in list(l[1]):
                        if x != y and l[1].get(x, 0) == -l[1].get(y, 0) != 0 and self.sure(S, st, x, y):
                            d = dict(l[1])
                            del d[x], d[y]
                            l = (l[0], d)
            if not l[1] and l[0] >= 0:
                return True
            if len(l[1]) == 1 and l[0] >= 0 and list(l[1].values())[0] > 0:
                return True
        self.hit(st, ins, 'bytes', 'bytes behind those read from the index can be used: the length is not the one the record was read with')
        return True

    def on_call(self, S, st, ins, name, args):
        a = st.auto
        site = ('c', ins.fn.name, ins.id)
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            name = 'memcpy'
        if name in replies(self.p).fns:
            k = replies(self.p).kind(S, st, args)
            if k != 'error':
                self.checked.add(('reply', ins.fn.name, ins.id))
                if not self.accepted(S, st):
                    self.hit(st, ins, 'answer', 'a record is answered although it is not established that it is one of the key given')
            return [(st, lib.fresh(S, st, ins, name))]
        if name in self.opaque:
            return [(st, lib.fresh(S, st, ins, name) if ins.ty else None)]
        if name in ('sprintf', 'snprintf'):
            k = 1 if name == 'sprintf' else 2
            f = lib.strval(S, args[k])
            S.killroot(st, args[0], site)
            v = None
            if f is not None and f.endswith(('/i%u', '/i%d')) and len(args) > k + 2:
                v = ('I', norm(args[k + 2]))
            elif f is not None and f.endswith(('/d%u', '/d%d')) and len(args) > k + 2:
                v = ('D', norm(args[k + 2]))
            elif f in ('%u', '%d', '%lu', '%ld') and self.user and a.used:
                self.checked.add(('time',))
                if not self.sure(S, st, args[k + 1], self.fieldof(S, st, 'timestamp')) and args[k + 1] is not None and not self.sure(S, st, args[k + 1], self.fieldof(S, st, 'length')):
                    self.hit(st, ins, 'time', 'the time answered is not the one of the record')
            if v:
                st.auto = a._replace(path=put(a.path, args[0], v))
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (0, 1 << 20, frozenset()))
            return [(st, t)]
        if name == 'open':
            t = lib.fresh(S, st, ins, name)
            s1 = st.copy()
            if S.addfact(st, t, (0, sim.POS, frozenset())):
                st.auto = a._replace(fd=put(a.fd, t, get(a.path, args[0])), pos=put(a.pos, t, (0, ())))
            return [(st, t), (s1, -1)]
        if name == 'close':
            return [(st, 0)]
        if name in ('malloc', 'calloc'):
            t = lib.fresh(S, st, ins, name)
            s2 = st.copy()
            S.addfact(st, t, (1, sim.POS, frozenset([0])))
            return [(st, t), (s2, 0)]
        if name in ('lseek', 'lseek64'):
            if args[2] == 0:
                st.auto = a._replace(pos=put(a.pos, norm(args[0]), freeze(self.lin(S, st, args[1]))))
                return [(st, args[1])]
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (0, sim.POS, frozenset()))
            return [(st, t)]
        if name in COMPARE:
            x, y, n = args[0], args[1], args[2]
            for u, v in ((x, y), (y, x)):
                if self.within(S, st, ins, u, n) and self.behind(st, u) == self.off['id']:
                    s2 = st.copy()
                    if self.iskey(v):
                        st.auto = a._replace(same=a.same + (strip(n),))
                    t = lib.fresh(S, s2, ins, name)
                    S.addfact(s2, t, (sim.NEG, sim.POS, frozenset([0])))
                    return [(st, 0), (s2, t)]
            return [(st, lib.fresh(S, st, ins, name))]
        if name in ('memcpy', 'memmove'):
            self.within(S, st, ins, args[1], args[2])
            if self.user and args[2] == self.p.structs['index_ekey_t']['size'] and type(sim.base_of(args[0])) is tuple and sim.base_of(args[0])[0] == 'call':
                self.checked.add(('next',))
                o = {g['name']: g['off'] for g in self.p.structs['index_ekey_t']['fields']}
                for x, y in (('indexid', 'parentid'), ('offset', 'parentoff')):
                    v = S.load(st, sim.addr(args[1], o[x]), 'index_ekey_t.' + x)
                    if a.rec is None or not self.sure(S, st, v, self.fieldof(S, st, y)):
                        self.hit(st, ins, 'next:' + x, 'the cursor answered is not the position of the version before')
            return None
        return self.take(S, st, ins, name, args) if name in ('read', 'pread', 'pread64') else None

    def iskey(self, v):
        return self.keyarg(v) == 1

    def keyarg(self, v):
        """number of the argument whose bytes these are"""
        v = strip(v)
        if type(v) is not tuple or v[0] != 'ld' or v[3] != BUF:
            return None
        return self.number(v)

    def number(self, v):
        """k when v is loaded from the object argv[k]"""
        o = v[1]
        return o[2] // 8 if type(o) is tuple and o[0] == 'ld' and type(o[1]) is tuple and o[1][0] == 'ld' and o[1][3] == ARGV else None

    def accepted(self, S, st):
        """the record read has the key of the request: the same length, and all bytes compared"""
        a = st.auto
        if not self.user:
            return True
        if a.rec is None:
            return False
        idl = strip(self.fieldof(S, st, 'idlength'))
        lens = [k for k in self.lengths(st)]
        for n in a.same:
            if not any(self.sure(S, st, n, x) or n == strip(x) for x in lens):
                continue
            if n == idl or self.sure(S, st, n, idl) or any(self.sure(S, st, x, idl) for x in lens):
                return True
        return False

    def lengths(self, st):
        """the length of the key given"""
        r = set()
        for k in list(st.facts) + [('x', n) for n in st.auto.same]:
            for x in atoms(k):
                if x[0] == 'ld' and x[3] == LEN and self.number(x) == 1:
                    r.add(x)
        return r

    def take(self, S, st, ins, name, args):
        a = st.auto
        fd, buf, n = norm(args[0]), args[1], args[2]
        kind = lib.fdkind(self.p, ins)
        pos = get(a.pos, fd) if name == 'read' else freeze(self.lin(S, st, args[3]))
        site = ('c', ins.fn.name, ins.id)
        if kind == 'D':
            self.checked.add(('data', ins.fn.name, ins.id))
            if not self.accepted(S, st):
                self.hit(st, ins, 'use', 'data is read for a record although it is not established that it is one of the key given')
            st.auto = a._replace(used=1)
            S.killroot(st, buf, site)
            t = lib.fresh(S, st, ins, name)
            return [(st, t)]
        S.killroot(st, buf, site)
        s2 = st.copy()
        st.auto = a._replace(rec=norm(buf), size=freeze(self.lin(S, st, n)), same=())
        self.checked.add(('record', ins.fn.name, ins.id))
        if not self.user:
            k = lambda f: S.load(st, sim.addr(('arg', 'key'), self.p.field('index_bkey_t', f)['off']), 'index_bkey_t.' + f)
            f = get(a.fd, fd)
            l = ladd((1, pos and thaw(pos)), (-1, self.lin(S, st, k('idxoffset'))))
            if f is None and type(fd) is tuple and fd[0] == 'ld' and fd[3] == 'index_root_t.indexfd':
                ok = self.sure(S, st, S.load(st, sim.addr(('arg', 'root'), self.p.field('index_root_t', 'indexid')['off']), 'index_root_t.indexid'), k('fileid'))
            else:
                ok = f is not None and f[0] == 'I' and self.sure(S, st, f[1], k('fileid'))
            if not ok or l != (0, {}):
                self.hit(st, ins, 'place', 'the record is not read at the place of the cursor')
        t = lib.fresh(S, s2, ins, name)
        S.addfact(s2, t, (-1, sim.POS, frozenset([n] if type(n) is int else [])))
        if type(n) is not int:
            S.assume(s2, 'ne', t, n, True)
        return [(st, n), (s2, t)]

    def finish(self, S, exits):
        """what index_entry_deserialize hands over"""
        p = self.p

        class I:
            loc = p.defined['index_entry_deserialize'].loc
        for st, ret in exits:
            if ret == 0 or S.truth_zero(st, ret) is True:
                self.checked.add(('refused',))
                continue
            self.checked.add(('accepted',))
            if st.auto.rec is None:
                self.hit(st, I, 'none', 'a cursor is accepted without a record')
                continue
            k = lambda f: S.load(st, sim.addr(('arg', 'key'), p.field('index_bkey_t', f)['off']), 'index_bkey_t.' + f)
            e = lambda f: S.load(st, sim.addr(ret, p.field(EN, f)['off']), '%s.%s' % (EN, f))
            for f in ('idlength', 'length', 'crc'):
                if not self.sure(S, st, self.fieldof(S, st, f), k(f)):
                    self.hit(st, I, f, 'a cursor is accepted although the %s of the record is not established to be the one of the cursor' % {'idlength': 'id length', 'length': 'data length', 'crc': 'checksum'}[f])
            for f, g in (('indexid', 'fileid'), ('idxoffset', 'idxoffset')):
                if not self.sure(S, st, e(f), k(g)):
                    self.hit(st, I, f, 'the walk does not start at the place of the cursor')


def atoms(t):
    if type(t) is tuple and t:
        if t[0] == 'ld':
            yield t
        for x in t:
            for y in atoms(x):
                yield y


@prop('P39', 'Property simulation of HISTORY with a cursor: nothing is read from a data file and nothing but an error answered before the id length of the record was found equal to the length of the key given '
      'and all its bytes were compared; the time and the next cursor answered are those of that record. Property simulation of the acceptance of SCAN and RSCAN cursors: read at the place of the cursor, accepted only '
      'with equal id length, data length and checksum. In both no more bytes of the record are used than were read.')
def p39(ctx):
    p = ctx.prog()
    h = lib.handler(p, 'HISTORY')
    r, ex = ctx.refine(p, lambda: Cursor(p, True), h)
    for k, text, loc, path in r.hits[:4]:
        ctx.bad('HISTORY:' + k, loc, text, path)
    if not r.hits:
        if not {'data', 'reply', 'record', 'bytes'} <= {x[0] for x in r.checked}:
            ctx.broken('HISTORY: not all steps were seen: %s' % sorted({x[0] for x in r.checked}))
        ctx.ok('HISTORY', 'HISTORY with a cursor: %d steps on %d paths' % (len(r.checked), len(ex)), p.defined[h].loc)
    if 'index_entry_deserialize' not in p.defined:
        ctx.broken('index_entry_deserialize not found')

    def bad(r, ex):
        r.finish(sim.Sim(p, r), ex)
        return r.hits
    r, ex = ctx.refine(p, lambda: Cursor(p, False), 'index_entry_deserialize', args=[('arg', 'root'), ('arg', 'key')], bad=bad)
    for k, text, loc, path in r.hits[:4]:
        ctx.bad('SCAN:' + k, loc, text, path)
    if not r.hits:
        if not {'record', 'bytes', 'refused', 'accepted'} <= {x[0] for x in r.checked}:
            ctx.broken('SCAN: not all steps were seen: %s' % sorted({x[0] for x in r.checked}))
        ctx.ok('SCAN', 'cursors of SCAN and RSCAN: %d steps on %d paths' % (len(r.checked), len(ex)), p.defined['index_entry_deserialize'].loc)
