"""The content of records: what SET and DEL write, what they keep in memory, what a reload and a lookup make of it."""
from collections import namedtuple
import lib
import sim
from lib import fdkind, replies, strval
from registry import prop

A = namedtuple('A', 'pos reg crc path fd head rec items snap entry old look pushed done')
H, IT, EN = 'data_entry_header_t', 'index_item_t', 'index_entry_t'
HF = ('idlength', 'datalength', 'integrity', 'flags', 'timestamp')
IF = ('idlength', 'offset', 'length', 'previous', 'flags', 'dataid', 'timestamp', 'crc', 'parentid', 'parentoff')


def norm(v):
    while type(v) is tuple and v[0] in ('zext', 'sext', 'trunc'):
        v = v[2]
    return v


def put(m, k, v):
    """association list with k replaced"""
    return tuple(x for x in m if x[0] != k) + ((k, v),)


def get(m, k):
    for a, b in m:
        if a == k:
            return b
    return None


def show(v):
    v = norm(v)
    if v is None:
        return 'an unknown value'
    if type(v) is int:
        return str(v)
    if v[0] == 'ld':
        return v[3]
    if v[0] == 'call':
        return 'the result of %s()' % v[1]
    return 'a computed value'


def hooks(p):
    """the functions that prepare and run hook programs: they change nothing but hook bookkeeping"""
    k = 'hooks'
    if k not in p.__dict__.setdefault('_memo', {}):
        own = ('hook_t.', 'zdb_hooks_t.', 'zdb_stats_t.childwait')
        p._memo[k] = tuple(n for n, f in p.defined.items() if any(c.startswith('hook_t.') for c in p.mod[n]) and all(c[0] in '*@' or c.startswith(own) for c in p.mod[n])
                           and not any(x.startswith(('data_root_t', 'index_root_t', 'redis_client_t')) for x in f.j.get('diparams') or ()))
        if not p._memo[k]:
            raise lib.AnalysisBroken('the functions that run hooks were not found')
    return p._memo[k]


class Record(sim.Rule):
    """follows a handler that stores a record; compares what reaches the files and the memory"""

    def __init__(self, p, force, lookup, crc, cmd, seq, start):
        self.cmd, self.seq, self.start = cmd, seq, start
        self.p = p
        self.force = force
        self.lookup, self.crc = lookup, crc
        self.rep = replies(p).fns
        self.aside = set(hooks(p)) | {n for n, f in p.defined.items() if (f.j.get('diret') or '').startswith('data_payload_t')}
        self.opaque = tuple(self.rep) + (lookup, crc) + tuple(self.aside)
        self.events = tuple(self.rep) + (lookup, crc, 'memcpy', 'memmove', 'write', 'pwrite', 'read', 'lseek', 'lseek64', 'open', 'sprintf', 'snprintf', 'fopen')
        self.classes = ('index_branch_t.list', 'index_branch_t.last', 'index_entry_t.next', 'index_seqmap_t.seqid', 'index_seqmap_t.fileid', 'zdb_api_t.status')
        self.codes = () if start[0] == 'client' else tuple(p.enum(x) for x in ('ZDB_API_SUCCESS', 'ZDB_API_BUFFER', 'ZDB_API_ENTRY', 'ZDB_API_TRUE'))
        self.hits = []
        self.checked = set()
        self.size = {s: p.structs[s]['size'] for s in (H, IT, EN)}
        # the fixed parts of the records on disk end where the key starts
        self.hid, self.iid, self.eid = p.field(H, 'id')['off'], p.field(IT, 'id')['off'], p.field(EN, 'id')['off']

    def initial(self):
        return A((), (), (), (), (), None, None, (), None, 0, (), None, 0, 0)

    def live(self, st):
        a = st.auto
        r = frozenset()
        for x in (a.rec or ()), a.old:
            for v in x:
                if type(v) is tuple:
                    r |= sim.leaves(v[1] if len(v) == 2 and type(v[0]) is str and type(v[1]) is tuple else v)
        if type(a.entry) is tuple:
            r |= sim.leaves(a.entry)
        for v in a.look or ():
            if type(v) is tuple:
                r |= sim.leaves(v)
        return r

    def hit(self, st, ins, key, text):
        self.hits.append((key, text, ins.loc, st.path()))

    def same(self, S, st, a, b):
        a, b = norm(a), norm(b)
        if a is None or b is None:
            return False
        if a == b:
            return True
        if type(a) is tuple and a[0] == 'old' or type(b) is tuple and b[0] == 'old':
            return False
        ra, rb = S.rng(st, a), S.rng(st, b)
        if ra[0] == ra[1] == rb[0] == rb[1]:
            return True
        return S.evalcmp(st, 'eq', a, b) is True

    def fields(self, S, st, buf, struct, names):
        out = []
        for n in names:
            f = self.p.field(struct, n)
            cls = '%s.%s' % (struct, n)
            out.append((n, norm(S.load(st, sim.addr(buf, f['off']), cls))))
        return tuple(out)

    # ------------------------------------------------------------ events
    def on_call(self, S, st, ins, name, args):
        a = st.auto
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            name = 'memcpy'
        if name in ('memcpy', 'memmove'):
            dst, src, n = args[:3]
            if type(dst) is tuple:
                st.auto = a._replace(reg=put(a.reg, dst, (src, norm(n))))
                r, o = sim.split(dst)
                if o in (self.hid, self.iid, self.eid):
                    # the variable tail of a record: the fixed part in front of it is not touched
                    for k in [k for k in st.cells if k[0] == r and k[1] >= o and not (type(n) is int and k[1] >= o + n)]:
                        del st.cells[k]
                    return [(st, dst)]
            return None
        if name in self.aside:
            if args and not ins.ty:
                S.killroot(st, args[0], ('c', ins.fn.name, ins.id))
            return [(st, lib.fresh(S, st, ins, name) if ins.ty else None)]
        if name == self.crc:
            t = lib.fresh(S, st, ins, name)
            st.auto = a._replace(crc=put(a.crc, t, (args[0], norm(args[1]))))
            return [(st, t)]
        if name == self.lookup:
            st.auto = a = a._replace(look=(args[1], norm(args[2])))
            s2 = st.copy()
            t = lib.fresh(S, s2, ins, name)
            out = [(st, 0)]
            if S.addfact(s2, t, (1, sim.POS, frozenset([0]))):
                old = self.fields(S, s2, t, EN, ('idlength', 'offset', 'length', 'dataid', 'indexid', 'idxoffset', 'crc', 'timestamp', 'parentid', 'parentoff'))
                s2.auto = a._replace(entry=t, old=old)
                s2.note('%s: the key exists' % ins.loc)
                out.append((s2, t))
            return out
        if name in self.rep:
            s = strval(S, args[1])
            if s is None or not s.startswith(('-', '$-1')):
                self.success(S, st, ins, args[1] if s is None else None)
                st.auto = st.auto._replace(done=st.auto.done | 1)
            return [(st, 0)]
        if name in ('sprintf', 'snprintf'):
            k = 1 if name == 'sprintf' else 2
            f = strval(S, args[k]) or ''
            if f.endswith(('/i%u', '/d%u', '/i%d', '/d%d')) and len(args) > k + 2:
                st.auto = a._replace(path=put(a.path, args[0], norm(args[k + 2])))
            return None
        if name == 'open':
            t = lib.fresh(S, st, ins, name)
            out = []
            s1 = st.copy()
            out.append((s1, -1))
            if S.addfact(st, t, (0, sim.POS, frozenset())):
                st.auto = a._replace(fd=put(a.fd, t, get(a.path, args[0])))
                out.append((st, t))
            return out
        if name in ('lseek', 'lseek64'):
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (0, sim.POS, frozenset()))
            w = args[2]
            if w == 2 and args[1] == 0:
                st.auto = a._replace(pos=put(a.pos, self.fdof(args[0]), ('end', t)))
            elif w == 0:
                st.auto = a._replace(pos=put(a.pos, self.fdof(args[0]), ('set', norm(args[1]))))
                return [(st, args[1])]
            else:
                st.auto = a._replace(pos=put(a.pos, self.fdof(args[0]), None))
            return [(st, t)]
        if name in ('read', 'write', 'pwrite') and type(args[0]) is int and args[0] < 0:
            return [(st, -1)]
        if name == 'read':
            fd = self.fdof(args[0])
            pos = get(a.pos, fd)
            site = ('c', ins.fn.name, ins.id)
            S.killroot(st, args[1], site)
            snap = (fd, pos, args[1], self.fields(S, st, args[1], IT, IF))
            base = sim.base_of(sim.split(args[1])[0]) if type(args[1]) is tuple else None
            st.auto = a._replace(pos=put(a.pos, fd, None), snap=snap, reg=tuple(x for x in a.reg if sim.base_of(sim.split(x[0])[0]) != base))
            s2 = st.copy()
            s2.auto = s2.auto._replace(snap=None)
            return [(st, args[2]), (s2, 0)]
        if name in ('write', 'pwrite'):
            return self.write(S, st, ins, args)
        return None

    def fdof(self, v):
        v = norm(v)
        if type(v) is tuple and v[0] == 'ld':
            return v[:4]
        return v

    # ------------------------------------------------------------ writes
    def write(self, S, st, ins, args):
        a = st.auto
        k = fdkind(self.p, ins)
        if k not in ('D', 'I'):
            return [(st, args[2])] if k else None
        fd, buf, n = self.fdof(args[0]), args[1], args[2]
        pos = get(a.pos, fd)
        st.auto = a = a._replace(pos=put(a.pos, fd, None))
        if k == 'D':
            self.data(S, st, ins, fd, pos, buf, n)
        else:
            self.index(S, st, ins, fd, pos, buf, n)
        return [(st, n)]

    def region(self, a, buf, off):
        return get(a.reg, sim.addr(buf, off))

    def tail(self, S, st, n, fixed):
        """the number of bytes behind the fixed part"""
        l = lib.lin(S, st, n)
        if l is None:
            return None
        c, d = l
        c -= fixed
        if not d:
            return c
        if c == 0 and len(d) == 1:
            (t, m), = d.items()
            return norm(t) if m == 1 else None
        return None

    def data(self, S, st, ins, fd, pos, buf, n):
        a = st.auto
        if pos is None and get(a.fd, fd) is not None and n == self.p.structs['data_header_t']['size']:
            return      # the header of a new data file
        self.checked.add((ins.fn.name, ins.id))
        if a.head is None:
            if a.rec is not None:
                self.hit(st, ins, 'data:again', 'a second data record is written')
                return
            h = dict(self.fields(S, st, buf, H, HF))
            t = self.tail(S, st, n, self.hid)
            r = self.region(a, buf, self.hid)
            ident = None
            if t == 0 or t is None and type(n) is int:
                h['id'] = None
            else:
                if r is None:
                    self.hit(st, ins, 'data:id', 'the key is not copied behind the header of the data record')
                    return
                ident = r[0]
                if not self.same(S, st, r[1], h['idlength']):
                    self.hit(st, ins, 'data:idlength', 'the data record announces another key length (%s) than the one of the key copied (%s)' % (show(h['idlength']), show(r[1])))
                if not self.same(S, st, t, h['idlength']):
                    self.hit(st, ins, 'data:size', 'the size of the written header and the announced key length differ')
                h['id'] = ident
            if pos is None or pos[0] != 'end':
                self.hit(st, ins, 'data:offset', 'the position of the data record is not the end of the file')
                return
            h['idval'] = norm(S.load(st, ident, '*raw')) if self.seq and type(a.entry) is not tuple and type(ident) is tuple else None
            h['pos'] = pos[1]
            h['file'] = self.fileid(S, st, fd)
            st.auto = a._replace(head=tuple(sorted(h.items())))
            return
        h = dict(a.head)
        if h.get('id') is None:
            # the key as a write of its own
            h['id'] = buf
            if not self.same(S, st, n, h['idlength']):
                self.hit(st, ins, 'data:idlength', 'the data record announces another key length than the one written')
            st.auto = a._replace(head=tuple(sorted(h.items())))
            return
        if not self.same(S, st, n, h['datalength']):
            self.hit(st, ins, 'data:length', 'the data record announces a payload of %s bytes, %s are written' % (show(h['datalength']), show(n)))
        f = S.rng(st, h['flags'])
        c = get(a.crc, h['integrity'])
        if f[0] == f[1] == 0:
            if c is None or c[0] != buf or not self.same(S, st, c[1], n):
                self.hit(st, ins, 'data:crc', 'the checksum of the data record is not the one of the payload written (%s)' % show(h['integrity']))
        h['payload'] = buf
        h['plen'] = norm(n)
        st.auto = a._replace(head=None, rec=tuple(sorted(h.items())))

    def index(self, S, st, ins, fd, pos, buf, n):
        a = st.auto
        self.checked.add((ins.fn.name, ins.id))
        it = dict(self.fields(S, st, buf, IT, IF))
        fl = S.rng(st, it['flags'])
        rec = dict(a.rec or ())
        old = dict(a.old)
        size = self.p.structs['index_header_t']['size']
        if n == size and pos in (('set', 0), None) and fl[0] != fl[1]:
            return      # the header of an index file
        if pos is None:
            self.hit(st, ins, 'index:position', 'an index record is written at an unknown position')
            return
        kept = a.snap is not None and all(self.same(S, st, it[f], v) for f, v in a.snap[3] if f not in ('flags',)) and a.snap[2] == buf
        if pos[0] == 'set':
            if a.snap is None or a.snap[0] != fd or a.snap[1] is None or a.snap[1][0] != 'set' or not self.same(S, st, a.snap[1][1], pos[1]):
                self.hit(st, ins, 'index:inplace', 'an index record is overwritten at another position than the one just read')
                return
            if kept:
                # only the flag of a superseded record
                if not self.same(S, st, pos[1], old.get('idxoffset')):
                    self.hit(st, ins, 'index:flagpos', 'the record flagged as deleted is not the one of the existing entry (position)')
                f = get(a.fd, norm(fd) if True else None)
                if not self.same(S, st, f, old.get('indexid')):
                    self.hit(st, ins, 'index:flagfile', 'the record flagged as deleted is not in the index file of the existing entry')
                if not self.deleted(S, st, it['flags']):
                    self.hit(st, ins, 'index:flag', 'the superseded or deleted record is rewritten without the deleted flag')
                st.auto = a._replace(items=a.items + (('flag',),))
                return
            snap = dict(a.snap[3])
            self.place(S, st, ins, fd, pos[1], buf)
            if not self.same(S, st, it['previous'], snap['previous']):
                self.hit(st, ins, 'index:previous', 'overwriting an index record in place changes its link to the previous record')
        elif not self.same(S, st, it['previous'], S.load(st, sim.addr(self.roots(S, st)[0], self.p.field('index_root_t', 'previous')['off']), 'index_root_t.previous')):
            self.hit(st, ins, 'index:previous', 'the appended index record does not link to the last record appended before')
        t = self.tail(S, st, n, self.iid)
        if not self.same(S, st, t, it['idlength']):
            self.hit(st, ins, 'index:size', 'the size of the index record written does not fit its key length')
        r = self.region(a, buf, self.iid)
        if r is None or not self.same(S, st, r[1], it['idlength']):
            self.hit(st, ins, 'index:id', 'the key is not copied into the index record with its length')
            return
        if fl[0] >= 1 or not (fl[0] <= 0 <= fl[1]) or self.deleted(S, st, it['flags']):
            # the old version, kept as a deleted record
            for f in ('offset', 'length', 'dataid', 'crc', 'timestamp', 'idlength', 'parentid', 'parentoff'):
                if not self.same(S, st, it[f], old.get(f)):
                    self.hit(st, ins, 'index:old:' + f, 'the record that keeps the old version has another %s than the existing entry: %s' % (f, show(it[f])))
            st.auto = a._replace(items=a.items + (('old', pos[1], fd),))
            return
        if a.head is not None or a.rec is None:
            self.hit(st, ins, 'index:early', 'an index record is written before the data record')
            return
        if not (fl[0] == fl[1] == 0):
            self.hit(st, ins, 'index:flags', 'the index record of the new version is flagged')
        for f, g in (('idlength', 'idlength'), ('offset', 'pos'), ('length', 'plen'), ('crc', 'integrity'), ('timestamp', 'timestamp')):
            if not self.same(S, st, it[f], rec[g]):
                self.hit(st, ins, 'index:' + f, 'the %s of the index record (%s) is not the one of the data record (%s)' % (f, show(it[f]), show(rec[g])))
        if self.src(a, r[0]) != self.src(a, rec['id']):
            self.hit(st, ins, 'index:key', 'the key of the index record is not the one of the data record')
        ifile = self.fileid(S, st, fd)
        if pos[0] == 'end' and not self.paired(S, st, rec['file'], ifile):
            self.hit(st, ins, 'index:rotate', 'the data record and the index record are written to files of different numbers (%s, %s)' % (show(rec['file']), show(ifile)))
        if not (self.same(S, st, it['dataid'], rec['file']) or self.paired(S, st, rec['file'], norm(it['dataid']))):
            self.hit(st, ins, 'index:dataid', 'the index record does not name the active data file: %s' % show(it['dataid']))
        want = None
        if type(a.entry) is tuple:
            if pos[0] == 'end':
                want = (old['indexid'], old['idxoffset'])
            else:
                o = [x for x in a.items if x[0] == 'old']
                if not o:
                    self.hit(st, ins, 'index:lost', 'the record of the existing entry is overwritten and its old version is kept nowhere')
                    return
                want = (self.fileid(S, st, o[-1][2]), o[-1][1])
            if not (self.same(S, st, it['parentoff'], want[1]) and self.same(S, st, it['parentid'], want[0])):
                self.hit(st, ins, 'index:parent', 'the new record does not link to the version it supersedes: %s, %s' % (show(it['parentid']), show(it['parentoff'])))
        elif not (self.same(S, st, it['parentid'], 0) and self.same(S, st, it['parentoff'], 0)):
            self.hit(st, ins, 'index:parent', 'the first record of a key links to a previous version')
        st.auto = a._replace(items=a.items + (('new', pos[1], fd) + tuple(sorted(it.items())),))

    def deleted(self, S, st, v):
        """the deleted bit is set for sure"""
        v = norm(v)
        while type(v) is tuple and v[0] == 'op' and v[1] == 'or':
            if any(type(x) is int and x & 1 for x in v[2:4]):
                return True
            v = v[2] if type(v[2]) is tuple else v[3]
        return type(v) is int and v & 1

    FILEID = {'data_root_t.datafd': ('data_root_t', 'dataid'), 'index_root_t.indexfd': ('index_root_t', 'indexid')}

    def fileid(self, S, st, fd):
        """the number of the file a descriptor refers to"""
        v = get(st.auto.fd, fd)
        if v is None and type(fd) is tuple and fd[0] == 'ld' and fd[3] in self.FILEID:
            s, f = self.FILEID[fd[3]]
            r, o = fd[1], fd[2]
            v = ('ld', r, o - self.p.field(s, fd[3].split('.')[1])['off'] + self.p.field(s, f)['off'], '%s.%s' % (s, f), fd[4] if len(fd) > 4 else 0)
        return v

    def paired(self, S, st, d, i):
        """the two files have the same number; the files active when the command starts do"""
        if all(type(x) is tuple and x[0] == 'ld' for x in (d, i)) and d[3] == 'data_root_t.dataid' and i[3] == 'index_root_t.indexid':
            return True
        return self.same(S, st, d, i)

    def roots(self, S, st):
        """addresses of the index and data state of the namespace"""
        k, v = self.start
        ns = v
        if k == 'client':
            ns = S.load(st, sim.addr(v, self.p.field('redis_client_t', 'ns')['off']), 'redis_client_t.ns')
        return tuple(S.load(st, sim.addr(ns, self.p.field('namespace_t', f)['off']), 'namespace_t.' + f) for f in ('index', 'data'))

    def place(self, S, st, ins, fd, pos, buf):
        """sequential mode: the record of an id lies at a fixed place of the file its range is mapped to"""
        f = self.fileid(S, st, fd)
        if type(f) is tuple and f[0] == 'ld' and f[3] == 'index_seqmap_t.fileid':
            l = lib.lin(S, st, norm(pos))
            size = self.iid + 8
            base = self.p.structs['index_header_t']['size']
            if l and l[0] == base and len(l[1]) == 2:
                pos_, neg = [x for x, k in l[1].items() if k == size], [x for x, k in l[1].items() if k == -size]
                if len(pos_) == 1 and len(neg) == 1 and neg[0][0] == 'ld' and neg[0][3] == 'index_seqmap_t.seqid' and neg[0][1] == f[1]:
                    x = pos_[0]
                    src = get(st.auto.reg, sim.addr(x[1], x[2])) if x[0] == 'ld' else None
                    r = self.region(st.auto, buf, self.iid)
                    if src is None or r is not None and self.src(st.auto, src[0]) != self.src(st.auto, r[0]):
                        self.hit(st, ins, 'index:slot', 'the place of the overwritten record is computed from another id than the one of the record')
                    return
        elif self.same(S, st, f, dict(st.auto.old).get('indexid')) and self.same(S, st, pos, dict(st.auto.old).get('idxoffset')):
            return
        self.hit(st, ins, 'index:slot', 'the overwritten record is not at the place its id is mapped to')

    def mapping(self, S, st, ins, key, cls, val):
        ix = self.roots(S, st)[0]
        f = {'index_seqmap_t.seqid': 'nextentry', 'index_seqmap_t.fileid': 'indexid'}[cls]
        now = S.load(st, sim.addr(ix, self.p.field('index_root_t', f)['off']), 'index_root_t.' + f)
        if not self.same(S, st, val, now):
            self.hit(st, ins, 'mapping:' + f, 'the ids of a new index file are mapped with another %s than the current one' % ('first id' if f == 'nextentry' else 'file number'))
        bits = 1 if f == 'nextentry' else 2
        if f == 'indexid':
            # a mapping that is already there for the next id
            q = self.p.field
            o = sim.addr(key[0], key[1] - q('index_seqmap_t', 'fileid')['off'] + q('index_seqmap_t', 'seqid')['off'])
            if self.same(S, st, S.load(st, o, 'index_seqmap_t.seqid'), S.load(st, sim.addr(ix, q('index_root_t', 'nextentry')['off']), 'index_root_t.nextentry')):
                bits |= 4
        st.auto = st.auto._replace(pushed=st.auto.pushed | bits)

    def success(self, S, st, ins, reply):
        """the command is acknowledged"""
        a = st.auto
        p = self.p
        self.checked.add(('success', ins.fn.name, ins.id))
        if a.rec is None or a.head is not None:
            self.hit(st, ins, 'success:data', 'success is reported although no data record was written')
            return
        rec = dict(a.rec)
        kinds = tuple(x[0] for x in a.items)
        upd = type(a.entry) is tuple
        ix, dt = self.roots(S, st)
        key = self.request(S, st, 1)
        if self.cmd == 'DEL':
            if not self.deleted(S, st, rec['flags']):
                self.hit(st, ins, 'del:flags', 'the data record of a deletion is not flagged')
            if not self.same(S, st, rec['plen'], 0):
                self.hit(st, ins, 'del:payload', 'the data record of a deletion has a payload')
            if kinds != ('flag',):
                self.hit(st, ins, 'del:index', 'success is reported although the index record was not flagged (%s)' % ', '.join(kinds))
            mine = [(sim.addr(a.entry, self.eid) if upd else None, dict(a.old).get('idlength')), key]
            if not any(self.pair(S, st, (rec['id'], rec['idlength']), m) for m in mine):
                self.hit(st, ins, 'del:key', 'the data record of the deletion does not carry the key')
        else:
            val = self.request(S, st, 2)
            if not self.pair(S, st, (rec['payload'], rec['plen']), val):
                self.hit(st, ins, 'set:payload', 'the payload written is not the one of the request')
            if not (type(rec['flags']) is int and rec['flags'] == 0):
                self.hit(st, ins, 'set:flags', 'the data record is flagged')
            want = (('old', 'new') if self.seq else ('new',)) if upd else ('new',)
            if tuple(k for k in kinds if k != 'flag') != want or kinds.count('flag') > (upd and not self.seq):
                self.hit(st, ins, 'set:index', 'success is reported with unexpected index records: %s' % (', '.join(kinds) or 'none'))
                return
            if not self.seq:
                if not self.pair(S, st, (rec['id'], rec['idlength']), key):
                    self.hit(st, ins, 'set:key', 'the key stored is not the one of the request')
                if upd:
                    for k, t in self.memory(S, st, ins, a.entry, 'the existing entry'):
                        self.hit(st, ins, k, t)
                elif not a.done & 2 and not self.absent(S, st, ix, 'branches'):
                    self.hit(st, ins, 'set:memory', 'success is reported although no new entry was linked in memory')
            elif upd:
                if self.src(a, rec['id']) not in (sim.addr(a.entry, self.eid), key[0]):
                    self.hit(st, ins, 'set:key', 'the id stored is not the one of the existing entry')
            else:
                v = lib.lin(S, st, rec['idval'])
                if v is None or v[0] or [x[3] for x in v[1] if x[0] == 'ld'] != ['index_root_t.nextentry']:
                    self.hit(st, ins, 'set:newid', 'the id of a new entry is not the next id: %s' % show(rec['idval']))
            if reply is not None:
                r = [v for k, v in a.reg if type(k) is tuple and type(reply) is tuple and sim.base_of(sim.split(k)[0]) == sim.base_of(sim.split(reply)[0])]
                if not any(self.src(a, v[0]) == self.src(a, rec['id']) and self.same(S, st, v[1], rec['idlength']) for v in r):
                    self.hit(st, ins, 'set:reply', 'the reply does not carry the key stored')
        # positions for the next records
        app = [x for x in a.items if x[0] == 'old' or x[0] == 'new' and not (self.seq and upd)]
        if app:
            last = S.load(st, sim.addr(ix, p.field('index_root_t', 'previous')['off']), 'index_root_t.previous')
            if not self.same(S, st, last, app[-1][1]):
                self.hit(st, ins, 'next:index', 'the position of the last index record is not kept for the next one')
            now = lib.lin(S, st, norm(S.load(st, sim.addr(ix, p.field('index_root_t', 'nextentry')['off']), 'index_root_t.nextentry')))
            if self.seq and (now is None or now[0] != len(app) or len(now[1]) != 1):
                self.hit(st, ins, 'next:id', 'the next id is not advanced once for each index record appended')
            f = self.fileid(S, st, app[-1][2])
            if self.seq and f is not None and f[0] != 'ld' and not (a.pushed & 2 and a.pushed & 5) and not self.absent(S, st, ix, 'seqid'):
                self.hit(st, ins, 'mapping:missing', 'the ids of the new index file are not mapped to it')
        last = S.load(st, sim.addr(dt, p.field('data_root_t', 'previous')['off']), 'data_root_t.previous')
        if not self.same(S, st, last, rec['pos']):
            self.hit(st, ins, 'next:data', 'the position of the last data record is not kept for the next one')

    def absent(self, S, st, ix, f):
        v = S.load(st, sim.addr(ix, self.p.field('index_root_t', f)['off']), 'index_root_t.' + f)
        return v == 0 or S.truth_zero(st, v) is True

    def src(self, a, x):
        """where bytes were copied from"""
        for _ in range(4):
            v = get(a.reg, x)
            if v is None:
                break
            x = v[0]
        return x

    def pair(self, S, st, a, b):
        """same bytes: same address and length"""
        if a[0] is not None and b[0] is not None:
            a, b = (self.src(st.auto, a[0]), a[1]), (self.src(st.auto, b[0]), b[1])
        return a[0] is not None and (a[0] == b[0] and self.same(S, st, a[1], b[1]) or self.flat(a[0]) == self.flat(b[0]) and self.flat(norm(a[1])) == self.flat(norm(b[1])))

    def flat(self, v):
        """the arguments of a request do not change while its command runs: epochs are left out"""
        if type(v) is not tuple:
            return v
        if v[0] == 'ld' and len(v) > 4 and v[3].startswith(('redis_client_t.request', 'resp_', '*raw')):
            return ('ld', self.flat(v[1]), v[2], v[3], 0)
        return tuple(self.flat(x) for x in v)

    def request(self, S, st, k):
        """address and length of an argument"""
        if self.start[0] != 'client':
            return (('arg', 'key'), ('arg', 'ksize')) if k == 1 else (('arg', 'payload'), ('arg', 'psize'))
        q = S.load(st, sim.addr(self.start[1], self.p.field('redis_client_t', 'request')['off']), 'redis_client_t.request')
        v = S.load(st, sim.addr(q, self.p.field('resp_request_t', 'argv')['off']), 'resp_request_t.argv')
        o = S.load(st, sim.addr(v, 8 * k), '*raw')
        return tuple(norm(S.load(st, sim.addr(o, self.p.field('resp_object_t', f)['off']), 'resp_object_t.' + f)) for f in ('buffer', 'length'))

    # ------------------------------------------------------------ memory
    def memory(self, S, st, where, e, what):
        """the entry in memory is the one the index record describes"""
        a = st.auto
        new = [x for x in a.items if x[0] == 'new']
        if not new:
            return [('memory:norecord', '%s is changed although no index record was written' % what)]
        pos, it = new[-1][1], dict(new[-1][3:])
        en = dict(self.fields(S, st, e, EN, ('idlength', 'offset', 'length', 'dataid', 'indexid', 'idxoffset', 'crc', 'timestamp', 'flags', 'parentid', 'parentoff')))
        out = []
        for f in ('idlength', 'offset', 'length', 'crc', 'timestamp', 'flags', 'parentid', 'parentoff'):
            if f == 'idlength' and what.startswith('the existing'):
                continue
            if not self.same(S, st, en[f], it[f]):
                out.append(('memory:' + f, '%s has another %s (%s) than the index record (%s)' % (what, f, show(en[f]), show(it[f]))))
        ifile = self.fileid(S, st, new[-1][2])
        d = dict(a.rec)['file']
        if not (self.same(S, st, en['dataid'], d) or self.paired(S, st, d, en['dataid'])):
            out.append(('memory:dataid', '%s does not name the active data file: %s' % (what, show(en['dataid']))))
        if not self.same(S, st, en['indexid'], ifile):
            out.append(('memory:indexid', '%s does not name the index file written: %s' % (what, show(en['indexid']))))
        if not self.same(S, st, en['idxoffset'], pos):
            out.append(('memory:idxoffset', '%s does not hold the position of the index record: %s' % (what, show(en['idxoffset']))))
        return out

    def on_store(self, S, st, ins, key, cls, val):
        a = st.auto
        if a.reg and any(sim.split(k) == key for k, _ in a.reg):
            # a copy that is overwritten is none any more
            st.auto = a._replace(reg=tuple(x for x in a.reg if sim.split(x[0]) != key))
        if cls not in self.classes:
            return
        if cls == 'zdb_api_t.status':
            if val in self.codes:
                self.success(S, st, ins, None)
                st.auto = st.auto._replace(done=st.auto.done | 1)
            return
        if cls.startswith('index_seqmap_t.'):
            self.mapping(S, st, ins, key, cls, val)
            return
        b = sim.base_of(sim.split(val)[0]) if type(val) is tuple else None
        if type(b) is tuple and b[0] == 'call' and b[1] in ('malloc', 'calloc') and val == b:
            self.checked.add(('link', ins.fn.name, ins.id))
            for k, t in self.memory(S, st, ins, val, 'the new entry'):
                self.hit(st, ins, k, t)
            r = get(st.auto.reg, sim.addr(val, self.eid))
            rec = dict(st.auto.rec or ())
            if r is None or self.src(st.auto, r[0]) != self.src(st.auto, rec.get('id')) or not self.same(S, st, r[1], rec.get('idlength')):
                self.hit(st, ins, 'memory:id', 'the key of the new entry is not the one of the record')
            st.auto = st.auto._replace(done=st.auto.done | 2)


@prop('P30', 'Property simulation of SET, SETX and DEL and of the set and del calls of the library, in both modes: every write to a data or index file is taken apart '
      'into the fields of the record (symbolic values), and compared with each other, with the request, with the entry kept in memory and with the entry found before; '
      'obligations at each write, at each link of a new entry and at each acknowledgement.',
      ['the data file and the index file that are active when a command starts have the same number (kept by each rotation, which is checked)'])
def p30(ctx):
    p = ctx.prog()
    have = dict(lib.commands(p))
    done = set()
    n = 0
    for mode in ('ZDB_MODE_KEY_VALUE', 'ZDB_MODE_SEQUENTIAL'):
        for name, kind in (('SET', 'SET'), ('SETX', 'SET'), ('DEL', 'DEL'), ('zdb_api_set', 'SET'), ('zdb_api_del', 'DEL')):
            api = name.startswith('zdb_')
            fn = name if api else have.get(name)
            if fn is None or (fn, mode) in done:
                continue
            done.add((fn, mode))
            start, args = ('client', ('arg', 'client')), [('arg', 'client')]
            if api:
                if fn not in p.defined:
                    raise lib.AnalysisBroken('%s not found' % fn)
                args = [('arg', x) for x in (('ns', 'key', 'ksize', 'payload', 'psize') if kind == 'SET' else ('ns', 'key', 'ksize'))]
                start = ('ns', args[0])
            r, ex = ctx.refine(p, lambda: Record(p, {'index_root_t.mode': p.enum(mode)}, 'index_get', 'zdb_crc32', kind, mode.endswith('SEQUENTIAL'), start), fn, args=args)
            if not r.hits and (not any(x[0] == 'success' for x in r.checked) or len(r.checked) < 3):
                ctx.broken('%s: no record writes or acknowledgements were seen' % name)
            n += len(r.checked)
            seen = set()
            for k, text, loc, path in r.hits:
                if k not in seen and len(seen) < 4:
                    seen.add(k)
                    ctx.bad('record:%s:%s:%s' % (name, mode[9:], k), loc, '%s: %s' % (name, text), path)
            if not r.hits:
                ctx.ok('record:%s:%s' % (name, mode[9:]), '%s: %d record writes, links and acknowledgements agree on %d paths' % (name, len(r.checked), len(ex)), p.defined[fn].loc)
    ctx.need(n, 24, 'record writes, links and acknowledgements')
