"""SCAN and RSCAN: from one record to the next one, over deleted records and over the ends of files."""
from collections import namedtuple
import lib
import sim
from lib import ladd, replies
from registry import prop
from rules_lookup import equal, forms
from rules_read import freeze, thaw
from rules_record import EN, IT, get, norm, put

ST = 'index_scan_t'
W = namedtuple('W', 'path fd pos cur origin miss nofile body failed n')
Rec = namedtuple('Rec', 'file pos buf fields deleted inside')      # inside: the link stays in the file


class Walk(sim.Rule):
    """one call of a scan function: it may pass records and files, each read is at the place that follows"""
    LIMIT = 3

    def __init__(self, p, forward, start):
        self.p, self.forward, self.start = p, forward, start      # start: 'cursor' or 'end'
        self.events = ('read', 'pread', 'pread64', 'lseek', 'lseek64', 'open', 'malloc', 'calloc', 'sprintf', 'snprintf', 'close')
        self.classes = (ST + '.status',)
        self.follow_all = True
        self.opaque = tuple(n for n in ('index_item_header_dump', 'zdb_hexdump', 'zdb_warnp', 'zdb_verbosep') if n in p.defined)
        self.item, self.header = p.structs[IT]['size'], p.structs['index_header_t']['size']
        self.names = [g['name'] for g in p.structs[IT]['fields'] if g.get('size')]
        self.off = {f: p.field(IT, f)['off'] for f in self.names + ['id']}
        self.D = p.enum('INDEX_ENTRY_DELETED')
        self.hits, self.checked = [], set()
        self.last = None

    def initial(self):
        return W((), (), (), None, 0, None, None, None, 0, 0)

    def unroll(self, fn, h):
        return True

    def on_null(self, S, st, ins):
        return True

    def live(self, st):
        r = set()

        def walk(x):
            if type(x) is tuple and x:
                if type(x) in (W, Rec) or type(x[0]) is not str or x[0] in self.off:
                    for y in x:
                        walk(y)
                else:
                    r.update(sim.leaves(x))
        walk(st.auto)
        return frozenset(r)

    def apart(self, st):
        a = st.auto
        return a.n, a.cur and (a.cur.deleted, a.cur.buf, a.cur.inside), a.miss and a.miss[2], a.nofile is None, a.origin, a.failed, a.body is None

    def hit(self, st, ins, key, text):
        self.hits.append((key, text, getattr(ins, 'loc', '') or '', st.path()))

    def lin(self, S, st, v):
        l = lib.lin(S, st, v)
        if l is None:
            return None
        d = {}
        for x, k in l[1].items():
            x = norm(x)
            d[x] = d.get(x, 0) + k
        return l[0], {x: k for x, k in d.items() if k}

    def on_load(self, S, st, ins, key, cls, val):
        if type(val) is not tuple:
            return
        if cls == 'index_root_t.indexfd':
            S.addfact(st, val, (0, sim.POS, frozenset()))
        elif cls == 'index_root_t.previous':
            S.addfact(st, val, (0, 1 << 32, frozenset([1])))

    def root(self, S, st, f):
        return S.load(st, sim.addr(('arg', 'root'), self.p.field('index_root_t', f)['off']), 'index_root_t.' + f)

    def fileof(self, S, st, fd):
        fd = norm(fd)
        v = get(st.auto.fd, fd)
        if v is None and type(fd) is tuple and fd[0] == 'ld' and fd[3] == 'index_root_t.indexfd':
            return norm(self.root(S, st, 'indexid'))
        return v

    def samefile(self, S, st, a, b, d=0):
        """a is the file number b + d"""
        if a is None or b is None:
            return False
        la, lb = self.single(S, st, a), self.single(S, st, b)
        if la is None or lb is None:
            return False
        g = self.offsets(S, st, la[1])
        return bool(g) and lb[1] in g and (la[0] + g[lb[1]] - lb[0] - d) % (1 << 32) == 0

    def single(self, S, st, v):
        """the number and the one term it is made of"""
        l = self.lin(S, st, norm(v))
        if l is None or list(l[1].values()) not in ([], [1]):
            return None
        return l[0], (list(l[1]) + [None])[0]

    def offsets(self, S, st, x):
        """every term known to be x plus a number on this path: x == term + number. None: no value fits"""
        e = {}
        for k, (lo, hi, _) in st.facts.items():
            if k[0] == 'cmp' and k[1] == 'eq' and lo == hi == 1:
                u, v = self.single(S, st, k[2]), self.single(S, st, k[3])
                if u and v:
                    e.setdefault(u[1], []).append((v[1], v[0] - u[0]))
                    e.setdefault(v[1], []).append((u[1], u[0] - v[0]))
            elif k[0] != 'cmp' and lo == hi and lo is not None:
                u = self.single(S, st, k)
                if u:
                    e.setdefault(u[1], []).append((None, lo - u[0]))
                    e.setdefault(None, []).append((u[1], u[0] - lo))
        g, w = {x: 0}, [x]
        while w:
            y = w.pop()
            for z, c in e.get(y, ()):
                if z not in g:
                    g[z] = g[y] + c
                    w.append(z)
                elif (g[z] - g[y] - c) % (1 << 32):
                    return None
        return g

    def samepos(self, S, st, a, b):
        if a is None or b is None:
            return False
        l = lib.lsolve(S, st, ladd((1, a), (-1, b)))
        return l == (0, {})

    def zero(self, S, st, f):
        if self.samefile(S, st, f, 0):
            return True
        for x in forms(f):
            if S.truth_zero(st, x) is True or S.evalcmp(st, 'ugt', x, 0) is False or S.evalcmp(st, 'eq', x, 0) is True:
                return True
        return S.rng(st, norm(f))[1] == 0

    @staticmethod
    def value(pos):
        d = thaw(pos)
        if d is None:
            return None
        if not d[1]:
            return d[0]
        if len(d[1]) == 1 and list(d[1].values()) == [1]:
            x = list(d[1])[0]
            return x if not d[0] else sim.addr(x, d[0])
        return None

    # ------------------------------------------------------------ where the next read has to be
    def expected(self, S, st, f, pos):
        """None when a record read at pos of file f is the one which follows, else what is wrong"""
        a = st.auto
        p = thaw(pos)
        c = a.cur
        if c is None and a.miss is None:
            if self.start == 'cursor':
                ok = self.samefile(S, st, f, ('arg', 'fileid')) and self.samepos(S, st, p, (0, {('arg', 'offset'): 1}))
            elif self.forward:
                ok = self.samefile(S, st, f, 0) and self.samepos(S, st, p, (self.header, {}))
            else:
                ok = self.samefile(S, st, f, self.root(S, st, 'indexid')) and self.samepos(S, st, p, self.lin(S, st, self.root(S, st, 'previous')))
            return None if ok else 'does not start where it has to'
        if a.miss is not None:
            mf, mp, zero = a.miss
            if self.forward:
                ok = self.samefile(S, st, f, mf, 1) and self.samepos(S, st, p, (self.header, {}))
                return None if ok else 'does not continue at the first record of the next file when a file ends'
            if not zero:
                return 'continues after a record could not be read'
            ok = self.samefile(S, st, f, mf, -1) and self.samepos(S, st, p, thaw(mp))
            return None if ok else 'does not continue in the file before when a file has no record'
        if self.samefile(S, st, f, c.file) and self.samepos(S, st, p, thaw(c.pos)):
            return None       # read again
        if not a.origin and not c.deleted:
            return 'passes over a record which is not flagged deleted'
        if self.forward:
            ok = self.samefile(S, st, f, c.file) and self.samepos(S, st, p, ladd((1, thaw(c.pos)), (1, (self.item, {})), (1, self.lin(S, st, get(c.fields, 'idlength')))))
            return None if ok else 'does not continue directly behind the record before'
        link = get(c.fields, 'previous')
        if not self.samepos(S, st, p, self.lin(S, st, link)):
            return 'does not follow the link of the record'
        if self.samefile(S, st, f, c.file, 0 if c.inside else -1):
            return None
        return 'does not look for the record before in the right file'

    # ------------------------------------------------------------ events
    def on_call(self, S, st, ins, name, args):
        a = st.auto
        if name in ('open', 'read', 'pread', 'pread64') and self.offsets(S, st, norm(self.root(S, st, 'indexid'))) is None:
            return []
        if name in self.opaque:
            return [(st, lib.fresh(S, st, ins, name) if ins.ty else None)]
        if name in ('sprintf', 'snprintf'):
            k = 1 if name == 'sprintf' else 2
            f = lib.strval(S, args[k])
            S.killroot(st, args[0], ('c', ins.fn.name, ins.id))
            if f is not None and f.endswith(('/i%u', '/i%d')) and len(args) > k + 2:
                st.auto = a._replace(path=put(a.path, args[0], norm(args[k + 2])))
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (0, 1 << 20, frozenset()))
            return [(st, t)]
        if name == 'open':
            t = lib.fresh(S, st, ins, name)
            s1 = st.copy()
            f = get(a.path, args[0])
            s1.auto = a._replace(nofile=(f,))
            s1.note('%s: the file does not exist' % ins.loc)
            # a file which was read before is still there
            known = a.cur is not None and self.samefile(S, st, f, a.cur.file) or a.miss is not None and self.samefile(S, st, f, a.miss[0])
            out = [(s1, -1)] if not known else []
            if S.addfact(st, t, (0, sim.POS, frozenset())):
                st.auto = a._replace(fd=put(a.fd, t, f), pos=put(a.pos, t, (0, ())), nofile=None)
                out.append((st, t))
            return out
        if name == 'close':
            return [(st, 0)]
        if name in ('malloc', 'calloc'):
            t = lib.fresh(S, st, ins, name)
            s2 = st.copy()
            s2.auto = a._replace(failed=1)
            s2.note('%s: %s fails' % (ins.loc, name))
            S.addfact(st, t, (1, sim.POS, frozenset([0])))
            return [(st, t), (s2, 0)]
        if name in ('lseek', 'lseek64'):
            fd, w = norm(args[0]), args[2]
            l = self.lin(S, st, args[1]) if w == 0 else ladd((1, thaw(get(a.pos, fd))), (1, self.lin(S, st, args[1]))) if w == 1 else None
            st.auto = a._replace(pos=put(a.pos, fd, freeze(l)))
            if w == 0:
                return [(st, args[1])]
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (0, sim.POS, frozenset()))
            return [(st, t)]
        if name in ('read', 'pread', 'pread64'):
            return self.take(S, st, ins, name, args)
        return None

    def take(self, S, st, ins, name, args):
        a = st.auto
        fd, buf, n = norm(args[0]), args[1], args[2]
        site = ('c', ins.fn.name, '%s#%d' % (ins.id, a.n))        # the bytes of another record than before
        pos = get(a.pos, fd) if name == 'read' else freeze(self.lin(S, st, args[3]))
        f = self.fileof(S, st, fd)
        if lib.fdkind(self.p, ins) != 'I':
            self.hit(st, ins, 'file', 'what is read does not come from an index file')
        if n == self.item:
            if a.n >= self.LIMIT:
                return []
            self.checked.add(('step', ins.fn.name, ins.id, a.cur is not None and a.cur.deleted, a.miss is not None))
            why = self.expected(S, st, f, pos)
            if why:
                self.hit(st, ins, 'step:' + why.split()[-1], 'the walk ' + why)
                return []
            again = a.cur is not None and a.miss is None and self.samefile(S, st, f, a.cur.file) and self.samepos(S, st, thaw(pos), thaw(a.cur.pos))
            origin = int(self.start == 'cursor' and a.miss is None and (a.cur is None or again and a.origin))
            S.killroot(st, buf, site)
            out = []
            s2 = st.copy()
            for d in ((a.cur.deleted,) if again else (0, self.D) if not origin else (0,)):
                s = st.copy()
                if not origin:
                    S.store(s, sim.addr(buf, self.off['flags']), IT + '.flags', d, site)
                flds = ()
                for x in self.names:
                    v = S.load(s, sim.addr(buf, self.off[x]), '%s.%s' % (IT, x))
                    if x == 'previous' and type(v) is tuple:
                        S.addfact(s, v, (0, (1 << 32) - 1, frozenset([1])))
                    if x == 'idlength' and type(v) is tuple:
                        S.addfact(s, v, (0, 255, frozenset()))
                    flds = put(flds, x, norm(v))
                if again:
                    for x in self.names:
                        # the same bytes as before
                        S.store(s, sim.addr(buf, self.off[x]), '%s.%s' % (IT, x), get(a.cur.fields, x), site)
                    flds = a.cur.fields
                    for x, hi in (('previous', (1 << 32) - 1), ('idlength', 255)):
                        if type(get(flds, x)) is tuple:
                            S.addfact(s, get(flds, x), (0, hi, frozenset([1]) if x == 'previous' else frozenset()))
                for inside in (True, False) if not self.forward else (None,):
                    s1 = s.copy()
                    if again and inside is not a.cur.inside:
                        continue
                    if inside is not None:
                        here = self.value(pos)
                        if here is None or not S.assume(s1, 'slt', get(flds, 'previous'), here, inside):
                            continue
                    s1.auto = a._replace(cur=Rec(f, pos, buf, flds, d, inside), origin=origin, miss=None, nofile=None, body=None, n=a.n + (not again),
                                         pos=put(a.pos, fd, freeze(ladd((1, thaw(pos)), (1, (self.item, {})))) if name == 'read' else get(a.pos, fd)))
                    s1.note('%s: %s record read%s' % (ins.loc, 'a deleted' if d else 'a', '' if inside is None else ', the one before is in %s file' % ('this' if inside else 'an older')))
                    out.append((s1, n))
            if again:
                return out
            # the end of the file, or it cannot be read
            if self.forward or self.start == 'cursor' and a.cur is None and a.miss is None:
                t = lib.fresh(S, s2, ins, name, '~short')
                S.killroot(s2, buf, site)
                if S.addfact(s2, t, (-1, self.item - 1, frozenset())):
                    s2.auto = a._replace(miss=(f, pos, 0), nofile=None, n=a.n + 1)
                    s2.note('%s: no complete record there' % ins.loc)
                    out.append((s2, t))
            else:
                s2.auto = a._replace(miss=(f, pos, 1), nofile=None, n=a.n + 1)
                s2.note('%s: the file has no record there' % ins.loc)
                if a.miss is not None or a.cur is None or not a.cur.inside:
                    out.append((s2, 0))
                s3 = s2.copy()
                s3.auto = a._replace(miss=(f, pos, 0), failed=1, n=a.n + 1)
                s3.note('%s: the record cannot be read' % ins.loc)
                out.append((s3, -1))
            return out
        # the id of the record
        c = a.cur
        self.checked.add(('id', ins.fn.name, ins.id))
        ok = c is not None and self.samefile(S, st, f, c.file) and self.samepos(S, st, thaw(pos), ladd((1, thaw(c.pos)), (1, (self.item, {}))))
        ok = ok and self.samepos(S, st, self.lin(S, st, n), self.lin(S, st, get(c.fields, 'idlength')))
        if not ok:
            self.hit(st, ins, 'id:place', 'the bytes read are neither a record nor the id of the record before them')
            return []
        s2 = st.copy()
        st.auto = a._replace(body=buf, pos=put(a.pos, fd, None))
        s2.auto = a._replace(failed=1, pos=put(a.pos, fd, None))
        s2.note('%s: the id cannot be read' % ins.loc)
        return [(st, n), (s2, -1)]

    # ------------------------------------------------------------ results
    def finish(self, S, exits):
        p = self.p

        class I:
            loc = p.defined[self.fn].loc
        I = I()
        g = lambda f: norm(S.load(st, sim.addr(('arg', 'out'), p.field(ST, f)['off']), '%s.%s' % (ST, f)))
        OK, END, BAD = (p.enum('INDEX_SCAN_' + x) for x in ('SUCCESS', 'NO_MORE_DATA', 'UNEXPECTED'))
        for st, _ in exits:
            a = st.auto
            s = g('status')
            if s == OK:
                self.checked.add(('found', a.n))
                c = a.cur
                if c is None or a.miss is not None:
                    self.hit(st, I, 'found:none', 'a record is answered although none was read')
                    continue
                if a.origin:
                    self.hit(st, I, 'found:origin', 'the record of the cursor itself is answered again')
                if c.deleted:
                    self.hit(st, I, 'found:deleted', 'a deleted record is answered')
                h = g('header')
                if type(h) is not tuple:
                    self.hit(st, I, 'found:header', 'no record is handed over')
                    continue
                for x in self.names:
                    v = norm(S.load(st, sim.addr(h, self.off[x]), '%s.%s' % (IT, x)))
                    if v != get(c.fields, x) and not equal(S, st, v, get(c.fields, x)):
                        self.hit(st, I, 'found:' + x, 'the %s answered is not the one of the record read' % x)
                if a.body != sim.addr(h, self.off['id']):
                    self.hit(st, I, 'found:id', 'the id of the record is not handed over')
                if not self.samefile(S, st, g('fileid'), c.file):
                    self.hit(st, I, 'found:fileid', 'the index file answered is not the one the record was read from')
                if not self.samepos(S, st, self.lin(S, st, g('target')), thaw(c.pos)):
                    self.hit(st, I, 'found:target', 'the position answered is not the one the record was read from')
            elif s == END:
                self.checked.add(('end', a.n))
                if not self.ended(S, st):
                    self.hit(st, I, 'end', 'the end is answered although there can be more records')
            elif s == BAD:
                self.checked.add(('error', a.n))
                if not (a.failed or a.miss and (self.start == 'cursor' and a.cur is None or a.origin or not self.forward and self.zero(S, st, a.miss[0]))):
                    self.hit(st, I, 'error', 'an error is answered although everything could be read')
            else:
                self.hit(st, I, 'status', 'an unfinished walk is answered')

    def ended(self, S, st):
        a, c = st.auto, st.auto.cur
        f = a.nofile[0] if a.nofile else None
        if a.miss is not None:
            return f is not None and self.samefile(S, st, f, a.miss[0], 1 if self.forward else -1)
        if c is None:
            if f is not None:
                w = ('arg', 'fileid') if self.start == 'cursor' else 0 if self.forward else self.root(S, st, 'indexid')
                return self.samefile(S, st, f, w)
            return not self.forward and self.start == 'end' and S.truth_zero(st, norm(self.root(S, st, 'previous'))) is True
        if self.forward or not (a.origin or c.deleted):
            return False
        link = get(c.fields, 'previous')
        if f is not None:
            return self.samefile(S, st, f, c.file, -1) and c.inside is False
        return S.truth_zero(st, link) is True


@prop('P48', 'Property simulation of each scan function over every sequence of up to three records read (live, deleted, beginning and end of files, missing files): each read is compared with the place that follows from the records before it, '
      'each result with the record read.')
def p48(ctx):
    p = ctx.prog()
    n = 0
    for fn, fwd, start in (('index_first_header', True, 'end'), ('index_next_header', True, 'cursor'), ('index_last_header', False, 'end'), ('index_previous_header', False, 'cursor')):
        if fn not in p.defined:
            ctx.broken('%s not found' % fn)

        def mk():
            r = Walk(p, fwd, start)
            r.fn = fn
            return r

        def bad(r, ex):
            r.finish(sim.Sim(p, r), ex)
            return r.hits
        args = [('arg', 'out'), ('arg', 'root')] + ([('arg', 'fileid'), ('arg', 'offset')] if start == 'cursor' else [])

        def setup(S, st):
            # positions answered to a client, or checked when they come back, are those of records
            S.addfact(st, ('arg', 'offset'), (p.structs['index_header_t']['size'], (1 << 40), frozenset()))
            S.addfact(st, ('arg', 'fileid'), (0, 1 << 20, frozenset()))
        r, ex = ctx.refine(p, mk, fn, args=args, bad=bad, levels=(12, 60), setup=setup)
        for k, text, loc, path in r.hits[:4]:
            ctx.bad('%s:%s' % (fn, k), loc, text, path)
        if not r.hits:
            if not {'found', 'end', 'step', 'id'} <= {x[0] for x in r.checked}:
                ctx.broken('%s: not all outcomes were seen: %s' % (fn, sorted({x[0] for x in r.checked})))
            ctx.ok(fn, '%s: %d kinds of steps and results on %d paths' % (fn, len(r.checked), len(ex)), p.defined[fn].loc)
        n += len(r.checked)
    ctx.need(n, 30, 'steps and results')
