"""Storage: order of data and index writes, failures and acknowledgement, fsync, append-only."""
import lib
import sim
from lib import WRITERS, SYNCS, REMOVERS, fdkind, commands, replies, strval
from registry import prop

ACTIVE = ('index_root_t.indexfd', 'data_root_t.datafd')
TRUNC = {'truncate', 'ftruncate', 'ftruncate64', 'fallocate'}
HOOKS = ('hook_execute', 'hook_execute_wait', 'hook_new', 'hook_append')
PWRITES = {'pwrite', 'pwrite64', 'pwritev'}


def active(S, st, v):
    """the descriptor is the one kept open for appending"""
    if type(v) is tuple and v[0] == 'ld' and v[3] in ACTIVE:
        return True
    for k, (x, c) in st.cells.items():
        if c in ACTIVE and x == v:
            return True
    return False


class Store(sim.Rule):
    """splits every write on a data or index file into complete, failed and short.
    events: ('w', kind) complete write, ('f', kind) failed or short; kind: D data, A index append, P index in place, H header of a new file"""
    readfail = False

    def __init__(self, p, force=None):
        self.p = p
        self.force = dict(force or {})
        self.rep = replies(p).fns
        self.opaque = tuple(self.rep) + tuple(h for h in HOOKS if h in p.defined)
        self.events = tuple(self.rep) + tuple(WRITERS | SYNCS | TRUNC) + ('open', 'open64', 'lseek') + (('read', 'pread', 'pread64') if self.readfail else ())
        self.hits = []
        self.seen = set()
        self.nw = set()
        self.nrep = set()
        self.nok = 0

    def hit(self, st, ins, key, what):
        k = (ins.fn.name if ins else '', ins.id if ins else 0, key)
        if k not in self.seen:
            self.seen.add(k)
            self.hits.append((key, what, ins.loc if ins else '', st.path()))

    def kind(self, S, st, ins, args):
        k = fdkind(self.p, ins)
        if k == 'D':
            return 'D'
        if k == 'I':
            return 'A' if active(S, st, args[0]) else 'P'
        if 'D' in k or 'I' in k:
            return 'D' if 'D' in k else 'A'
        return ''

    # hooks for the concrete rules; they return the automaton state, None ends the path
    def complete(self, S, st, ins, k, args):
        return st.auto

    def failed(self, S, st, ins, k, args):
        return st.auto

    def opened(self, S, st, ins, k, args):
        return st.auto

    def synced(self, S, st, ins, k, args):
        return st.auto

    def reply(self, S, st, ins, kind, args):
        return st.auto

    def on_call(self, S, st, ins, name, args):
        if name in self.rep:
            s = strval(S, args[1])
            kind = 'error' if s is not None and (s.startswith('-') or s.startswith('$-1')) else 'ok'
            self.nrep.add((ins.fn.name, ins.id))
            if kind == 'ok':
                self.nok += 1
            a = self.reply(S, st, ins, kind, args)
            if a is None:
                return []
            st.auto = a
            return [(st, 0)]
        if name in WRITERS:
            k = self.kind(S, st, ins, args)
            if not k:
                return None
            self.nw.add((ins.fn.name, ins.id))
            s0 = st.copy()
            a = self.complete(S, st, ins, k, args)
            f = self.failed(S, s0, ins, k, args)
            res = []
            for s, v in lib.write_outcomes(S, st, ins, name, args, a, f):
                if s.auto is not None:
                    res.append((s, v))
            return res
        if name in SYNCS:
            k = fdkind(self.p, ins)
            if k:
                st.auto = self.synced(S, st, ins, k, args)
            return None
        if name in ('open', 'open64'):
            k = lib.pathkind(self.p, ins)
            if k in ('D', 'I'):
                st.auto = self.opened(S, st, ins, k, args)
                if st.auto is None:
                    return []
            return None
        return None


MODES = (('key-value', 0), ('sequential', 1))
OPEN = {'redis_client_t.writable': 1, 'namespace_t.locked': 0, 'namespace_t.worm': 0}


class Ack(Store):
    """P03: a failed write is never followed by a reply that is not an error"""

    def __init__(self, p, force, tolerate_flagging):
        Store.__init__(self, p, force)
        self.tol = tolerate_flagging

    def initial(self):
        return ('', '')   # failed kinds, completed kinds

    def complete(self, S, st, ins, k, args):
        return (st.auto[0], ''.join(sorted(set(st.auto[1]) | {k})))

    def failed(self, S, st, ins, k, args):
        return (''.join(sorted(set(st.auto[0]) | {k})), st.auto[1])

    def reply(self, S, st, ins, kind, args):
        if kind == 'ok':
            bad = set(st.auto[0])
            if self.tol and 'A' in st.auto[1]:
                bad.discard('P')
            if bad:
                self.hit(st, ins, 'ack', 'a success reply after a failed write of %s' % ' and '.join({'D': 'the data file', 'A': 'the index file', 'P': 'an index record'}[x] for x in sorted(bad)))
        return st.auto


@prop('P03', 'Property simulation of SET, SETX and DEL in both index modes with every write() on a data or index file split into complete, failed and short: '
      'after a failed or short write no path may queue a reply that is not an error. (Marking the superseded record of an overwritten key is repeated by replay and may fail.)')
def p03(ctx):
    p = ctx.prog()
    for name in ('SET', 'SETX', 'DEL'):
        h = lib.handler(p, name)
        if name == 'SETX' and h == lib.handler(p, 'SET'):
            continue
        for label, mode in MODES:
            r, ex = ctx.refine(p, lambda: Ack(p, dict(OPEN, **{'index_root_t.mode': mode}), mode == 0 and name != 'DEL'), h)
            ctx.need(len(r.nw), 2, 'write sites of %s' % name)
            if not r.nok:
                ctx.broken('%s: no success reply found' % name)
            for key, what, loc, path in r.hits[:3]:
                ctx.bad('ack:%s:%s' % (name, label), loc, '%s (%s mode): %s' % (name, label, what), path)
            if not r.hits:
                ctx.ok('ack:%s:%s' % (name, label), '%s (%s mode): %d write sites, %d reply sites, %d paths' % (name, label, len(r.nw), len(r.nrep), len(ex)), p.defined[h].loc)


def header_buffer(S, v):
    """the buffer is a local object of a struct that carries a file magic"""
    b = sim.base_of(sim.split(v)[0]) if type(v) is tuple else None
    if type(b) is tuple and b[0] == 'al':
        ty = S.p.fns[b[1]].byid[b[2]].j['aty'].lstrip('%')
        d = S.p.structs.get(ty)
        return bool(d and any(f['name'] == 'magic' for f in d['fields']))
    return False


def refsize(ctx, p, mk, h, label, what, allow_none=True, least=2):
    r, ex = ctx.refine(p, mk, h)
    ctx.need(len(r.nw), least, 'write sites')
    if not r.nok:
        ctx.broken('%s: no success reply found' % label)
    for key, txt, loc, path in r.hits[:3]:
        ctx.bad('%s:%s' % (key, label), loc, '%s: %s' % (label, txt), path)
    if not r.hits:
        ctx.ok('%s:%s' % (what, label), '%s: %d write sites, %d reply sites, %d paths' % (label, len(r.nw), len(r.nrep), len(ex)), p.defined[h].loc)
    return r, ex


class Order(Store):
    """P02: index record only after the complete data record"""

    def initial(self):
        return (0, 0, 0)   # data writes complete, index writes, data write failed

    def complete(self, S, st, ins, k, args):
        d, i, f = st.auto
        if header_buffer(S, args[1]):
            return st.auto
        if k == 'D':
            if i:
                self.hit(st, ins, 'order', 'a data record is written after the index record of the same command')
            return (1, i, f)
        if f:
            self.hit(st, ins, 'order', 'an index record is written although the data record could not be written')
        elif not d:
            self.hit(st, ins, 'order', 'an index record is written before its data record')
        return (d, 1, f)

    def failed(self, S, st, ins, k, args):
        if k != 'D' or header_buffer(S, args[1]):
            return st.auto
        return (st.auto[0], st.auto[1], 1)

    def reply(self, S, st, ins, kind, args):
        d, i, f = st.auto
        if kind == 'ok' and (d == 1) != (i == 1):
            self.hit(st, ins, 'half', 'a success reply with %s' % ('no index record written' if d else 'no data record written'))
        return st.auto


@prop('P02', 'Property simulation of SET, SETX and DEL in both index modes with every write split into complete, failed and short: an index record (append or in-place) '
      'is only written once all data-file writes of the command completed, never after a failed one, and success is only replied when both are written or neither.')
def p02(ctx):
    p = ctx.prog()
    for name in ('SET', 'DEL'):
        for label, mode in MODES:
            refsize(ctx, p, lambda: Order(p, dict(OPEN, **{'index_root_t.mode': mode})), lib.handler(p, name), '%s (%s mode)' % (name, label), 'order')
    for c, h in commands(p):
        if c == 'SETX' and h != lib.handler(p, 'SET'):
            refsize(ctx, p, lambda: Order(p, OPEN), h, 'SETX', 'order')


class Sync(Store):
    def initial(self):
        return ''

    def complete(self, S, st, ins, k, args):
        return ''.join(sorted(set(st.auto) | {k}))

    def synced(self, S, st, ins, k, args):
        if 'D' in k:
            return st.auto.replace('D', '')
        return st.auto.replace('A' if active(S, st, args[0]) else 'P', '')

    def reply(self, S, st, ins, kind, args):
        if kind == 'ok' and st.auto:
            self.hit(st, ins, 'sync', 'success is replied while the last write to %s was not synced' % ' and '.join({'D': 'the data file', 'A': 'the index file', 'P': 'an existing index record'}[x] for x in st.auto))
        return st.auto


SYNCF = {'index_root_t.sync': 1, 'data_root_t.sync': 1}


@prop('P04', 'Property simulation of SET, SETX and DEL with the sync option assumed set: on every path that replies success each complete write to a data file, '
      'to the active index file and to an older index record is followed by fsync or fdatasync on that file.', ['fsync makes the data durable'])
def p04(ctx):
    p = ctx.prog()
    for name in ('SET', 'DEL'):
        for label, mode in MODES:
            r, ex = refsize(ctx, p, lambda: Sync(p, dict(OPEN, **dict(SYNCF, **{'index_root_t.mode': mode}))), lib.handler(p, name), '%s (%s mode)' % (name, label), 'sync')
    p.field('index_root_t', 'sync')
    p.field('data_root_t', 'sync')
    for c, h in commands(p):
        if c == 'SETX' and h != lib.handler(p, 'SET'):
            refsize(ctx, p, lambda: Sync(p, dict(OPEN, **SYNCF)), h, 'SETX', 'sync')
    # the option reaches every file set: stores to the sync fields come from the settings
    n = 0
    for f in p.defined.values():
        for i in f.ins():
            if i.op == 'store' and p.cls_of_ptr(f, i.ops[1]) in SYNCF:
                n += 1
                o = lib.origins(p, f, i.ops[0])
                ctx.ob(all(x[0] == 'load' and x[1] in ('zdb_settings_t.sync',) + tuple(SYNCF) for x in o), 'sync-source:%s' % f.name, i.loc,
                       'the sync flag of a file set is taken from the settings')
    ctx.need(n, 2, 'initialisations of the sync flags')


class Overwrite(Store):
    """P05"""
    mem = ('index_entry_t.offset', 'index_entry_t.length', 'index_entry_t.dataid', 'index_entry_t.indexid', 'index_entry_t.idxoffset', 'index_entry_t.crc',
           'index_entry_t.flags', 'index_entry_t.timestamp')

    def __init__(self, p, force, mode):
        Store.__init__(self, p, force)
        self.mode = mode
        self.classes = self.mem + ('index_branch_t.list',)
        self.nmem = 0

    def initial(self):
        return 0

    def complete(self, S, st, ins, k, args):
        if header_buffer(S, args[1]):
            return st.auto
        if k == 'A':
            return 1
        if k == 'P' and not st.auto:
            self.hit(st, ins, 'early-flag', 'the stored index record of the key is rewritten before the new version is appended')
        return st.auto

    def on_store(self, S, st, ins, key, cls, val):
        if self.mode == 0 and cls in self.mem and not st.auto:
            b = sim.base_of(key[0])
            if type(b) is tuple and (b[0] == 'al' or (b[0] == 'call' and b[1] in sim.ALLOC)):
                return
            self.hit(st, ins, 'early-memory', 'the in-memory entry of the key is changed (%s) before the new version is appended' % cls)
        elif self.mode == 0 and cls in self.mem:
            self.nmem += 1


@prop('P05', 'Property simulation of SET in both index modes: no path rewrites an existing index record on disk, or (key-value mode) changes the in-memory entry '
      'of the key, before the append of the new index record completed.')
def p05(ctx):
    p = ctx.prog()
    for label, mode in MODES:
        r, ex = refsize(ctx, p, lambda: Overwrite(p, dict(OPEN, **{'index_root_t.mode': mode}), mode), lib.handler(p, 'SET'), 'SET (%s mode)' % label, 'overwrite')
        if mode == 0:
            ctx.need(r.nmem, 2, 'stores to the existing entry')


O_CREAT, O_TRUNC, O_APPEND = 0o100, 0o1000, 0o2000


def openflags(p, ins):
    """the possible constant flags of an open call, None when unknown"""
    return lib.consts(p, ins.fn, ins.ops[1])


@prop('P01', 'Whole-program classification of every construct that can change a data file: each write goes through a descriptor field whose every assignment is an open with O_APPEND '
      '(or read-only), or writes the file header through a freshly opened descriptor that was never repositioned; no open truncates, no positioned write, truncation or writable mapping exists.')
def p01(ctx):
    p = ctx.prog()
    # 1. opens of data and index files never truncate
    n = 0
    for f in p.defined.values():
        for i in f.calls():
            if i.target() in ('open', 'open64', 'openat', 'creat', 'fopen'):
                k = lib.pathkind(p, i)
                if k in ('D', 'I'):
                    n += 1
                    if i.target() in ('creat', 'fopen'):
                        ctx.bad('open:%s' % f.name, i.loc, '%s() of a %s file' % (i.target(), k))
                        continue
                    fl = openflags(p, i)
                    ctx.ob(fl is not None and not any(x & O_TRUNC for x in fl), 'open:%s:%s' % (f.name, k), i.loc,
                           'open of a %s file in %s with flags %s' % ({'D': 'data', 'I': 'index'}[k], f.name, fl if fl is None else sorted(oct(x) for x in fl)))
    ctx.need(n, 5, 'opens of data and index files')
    # 2. the append descriptor
    good = True
    n = 0
    for f in p.defined.values():
        for i in f.ins():
            if i.op == 'store' and p.cls_of_ptr(f, i.ops[1]) == 'data_root_t.datafd':
                n += 1
                okk = True
                for x in lib.origins(p, f, i.ops[0]):
                    if x[0] == 'c' and x[1] <= 0:
                        continue
                    if x[0] == 'call' and x[1].target() in ('open', 'open64'):
                        fl = openflags(p, x[1])
                        if fl and all(y & O_APPEND or not y & 3 for y in fl):
                            continue
                    okk = False
                good &= ctx.ob(okk, 'append-fd:%s' % f.name, i.loc, 'the data descriptor assigned in %s is opened with O_APPEND' % f.name)
    ctx.need(n, 2, 'assignments of the data descriptor')
    # 3. writes
    n = 0
    for f in p.defined.values():
        for i in f.calls():
            t = i.target()
            if t in PWRITES | {'truncate', 'ftruncate', 'ftruncate64', 'mmap', 'fallocate', 'posix_fallocate', 'copy_file_range', 'sendfile', 'writev', 'fcntl'}:
                k = lib.pathkind(p, i) if t == 'truncate' else fdkind(p, i, 4 if t == 'mmap' else 0)
                if 'D' not in k:
                    continue
                if t == 'fallocate':
                    m = lib.consts(p, f, i.ops[1])
                    ctx.ob(m == {1}, 'preallocate:%s' % f.name, i.loc, 'preallocation keeps the file size')
                elif t != 'writev':
                    ctx.bad('modify:%s' % f.name, i.loc, '%s() on a data file' % t)
            if t in WRITERS and 'D' in fdkind(p, i):
                n += 1
                # each caller chain: descriptor origin
                for chain, x in lib.deep_origins(p, f, i.ops[0]):
                    if x[0] == 'load' and x[1] == 'data_root_t.datafd':
                        ctx.ok('append:%s' % '>'.join(chain), 'write through the append descriptor', i.loc)
                    elif x[0] == 'call' and x[1].target() in ('open', 'open64') and fresh_header(p, x[1], chain):
                        ctx.ok('header:%s' % '>'.join(chain), 'file header written right after open', x[1].loc)
                    elif x[0] == 'c':
                        pass
                    else:
                        ctx.bad('write:%s' % '>'.join(chain), i.loc, 'a data file is written through a descriptor that is not the append descriptor (%s)' % (x[1].loc if hasattr(x[1], 'loc') else x[1],))
    ctx.need(n, 1, 'write sites on data files')


def fresh_header(p, op, chain):
    """the function that opens: the descriptor is not repositioned and a buffer with a magic is written"""
    f = op.fn
    for i in f.calls():
        if i.target() in ('lseek', 'lseek64') and any(x == ('call', op) for x in lib.origins(p, f, i.ops[0])):
            return False
    hdr = False
    for i in f.calls():
        for o in i.ops:
            if o[0] == 'i' and f.byid[o[1]].op == 'alloca':
                d = p.structs.get(f.byid[o[1]].j['aty'].lstrip('%'))
                if d and any(x['name'] == 'magic' for x in d['fields']):
                    hdr = True
    return hdr
