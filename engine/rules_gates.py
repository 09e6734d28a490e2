"""Access gates: for every command of the command table, assume the gate is closed
(a field of the client or of the namespace has a given value) and show that no path
of the handler reaches an effect the gate protects."""
import re
import lib
import sim
from lib import WRITERS, REMOVERS, MAKERS, fdkind, commands, replies, strval
from registry import prop

# field classes of the process state that describe a namespace, its content or its files
NSFIELDS = ('namespace_t.password', 'namespace_t.maxsize', 'namespace_t.public', 'namespace_t.worm', 'namespace_t.locked',
            'namespace_t.index', 'namespace_t.data', 'index_root_t.mode', 'index_root_t.indexid', 'data_root_t.dataid',
            'index_branch_t.list', 'index_branch_t.last', 'index_root_t.nextentry', 'ns_root_t.effective', 'ns_root_t.length')
CLFIELDS = ('redis_client_t.mirror', 'redis_client_t.master', 'redis_client_t.admin')
READF = ('index_entry_t.', 'index_item_t.', 'index_branch_t.')
EXECS = {'execv', 'execve', 'execvp', 'execl', 'execlp', 'system', 'popen'}


class Found(Exception):
    pass


class Gate(sim.Rule):
    first = False
    """forbidden: set of effect kinds that must not be reached under the assumption"""

    def __init__(self, p, force, forbidden, classes=(), opaque=(), fields=()):
        self.p = p
        self.force = force
        self.forbidden = forbidden
        self.classes = tuple(classes)
        self.rep = replies(p).fns
        self.opaque = tuple(self.rep) + tuple(opaque)
        self.hits = []
        self.seen = set()
        self.nsites = set()
        ev = set(WRITERS | REMOVERS | MAKERS | EXECS | {'fallocate'})
        if 'read' in forbidden:
            ev |= {'read', 'pread', 'pread64', 'sendfile'}
        if 'reply' in forbidden:
            ev |= self.rep
        self.events = tuple(ev)
        self.fields = tuple(fields)
        if self.fields:
            self.follow = lib.loaders(p, self.fields)

    def initial(self):
        return 0

    def hit(self, st, ins, kind, what):
        k = (ins.fn.name, ins.id)
        if self.first:
            raise Found()
        if k not in self.seen:
            self.seen.add(k)
            self.hits.append((kind, what, ins.loc, st.path()))

    def on_call(self, S, st, ins, name, args):
        if name in self.rep:
            if 'reply' in self.forbidden:
                s = strval(S, args[1])
                self.nsites.add((ins.fn.name, ins.id))
                if s is None or not s.startswith('-'):
                    self.hit(st, ins, 'reply', 'a reply that is not an error')
                    return []
            return [(st, 0)]
        kind = None
        if name in WRITERS or name in ('fallocate',):
            k = fdkind(self.p, ins)
            kind = 'write:' + (k if k in ('D', 'I', 'N') else '?') if k != 'S' else None
        elif self.takeback(name, args):
            k = fdkind(self.p, ins)
            kind = 'write:' + (k if k in ('D', 'I', 'N') else '?')
        elif name in REMOVERS:
            kind = 'remove'
        elif name in MAKERS:
            kind = 'make'
        elif name in EXECS:
            kind = 'exec'
        elif name in ('read', 'pread', 'pread64'):
            kind = 'read:' + fdkind(self.p, ins)
        if kind:
            self.nsites.add((ins.fn.name, ins.id))
            if kind in self.forbidden or kind.split(':')[0] in self.forbidden:
                self.hit(st, ins, kind.split(':')[0], '%s() on %s' % (name, {'D': 'a data file', 'I': 'an index file', 'N': 'a namespace descriptor'}.get(kind[-1], 'the filesystem')))
                return []
        return None

    def takeback(self, name, args):
        """a file cut back to the end it had: what was appended since is taken back, nothing else is removed"""
        v = args[1] if name in ('ftruncate', 'ftruncate64') else None
        if type(v) is not tuple or v[0] != 'call' or v[1] not in ('lseek', 'lseek64'):
            return False
        f = self.p.defined.get(v[2])
        i = f.byid.get(v[3]) if f else None
        return i is not None and i.op == 'call' and i.target() in ('lseek', 'lseek64') and i.ops[2][:2] == ['c', 2] and i.ops[1][:2] == ['c', 0]

    def on_load(self, S, st, ins, key, cls, val):
        if self.fields and cls and cls.startswith(self.fields):
            self.nsites.add((ins.fn.name, ins.id))
            self.hit(st, ins, 'entry', 'a read of %s' % cls)
            st.dead = True

    def on_store(self, S, st, ins, key, cls, val):
        if cls in self.classes:
            b = sim.base_of(key[0])
            if type(b) is tuple and b[0] == 'al':
                return
            if type(b) is tuple and b[0] == 'call' and b[1] in sim.ALLOC:
                return
            self.nsites.add((ins.fn.name, ins.id))
            if 'state' in self.forbidden:
                self.hit(st, ins, 'state', 'a store to %s' % cls)
                st.dead = True


def closed(ctx, p, label, names, force, forbidden, classes=(), opaque=(), only=None, fields=()):
    """obligation per command: under `force`, the handler performs none of `forbidden`"""
    n = 0
    done = {}
    for name, h in commands(p):
        if only is not None and name not in only:
            continue
        n += 1
        if h not in done:
            done[h] = ctx.refine(p, lambda: Gate(p, force, forbidden, classes, opaque, fields), h)
        r, ex = done[h]
        if r.hits:
            for kind, what, loc, path in r.hits[:3]:
                ctx.bad('%s:%s:%s' % (label, name, kind), loc, 'command %s reaches %s %s' % (name, what, names), path)
        else:
            ctx.ok('%s:%s' % (label, name), 'command %s: no protected effect on %d paths %s' % (name, len(ex), names), p.defined[h].loc)
    if only:
        ctx.need(n, len([x for x in only if x != '']), 'commands under gate ' + label)
    else:
        ctx.need(n, 30, 'commands under gate ' + label)
    return n


def hits(ctx, p, r, h):
    r.first = True
    try:
        ctx.sim(p, r, h, [('arg', 'client')], maxgroup=2)
    except Found:
        return True
    return False


def reachable(ctx, p, name, force, wanted, classes=(), fields=()):
    """positive instance: with the gate open the effect is found, otherwise the rule is blind"""
    if not hits(ctx, p, Gate(p, force, wanted, classes, (), fields), lib.handler(p, name)):
        ctx.broken('with its gate open, %s reaches no %s: the rule is blind' % (name, sorted(wanted)))
    ctx.stats['positive instances found'] += 1


EFFECTS = {'write', 'remove', 'make', 'state'}
MUTATORS = ('SET', 'SETX', 'DEL', 'FLUSH')
DATACMDS = ('SET', 'SETX', 'GET', 'MGET', 'DEL', 'EXISTS', 'CHECK', 'SCAN', 'SCANX', 'RSCAN', 'KSCAN', 'HISTORY', 'KEYCUR', 'LENGTH', 'KEYTIME', 'FLUSH')
A0 = {'redis_client_t.admin': 0}


@prop('P06', 'Path-sensitive property simulation of every handler of the command table (call graph with resolved function-pointer '
      'tables, interprocedural): the gate field (session writable flag / namespace lock state) is assumed closed and no path may reach a '
      'write, truncation, removal or creation on a data, index or descriptor file, nor a store to namespace or index state. '
      'Mutating commands are analysed for administrators as well.',
      ['administrative commands (NSNEW NSDEL NSSET NSJUMP RELOAD) are maintenance operations and not data updates'])
def p06(ctx):
    p = ctx.prog()
    for label, names, force in (('readonly', 'in a read-only session', {'redis_client_t.writable': 0}),
                                ('locked', 'on a locked namespace', {'namespace_t.locked': p.enum('NS_LOCK_READ_ONLY')}),
                                ('frozen', 'on a frozen namespace', {'namespace_t.locked': p.enum('NS_LOCK_READ_WRITE')})):
        closed(ctx, p, label, names, dict(force, **A0), EFFECTS, NSFIELDS)
        closed(ctx, p, label + '+admin', names + ' (administrator)', force, EFFECTS, NSFIELDS, only=MUTATORS)
    for c in MUTATORS[:3]:
        reachable(ctx, p, c, {'redis_client_t.writable': 1, 'namespace_t.locked': 0, 'namespace_t.worm': 0}, {'write'})
    reachable(ctx, p, 'FLUSH', {'redis_client_t.writable': 1, 'namespace_t.locked': 0, 'namespace_t.worm': 0}, {'remove'})


@prop('P07', 'Property simulation of every handler with the namespace lock state assumed frozen: no path of a data command may load a field of an '
      'index entry or index record, or read an index or data file.')
def p07(ctx):
    p = ctx.prog()
    F = {'namespace_t.locked': p.enum('NS_LOCK_READ_WRITE')}
    closed(ctx, p, 'frozen-read', 'on a frozen namespace', dict(F, **A0), {'read:D', 'read:I'}, fields=READF)
    closed(ctx, p, 'frozen-read+admin', 'on a frozen namespace (administrator)', F, {'read:D', 'read:I'},
           fields=READF, only=[c for c in DATACMDS if c != 'KSCAN' or ctx.config == 'debug'])
    for c in ('GET', 'MGET', 'EXISTS', 'SCAN', 'RSCAN', 'HISTORY', 'KEYCUR', 'LENGTH', 'KEYTIME', 'CHECK'):
        reachable(ctx, p, c, {'namespace_t.locked': 0}, {'read:D', 'read:I'}, fields=READF)


class Worm(Gate):
    """the result of a key lookup that found an entry arms the gate"""

    def __init__(self, p, force, forbidden, classes=()):
        Gate.__init__(self, p, force, forbidden, classes)
        self.lookups = set(x for x in ('index_get',) if x in p.defined)
        if not self.lookups:
            raise lib.AnalysisBroken('the key lookup of the engine was not found')
        self.events = self.events + tuple(self.lookups)
        self.nlook = 0

    def on_call(self, S, st, ins, name, args):
        if name in self.lookups:
            self.nlook += 1
            s1, s2 = st, st.copy()
            t = lib.fresh(S, s2, ins, name)
            out = [(s1, 0)]
            if S.addfact(s2, t, (1, sim.POS, frozenset([0]))):
                s2.auto = 1
                s2.note('%s: the key exists' % ins.loc)
                out.append((s2, t))
            return out
        if st.auto == 0 and (name not in REMOVERS or self.takeback(name, args)):
            if name in self.rep:
                return [(st, 0)]
            return None
        return Gate.on_call(self, S, st, ins, name, args)

    def on_store(self, S, st, ins, key, cls, val):
        if st.auto:
            Gate.on_store(self, S, st, ins, key, cls, val)


@prop('P08', 'Property simulation of SET, SETX, DEL and FLUSH with the worm flag of the namespace assumed set: once the lookup of the key '
      'returned an entry no path may write a data or index file, and no path may remove a file.')
def p08(ctx):
    p = ctx.prog()
    W = {'namespace_t.worm': 1}
    for name in MUTATORS:
        h = lib.handler(p, name)
        r, ex = ctx.refine(p, lambda: Worm(p, W, EFFECTS, NSFIELDS), h)
        if name != 'FLUSH':
            ctx.need(r.nlook, 1, 'key lookups in %s' % name)
        if r.hits:
            for kind, what, loc, path in r.hits[:3]:
                ctx.bad('worm:%s:%s' % (name, kind), loc, 'command %s reaches %s for an existing key of a worm namespace' % (name, what), path)
        else:
            ctx.ok('worm:' + name, 'command %s: nothing written or removed for an existing key on %d paths' % (name, len(ex)), p.defined[h].loc)
        r = Worm(p, {'namespace_t.worm': 0, 'redis_client_t.writable': 1, 'namespace_t.locked': 0}, EFFECTS, NSFIELDS)
        if not hits(ctx, p, r, h):
            ctx.broken('without worm, %s writes nothing: the rule is blind' % name)
    closed(ctx, p, 'worm+any', 'in worm mode', dict(W, **A0), {'remove', 'write:N'} | {'state'},
           [c for c in NSFIELDS if c.startswith('namespace_t.')])


def atleast(n):
    def f(S, st, key):
        t = ('arg', 'argc>=%d' % n)
        S.addfact(st, t, (n, 1024, frozenset()))
        return t
    return f


ADMINONLY = ('NSNEW', 'NSDEL', 'NSSET', 'NSJUMP', 'RELOAD', 'HOOKS', 'INDEX', 'DATA', 'MIRROR', 'MASTER')


@prop('P09', 'Property simulation of every handler with the admin flag of the session assumed clear: the administrative commands may only queue error '
      'replies and reach no file or namespace-state effect; SET and DEL with an extra timestamp argument (argument count assumed to be larger) reach no effect; '
      'no other command changes namespace settings or the replication flags of the session.')
def p09(ctx):
    p = ctx.prog()
    closed(ctx, p, 'admin-only', 'without administrator rights', A0, EFFECTS | {'reply'}, NSFIELDS + CLFIELDS, only=ADMINONLY)
    rest = [n for n, h in commands(p) if n not in ADMINONLY and n not in MUTATORS and n != 'AUTH']
    closed(ctx, p, 'no-admin-effect', 'without administrator rights', A0, EFFECTS, NSFIELDS + CLFIELDS, only=rest)
    closed(ctx, p, 'set-timestamp', 'with a timestamp and without administrator rights', dict(A0, **{'resp_request_t.argc': atleast(4)}), EFFECTS | {'reply'}, NSFIELDS, only=('SET', 'SETX'))
    closed(ctx, p, 'del-timestamp', 'with a timestamp and without administrator rights', dict(A0, **{'resp_request_t.argc': atleast(3)}), EFFECTS | {'reply'}, NSFIELDS, only=('DEL',))
    SETF = ('namespace_t.password', 'namespace_t.maxsize', 'namespace_t.public', 'namespace_t.worm', 'namespace_t.locked', 'index_root_t.mode')
    closed(ctx, p, 'mutators-settings', 'without administrator rights', A0, {'state', 'write:N'}, SETF, only=('SET', 'SETX', 'DEL'))
    for c, w, k in (('NSSET', {'state'}, NSFIELDS), ('MIRROR', {'state'}, CLFIELDS), ('NSJUMP', {'state'}, NSFIELDS), ('NSNEW', {'make'}, ()), ('NSDEL', {'remove'}, ())):
        reachable(ctx, p, c, {'redis_client_t.admin': 1}, w, k)


class Secret(sim.Rule):
    """a formatting call that is given the stored password"""

    def __init__(self, p, force):
        self.force = force
        self.rep = replies(p).fns
        self.opaque = tuple(self.rep)
        self.events = tuple(self.rep) + ('sprintf', 'snprintf', 'asprintf')
        self.hits = []
        self.n = 0

    def initial(self):
        return 0

    def on_call(self, S, st, ins, name, args):
        if name in self.rep or name in ('sprintf', 'snprintf', 'strcpy', 'strcat', 'memcpy', 'strncpy', 'strncat', 'strdup'):
            self.n += 1
            for k, a in enumerate(args):
                if type(a) is tuple and a[0] == 'ld' and a[3] in ('namespace_t.password', 'zdbd_settings_t.adminpwd') and (name not in self.rep or k == 1):
                    self.hits.append((ins.loc, st.path(), name))
                    return []
            if name in self.rep:
                return [(st, 0)]
        return None


@prop('P10', 'Property simulation of every handler with the master flag of the session assumed clear: the stored password of a namespace (and the '
      'administrator password) never reaches a string-building or reply call.',
      ['the challenge hash (asprintf into a digest) is the one permitted use'])
def p10(ctx):
    p = ctx.prog()
    seen = set()
    for name, h in commands(p):
        if h in seen or name in ('NSNEW', 'NSDEL', 'NSSET', 'RELOAD', 'FLUSH', 'NSJUMP'):
            continue
        seen.add(h)
        r, ex = ctx.refine(p, lambda: Secret(p, {'redis_client_t.master': 0}), h)
        if r.hits:
            ctx.bad('secret:' + name, r.hits[0][0], 'command %s hands the stored password to %s for a client that is not a master' % (name, r.hits[0][2]), r.hits[0][1])
        else:
            ctx.ok('secret:' + name, 'command %s: %d string or reply calls, none is given the password' % (name, r.n), p.defined[h].loc)
    r = Secret(p, {'redis_client_t.master': 1})
    ctx.sim(p, r, lib.handler(p, 'NSINFO'), [('arg', 'client')], maxgroup=2)
    if not r.hits:
        ctx.broken('NSINFO shows no password to a master: the rule is blind')


class Absent(Gate):
    """every index record reached carries the deleted flag: only replies that say `absent` may be queued"""
    ABSENT = ('$-1', ':0')

    def __init__(self, p, force):
        Gate.__init__(self, p, force, {'read', 'write', 'remove', 'reply'})
        self.events = self.events + ('sprintf', 'snprintf')
        self.classes = ('zdb_api_t.status',)
        self.status = []
        self.replied = set()

    def initial(self):
        return frozenset()      # buffers that hold a neutral reply

    def on_call(self, S, st, ins, name, args):
        if name in ('sprintf', 'snprintf'):
            k = 1 if name == 'sprintf' else 2
            f = strval(S, args[k])
            b = args[0]
            st.auto = frozenset(x for x in st.auto if x != b)
            f = (f or '').replace('\\r\\n', '').strip()
            if f.startswith('-') or f in self.ABSENT or re.fullmatch(r'\*%[lzh]*[diu]', f) or (
                    re.fullmatch(':%[lzh]*[diu]', f) and len(args) > k + 1 and S.rng(st, args[k + 1])[:2] == (0, 0)):
                st.auto = st.auto | {b}
            return None
        if name in self.rep:
            self.nsites.add((ins.fn.name, ins.id))
            s = strval(S, args[1])
            if not (s.startswith('-') or s.strip() in self.ABSENT if s is not None else args[1] in st.auto):
                self.hit(st, ins, 'reply', 'a reply that presents the key as existing')
                return []
            return [(st, 0)]
        if name in ('read', 'pread', 'pread64') and 'D' not in fdkind(self.p, ins):
            return None
        return Gate.on_call(self, S, st, ins, name, args)

    def on_store(self, S, st, ins, key, cls, val):
        if cls == 'zdb_api_t.status':
            lo, hi, _ = S.rng(st, val)
            self.status.append((lo, hi, ins.loc, st.path()))


ABSENTCMDS = ('GET', 'MGET', 'EXISTS', 'CHECK', 'LENGTH', 'KEYTIME', 'KEYCUR', 'HISTORY', 'DEL', 'SCAN', 'SCANX', 'RSCAN')


@prop('P38', 'Property simulation of every key command with the deleted flag assumed set in each index record it loads (from memory or from an index '
      'file, other flag bits arbitrary): no path reads a data file, writes or removes anything, or queues a reply other than an error, a null or a zero count; '
      'the same for the embedding API and its result codes.',
      ['HISTORY with an exact cursor addresses old versions and is not a lookup of the key'])
def p38(ctx):
    p = ctx.prog()
    D = p.enum('INDEX_ENTRY_DELETED')
    have = dict(commands(p))
    n = 0
    for bits, seq in ((D, 0), (0x80 | D, 0), (D, 1)):
        F = {'index_entry_t.flags': bits, 'index_item_t.flags': bits}
        if seq:
            # the entry of a sequential lookup is filled from the record on disk: its flag has to be the one of the record
            F = {'index_item_t.flags': bits, 'index_root_t.mode': p.enum('ZDB_MODE_SEQUENTIAL')}
        for name in ABSENTCMDS:
            if name not in have:
                continue
            f = dict(F, **{'resp_request_t.argc': 2}) if name == 'HISTORY' else F
            r, ex = ctx.refine(p, lambda: Absent(p, f), have[name])
            n += len(r.nsites)
            for kind, what, loc, path in r.hits[:3]:
                ctx.bad('deleted:%s:%s' % (name, kind), loc, 'command %s reaches %s although the key is deleted' % (name, what), path)
            if not r.hits:
                ctx.ok('deleted:%s:%x:%d' % (name, bits, seq), 'command %s: %d reply and file sites on %d paths, the key stays absent' % (name, len(r.nsites), len(ex)), p.defined[have[name]].loc)
        good = {'get': ('ZDB_API_ENTRY', 'ZDB_API_SUCCESS', 'ZDB_API_BUFFER', 'ZDB_API_TRUE'), 'exists': ('ZDB_API_TRUE', 'ZDB_API_SUCCESS'),
                'check': ('ZDB_API_TRUE', 'ZDB_API_SUCCESS'), 'del': ('ZDB_API_SUCCESS', 'ZDB_API_TRUE')}
        for api, codes in good.items():
            fn = 'zdb_api_' + api
            if fn not in p.defined:
                raise lib.AnalysisBroken('%s not found' % fn)
            codes = [p.enum(c) for c in codes]
            wrong = lambda r: [x for x in r.status if any(x[0] <= c <= x[1] for c in codes)]
            r, ex = ctx.refine(p, lambda: Absent(p, F), fn, args=[('arg', 'ns'), ('arg', 'key'), ('arg', 'ksize')], bad=lambda r, ex: r.hits or wrong(r))
            for kind, what, loc, path in r.hits[:3]:
                ctx.bad('deleted-api:%s:%s' % (api, kind), loc, '%s reaches %s although the key is deleted' % (fn, what), path)
            for lo, hi, loc, path in wrong(r)[:1]:
                ctx.bad('deleted-api:%s:status' % api, loc, '%s answers success although the key is deleted' % fn, path)
            if not r.status:
                ctx.broken('%s builds no answer' % fn)
            if not r.hits and not wrong(r):
                ctx.ok('deleted-api:%s:%x:%d' % (api, bits, seq), '%s: %d answers built, none positive' % (fn, len(r.status)), p.defined[fn].loc)
    ctx.need(n, 40, 'reply and file sites')
    for c in ('GET', 'MGET', 'EXISTS', 'CHECK', 'LENGTH', 'KEYTIME', 'HISTORY', 'SCAN', 'RSCAN', 'KEYCUR', 'DEL'):
        if not hits(ctx, p, Absent(p, {'index_entry_t.flags': 0, 'index_item_t.flags': 0}), lib.handler(p, c)):
            ctx.broken('for a live key, %s shows nothing: the rule is blind' % c)
