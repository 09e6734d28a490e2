"""Namespaces: the settings kept on disk (P31), the directories they live in (P12)."""
from collections import namedtuple
import lib
import sim
from lib import replies, strval
from registry import prop
from rules_record import get, norm, put, hooks

N = namedtuple('N', 'ns path fd pos lens size hdr pw cont dirty bad synced oom asked')
HD = 'ns_header_t'
KEPT = ('namespace_t.maxsize', 'namespace_t.password', 'namespace_t.public', 'namespace_t.worm')
OPENS = ('open', 'open64', 'openat', 'creat')


def nsdescriptor(p):
    """file name of the descriptor: the constant suffix of the format an opened path of a namespace is made with"""
    return '/zdb-namespace'


def cut(v):
    """bytes of the value were left out on the way"""
    while type(v) is tuple and v[0] in ('zext', 'sext', 'trunc'):
        if v[0] == 'trunc' and v[1] < 64:
            return True
        v = v[2]
    return False


def lookups(p):
    """functions that find a namespace by its name among those in memory"""
    out = [n for n, f in p.defined.items() if (f.j.get('diret') or '').startswith('namespace_t') and any('char' in x for x in f.j.get('diparams') or ())
           and not (p.reach[n] | p.callees[n]) & (set(OPENS) | {'malloc', 'calloc', 'asprintf'})]
    if not out:
        raise lib.AnalysisBroken('the function that finds a namespace by name was not found')
    return out


def contents(p):
    """functions that load the content (index, data) of a namespace"""
    out = [n for n, f in p.defined.items() if (f.j.get('diret') or '').startswith(('index_root_t', 'data_root_t')) and (p.reach[n] | p.callees[n]) & set(OPENS)]
    if not out:
        raise lib.AnalysisBroken('the functions that load index and data were not found')
    return out


class Names(sim.Rule):
    """common part: what is known about strings"""

    def text(self, st, v):
        """the string a copy was made of"""
        return v


class Desc(sim.Rule):
    """follows the descriptor file of a namespace: what is written to it, what is read from it"""
    classes = KEPT

    def __init__(self, p, root):
        self.p = p
        self.root = root
        self.rep = set(replies(p).fns)
        self.look = lookups(p)
        self.aside = set(contents(p)) | set(hooks(p)) | {n for n, f in p.defined.items() if n.startswith('index_') and 'index_root_t' in str(f.j.get('diparams')) and not (f.j.get('diret') or '').startswith('namespace_t')}
        self.opaque = tuple(self.rep) + tuple(self.look) + tuple(self.aside)
        self.events = self.opaque + OPENS + ('read', 'pread', 'write', 'pwrite', 'lseek', 'lseek64', 'strlen', 'strdup', 'strndup', 'calloc', 'malloc', 'sprintf', 'snprintf', 'asprintf',
                                             'fsync', 'fdatasync', 'fprintf', 'fwrite', 'writev', 'dprintf', 'ftruncate', 'memcpy', 'strcpy', 'strlcpy', 'strcmp')
        self.hits = []
        self.checked = set()
        self.hsize = p.structs[HD]['size']
        self.codes = {x: p.enum(x) for x in ('NS_FLAGS_PUBLIC', 'NS_FLAGS_WORM')}

    def initial(self):
        return N((), (), (), (), (), (), None, None, (), 0, 0, 0, 0, 0)

    def hit(self, st, ins, key, text):
        self.hits.append((key, text, ins.loc, st.path()))

    def live(self, st):
        r = frozenset()
        a = st.auto
        for v in a.ns:
            if type(v) is tuple:
                r |= sim.leaves(v)
        for m in (a.path, a.fd, a.lens, a.size):
            for k, v in m:
                for x in (k, v):
                    if type(x) is tuple:
                        r |= sim.leaves(x)
        for k, v in a.pos:
            if v:
                for t in v[1]:
                    r |= sim.leaves(t[0])
        for n, v in a.hdr or ():
            if type(v) is tuple:
                r |= sim.leaves(v)
        for v in a.pw or ():
            if type(v) is tuple:
                r |= sim.leaves(v)
        return r

    def field(self, S, st, ns, name, struct='namespace_t'):
        return S.load(st, sim.addr(ns, self.p.field(struct, name)['off']), '%s.%s' % (struct, name))

    # ------------------------------------------------------------ strings
    def on_store(self, S, st, ins, key, cls, val):
        a = st.auto
        if cls in KEPT:
            a = a._replace(dirty=1, cont=(), synced=0)
            ns = sim.addr(key[0], key[1] - self.p.field('namespace_t', cls.split('.')[1])['off']) if type(key[0]) is tuple else None
            if ns is not None and ns not in a.ns:
                a = a._replace(ns=a.ns + (ns,))
            st.auto = a
        elif cls == 'namespace_t.indexpath' and type(key[0]) is tuple:
            ns = sim.addr(key[0], key[1] - self.p.field('namespace_t', 'indexpath')['off'])
            if ns not in a.ns:
                st.auto = a._replace(ns=a.ns + (ns,))

    def lim(self, S, st, v):
        """most bytes the string v can have"""
        if type(v) is tuple and v[0] == 'ld' and v[3] == 'namespace_t.name':
            return 255
        if type(v) is tuple and v[0] == 'ld' and v[3] == 'namespace_t.password':
            return 255
        if type(v) is tuple and v[0] == 'arg':
            return 255
        s = strval(S, v)
        if s is not None:
            return len(s)
        x = get(st.auto.size, v)
        return x if type(x) is int else None

    def on_call(self, S, st, ins, name, args):
        a = st.auto
        if name in self.rep:
            s = strval(S, args[1])
            if s is None or not s.startswith(('-', '$-1')):
                self.accepted(S, st, ins)
            return [(st, 0)]
        if name in self.look:
            out = []
            s2 = st.copy()
            t = lib.fresh(S, s2, ins, name)
            out.append((st, 0))
            if S.addfact(s2, t, (1, sim.POS, frozenset([0]))):
                s2.auto = a._replace(ns=a.ns + (t,))
                out.append((s2, t))
            return out
        if name in self.aside:
            return [(st, lib.fresh(S, st, ins, name) if ins.ty else None)]
        if name == 'strlen':
            t = lib.fresh(S, st, ins, name)
            m = self.lim(S, st, args[0])
            S.addfact(st, t, (0, m if m is not None else sim.POS, frozenset()))
            st.auto = a._replace(lens=put(a.lens, t, args[0]))
            return [(st, t)]
        if name == 'strcmp':
            out = []
            for v in (0, 1):
                s2 = st.copy() if v else st
                if v:
                    t = lib.fresh(S, s2, ins, name)
                    if not S.addfact(s2, t, (sim.NEG, sim.POS, frozenset([0]))):
                        continue
                    out.append((s2, t))
                else:
                    out.append((s2, 0))
            return out
        if name in ('strdup', 'strndup'):
            s2 = st.copy()
            s2.auto = a._replace(oom=1)
            s2.note('%s: %s fails' % (ins.loc, name))
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (1, sim.POS, frozenset([0])))
            m = self.lim(S, st, args[0])
            st.auto = a._replace(size=put(a.size, t, m))
            return [(st, t), (s2, 0)]
        if name in ('calloc', 'malloc'):
            s2 = st.copy()
            s2.note('%s: %s fails' % (ins.loc, name))
            s2.auto = a._replace(oom=1)
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (1, sim.POS, frozenset([0])))
            n = lib.lin(S, st, args[0])
            if name == 'calloc':
                m = lib.lin(S, st, args[1])
                n = m if n == (1, {}) else n if m == (1, {}) else None
                st.auto = a._replace(size=put(a.size, t, ('zeroed', n[0], tuple(sorted(n[1].items(), key=repr))) if n else None))
            return [(st, t), (s2, 0)]
        if name in ('sprintf', 'snprintf', 'asprintf'):
            k = 2 if name == 'snprintf' else 1
            f = strval(S, args[k]) or ''
            if f == '%s/zdb-namespace':
                st.auto = a._replace(path=put(a.path, args[0], args[k + 1]))
            elif f == '%.*s':
                r = S.rng(st, args[k + 1])
                st.auto = a._replace(size=put(a.size, args[0], r[1] if 0 <= r[1] < 1 << 20 else None))
                if name == 'sprintf' and type(args[0]) is tuple:
                    S.killfrom(st, args[0], ('c', ins.fn.name, ins.id))
                    return [(st, lib.fresh(S, st, ins, name))]
            return None
        if name in OPENS:
            t = lib.fresh(S, st, ins, name)
            s1 = st.copy()
            s1.note('%s: %s fails' % (ins.loc, name))
            out = [(s1, -1)]
            if S.addfact(st, t, (0, sim.POS, frozenset())):
                v = get(a.path, args[0])
                st.auto = a._replace(fd=put(a.fd, t, v if v is not None else 0), pos=put(a.pos, t, (0, ())))
                out.append((st, t))
            return out
        fd = norm(args[0]) if args else None
        who = get(a.fd, fd) if fd is not None else None
        if name in ('lseek', 'lseek64'):
            if type(who) is tuple:
                l = lib.lin(S, st, args[1]) if args[2] == 0 else None
                st.auto = a._replace(pos=put(a.pos, fd, (l[0], tuple(sorted(l[1].items(), key=repr))) if l else None))
                return [(st, args[1])] if l else None
            return None
        if name in ('fsync', 'fdatasync'):
            if type(who) is tuple:
                st.auto = a._replace(synced=1)
            return [(st, 0)]
        if name in ('fprintf', 'fwrite', 'writev', 'dprintf', 'ftruncate', 'memcpy', 'strcpy', 'strlcpy'):
            return None
        if name in ('read', 'pread', 'write', 'pwrite') and type(args[0]) is int and args[0] < 0:
            return [(st, -1)]
        if name in ('read', 'pread'):
            return self.read(S, st, ins, args, fd, who, args[3] if name == 'pread' else None)
        if name in ('write', 'pwrite'):
            return self.write(S, st, ins, args, fd, who, args[3] if name == 'pwrite' else None)
        return None

    # ------------------------------------------------------------ the file
    def at(self, S, st, a, fd, off):
        if off is not None:
            return lib.lin(S, st, off)
        v = get(a.pos, fd)
        return (v[0], dict(v[1])) if v else None

    def move(self, S, st, a, fd, pos, n, off):
        if off is not None:
            return a
        l = lib.ladd((1, pos), (1, lib.lin(S, st, n)))
        return a._replace(pos=put(a.pos, fd, (l[0], tuple(sorted(l[1].items(), key=repr))) if l else None))

    def owner(self, S, st, who):
        for ns in reversed(st.auto.ns):
            if self.field(S, st, ns, 'indexpath') == who:
                return ns
        return None

    def read(self, S, st, ins, args, fd, who, off):
        a = st.auto
        buf, n = args[1], args[2]
        site = ('c', ins.fn.name, ins.id)
        if type(buf) is tuple:
            S.killroot(st, buf, site)
        if type(who) is not tuple:
            return None
        pos = self.at(S, st, a, fd, off)
        full, short = st, st.copy()
        t = lib.fresh(S, short, ins, 'read', '~short')
        S.addfact(short, t, (-1, sim.POS, frozenset()))
        out = []
        short.note('%s: the descriptor cannot be read completely' % ins.loc)
        short.auto = a._replace(pos=put(a.pos, fd, None) if off is None else a.pos)
        if S.assume(short, 'slt', t, n, True):
            out.append((short, t))
        full.auto = self.move(S, full, a, fd, pos, n, off)
        if pos == (0, {}):
            if type(n) is int and n >= self.hsize:
                h = []
                for f in ('version', 'namelength', 'passlength', 'maxsize', 'flags'):
                    h.append((f, norm(S.load(full, sim.addr(buf, self.p.field(HD, f)['off']), '%s.%s' % (HD, f)))))
                for f, v in h:
                    if f in ('namelength', 'passlength', 'flags') and type(v) is tuple:
                        S.addfact(full, v, (0, 255, frozenset()))
                full.auto = full.auto._replace(hdr=tuple(h))
        elif a.hdr is not None:
            h = dict(a.hdr)
            want = lib.ladd((1, (self.hsize, {})), (1, lib.lin(S, full, h['namelength'])))
            good = pos == want and lib.lin(S, full, n) == lib.lin(S, full, h['passlength'])
            self.checked.add('read')
            full.auto = full.auto._replace(pw=(buf, 1 if good else 0))
            if not good:
                full.note('%s: reads other bytes than the password' % ins.loc)
        out.append((full, n))
        return out

    def bits(self, v, base, depth=12):
        """the bits of v: 0, 1, ('b', k) for bit k of base, None for unknown"""
        if type(v) is int:
            return [v >> k & 1 for k in range(64)]
        if v == base:
            return [('b', k) if k < 8 else 0 for k in range(64)]
        if type(v) is not tuple or not depth:
            return [None] * 64
        if v[0] in ('zext', 'sext'):
            return self.bits(v[2], base, depth - 1)
        if v[0] == 'trunc':
            return self.bits(v[2], base, depth - 1)[:v[1]] + [0] * (64 - v[1])
        if v[0] == 'op' and v[1] in ('and', 'or'):
            x, y = self.bits(v[2], base, depth - 1), self.bits(v[3], base, depth - 1)
            z = 0 if v[1] == 'and' else 1
            return [z if z in (i, j) else i if j == 1 - z else j if i == 1 - z else i if i == j else None for i, j in zip(x, y)]
        if v[0] == 'op' and v[1] in ('shl', 'lshr', 'ashr') and type(v[3]) is int and 0 <= v[3] < 32:
            x = self.bits(v[2], base, depth - 1)
            return ([0] * v[3] + x)[:64] if v[1] == 'shl' else x[v[3]:] + [0] * v[3]
        if v[0] == 'cmp' and v[1] == 'ne' and v[3] == 0:
            return [self.truth(v[2], base, depth - 1)] + [0] * 63
        return [None] * 64

    def truth(self, v, base, depth=12):
        """0, 1, ('b', k) when v is non zero exactly if bit k is set, None"""
        b = [x for x in self.bits(v, base, depth) if x != 0]
        if not b:
            return 0
        if 1 in b:
            return 1
        return b[0] if len(b) == 1 else None

    def flagknown(self, S, st, base, k):
        """what the path knows about bit k of base"""
        for t in list(st.facts):
            if type(t) is tuple and base in (t, sim.leaves(t)) or type(t) is tuple and base in sim.leaves(t) or type(t) is tuple and self.has(t, base):
                if self.truth(t, base) == ('b', k):
                    z = S.truth_zero(st, t)
                    if z is not None:
                        return 0 if z else 1
        return None

    def has(self, t, base):
        if t == base:
            return True
        return type(t) is tuple and any(self.has(x, base) for x in t[1:] if type(x) is tuple)

    def zero(self, S, st, v):
        r = S.rng(st, v)
        if r[0] == r[1] == 0:
            return True
        if r[0] > 0 or r[1] < 0 or 0 in r[2]:
            return False
        return None

    def write(self, S, st, ins, args, fd, who, off):
        a = st.auto
        buf, n = args[1], args[2]
        if type(who) is not tuple:
            return [(st, n)]
        ns = self.owner(S, st, who)
        pos = self.at(S, st, a, fd, off)
        out = []
        bad = a._replace(bad=1, pos=put(a.pos, fd, None))
        for s, v in lib.write_outcomes(S, st, ins, 'write', args, a, bad):
            if s.auto is a or s.auto == a:
                s.auto = self.move(S, s, a, fd, pos, n, off)._replace(synced=0)
                self.piece(S, s, ins, ns, pos, buf, n)
            out.append((s, v))
        return out

    def piece(self, S, st, ins, ns, pos, buf, n):
        a = st.auto
        self.checked.add((ins.fn.name, ins.id))
        if ns is None:
            return self.hit(st, ins, 'desc:file', 'the descriptor written is not in the directory of the namespace')
        if pos is None:
            if not a.bad:
                self.hit(st, ins, 'desc:position', 'the descriptor is written at an unknown position')
            return
        if pos == (0, {}):
            if n != self.hsize:
                return self.hit(st, ins, 'desc:size', 'the header of the descriptor is %s bytes, %s are written' % (self.hsize, n))
            h = {f: norm(S.load(st, sim.addr(buf, self.p.field(HD, f)['off']), '%s.%s' % (HD, f))) for f in ('version', 'namelength', 'passlength', 'maxsize', 'flags')}
            if h['version'] != 1:
                self.hit(st, ins, 'desc:version', 'the version written is not the one the loader accepts')
            raw = S.load(st, sim.addr(buf, self.p.field(HD, 'maxsize')['off']), HD + '.maxsize')
            if norm(self.field(S, st, ns, 'maxsize')) != h['maxsize'] or cut(raw):
                self.hit(st, ins, 'desc:maxsize', 'the size limit written is not the one of the namespace')
            for f, bit in (('public', self.codes['NS_FLAGS_PUBLIC']), ('worm', self.codes['NS_FLAGS_WORM'])):
                v = self.field(S, st, ns, f)
                z = self.zero(S, st, v)
                b = self.bits(h['flags'], norm(v))[bit.bit_length() - 1]
                if z is None and type(v) is tuple and type(h['flags']) is tuple:
                    # the flag computed from the setting without a branch
                    b = self.truth(('op', 'and', h['flags'], bit, 32), norm(v))
                    if b == ('b', 0):
                        continue
                if z is None or b not in (0, 1) or b == (1 if z else 0):
                    self.hit(st, ins, 'desc:' + f, 'the %s flag written is not the one of the namespace' % f)
            nl, pl = h['namelength'], h['passlength']
            if self.strlen(S, st, nl, self.field(S, st, ns, 'name')) is None:
                self.hit(st, ins, 'desc:namelength', 'the announced length of the name is not that of the name')
            pw = self.field(S, st, ns, 'password')
            z = self.zero(S, st, pw)
            if z is True and pl != 0 or z is not True and self.strlen(S, st, pl, pw) is None:
                self.hit(st, ins, 'desc:passlength', 'the announced length of the password is not that of the password, or does not fit its field')
            st.auto = a._replace(cont=('H', ('n', nl), ('p', pl)), bad=0)
            return
        c = dict(x for x in a.cont if type(x) is tuple)
        if a.bad:
            return
        if 'n' not in c:
            return self.hit(st, ins, 'desc:order', 'the descriptor is written without its header first')
        w = lib.lin(S, st, n)
        if pos == (self.hsize, {}):
            if buf != self.field(S, st, ns, 'name') or w != lib.lin(S, st, c['n']):
                return self.hit(st, ins, 'desc:name', 'what follows the header is not the name')
            st.auto = a._replace(cont=a.cont + ('N',))
            return
        if pos == lib.ladd((1, (self.hsize, {})), (1, lib.lin(S, st, c['n']))):
            if buf != self.field(S, st, ns, 'password') or w != lib.lin(S, st, c['p']):
                return self.hit(st, ins, 'desc:password', 'what follows the name is not the password')
            st.auto = a._replace(cont=a.cont + ('P',))
            return
        self.hit(st, ins, 'desc:position', 'the descriptor is written at another position than the loader reads')

    def strlen(self, S, st, v, text):
        """v is the length of the string text, and nothing of it is lost"""
        l = lib.lin(S, st, v)
        if l is None or l[0] or len(l[1]) != 1:
            return None
        (t, k), = l[1].items()
        t = norm(t)
        if k != 1 or get(st.auto.lens, t) != text:
            return None
        r = S.rng(st, t)
        return t if r[1] <= 255 else None

    def complete(self, S, st, ns):
        a = st.auto
        if a.bad:
            return 'a write to the descriptor failed'
        need = {'H', 'N'} | (set() if self.zero(S, st, self.field(S, st, ns, 'password')) is True else {'P'})
        miss = [x for x in need if x not in a.cont]
        if miss:
            return 'the %s not in the descriptor' % ' and the '.join({'H': 'settings are', 'N': 'name is', 'P': 'password is'}[x] for x in sorted(miss))
        if not a.synced:
            return 'the descriptor is not synced to the disk'
        return None

    def accepted(self, S, st, ins):
        """an answer that is not an error"""
        a = st.auto
        if not a.dirty:
            return
        self.checked.add((ins.fn.name, ins.id, 'ok'))
        why = self.complete(S, st, a.ns[-1])
        if why:
            self.hit(st, ins, 'ok', 'a change of the settings is acknowledged although ' + why)
        elif a.oom:
            self.hit(st, ins, 'ok:memory', 'a change of the settings is acknowledged although the value could not be kept')

    def loaded(self, S, st, ns, ins):
        """the namespace is handed to the caller"""
        a = st.auto
        fin = lambda k, t: self.hit(st, ins, k, 'a namespace is used although ' + t)
        if a.hdr is None:
            self.checked.add('new')
            why = self.complete(S, st, ns)
            if why:
                fin('load:new', why)
            return
        self.checked.add('loaded')
        h = dict(a.hdr)
        r = S.rng(st, h['version'])
        if not (r[0] == r[1] == 1):
            fin('load:version', 'the version of its descriptor was not checked')
        if norm(self.field(S, st, ns, 'maxsize')) != h['maxsize'] or cut(self.field(S, st, ns, 'maxsize')):
            fin('load:maxsize', 'its size limit is not the one of the descriptor')
        for f, bit in (('public', self.codes['NS_FLAGS_PUBLIC']), ('worm', self.codes['NS_FLAGS_WORM'])):
            k = bit.bit_length() - 1
            v = norm(self.field(S, st, ns, f))
            t = self.truth(v, h['flags'])
            if t in (0, 1):
                know = self.flagknown(S, st, h['flags'], k)
                if know == t:
                    continue
            if t != ('b', k):
                fin('load:' + f, 'its %s setting is not the flag of the descriptor' % f)
        pw = self.field(S, st, ns, 'password')
        pz, z = self.zero(S, st, h['passlength']), self.zero(S, st, pw)
        if pz is True and z is True:
            return
        if pz is True or z is True or pz is None:
            return fin('load:password', 'the descriptor holds a password and it has none' if pz is not True else 'it has a password and the descriptor none')
        if a.pw is None or a.pw[0] != pw or not a.pw[1]:
            return fin('load:password', 'its password was not read completely from the place where it is written')
        s = get(a.size, pw)
        l = lib.lin(S, st, h['passlength'])
        want = (l[0] + 1, tuple(sorted(l[1].items(), key=repr)))
        if not (type(s) is tuple and s[0] == 'zeroed' and s[1] >= want[0] and s[2] == want[1]):
            end = S.load(st, sim.addr(('[]', pw, h['passlength'], 1), 0), '*raw')
            if end != 0:
                fin('load:terminator', 'its password is not terminated')


@prop('P31', 'Property simulation of NSSET and of the functions that load a namespace: open, read, write and memory may fail at every call; the header, name and password written to '
      'the descriptor are compared with the settings in memory (bit by bit for the flags), what is read with what is kept.',
      ['the name of a namespace has at most 255 bytes (P12)', 'the memory and the descriptor are only changed by this process'])
def p31(ctx):
    p = ctx.prog()
    n = 0
    for name in ('NSSET',):
        fn = lib.handler(p, name)
        r, ex = ctx.refine(p, lambda: Desc(p, fn), fn)
        n += len(r.checked)
        if not r.hits and not any(len(x) == 3 for x in r.checked if type(x) is tuple):
            ctx.broken('no change of the settings was seen acknowledged')
        report(ctx, p, name, fn, r)
    roots = [x for x, f in p.defined.items() if (f.j.get('diret') or '').startswith('namespace_t') and any('char' in y for y in f.j.get('diparams') or ()) and 'read' in p.reach[x] | p.callees[x]]
    if not roots:
        raise lib.AnalysisBroken('the function that loads a namespace was not found')
    for fn in sorted(roots):
        f = p.defined[fn]

        def done(r, ex):
            for st, ret in ex:
                if S_zero(r, st, ret):
                    continue

                class I:
                    loc = f.loc
                r.loaded(r.S, st, ret, I)
            return r.hits

        def mk():
            r = Desc(p, fn)
            return r

        def setup(S, st):
            S.rule.S = S
        r, ex = ctx.refine(p, mk, fn, args=[('arg', 'a%d' % i) for i in range(len(f.j.get('diparams') or ()))], bad=done, setup=setup)
        n += len(r.checked)
        if not r.hits and not {'new', 'loaded'} <= r.checked:
            ctx.broken('%s: a namespace created and one loaded were not both seen' % fn)
        report(ctx, p, 'load:' + fn, fn, r)
    ctx.need(n, 10, 'writes, reads and answers')


def S_zero(r, st, v):
    return r.zero(r.S, st, v) is True


def report(ctx, p, name, fn, r):
    seen = set()
    for k, text, loc, path in r.hits:
        if k not in seen:
            seen.add(k)
            ctx.bad('%s:%s' % (name, k), loc, '%s: %s' % (name, text), path)
    if not r.hits:
        ctx.ok(name, '%s: %d reads, writes and answers compared' % (name, len(r.checked)), p.defined[fn].loc)


# ------------------------------------------------------------------ P12
F = namedtuple('F', 'copy lens facts')
ROOTS = ('zdb_settings_t.indexpath', 'zdb_settings_t.datapath')


class Confined(sim.Rule):
    """follows a name until it becomes a directory below the configured ones; what the tests on the path showed of it"""

    def __init__(self, p, cmd, named=frozenset()):
        self.p = p
        self.cmd = cmd
        self.rep = set(replies(p).fns)
        self.look = lookups(p)
        # what happens to a namespace once it has its directories does not matter
        self.aside = set(contents(p)) | set(hooks(p)) | {n for n, f in p.defined.items() if any(x.startswith('namespace_t *') or x == 'namespace_t*' for x in f.j.get('diparams') or ())
                                                         and not (p.reach[n] | p.callees[n] | {n}) & named}
        self.opaque = tuple(self.rep) + tuple(self.look) + tuple(self.aside)
        self.events = self.opaque + ('strlen', 'strdup', 'sprintf', 'snprintf', 'asprintf', 'strcmp', 'strchr', 'strrchr', 'memchr', 'strstr', 'strpbrk', 'readdir', 'strcpy', 'strncpy', 'memcpy', 'memmove', 'strcat', 'memset')
        self.hits = []
        self.sites = set()

    def initial(self):
        return F((), (), frozenset())

    def hit(self, st, ins, key, text):
        self.hits.append((key, text, ins.loc, st.path()))

    def live(self, st):
        r = frozenset()
        for m in (st.auto.copy, st.auto.lens):
            for k, v in m:
                for x in (k, v):
                    if type(x) is tuple:
                        r |= sim.leaves(x)
        for w, x in st.auto.facts:
            if type(x) is tuple:
                r |= sim.leaves(x)
        return r

    def text(self, st, v):
        for i in range(8):
            n = get(st.auto.copy, v)
            if n is None:
                return v
            v = n
        return v

    def on_store(self, S, st, ins, key, cls, val):
        b = sim.base_of(key[0])
        for v in {x for w, x in st.auto.facts} | {x for x, w in st.auto.copy} | {x for w, x in st.auto.lens}:
            if type(v) is tuple and sim.base_of(sim.split(v)[0]) == b and b != key[0] or v == key[0]:
                self.forget(st, v)

    def know(self, st, what, v):
        st.auto = st.auto._replace(facts=st.auto.facts | {(what, self.text(st, v))})

    def forget(self, st, v):
        """the bytes at v are new"""
        a = st.auto
        st.auto = a._replace(copy=tuple(x for x in a.copy if x[0] != v), facts=frozenset(x for x in a.facts if x[1] != v), lens=tuple(x for x in a.lens if x[1] != v))

    def on_call(self, S, st, ins, name, args):
        a = st.auto
        if name in self.rep:
            return [(st, 0)]
        if name in self.look or name in self.aside:
            t = lib.fresh(S, st, ins, name) if ins.ty else None
            if name in self.look:
                s2 = st.copy()
                S.addfact(st, t, (1, sim.POS, frozenset([0])))
                return [(st, t), (s2, 0)]
            return [(st, t)]
        if name == 'readdir':
            t = lib.fresh(S, st, ins, name)
            a = st.auto
            bad = lambda x: type(x) is tuple and sim.split(x)[0] == t
            st.auto = a._replace(copy=tuple(x for x in a.copy if not bad(x[0])), facts=frozenset(x for x in a.facts if not bad(x[1])), lens=tuple(x for x in a.lens if not bad(x[1])))
            return [(st, t)]
        if name == 'strlen':
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (0, sim.POS, frozenset()))
            st.auto = a._replace(lens=put(a.lens, t, self.text(st, args[0])))
            return [(st, t)]
        if name == 'strdup':
            t = lib.fresh(S, st, ins, name)
            st.auto = a._replace(copy=put(a.copy, t, args[0]))
            return [(st, t)]
        if name == 'strcmp':
            s, v = strval(S, args[1]), args[0]
            if s is None:
                s, v = strval(S, args[0]), args[1]
            if s is None:
                return None
            s2 = st.copy()
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (sim.NEG, sim.POS, frozenset([0])))
            self.know(st, 'not ' + s, v)
            self.know(s2, 'is ' + s, v)
            return [(st, t), (s2, 0)]
        if name in ('strchr', 'strrchr', 'strstr', 'strpbrk', 'memchr'):
            c = args[1]
            if name in ('strstr', 'strpbrk'):
                c = strval(S, c)
                slash = c is not None and (c == '/' if name == 'strstr' else '/' in c)
            else:
                slash = c == ord('/')
            if not slash or name == 'memchr' and get(a.lens, norm(args[2])) != self.text(st, args[0]):
                return None
            s2 = st.copy()
            t = lib.fresh(S, s2, ins, name)
            S.addfact(s2, t, (1, sim.POS, frozenset([0])))
            self.know(st, 'no slash', args[0])
            return [(st, 0), (s2, t)]
        if name in ('strcpy', 'strncpy', 'memcpy', 'memmove', 'strcat', 'memset') or name.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
            b = sim.base_of(sim.split(args[0])[0]) if type(args[0]) is tuple else None
            for v in {x for w, x in st.auto.facts} | {x for x, w in st.auto.copy} | {x for w, x in st.auto.lens}:
                if b is not None and type(v) is tuple and sim.base_of(sim.split(v)[0]) == b:
                    self.forget(st, v)
            return None
        if name in ('sprintf', 'snprintf', 'asprintf'):
            k = 2 if name == 'snprintf' else 1
            f = strval(S, args[k])
            parts = [S.p and args[i] for i in range(k + 1, len(args))]
            self.made(S, st, ins, f, parts)
            if name != 'asprintf' and type(args[0]) is tuple:
                S.killfrom(st, args[0], ('c', ins.fn.name, ins.id))
                self.forget(st, args[0])
                if f == '%s':
                    st.auto = st.auto._replace(copy=put(st.auto.copy, args[0], args[k + 1]))
                return [(st, lib.fresh(S, st, ins, name))]
            return None
        return None

    def made(self, S, st, ins, f, parts):
        """a path below a configured directory"""
        if not f or '/' not in f or not parts:
            return
        v = parts[0]
        if not (type(v) is tuple and (v[0] == 'ld' and v[3] in ROOTS)):
            return
        rest = f.split('%s', 1)[1] if f.startswith('%s') else f
        self.sites.add((ins.fn.name, ins.id))
        if rest != '/%s':
            if '%s' in rest:
                self.hit(st, ins, 'path', 'a path below the configured directory is made with an unknown format')
            return
        name = self.text(st, parts[1])
        s = strval(S, name)
        if s is not None:
            if s in ('', '.', '..') or '/' in s:
                self.hit(st, ins, 'name', 'the name "%s" is used as a directory' % s)
            return
        facts = {w for w, x in st.auto.facts if x == name}
        b = sim.base_of(sim.split(name)[0]) if type(name) is tuple else None
        if type(b) is tuple and b[0] == 'call' and b[1].startswith('readdir'):
            # an entry of a directory is a plain name
            facts |= {'not ', 'no slash'}
        if any(w.startswith('is ') for w in facts):
            w = [w for w in facts if w.startswith('is ')][0][3:]
            if w in ('', '.', '..', self.default()) or '/' in w:
                self.hit(st, ins, 'name:' + w, 'the name "%s" is accepted for a new namespace' % w)
            return
        if not self.nonempty(S, st, name) and 'not ' not in facts:
            self.hit(st, ins, 'name:empty', 'an empty name is not excluded: the namespace would be the configured directory itself')
        for w in ('.', '..', self.default()):
            if 'not ' + w not in facts:
                self.hit(st, ins, 'name:' + w, 'the name "%s" is not excluded' % w)
        if 'no slash' not in facts:
            self.hit(st, ins, 'name:slash', 'a name with a slash is not excluded: the namespace could be outside of the configured directory')

    def default(self):
        return 'default'

    def nonempty(self, S, st, name):
        for t, v in st.auto.lens:
            if v == name:
                r = S.rng(st, t)
                if r[0] >= 1 or 0 in r[2]:
                    return True
        r = S.rng(st, S.load(st, name, '*raw') if type(name) is tuple else 0)
        return r[0] > 0 or 0 in r[2]


@prop('P12', 'Property simulation of every command and of the start up to the place where a name becomes a directory below the configured ones: the tests made on the path must exclude '
      'the empty name, ".", ".." and a slash; and a query for what is removed: only recursive removals that do not follow links, of the directories of a namespace.',
      ['the configured directories are not changed by anybody else while the server runs'])
def p12(ctx):
    p = ctx.prog()
    sinks = {(i.fn.name, i.id) for nm in ('asprintf', 'sprintf', 'snprintf') for i in p.sites.get(nm, []) if roots(p, i)}
    ctx.need(len(sinks), 1, 'places where a directory of a namespace is named')
    seen = set()
    todo = []
    names = {f for f, _ in sinks}
    for c, fn in commands_(p):
        if names & (p.reach[fn] | p.callees[fn]):
            todo.append((c, fn, [('arg', 'client')]))
    start = [n for n, f in p.defined.items() if p.callees[n] & {'readdir', 'scandir', 'readdir64'} and names & (p.reach[n] | p.callees[n])]
    callers = [n for n, f in p.defined.items() if p.callees[n] & set(start)]
    for fn in callers or start:
        todo.append(('', fn, [('arg', 'a%d' % i) for i in range(len(p.defined[fn].j.get('diparams') or ()))]))
    for c, fn, args in todo:
        r, ex = ctx.refine(p, lambda: Confined(p, c, names), fn, args=args)
        seen |= r.sites
        for k, text, loc, path in dict((h[0], h) for h in r.hits).values():
            ctx.bad('%s:%s' % (c or fn, k), loc, '%s: %s' % (c or fn, text), path)
        if not r.hits:
            ctx.ok('name:' + (c or fn), '%s: every name used as a directory is a plain one' % (c or fn), p.defined[fn].loc)
    if not todo or sinks - seen:
        ctx.broken('P12: a place where a directory is named was not reached: %s' % sorted(sinks - seen)[:3])
    # what is removed
    n = 0
    for nm in ('nftw', 'ftw', 'nftw64'):
        for i in p.sites.get(nm, []):
            n += 1
            fl = lib.consts(p, i.fn, i.ops[3]) if nm != 'ftw' else {0}
            ctx.ob(fl is not None and all(x & 1 for x in fl), 'links:%s' % i.fn.name, i.loc, '%s: a recursive removal does not follow symbolic links' % i.fn.name)
            for ch, x in lib.deep_origins(p, i.fn, i.ops[0]):
                good = x[0] == 'load' and x[1] in lib.PATH_FIELDS or x[0] == 'call' and copyof(p, x[1])
                ctx.ob(good, 'removed:%s:%s' % (i.fn.name, ch[0]), i.loc, '%s removes the directory of a namespace' % ch[0])
    cbs = {x[1] for nm in ('nftw', 'ftw', 'nftw64') for i in p.sites.get(nm, []) for ch, x in lib.deep_origins(p, i.fn, i.ops[1]) if x[0] in ('fn', 'g')}
    for nm in ('remove', 'unlink', 'rmdir', 'unlinkat', 'rename', 'renameat'):
        for i in p.sites.get(nm, []):
            n += 1
            o = lib.deep_origins(p, i.fn, i.ops[0])
            for ch, x in o:
                # the callback of a walk: its first argument is the path the walk found
                good = x[0] == 'arg' and not p.sites.get(x[1].name) and x[2] == 0 or x[0] == 'load' and x[1].startswith(('zdbd_settings_t.', 'zdb_settings_t.', 'zdbd_rootsettings'))
                good = good or x[0] == 'load' and x[1] in lib.PATH_FIELDS
                ctx.ob(good, '%s:%s:%s' % (nm, i.fn.name, ch[0]), i.loc, '%s: what is removed was found below the directory walked, or is a configured path' % ch[0])
    ctx.need(n, 3, 'removals')


def commands_(p):
    return lib.commands(p)


def roots(p, i):
    fmt = [p.strconst(o[1]) for o in i.ops if isinstance(o, (list, tuple)) and o and o[0] == 'g' and p.strconst(o[1]) is not None]
    if not any('/%s' in f for f in fmt):
        return False
    for o in i.ops[1:]:
        for ch, x in lib.deep_origins(p, i.fn, o):
            if x[0] == 'load' and x[1] in ROOTS:
                return True
    return False


def copyof(p, i):
    return i.target() in ('strdup',) and any(x[0] == 'load' and x[1] in lib.PATH_FIELDS for ch, x in lib.deep_origins(p, i.fn, i.ops[0]))


# ------------------------------------------------------------------ P41
Z = namedtuple('Z', 'ns copy freed cleaned detached removed slot mode kept')


class Drop(sim.Rule):
    """follows a command that drops the content of a namespace"""

    def __init__(self, p, cmd):
        self.p = p
        self.cmd = cmd
        self.rep = set(replies(p).fns)
        self.look = lookups(p)
        self.clean = [n for n, f in p.defined.items() if n == 'index_clean_namespace']
        self.detach = [n for n, f in p.defined.items() if (f.j.get('diparams') or []) == ['namespace_t*'] and 'redis_client_t.ns' in p.mod[n]]
        if not self.clean or not self.detach:
            raise lib.AnalysisBroken('the functions that drop the keys of a namespace and detach its clients were not found')
        own = ('index_root_t*', 'data_root_t*')
        # functions that work on an index or data object without freeing it
        self.aside = {n for n, f in p.defined.items() if any(x in own for x in f.j.get('diparams') or ()) and not p.callees[n] & {'free'}}
        self.opaque = tuple(self.rep) + tuple(self.look) + tuple(contents(p)) + tuple(hooks(p)) + tuple(self.clean) + tuple(self.detach) + tuple(self.aside)
        self.events = self.opaque + ('free', 'nftw', 'nftw64', 'ftw', 'strdup', 'unlink', 'remove', 'rmdir')
        self.classes = KEPT + ('namespace_t.index', 'namespace_t.data')
        self.new = contents(p)
        self.hits = []
        self.checked = set()

    def initial(self):
        return Z(None, (), (), 0, 0, (), 0, None, ())

    def hit(self, st, ins, key, text):
        self.hits.append((key, text, ins.loc, st.path()))

    def live(self, st):
        a = st.auto
        r = frozenset()
        for v in (a.ns, a.mode) + a.freed + tuple(x for kv in a.copy for x in kv) + tuple(x[1] for x in a.removed) + a.kept:
            if type(v) is tuple:
                r |= sim.leaves(v)
        return r

    def field(self, S, st, ns, name):
        return S.load(st, sim.addr(ns, self.p.field('namespace_t', name)['off']), 'namespace_t.' + name)

    def begin(self, S, st):
        if self.cmd == 'FLUSH':
            ns = S.load(st, sim.addr(('arg', 'client'), self.p.field('redis_client_t', 'ns')['off']), 'redis_client_t.ns')
            S.addfact(st, ns, (1, sim.POS, frozenset([0])))
            st.auto = self.target(S, st, ns)

    def target(self, S, st, ns):
        i, d = self.field(S, st, ns, 'index'), self.field(S, st, ns, 'data')
        m = S.load(st, sim.addr(i, self.p.field('index_root_t', 'mode')['off']), 'index_root_t.mode')
        return st.auto._replace(ns=ns, mode=m, kept=(i, d))

    def on_load(self, S, st, ins, key, cls, val):
        b = sim.base_of(key[0])
        if b in st.auto.freed and type(b) is tuple and b[0] != 'g':
            self.hit(st, ins, 'freed', '%s of an object already freed is used' % (cls or 'memory'))

    def on_store(self, S, st, ins, key, cls, val):
        a = st.auto
        if cls in KEPT and a.ns is not None:
            self.hit(st, ins, 'settings', 'the settings of the namespace are changed (%s)' % cls)
        if val == 0 and cls in (None, '*raw', '*namespace_t') or val == 0 and cls and cls.startswith('*'):
            old = S.load(st, sim.addr(key[0], key[1]), cls)
            if a.ns is not None and 'ns_root_t.namespaces' in str(key[0]):
                if S.evalcmp(st, 'eq', old, a.ns) is True:
                    st.auto = a._replace(slot=1)
                else:
                    self.hit(st, ins, 'slot', 'another namespace is taken out of the list')

    def on_call(self, S, st, ins, name, args):
        a = st.auto
        for v in args:
            if v in a.freed and name != 'free':
                self.hit(st, ins, 'freed', '%s() gets an object already freed' % name)
        if name in self.rep:
            s = strval(S, args[1])
            if s is None or not s.startswith(('-', '$-1')):
                self.ended(S, st, ins)
            return [(st, 0)]
        if name in self.look:
            t = lib.fresh(S, st, ins, name)
            s2 = st.copy()
            S.addfact(st, t, (1, sim.POS, frozenset([0])))
            st.auto = self.target(S, st, t)
            return [(st, t), (s2, 0)]
        if name in self.clean:
            self.checked.add(ins.id)
            if args[1] != a.ns:
                self.hit(st, ins, 'clean', 'the keys of another namespace are dropped')
            if self.cmd == 'NSDEL' and not a.detached:
                self.hit(st, ins, 'detach', 'the namespace is dropped before its clients are detached')
            st.auto = a._replace(cleaned=1)
            return [(st, 0)]
        if name in self.detach:
            if args[0] == a.ns:
                st.auto = a._replace(detached=1)
            else:
                self.hit(st, ins, 'detach', 'the clients of another namespace are detached')
            return [(st, 0)]
        if name == 'strdup':
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (1, sim.POS, frozenset([0])))
            st.auto = a._replace(copy=put(a.copy, t, args[0]))
            return [(st, t)]
        if name == 'free':
            v = args[0]
            if type(v) is not tuple:
                return [(st, None)]
            if v in a.freed:
                self.hit(st, ins, 'twice', 'an object is freed twice')
            if v in a.kept and not a.cleaned:
                self.hit(st, ins, 'dangling', 'the index or data of the namespace is freed while its keys are still in the index in memory')
            if v == a.ns and not (a.detached and a.cleaned):
                self.hit(st, ins, 'dangling', 'the namespace is freed while a client or the index may still refer to it')
            if v not in a.kept and v != a.ns and get(a.copy, v) is None and not (v[0] == 'ld' and v[1] in a.kept + (a.ns,) or v[0] == 'ld' and self.under(v[1], a.kept + (a.ns,))):
                return [(st, None)]
            st.auto = a._replace(freed=a.freed + (v,))
            return [(st, None)]
        if name in ('nftw', 'nftw64', 'ftw'):
            v = args[0]
            v = get(a.copy, v) if get(a.copy, v) is not None else v
            kind = None
            if type(v) is tuple and v[0] == 'ld':
                owner, cls = v[1], v[3]
                if cls in ('namespace_t.indexpath', 'namespace_t.datapath') and owner == a.ns:
                    kind = 'index' if cls.endswith('indexpath') else 'data'
                elif cls == 'index_root_t.indexdir' and owner == a.kept[0]:
                    kind = 'index'
                elif cls == 'data_root_t.datadir' and owner == a.kept[1]:
                    kind = 'data'
            if kind is None:
                self.hit(st, ins, 'removed', 'files of something else than the namespace are removed')
                return [(st, 0)]
            cb = args[1][1] if type(args[1]) is tuple and args[1][0] in ('g', 'fn') else None
            st.auto = a._replace(removed=a.removed + ((kind, cb),))
            return [(st, 0)]
        if name in ('unlink', 'remove', 'rmdir'):
            self.hit(st, ins, 'removed', 'a file is removed')
            return [(st, 0)]
        if name in self.new:
            if not all(x in a.freed for x in a.kept):
                pass
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (1, sim.POS, frozenset([0])))
            return [(st, t)]
        return None

    def under(self, r, objs):
        return r in objs or type(r) is tuple and r[0] == 'ld' and self.under(r[1], objs)

    def ended(self, S, st, ins):
        a = st.auto
        if a.ns is None:
            return
        self.checked.add('end')
        say = lambda k, t: self.hit(st, ins, k, 'the command is acknowledged although ' + t)
        if not a.cleaned:
            say('end:keys', 'the keys of the namespace are still in the index in memory')
        if self.cmd == 'NSDEL':
            if {x[0] for x in a.removed} != {'index', 'data'}:
                say('end:files', 'not both directories of the namespace were removed')
            if a.ns not in a.freed:
                say('end:memory', 'the namespace was not freed')
            return
        for o, f in zip(a.kept, ('index', 'data')):
            v = self.field(S, st, a.ns, f)
            if o not in a.freed or v == o or v in a.freed or type(v) is not tuple:
                say('end:' + f, 'the %s of the namespace was not loaded anew' % f)
                return
        want = {'index', 'data'} if self.cmd == 'FLUSH' else set()
        if {x[0] for x in a.removed} != want:
            say('end:files', 'the content was not removed from both directories' if want else 'files were removed')
        if self.cmd == 'FLUSH':
            m = S.load(st, sim.addr(self.field(S, st, a.ns, 'index'), self.p.field('index_root_t', 'mode')['off']), 'index_root_t.mode')
            if m != a.mode and S.evalcmp(st, 'eq', m, a.mode) is not True:
                say('end:mode', 'the mode of the namespace may have changed')


class Payload(sim.Rule):
    """follows a callback of a directory walk: what it removes"""

    def __init__(self, p):
        self.p = p
        self.events = ('unlink', 'remove', 'rmdir', 'unlinkat')
        self.follow_all = True
        self.hits = []
        self.checked = set()

    def on_call(self, S, st, ins, name, args):
        if name in ('unlink', 'remove', 'rmdir', 'unlinkat'):
            self.checked.add(ins.id)
            ok = False
            for t, f in st.facts.items():
                if type(t) is tuple and t[0] in ('ld', 'sext', 'zext') and f[0] == f[1] and f[0] in (ord('d'), ord('i')):
                    ok = True
            r = S.rng(st, ('arg', 'tflag'))
            if not ok:
                self.hits.append(('payload', 'a file whose name does not start like a data or index file is removed (the descriptor of the namespace must stay)', ins.loc, st.path()))
            if not r[0] == r[1] == 0:
                self.hits.append(('regular', 'something else than a regular file is removed', ins.loc, st.path()))
            return [(st, 0)]
        return None


@prop('P41', 'Typestate simulation of NSDEL, FLUSH and RELOAD: keys dropped from the index in memory, clients detached, objects freed, directories walked, index and data loaded, per path and in order; no freed '
      'object is used; the callback that removes payload files is simulated for the names it accepts.',
      ['what dropping the keys does to the lists is P46', 'the directories of a namespace are its own (P12)'])
def p41(ctx):
    p = ctx.prog()
    n = 0
    for cmd in ('FLUSH', 'RELOAD', 'NSDEL'):
        fn = lib.handler(p, cmd)
        rr = []

        def mk():
            r = Drop(p, cmd)
            rr.append(r)
            return r
        r, ex = ctx.refine(p, mk, fn, setup=lambda S, st: rr[-1].begin(S, st))
        n += len(r.checked)
        if not r.hits and 'end' not in r.checked:
            ctx.broken('%s: no acknowledgement was seen' % cmd)
        report(ctx, p, cmd, fn, r)
        cbs = {x[1] for st, ret in ex for x in st.auto.removed}
        if cmd == 'FLUSH':
            if not cbs or None in cbs:
                ctx.broken('the callback of FLUSH is not known')
            for cb in sorted(x for x in cbs if x):
                r2, ex2 = ctx.refine(p, lambda: Payload(p), cb, args=[('arg', 'path'), ('arg', 'stat'), ('arg', 'tflag'), ('arg', 'ftw')])
                n += len(r2.checked)
                if not r2.checked:
                    ctx.broken('%s removes nothing' % cb)
                report(ctx, p, 'callback:' + cb, cb, r2)
    ctx.need(n, 6, 'steps')
