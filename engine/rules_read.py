"""What reads answer: the record a lookup designates, and nothing else."""
import re
from collections import namedtuple
import lib
import linear
import sim
from lib import fdkind, lin, replies, strval
from registry import prop
from rules_record import EN, H, Record, get, hooks, norm, put

R = namedtuple('R', 'path fd pos got head reg text crc entry asked out idx failed count')
EF = ('idlength', 'offset', 'length', 'dataid', 'timestamp')
FMT = re.compile(r'%([-+ #0]*)(\d+)?(?:\.(\d+))?(hh|h|ll|l|z|j|t)?([diuxXscp%])')
BITS = {'hh': 8, 'h': 16, None: 32, 'l': 64, 'll': 64, 'z': 64, 'j': 64, 't': 64}


TERMS = {'ld', 'call', 'arg', 'op', '+', '[]', 'zext', 'sext', 'trunc', 'cmp', 'phi', 'join', 'old', 'any', 'al', 'g'}


# the active data file is open; the parser bounds what it accepts (P14)
BOUNDS = {'data_root_t.datafd': (0, sim.POS), 'resp_request_t.argc': (1, 1024), 'resp_object_t.length': (0, 8 << 20)}


def freeze(l):
    return None if l is None else (l[0], tuple(sorted(l[1].items(), key=repr)))


def thaw(l):
    return None if l is None else (l[0], dict(l[1]))


class Reader(Record):
    """follows a read; keeps which bytes of which file reach which memory, and what is answered"""

    def __init__(self, p, force, lookup, crc, cmd, start):
        self.cmd, self.start = cmd, start
        self.p = p
        self.force = dict(force)
        self.force['index_entry_t.flags'] = 0      # what a lookup returns is not deleted (P38)
        self.lookup, self.crc = lookup, crc
        self.rep = replies(p).fns
        self.aside = set(hooks(p))
        self.opaque = tuple(self.rep) + (lookup, crc) + tuple(self.aside)
        self.events = self.opaque + ('memcpy', 'memmove', 'read', 'pread', 'pread64', 'lseek', 'lseek64', 'open', 'sprintf', 'snprintf', 'strlen', 'malloc', 'calloc')
        self.classes = ()
        self.hits = []
        self.checked = set()
        self.hid = p.field(H, 'id')['off']
        self.S = None

    def initial(self):
        return R((), (), (), (), (), (), (), (), None, None, (), None, 0, 0)

    def live(self, st):
        r = set()

        def walk(x):
            if type(x) is tuple and x:
                if type(x[0]) is str and x[0] in TERMS:
                    r.update(sim.leaves(x))
                else:
                    for y in x:
                        walk(y)
        walk(tuple(st.auto))
        return frozenset(r)

    def apart(self, st):
        return st.auto.entry if type(st.auto.entry) is not tuple else 1

    def hit(self, st, ins, key, text):
        self.hits.append((key, text, ins.loc if ins is not None else '', st.path()))

    def lin(self, S, st, v):
        """linear form whose terms are free of casts that keep the value"""
        l = lib.lin(S, st, v)
        if l is None:
            return None
        d = {}
        for x, k in l[1].items():
            x = self.norm(x)
            d[x] = d.get(x, 0) + k
        return l[0], {x: k for x, k in d.items() if k}

    def norm(self, v):
        while type(v) is tuple and v[0] in ('zext', 'sext', 'trunc'):
            if v[0] == 'trunc':
                x = v[2]
                w = x[1] if type(x) is tuple and x[0] in ('zext', 'sext') else self.width(x)
                if w > v[1]:
                    return v
            v = v[2]
        return v

    def same(self, S, st, a, b):
        a, b = self.norm(a), self.norm(b)
        if a is None or b is None or any(type(x) is tuple and x[0] == 'old' for x in (a, b)):
            return False
        if a == b:
            return True
        if any(type(x) is tuple and x[0] == 'trunc' for x in (a, b)):
            return False
        return Record.same(self, S, st, a, b)

    def width(self, x):
        """bits of a value as it was loaded"""
        if type(x) is tuple and x[0] == 'ld' and '.' in x[3]:
            s, f = x[3].split('.', 1)
            m = self.p.structs.get(s)
            if m:
                for g in m['fields']:
                    if g['name'] == f and g.get('size'):
                        return g['size'] * 8
        return 64

    def on_load(self, S, st, ins, key, cls, val):
        b = BOUNDS.get(cls)
        if b and type(val) is tuple:
            S.addfact(st, val, b + (frozenset(),))

    def on_null(self, S, st, ins):
        return True     # an allocation failure that is not checked: not the subject here

    def fdof(self, v):
        v = self.norm(v)
        return v[:4] + (0,) if type(v) is tuple and v[0] == 'ld' else v

    def fileid(self, S, st, fd):
        v = get(st.auto.fd, fd)
        if v is None and type(fd) is tuple and fd[0] == 'ld' and fd[3] in self.FILEID:
            s, f = self.FILEID[fd[3]]
            return self.norm(S.load(st, sim.addr(fd[1], fd[2] - self.p.field(s, fd[3].split('.')[1])['off'] + self.p.field(s, f)['off']), '%s.%s' % (s, f)))
        return v

    # ------------------------------------------------------------ events
    def on_call(self, S, st, ins, name, args):
        self.S = S
        a = st.auto
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            name = 'memcpy'
        if name in ('memcpy', 'memmove'):
            dst, src, n = args[:3]
            if type(dst) is tuple and not (type(n) is int and n > 16 and sim.base_of(sim.split(dst)[0])[0] == 'al'):
                st.auto = a._replace(reg=put(a.reg, dst, (src, self.norm(n))))
            return None
        if name in self.aside:
            return [(st, lib.fresh(S, st, ins, name) if ins.ty else None)]
        if name in ('malloc', 'calloc'):
            t = lib.fresh(S, st, ins, name)
            s2 = st.copy()
            s2.auto = a._replace(failed=1)
            s2.note('%s: %s fails' % (ins.loc, name))
            base = t
            st.auto = a._replace(reg=tuple(x for x in a.reg if sim.base_of(sim.split(x[0])[0]) != base), got=tuple(x for x in a.got if x[0] != t))
            S.addfact(st, t, (1, sim.POS, frozenset([0])))
            if name == 'calloc':
                st.zero = st.zero | {t}
            return [(st, t), (s2, 0)]
        if name == self.crc:
            t = lib.fresh(S, st, ins, name)
            st.auto = a._replace(crc=put(a.crc, t, (args[0], self.norm(args[1]))))
            return [(st, t)]
        if name == self.lookup:
            return self.look(S, st, ins, args)
        if name in self.rep:
            self.reply(S, st, ins, args)
            return [(st, 0)]
        if name in ('sprintf', 'snprintf'):
            k = 1 if name == 'sprintf' else 2
            f = strval(S, args[k])
            S.killroot(st, args[0], ('c', ins.fn.name, ins.id))
            t = lib.fresh(S, st, ins, name)
            S.addfact(st, t, (0, 1 << 20, frozenset()))
            if f is not None:
                if f.endswith(('/d%u', '/d%d')) and len(args) > k + 2:
                    a = a._replace(path=put(a.path, args[0], self.norm(args[k + 2])))
                a = a._replace(text=put(a.text, args[0], (f, tuple(args[k + 1:]), t)))
            st.auto = a
            return [(st, t)]
        if name == 'strlen':
            x = get(a.text, args[0])
            if x is not None:
                return [(st, x[2])]
            s = strval(S, args[0])
            return None if s is None else [(st, len(s))]
        if name == 'open':
            t = lib.fresh(S, st, ins, name)
            s1 = st.copy()
            s1.auto = a._replace(failed=1)
            s1.note('%s: open fails' % ins.loc)
            out = [(s1, -1)]
            if S.addfact(st, t, (0, sim.POS, frozenset())):
                st.auto = a._replace(fd=put(a.fd, t, get(a.path, args[0])), pos=put(a.pos, t, (0, ())))
                out.append((st, t))
            return out
        if name in ('lseek', 'lseek64'):
            return self.seek(S, st, ins, args)
        if name in ('read', 'pread', 'pread64'):
            return self.take(S, st, ins, name, args)
        return None

    def seek(self, S, st, ins, args):
        a = st.auto
        fd, w = self.fdof(args[0]), args[2]
        l = None
        if w == 0:
            l = self.lin(S, st, args[1])
        elif w == 1:
            l = lib.ladd((1, thaw(get(a.pos, fd))), (1, self.lin(S, st, args[1])))
        st.auto = a._replace(pos=put(a.pos, fd, freeze(l)))
        t = lib.fresh(S, st, ins, 'lseek')
        S.addfact(st, t, (0, sim.POS, frozenset()))
        return [(st, args[1] if w == 0 else t)]

    def take(self, S, st, ins, name, args):
        a = st.auto
        if type(args[0]) is int and args[0] < 0:
            st.auto = a._replace(failed=1)
            return [(st, -1)]
        fd, buf, n = self.fdof(args[0]), args[1], args[2]
        site = ('c', ins.fn.name, ins.id)
        pos = get(a.pos, fd) if name == 'read' else freeze(self.lin(S, st, args[3]))
        s2 = st.copy()
        S.killroot(st, buf, site)
        S.killroot(s2, buf, site)
        self.checked.add((ins.fn.name, ins.id))
        kind = fdkind(self.p, ins)
        if kind != 'D':
            self.hit(st, ins, 'read:file', 'the bytes are not read from a data file')
        f = self.fileid(S, st, fd)
        got = (f, pos, self.norm(n))
        base = sim.base_of(sim.split(buf)[0]) if type(buf) is tuple else None
        keep = lambda m: tuple(x for x in m if sim.base_of(sim.split(x[0])[0]) != base)
        head = a.head
        if n == self.hid:
            head = put(head, buf, (f, pos) + tuple(v for _, v in self.fields(S, st, buf, H, ('idlength', 'datalength', 'integrity'))))
        adv = freeze(lib.ladd((1, thaw(pos)), (1, self.lin(S, st, n)))) if pos is not None and name == 'read' else None
        st.auto = a._replace(got=put(keep(a.got), buf, got), head=head, reg=keep(a.reg), pos=put(a.pos, fd, adv))
        out = [(st, n)]
        s2.auto = a._replace(failed=1, got=keep(a.got), reg=keep(a.reg), pos=put(a.pos, fd, None), head=tuple(x for x in a.head if x[0] != buf))
        s2.note('%s: the read fails or is short' % ins.loc)
        t = lib.fresh(S, s2, ins, name, '~short')
        if S.assume(s2, 'eq', n, 0, False) and S.addfact(s2, t, (-1, sim.POS, frozenset())) and S.assume(s2, 'slt', t, n, True):
            out.append((s2, t))
        return out

    def look(self, S, st, ins, args):
        a = st.auto
        self.checked.add(('look', ins.fn.name, ins.id))
        self.asked(S, st, ins, args)
        st.auto = a = a._replace(entry=0, asked=None)
        s2 = st.copy()
        t = lib.fresh(S, s2, ins, self.lookup)
        out = [(st, 0)]
        if S.addfact(s2, t, (1, sim.POS, frozenset([0]))):
            s2.auto = a._replace(entry=(t,) + tuple(v for _, v in self.fields(S, s2, t, EN, EF)))
            s2.note('%s: the key exists' % ins.loc)
            out.append((s2, t))
        return out

    def asked(self, S, st, ins, args):
        """the key looked up is the one of the request"""
        ix = S.load(st, sim.addr(self.ns(S, st), self.p.field('namespace_t', 'index')['off']), 'namespace_t.index')
        if self.flat(args[0]) != self.flat(ix):
            self.hit(st, ins, 'key:namespace', 'the key is not looked up in the index of the namespace selected')
        k, n = args[1], norm(args[2])
        if self.cmd != 'MGET' and type(args[2]) is tuple and args[2][0] == 'trunc' and not 0 <= S.rng(st, n)[0] <= S.rng(st, n)[1] < 1 << args[2][1]:
            self.hit(st, ins, 'key:cut', 'the length of the key looked up is cut')
        if self.cmd == 'MGET':
            ok = all(type(x) is tuple and x[0] == 'ld' for x in (k, n)) and k[3] == 'resp_object_t.buffer' and n[3] == 'resp_object_t.length' and self.flat(k[1]) == self.flat(n[1])
            o = k[1] if ok else None
            q = S.load(st, sim.addr(self.start[1], self.p.field('redis_client_t', 'request')['off']), 'redis_client_t.request')
            v = S.load(st, sim.addr(q, self.p.field('resp_request_t', 'argv')['off']), 'resp_request_t.argv')
            l = None
            if ok and o[0] == 'ld':
                l = lib.ladd((1, self.lin(S, st, sim.addr(o[1], o[2]))), (-1, self.lin(S, st, v)))
                lo = lib.lrange(S, st, l)[0] if l is not None else None
                x = self.loop(l, 8)
                if x is not None and st.auto.idx is not None and st.auto.idx[0] == x[0] and x[1] + st.auto.idx[1]:
                    self.hit(st, ins, 'key:last', 'the loop over the keys does not end at the last argument')
                if x is not None and self.step(x[0]) not in (None, 1):
                    self.hit(st, ins, 'key:step', 'the loop over the keys leaves keys out')
                if l is None or self.flat(v) not in (self.flat(o[1]), self.flat(sim.base_of(o[1]))) and len(l[1]) > 1 or lo != 8:
                    ok = False
            if not ok:
                self.hit(st, ins, 'key:argument', 'the key looked up is not an argument of the request, or the first one is left out')
        else:
            b, l = self.request(S, st, 1)
            if self.flat(k) != self.flat(b) or self.flat(n) != self.flat(norm(l)):
                self.hit(st, ins, 'key:argument', 'the key looked up is not the one of the request')

    @staticmethod
    def loop(l, size):
        """(phi, constant) of an index into an array"""
        if l is None:
            return None
        d = [(x, k) for x, k in l[1].items() if type(x) is tuple and x[0] == 'phi']
        if len(d) != 1 or d[0][1] != size or l[0] % size:
            return None
        return d[0][0], l[0] // size

    def step(self, phi):
        f = self.p.defined.get(phi[1])
        i = f.byid.get(phi[2]) if f else None
        if i is None or i.op != 'phi':
            return None
        for o, _ in i.ops:
            d = f.byid.get(o[1]) if o[0] == 'i' else None
            if d is not None and d.op == 'add' and d.ops[0] == ['i', phi[2]] and d.ops[1][0] == 'c':
                return d.ops[1][1]
        return None

    def on_branch(self, S, st, ins, cond, truth):
        if self.cmd != 'MGET' or ins.fn.name != self.fn or type(cond) is not tuple or cond[0] != 'cmp':
            return
        q = S.load(st, sim.addr(self.start[1], self.p.field('redis_client_t', 'request')['off']), 'redis_client_t.request')
        c = norm(S.load(st, sim.addr(q, self.p.field('resp_request_t', 'argc')['off']), 'resp_request_t.argc'))
        pred = cond[1] if truth else sim.NEGP[cond[1]]
        d = lib.ladd((1, self.lin(S, st, cond[2])), (-1, self.lin(S, st, cond[3])))
        for x, k in (d[1].items() if d else ()):
            if (norm(x) == c or type(x) is tuple and x[0] == 'phi' and self.counted(x)) and pred.lstrip('su') in (('le', 'lt', 'eq') if k > 0 else ('ge', 'gt', 'eq')):
                st.auto = st.auto._replace(count=2)     # the loop over the keys ends at its bound
        for a, b, pr in ((cond[2], cond[3], pred), (cond[3], cond[2], sim.SWAP[pred])):
            x, n = self.loop(self.lin(S, st, a), 1), lib.ladd((1, self.lin(S, st, b)), (-1, self.lin(S, st, c)))
            if x is not None and n is not None and not n[1] and pr[1:] in ('lt', 'le', 'e'):
                # the last index for which the loop is entered is argc - 1 + idx[1] + the offset of the index used
                st.auto = st.auto._replace(idx=(x[0], n[0] - x[1] + (1 if pr.endswith('le') else 0)))

    def counted(self, phi):
        """a loop variable that starts at the number of arguments and goes down"""
        f = self.p.defined.get(phi[1])
        i = f.byid.get(phi[2]) if f else None
        if i is None or i.op != 'phi':
            return False
        todo, seen = [o for o, _ in i.ops], set()
        while todo:
            o = todo.pop()
            d = f.byid.get(o[1]) if o[0] == 'i' else None
            if d is None or d.id in seen:
                continue
            seen.add(d.id)
            if d.op == 'load' and self.p.cls_of_ptr(f, d.ops[0]) == 'resp_request_t.argc':
                return True
            if d.op in ('add', 'sub', 'zext', 'sext', 'trunc'):
                todo.append(d.ops[0])
        return False

    def ns(self, S, st):
        k, v = self.start
        return v if k != 'client' else S.load(st, sim.addr(v, self.p.field('redis_client_t', 'ns')['off']), 'redis_client_t.ns')

    def on_store(self, S, st, ins, key, cls, val):
        a = st.auto
        if a.reg and any(sim.split(k) == key for k, _ in a.reg):
            st.auto = a = a._replace(reg=tuple(x for x in a.reg if sim.split(x[0]) != key))
        if cls in (None, '*raw') and type(val) is int and 0 < val < 128:
            st.auto = a._replace(reg=put(a.reg, sim.addr(key[0], key[1]), (('chr', chr(val)), 1)))

    # ------------------------------------------------------------ replies as a stream of tokens
    def expand(self, S, st, addr, n, depth=3):
        a = st.auto
        if type(addr) is tuple and addr[0] == 'chr':
            return [('s', addr[1])]
        b, o = sim.split(addr) if type(addr) is tuple else (addr, 0)
        s = strval(S, addr if o == 0 else b)
        if s is not None and type(n) is int:
            s = s[o:]
            return [('s', s[:n])] if n <= len(s) else [('s', s), ('?',)]
        x = get(a.text, addr)
        if x is not None:
            if self.norm(n) == x[2] or self.lin(S, st, n) == self.lin(S, st, x[2]):
                return self.format(S, st, x)
            return [('?',)]
        if depth == 0:
            return [('?',)]
        if get(a.got, addr) is None:
            base = sim.base_of(b)
            origin = self.lin(S, st, addr)
            parts = []
            for k, v in a.reg:
                if type(k) is tuple and sim.base_of(sim.split(k)[0]) == base:
                    d = lib.ladd((1, self.lin(S, st, k)), (-1, origin))
                    if d is not None:
                        parts.append((d, v))
            end = self.lin(S, st, self.norm(n))
            if parts and end is not None:
                at, out = (0, {}), []
                for _ in range(len(parts) + 1):
                    if at == end:
                        return out
                    nx = [v for d, v in parts if d == at]
                    if not nx:
                        break
                    out += self.expand(S, st, nx[0][0], nx[0][1], depth - 1)
                    at = lib.ladd((1, at), (1, self.lin(S, st, nx[0][1])))
                    if at is None:
                        break
                return [('?',)]
        return [('b', addr, self.norm(n))]

    def format(self, S, st, x):
        f, args, _ = x
        out, i, p = [], 0, 0
        for m in FMT.finditer(f):
            if m.start() > p:
                out.append(('s', f[p:m.start()]))
            p = m.end()
            c = m.group(5)
            if c == '%':
                out.append(('s', '%'))
                continue
            v = args[i] if i < len(args) else None
            i += 1
            if c == 's':
                s = strval(S, v)
                out.append(('s', s) if s is not None else ('?',))
            elif c in 'diu' and not (m.group(1) or m.group(2) or m.group(3)):
                w = BITS[m.group(4)]
                lo, hi, _ = S.rng(st, v)
                top = (1 << (w - 1)) - 1 if c in 'di' else (1 << w) - 1
                x = self.norm(v)
                ok = type(v) is int or hi <= top or w == 64 or self.width(x) <= w - (c in 'di')
                out.append(('i' if ok else 'cut', x))
            elif c == 'c' and type(v) is int:
                out.append(('s', chr(v)))
            else:
                out.append(('?',))
        if p < len(f):
            out.append(('s', f[p:]))
        return out

    def reply(self, S, st, ins, args):
        toks = list(st.auto.out) + self.expand(S, st, args[1], args[2])
        m = []
        for t in toks:
            if t[0] == 's' and m and m[-1][0] == 's':
                m[-1] = ('s', m[-1][1] + t[1])
            elif t != ('s', ''):
                m.append(t)
        st.auto = st.auto._replace(out=tuple(m))
        kind = self.complete(m)
        if kind is None:
            return
        self.checked.add(('answer', ins.fn.name, ins.id))
        self.answer(S, st, ins, kind, m)
        st.auto = st.auto._replace(out=())

    @staticmethod
    def complete(m):
        """the kind of a complete reply, None while more bytes are awaited"""
        if any(t[0] == '?' for t in m):
            return 'unknown'
        s = m[0][1] if m[0][0] == 's' else ''
        if len(m) == 1 and s.endswith('\r\n') and s.count('\r\n') == 1:
            return {'-': 'error', '$': 'nil' if s == '$-1\r\n' else 'empty', ':': 'int', '*': 'array', '+': 'status'}.get(s[0], 'unknown')
        if len(m) == 1 and s == '$0\r\n\r\n':
            return 'empty'
        if s in (':', '*') and len(m) == 3 and m[1][0] in 'ic' and m[2] == ('s', '\r\n'):
            return 'int' if s == ':' else 'array'
        if s == '$' and len(m) >= 3:
            if m[1][0] != 'i' or not (m[2][0] == 's' and m[2][1].startswith('\r\n')):
                return 'unknown'
            if len(m) == 5 and m[2][1] == '\r\n' and m[3][0] == 'b' and m[4] == ('s', '\r\n'):
                return 'bulk'
            if len(m) == 3 and m[2][1] == '\r\n\r\n':
                return 'bulk'
            if len(m) >= 5:
                return 'unknown'
            return None
        if s in ('$', ':', '*') and len(m) < 3:
            return None
        return 'unknown'

    def found(self, a):
        return dict(zip(('at',) + EF, a.entry)) if type(a.entry) is tuple else None

    def answer(self, S, st, ins, kind, m):
        a = st.auto
        e = self.found(a)
        if kind == 'unknown':
            self.hit(st, ins, 'answer:form', 'the reply is not a well-formed protocol item made of known parts')
            return
        if kind == 'array':
            q = S.load(st, sim.addr(self.start[1], self.p.field('redis_client_t', 'request')['off']), 'redis_client_t.request')
            c = S.load(st, sim.addr(q, self.p.field('resp_request_t', 'argc')['off']), 'resp_request_t.argc')
            d = lib.ladd((1, self.lin(S, st, m[1][1])), (-1, self.lin(S, st, self.norm(c)))) if len(m) == 3 else None
            if self.cmd != 'MGET' or a.entry is not None or d is None or d != (-1, {}):
                self.hit(st, ins, 'answer:count', 'the number of replies announced is not the number of keys')
            st.auto = a._replace(count=1)
            return
        if a.entry is None:
            if kind != 'error':
                self.hit(st, ins, 'answer:early', 'an answer is given without a lookup of the key')
            return
        if a.asked is not None:
            self.hit(st, ins, 'answer:twice', 'a key is answered twice')
            return
        st.auto = a._replace(asked=1)
        if kind == 'error':
            if not a.failed:
                self.hit(st, ins, 'answer:error', 'an error is replied although nothing failed')
            return
        if e is None:
            want = 'int' if self.cmd == 'EXISTS' else 'nil'
            if kind != want or kind == 'int' and self.number(m) != 0:
                self.hit(st, ins, 'answer:absent', 'an absent key is not answered as absent')
            return
        if kind == 'nil':
            if not a.failed:
                self.hit(st, ins, 'answer:nil', 'a key that exists is answered as absent')
            return
        self.value(S, st, ins, kind, m, e)

    @staticmethod
    def number(m):
        if len(m) == 1:
            s = m[0][1][1:-2]
            return int(s) if re.fullmatch('-?[0-9]+', s) else None
        return m[1][1] if m[1][0] == 'i' else None

    def value(self, S, st, ins, kind, m, e):
        a = st.auto
        c = self.cmd
        if c in ('GET', 'MGET'):
            if kind not in ('bulk', 'empty'):
                self.hit(st, ins, 'answer:kind', 'the reply is not a payload')
            elif kind == 'empty' or len(m) == 3:
                n = 0 if kind == 'empty' else m[1][1]
                if not self.same(S, st, n, 0):
                    self.hit(st, ins, 'answer:length', 'the length announced differs from the bytes sent')
                self.payload(S, st, ins, None, 0, e)
            else:
                if not self.same(S, st, m[1][1], m[3][2]):
                    self.hit(st, ins, 'answer:length', 'the length announced differs from the bytes sent')
                self.payload(S, st, ins, m[3][1], m[3][2], e)
            return
        if kind != 'int':
            self.hit(st, ins, 'answer:kind', 'the reply is not a number')
            return
        v = self.number(m)
        if v is None:
            self.hit(st, ins, 'answer:number', 'the number is formatted with less bits than it has')
        elif c == 'EXISTS':
            if v != 1:
                self.hit(st, ins, 'answer:exists', 'a key that exists is not answered as such')
        elif c == 'LENGTH':
            if not self.same(S, st, v, e['length']):
                self.hit(st, ins, 'answer:length', 'the length answered is not the one of the record')
        elif c == 'KEYTIME':
            if not self.same(S, st, v, e['timestamp']):
                self.hit(st, ins, 'answer:timestamp', 'the timestamp answered is not the one of the record')
        elif c == 'CHECK':
            if type(v) is int and v not in (0, 1):
                self.hit(st, ins, 'answer:check', 'the answer is neither 1 nor 0: %d' % v)
                return
            self.checksum(S, st, ins, v, e)

    def payload(self, S, st, ins, buf, n, e):
        """the bytes are the payload of the record found"""
        a = st.auto
        n = self.norm(n)
        if self.same(S, st, n, 0):
            if not self.same(S, st, e['length'], 0):
                self.hit(st, ins, 'payload:empty', 'a record with a payload is answered with an empty one')
            return
        g = get(a.got, buf)
        if g is None:
            self.hit(st, ins, 'payload:source', 'the payload answered was not (completely) read from a file')
            return
        f, pos, m = g
        if not self.at(S, st, f, pos, e, True):
            self.hit(st, ins, 'payload:position', 'the payload answered is not read at the place of the record found (file and offset of the entry, behind header and key)')
        if not self.same(S, st, m, n):
            self.hit(st, ins, 'payload:length', 'the bytes answered are not the bytes read')
        elif not self.same(S, st, n, e['length']):
            if not (self.same(S, st, e['length'], 0) and any(self.at(S, st, h[1][0], h[1][1], e, False) and self.same(S, st, h[1][3], n) for h in a.head)):
                self.hit(st, ins, 'payload:length', 'the length of the payload answered is not the one of the record')

    def at(self, S, st, f, pos, e, behind, idlen=None):
        """file and position are the ones of the record (behind its header and key)"""
        if f is None or pos is None or not self.same(S, st, f, e['dataid']):
            return False
        d = lib.ladd((1, thaw(pos)), (-1, self.lin(S, st, e['offset'])))
        if behind and d is not None:
            d = lib.ladd((1, d), (-1, self.lin(S, st, e['idlength'] if idlen is None else idlen)))
            return d is not None and d[0] == self.hid and not d[1]
        return d == (0, {})

    def checksum(self, S, st, ins, v, e):
        """v is whether the checksum of the stored payload is the one of its header"""
        a = st.auto
        good = []
        for t, (buf, n) in a.crc:
            g = get(a.got, buf)
            for _, h in a.head:
                if g is not None and self.at(S, st, h[0], h[1], e, False) and self.same(S, st, h[3], n) and self.same(S, st, g[2], n) and (
                        self.at(S, st, g[0], g[1], e, True, h[2]) or self.at(S, st, g[0], g[1], e, True)):
                    good.append((t, h[4]))
        v = self.norm(v)
        yes = True
        for _ in range(6):
            # a truth value that is compared with a truth value
            if type(v) is not tuple or v[0] not in ('cmp', 'op'):
                break
            x, y = self.norm(v[2]), v[3]
            if v[0] == 'cmp' and v[1] in ('eq', 'ne') and y in (0, 1) and type(x) is tuple and (x[0] == 'cmp' or x[0] == 'op' and x[1] == 'xor' and x[3] == 1):
                yes = yes == ((v[1] == 'eq') == (y == 1))
            elif v[0] == 'op' and v[1] == 'xor' and y == 1:
                yes = not yes
            else:
                break
            v = x
        if type(v) is tuple and v[0] == 'cmp' and v[1] == ('eq' if yes else 'ne'):
            if any({self.norm(v[2]), self.norm(v[3])} == {self.norm(x), self.norm(y)} for x, y in good):
                return
        elif type(v) is int:
            if any(S.evalcmp(st, 'eq', x, y) is bool(v) for x, y in good):
                return
            if v == 0 and a.failed:
                return
        self.hit(st, ins, 'answer:check', 'the answer is not the comparison of the checksum of the stored payload with the one of its header')

    # ------------------------------------------------------------ the end
    def finish(self, exits):
        S = self.S
        for st, ret in exits:
            a = st.auto
            if self.start[0] == 'client':
                if a.out:
                    self.hit(st, None, 'end:partial', 'the reply is not complete when the command ends')
                elif a.entry is not None and a.asked is None:
                    self.hit(st, None, 'end:silent', 'a key looked up is not answered')
                elif self.cmd == 'MGET' and a.count == 1:
                    self.hit(st, None, 'end:left', 'the keys behind the one answered last are left out')
                continue
            p = self.p
            v = self.norm(S.load(st, sim.addr(ret, p.field('zdb_api_t', 'status')['off']), 'zdb_api_t.status'))
            e = self.found(a)
            self.checked.add(('answer', repr(v)))
            E = {n: p.enum('ZDB_API_' + n) for n in ('NOT_FOUND', 'DELETED', 'FALSE', 'TRUE', 'INTERNAL_ERROR', 'FAILURE', 'ENTRY', 'BUFFER')}

            class I:
                loc = p.defined[self.fn].loc
            if e is None:
                if v not in (E['NOT_FOUND'], E['DELETED'], E['FALSE'], E['FAILURE']):
                    self.hit(st, I, 'answer:absent', 'an absent key is not answered as absent')
                continue
            if v in (E['INTERNAL_ERROR'], E['FAILURE']):
                if not a.failed:
                    self.hit(st, I, 'answer:error', 'an error is answered although nothing failed')
                continue
            if self.cmd == 'EXISTS':
                if v != E['TRUE']:
                    self.hit(st, I, 'answer:exists', 'a key that exists is not answered as such')
            elif self.cmd == 'CHECK':
                if v == E['TRUE']:
                    self.checksum(S, st, I, 1, e)
                elif v == E['FALSE']:
                    if not a.failed:
                        self.checksum(S, st, I, 0, e)
                else:
                    self.hit(st, I, 'answer:check', 'the answer is neither true nor false')
            else:
                if v not in (E['ENTRY'], E['BUFFER']):
                    self.hit(st, I, 'answer:nil', 'a key that exists is answered as absent')
                    continue
                o = S.load(st, sim.addr(ret, p.field('zdb_api_t', 'payload')['off']), 'zdb_api_t.payload')
                if v == E['ENTRY']:
                    o = sim.addr(o, p.field('zdb_api_entry_t', 'payload')['off'])
                buf, n = (self.norm(S.load(st, sim.addr(o, p.field('zdb_api_buffer_t', f)['off']), 'zdb_api_buffer_t.' + f)) for f in ('payload', 'size'))
                r = get(a.reg, buf)
                if r is not None and self.same(S, st, r[1], n):
                    buf = r[0]
                self.payload(S, st, I, buf, n, e)

    def on_backedge(self, S, st, fn, h):
        if self.cmd == 'MGET' and st.auto.entry is not None and fn.name == self.fn:
            if st.auto.asked is None:
                self.hit(st, None, 'end:silent', 'a key looked up is not answered')
            st.auto = self.initial()._replace(count=st.auto.count)


@prop('P45', 'Property simulation of the commands that read a key (GET, MGET, EXISTS, CHECK, LENGTH, KEYTIME) and of their counterparts in the library: which bytes of which file '
      'reach which memory is kept symbolically, the replies are put together as a stream of tokens, and each answer is compared with the entry the lookup returned.',
      ['the lookup itself returns the entry of the key (index_get: P43)'])
def p45(ctx):
    p = ctx.prog()
    have = dict(lib.commands(p))
    n = 0
    for name, kind in (('GET', 'GET'), ('MGET', 'MGET'), ('EXISTS', 'EXISTS'), ('CHECK', 'CHECK'), ('LENGTH', 'LENGTH'), ('KEYTIME', 'KEYTIME'),
                       ('zdb_api_get', 'GET'), ('zdb_api_exists', 'EXISTS'), ('zdb_api_check', 'CHECK')):
        api = name.startswith('zdb_')
        fn = name if api else have.get(name)
        if fn is None or fn not in p.defined:
            raise lib.AnalysisBroken('%s not found' % name)
        start, args = ('client', ('arg', 'client')), [('arg', 'client')]
        if api:
            args = [('arg', x) for x in ('ns', 'key', 'ksize')]
            start = ('ns', args[0])

        def mk():
            r = Reader(p, {}, 'index_get', 'zdb_crc32', kind, start)
            r.fn = fn
            return r

        def bad(r, ex):
            r.finish(ex)
            return r.hits
        r, ex = ctx.refine(p, mk, fn, args=args, bad=bad, levels=(12, 40))
        ans = [x for x in r.checked if x[0] == 'answer']
        if not r.hits and (not ans or not any(x[0] == 'look' for x in r.checked)):
            ctx.broken('%s: no lookups or answers were seen' % name)
        n += len(r.checked)
        seen = set()
        for k, text, loc, path in r.hits:
            if k not in seen and len(seen) < 4:
                seen.add(k)
                ctx.bad('read:%s:%s' % (name, k), loc or p.defined[fn].loc, '%s: %s' % (name, text), path)
        if not r.hits:
            ctx.ok('read:%s' % name, '%s: %d lookups, reads and answers agree on %d paths' % (name, len(r.checked), len(ex)), p.defined[fn].loc)
    ctx.need(n, 24, 'lookups, reads and answers')
