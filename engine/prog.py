"""Program model over the JSON that irx writes: functions, CFG, call graph with
resolved function-pointer tables, field classes, transitive effects."""
import sys
from collections import defaultdict
from front import AnalysisBroken, extract

NOEFFECT = {'llvm.dbg.declare', 'llvm.dbg.value', 'llvm.lifetime.start.p0', 'llvm.lifetime.end.p0'}


class Ins:
    __slots__ = ('id', 'op', 'ty', 'sz', 'ops', 'j', 'line', 'file', 'fn', 'blk', 'callee')

    def __init__(self, j, fn, blk):
        self.id = j['id']
        self.op = j['op']
        self.ty = j.get('ty')
        self.sz = j.get('sz')
        self.ops = j.get('ops', [])
        self.j = j
        self.line = j.get('line', 0)
        self.file = j.get('file', '')
        self.fn = fn
        self.blk = blk
        self.callee = j.get('callee')

    @property
    def loc(self):
        return '%s:%d' % (self.fn.relfile(self.file), self.line)

    def target(self):
        """name of the directly called function, if any"""
        c = self.callee
        return c[1] if c and c[0] == 'g' else None


class Fn:
    def __init__(self, name, j, prog):
        self.name = name
        self.prog = prog
        self.j = j
        self.decl = j['decl']
        self.params = j['params']
        self.nparams = len(self.params)
        self.file = j.get('file', '')
        self.line = j.get('line', 0)
        self.blocks = []
        self.byid = {}
        if self.decl:
            return
        for bi, b in enumerate(j['blocks']):
            ins = [Ins(i, self, bi) for i in b]
            self.blocks.append(ins)
            for i in ins:
                self.byid[i.id] = i
        self.succ = []
        for b in self.blocks:
            t = b[-1]
            if t.op == 'br':
                s = list(dict.fromkeys(t.j['succ']))
            elif t.op == 'switch':
                s = list(dict.fromkeys([t.j['default']] + [c[1] for c in t.j['cases']]))
            else:
                s = []
            self.succ.append(s)
        n = len(self.blocks)
        self.pred = [[] for _ in range(n)]
        for a in range(n):
            for b in self.succ[a]:
                self.pred[b].append(a)
        self._rpo()
        self._loops()
        self._live()
        self.varname = {}
        for i in self.ins():
            if i.op == 'dbg' and i.ops and i.ops[0][0] in ('i', 'a'):
                self.varname.setdefault(tuple(i.ops[0][:2]), (i.j['var'], i.j.get('dity')))
        self.argnames = {}
        for i in self.ins():
            if i.op == 'dbg' and i.j.get('argno'):
                self.argnames.setdefault(i.j['argno'] - 1, (i.j['var'], i.j.get('dity')))

    def relfile(self, f=None):
        f = f or self.file
        d = self.j.get('dir', '')
        if f and not f.startswith('/') and d:
            f = d + '/' + f
        if f and f.startswith(self.prog.repo + '/'):
            f = f[len(self.prog.repo) + 1:]
        parts = []
        for p in (f or '').split('/'):
            if p == '..' and parts and parts[-1] != '..':
                parts.pop()
            elif p != '.':
                parts.append(p)
        return '/'.join(parts)

    @property
    def loc(self):
        return '%s:%d' % (self.relfile(), self.line)

    def ins(self):
        for b in self.blocks:
            for i in b:
                yield i

    def calls(self):
        for i in self.ins():
            if i.op in ('call', 'invoke') and i.target() not in NOEFFECT:
                yield i

    def _rpo(self):
        seen, order = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: k for k, b in enumerate(order)}
        self.order = order

    def _loops(self):
        """natural loops: header -> set of blocks"""
        # dominators (iterative)
        idom = {0: 0}
        changed = True

        def inter(a, b):
            while a != b:
                while self.rpo[a] > self.rpo[b]:
                    a = idom[a]
                while self.rpo[b] > self.rpo[a]:
                    b = idom[b]
            return a
        while changed:
            changed = False
            for b in self.order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    n = inter(n, p)
                if idom.get(b) != n:
                    idom[b] = n
                    changed = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.dominates = dom
        self.loops = {}
        for a in self.order:
            for h in self.succ[a]:
                if h in self.rpo and dom(h, a):
                    body = self.loops.setdefault(h, {h})
                    st = [a]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in self.pred[x] if p in self.rpo)

    def _live(self):
        n = len(self.blocks)
        use, de = [set() for _ in range(n)], [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]
        for bi, b in enumerate(self.blocks):
            for i in b:
                if i.op == 'dbg':
                    continue
                if i.op == 'phi':
                    for o, pb in i.ops:
                        if o[0] == 'i':
                            phiuse[pb].add(o[1])
                else:
                    for o in self.regs_of(i):
                        if o not in de[bi]:
                            use[bi].add(o)
                de[bi].add(i.id)
        lin = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in reversed(self.order):
                out = set(phiuse[b])
                for s in self.succ[b]:
                    out |= lin[s]
                    # phi definitions of s are not live out of b
                new = use[b] | (out - de[b])
                # phis of this block are defined at its start: they stay in lin so that the block sees them
                if new != lin[b]:
                    lin[b] = new
                    changed = True
        self.livein = lin
        self.use, self.defs = use, de
        # a phi's own register must be kept when control is inside its block
        self.liveout = []
        for b in range(n):
            out = set(phiuse[b])
            for s in self.succ[b]:
                out |= lin[s]
            self.liveout.append(out)

    @staticmethod
    def regs_of(i):
        out = []

        def walk(o):
            if not isinstance(o, list) or not o:
                return
            if o[0] == 'i':
                out.append(o[1])
            elif o[0] in ('gep', 'e', 'agg'):
                for x in o[1:]:
                    if isinstance(x, list):
                        walk(x)
                        if o[0] == 'gep':
                            for s in x:
                                if isinstance(s, list) and s and s[0] == 'x':
                                    walk(s[1])
        for o in i.ops:
            walk(o)
        if i.callee:
            walk(i.callee)
        for s in i.j.get('steps', []):
            if s[0] == 'x':
                walk(s[1])
        return out


class Program:
    def __init__(self, name='zdb', config='debug'):
        from front import REPO
        self.repo = REPO
        self.name = name
        self.config = config
        j = extract(name, config)
        self.units = j['#units']
        self.structs = j['structs']
        self.irstructs = j['irstructs']
        self.enums = self.structs.get('#enums', {})
        self.globals = j['globals']
        self.fns = {n: Fn(n, f, self) for n, f in j['functions'].items()}
        self.defined = {n: f for n, f in self.fns.items() if not f.decl}
        self._global_types()
        self._stored_globals()
        self._callgraph()
        self._effects()

        self._logfns()

    LOGEXT = {'printf', 'fprintf', 'putchar', 'puts', 'fputs', 'time', 'localtime', 'strftime', 'vprintf', 'vfprintf', 'fflush',
              'gettimeofday', 'fputc', 'strerror', 'difftime', 'strlen', '__errno_location', 'putc', 'isprint', '__ctype_b_loc',
              'localtime_r'}

    def _logfns(self):
        """void functions whose only effect is to print: they neither store to program state nor call anything else"""
        self.logfns = set()
        for n, f in self.defined.items():
            allc = self.reach[n] | self.callees[n]
            ext = {c for c in allc if c not in self.defined and not c.startswith('llvm.')}
            if f.j['ret'] == 'void' and not self.mod[n] and ext <= self.LOGEXT and ext & {'printf', 'fprintf', 'puts', 'putchar'}:
                self.logfns.add(n)

    # ---- helpers -----------------------------------------------------
    def fn(self, name):
        f = self.defined.get(name)
        if f is None:
            raise AnalysisBroken('anchor function %s is not defined in program %s' % (name, self.name))
        return f

    def enum(self, name):
        if name not in self.enums:
            raise AnalysisBroken('enumerator %s not found' % name)
        return self.enums[name]

    def field(self, struct, name):
        s = self.structs.get(struct)
        if s:
            for f in s['fields']:
                if f['name'] == name:
                    return f
        raise AnalysisBroken('field %s.%s not found' % (struct, name))

    def strconst(self, gname):
        g = self.globals.get(gname)
        if g and g.get('init') and g['init'][0] == 's':
            return g['init'][1].rstrip('\0')
        if g and g.get('init') and g['init'][0] == 'z':
            return ''
        return None

    def _global_types(self):
        """struct types of equal layout share an IR type: the fields of a global are named after its declared type"""
        self.gfirst = {}
        di = {}
        for n, g in self.globals.items():
            d = self.structs.get(g.get('ditype') or '')
            if d and not d.get('union') and d['size'] == g['size']:
                di[n] = {f['off']: f['name'] for f in d['fields']}
                f0 = next((f for f in d['fields'] if f['off'] == 0), None)
                if f0 and f0['size'] <= 8 and f0['stype'] not in self.structs:
                    self.gfirst[n] = g['ditype'] + '.' + f0['name']

        def walk(o):
            if not isinstance(o, list):
                return
            if len(o) >= 3 and o[0] == 'gep' and isinstance(o[1], list) and o[1][:1] == ['g'] and o[1][1] in di:
                fix(o[1][1], o[2])
            for x in o:
                walk(x)

        def fix(g, steps):
            for s in steps:
                if s[0] == 'f':
                    name = di[g].get(s[3])
                    if name and s[1] and s[1] != self.globals[g]['ditype']:
                        s[1], s[2] = self.globals[g]['ditype'], name
                    return
        for f in self.defined.values():
            for i in f.ins():
                walk(i.ops)
                if i.op == 'getelementptr' and i.ops and i.ops[0][:1] == ['g'] and i.ops[0][1] in di:
                    fix(i.ops[0][1], i.j['steps'])

    def _stored_globals(self):
        """globals that some instruction stores to directly (others keep their initialiser)"""
        self.stored = set()

        def root(o, fn):
            while True:
                if o[0] == 'g':
                    return o[1]
                if o[0] == 'gep':
                    o = o[1]
                    continue
                if o[0] == 'i':
                    i = fn.byid.get(o[1])
                    if i is not None and i.op == 'getelementptr':
                        o = i.ops[0]
                        continue
                return None
        for f in self.fns.values():
            if f.decl:
                continue
            for i in f.ins():
                if i.op == 'store':
                    g = root(i.ops[1], f)
                    if g:
                        self.stored.add(g)
                elif i.op == 'call' and i.target() and (i.target().startswith('llvm.mem') or i.target() in ('memset', 'memcpy')):
                    g = root(i.ops[0], f)
                    if g:
                        self.stored.add(g)

    def table_functions(self, gname):
        """functions listed in a global's initialiser, in order"""
        out = []

        def walk(o):
            if not isinstance(o, list) or not o:
                return
            if o[0] == 'g' and o[1] in self.fns:
                out.append(o[1])
            elif o[0] == 'agg':
                for x in o[1:]:
                    walk(x)
        g = self.globals.get(gname)
        if g and g.get('init'):
            walk(g['init'])
        return out

    def _callgraph(self):
        # address-taken functions
        self.taken = set()
        tabs = {}
        for g in self.globals:
            fs = self.table_functions(g)
            if fs:
                tabs[g] = fs
                self.taken |= set(fs)
        self.tables = tabs
        for f in self.defined.values():
            for i in f.ins():
                if i.op == 'dbg':
                    continue
                for o in (i.ops if i.op != 'phi' else [x[0] for x in i.ops]):
                    if o and o[0] == 'g' and o[1] in self.fns and not (i.op == 'call' and o is i.callee):
                        self.taken.add(o[1])
        self.callees = {}
        self.callers = defaultdict(set)
        self.sites = defaultdict(list)
        for f in self.defined.values():
            cs = set()
            for i in f.calls():
                for t in self.targets(i):
                    cs.add(t)
                    self.callers[t].add(f.name)
                    self.sites[t].append(i)
            self.callees[f.name] = cs
        # transitive
        self.reach = {}
        for n in self.defined:
            seen, st = set(), [n]
            while st:
                x = st.pop()
                for c in self.callees.get(x, ()):
                    if c not in seen:
                        seen.add(c)
                        st.append(c)
            self.reach[n] = seen

    def targets(self, i):
        """possible callees of a call instruction"""
        t = i.target()
        if t:
            return [t]
        c = i.callee
        if not c:
            return []
        tab = self.callee_table(i)
        if tab:
            return sorted(set(self.tables[tab]))
        vals = set()
        if self.fpvals(i.fn, c, vals, set()):
            return sorted(vals)
        n = len(i.ops)
        return sorted(x for x in self.taken if self.fns[x].nparams == n or (self.fns[x].j.get('vararg') and self.fns[x].nparams <= n))

    def fpvals(self, fn, o, out, seen):
        """function values that may flow into operand o of fn; False when unknown"""
        key = (fn.name, repr(o))
        if key in seen:
            return True
        seen.add(key)
        if o[0] == 'g':
            if o[1] in self.fns:
                out.add(o[1])
                return True
            return False
        if o[0] in ('n', 'c'):
            return True
        if o[0] == 'a':
            ok = fn.name not in self.taken
            n = 0
            for g in self.defined.values():
                for i in g.ins():
                    if i.op == 'call' and i.target() == fn.name and len(i.ops) > o[1]:
                        n += 1
                        ok = self.fpvals(g, i.ops[o[1]], out, seen) and ok
            return ok and n > 0
        if o[0] == 'i':
            d = fn.byid[o[1]]
            if d.op == 'phi':
                return all([self.fpvals(fn, x[0], out, seen) for x in d.ops])
            if d.op == 'select':
                return all([self.fpvals(fn, x, out, seen) for x in d.ops[1:]])
            if d.op == 'load':
                cls = self.cls_of_ptr(fn, d.ops[0])
                if not cls:
                    return False
                ok, n = True, 0
                for g in self.defined.values():
                    for i in g.ins():
                        if i.op == 'store' and self.cls_of_ptr(g, i.ops[1]) == cls:
                            n += 1
                            ok = self.fpvals(g, i.ops[0], out, seen) and ok
                return ok and n > 0
        return False

    def callee_table(self, i):
        """global table a function pointer call loads from"""
        f = i.fn
        o = i.callee
        hops = 0
        while hops < 12:
            hops += 1
            if o[0] == 'g':
                return o[1] if o[1] in self.tables else None
            if o[0] == 'gep':
                o = o[1]
                continue
            if o[0] != 'i':
                return None
            d = f.byid[o[1]]
            if d.op in ('load', 'getelementptr', 'bitcast'):
                o = d.ops[0]
                continue
            return None
        return None

    def cls_of_ptr(self, fn, o):
        """(struct, field) of the address operand, syntactically, or None"""
        if o[0] == 'g':
            return self.gfirst.get(o[1])
        if o[0] == 'gep':
            for s in reversed(o[2]):
                if s[0] == 'f':
                    return s[1] + '.' + s[2] if s[1] else None
            return self.cls_of_ptr(fn, o[1])
        if o[0] == 'i':
            d = fn.byid.get(o[1])
            if d is not None and d.op == 'getelementptr':
                last = d.j['steps'][-1] if d.j['steps'] else None
                for s in reversed(d.j['steps']):
                    if s[0] == 'f':
                        return s[1] + '.' + s[2] if s[1] else None
                if last is not None:
                    return None
        return None

    def _effects(self):
        """transitive set of stored field classes per function ('*raw' for other stores)"""
        direct = {}
        for f in self.defined.values():
            s = set()
            for i in f.ins():
                if i.op == 'store':
                    c = self.cls_of_ptr(f, i.ops[1])
                    if c:
                        s.add(c)
                    elif i.ops[1][0] == 'g':
                        s.add('@' + i.ops[1][1])
                    else:
                        o = i.ops[1]
                        d = f.byid.get(o[1]) if o[0] == 'i' else None
                        if d is None or d.op != 'alloca':
                            s.add('*raw')
            direct[f.name] = s
        self.direct_mod = direct
        self.mod = {}
        for n in self.defined:
            m = set(direct[n])
            for c in self.reach[n]:
                m |= direct.get(c, set())
            self.mod[n] = m
        self.size = {}
        for n, f in self.defined.items():
            self.size[n] = sum(1 for i in f.ins() if i.op != 'dbg')
        self.recursive = {n for n in self.defined if n in self.reach[n]}


_cache = {}


def load(name='zdb', config='debug'):
    k = (name, config)
    if k not in _cache:
        _cache[k] = Program(name, config)
    return _cache[k]


if __name__ == '__main__':
    p = load(*(sys.argv[1:] or ['zdb']))
    print(len(p.defined), 'defined; recursive:', sorted(p.recursive))
    print('tables', {k: v for k, v in p.tables.items()})
    for f in p.defined.values():
        for i in f.calls():
            if not i.target():
                print('indirect', i.loc, p.callee_table(i), p.targets(i)[:12])
    ext = sorted({t for f in p.defined.values() for t in p.callees[f.name] if t not in p.defined})
    print('external', ext)
