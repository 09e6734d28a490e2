"""The lists of the in-memory index: what adding, deleting and dropping a namespace make of every list up to a size."""
from itertools import product
import lib
import sim
from lib import replies
from registry import prop

BR, EN, RT = 'index_branch_t', 'index_entry_t', 'index_root_t'
LISTS = ('index_branch_t.list', 'index_branch_t.last', 'index_branch_t.length', 'index_entry_t.next')


def obj(n):
    return ('al', '#heap', n)


class Shape(sim.Rule):
    """a heap of a few entries; every loop is followed to its end"""

    def __init__(self, p):
        self.p = p
        self.classes = LISTS
        self.hash = [n for n, f in p.defined.items() if n == 'index_key_hash']
        self.look = tuple(n for n in p.defined if n in ('index_get', 'index_entry_get', 'index_mem_entry_get'))
        self.opaque = tuple(self.hash)
        self.events = tuple(self.hash) + ('free', 'malloc', 'calloc')
        self.follow_all = True
        self.walks = set(lib.loaders(p, LISTS)) | {n for n, f in p.defined.items() if (f.j.get('diret') or '').startswith((BR, EN)) or any(c in LISTS for c in p.mod[n])}
        self.hits = []
        self.loads = 0

    def initial(self):
        return ()

    def unroll(self, fn, h):
        return True

    def hit(self, st, ins, key, text):
        self.hits.append((key, text, ins.loc, st.path()))

    def on_load(self, S, st, ins, key, cls, val):
        self.loads += 1
        if self.loads > 4000:
            raise lib.AnalysisBroken('%s: a list operation that could not be followed to its end' % ins.fn.name)
        b = sim.base_of(key[0])
        if b in st.auto:
            self.hit(st, ins, 'freed', 'memory of an entry is read after it was freed (%s)' % cls)

    def on_store(self, S, st, ins, key, cls, val):
        b = sim.base_of(key[0])
        if b in st.auto:
            self.hit(st, ins, 'freed', 'memory of an entry is written after it was freed (%s)' % cls)

    def on_call(self, S, st, ins, name, args):
        if name in self.hash:
            return [(st, 0)]
        if name == 'free':
            v = args[0]
            if v in st.auto:
                self.hit(st, ins, 'twice', 'an entry is freed twice')
            st.auto = st.auto + (v,)
            return [(st, None)]
        if name in ('malloc', 'calloc'):
            return [(st, obj('new'))]
        if name in self.p.defined and name not in self.walks and self.p.size.get(name, 0) > 15:
            return [(st, lib.fresh(S, st, ins, name) if ins.ty else None)]
        return None

    # ------------------------------------------------------------ heap
    def put(self, S, st, o, struct, field, v):
        st.cells[(o, self.p.field(struct, field)['off'])] = (v, '%s.%s' % (struct, field))

    def get(self, st, o, struct, field):
        c = st.cells.get((o, self.p.field(struct, field)['off']))
        return c[0] if c else None

    def chain(self, S, st, br, items):
        for i, o in enumerate(items):
            self.put(S, st, o, EN, 'next', items[i + 1] if i + 1 < len(items) else 0)
        self.put(S, st, br, BR, 'list', items[0] if items else 0)
        self.put(S, st, br, BR, 'last', items[-1] if items else 0)
        self.put(S, st, br, BR, 'length', len(items))

    def walk(self, st, br, most):
        out, e = [], self.get(st, br, BR, 'list')
        while e != 0 and len(out) <= most:
            out.append(e)
            e = self.get(st, e, EN, 'next') if type(e) is tuple and e[0] == 'al' else None
            if e is None:
                out.append('?')
                break
        return out

    def judge(self, st, fn, br, want, freed, what):
        class I:
            loc = self.p.defined[fn].loc
        got = self.walk(st, br, 8)
        name = lambda l: ' '.join(str(x[2]) if type(x) is tuple and len(x) > 2 else '?' for x in l) or 'nothing'
        if got != want:
            lost = [x for x in want if x not in got]
            extra = [x for x in got if x not in want]
            self.hit(st, I, 'list', '%s: the list holds %s instead of %s' % (what, name(got), name(want)))
            return
        if self.get(st, br, BR, 'last') != (want[-1] if want else 0):
            self.hit(st, I, 'last', '%s: the end of the list is not its last entry: entries added later are lost' % what)
        if self.get(st, br, BR, 'length') != len(want):
            self.hit(st, I, 'length', '%s: the length of the list is wrong' % what)
        if freed is not None and sorted(st.auto) != sorted(freed):
            self.hit(st, I, 'memory', '%s: the entries freed are %s instead of %s' % (what, name(st.auto), name(freed)))


def need(p, *names):
    for n in names:
        if n in p.defined:
            return n
    raise lib.AnalysisBroken('%s was not found' % names[0])


@prop('P46', 'Shape enumeration by abstract execution: each operation on the lists of the in-memory index is interpreted on every list of up to three entries (every position, every choice of '
      'the namespaces they belong to, a branch not allocated yet); afterwards list, end and length must be the expected ones, exactly the removed entries are freed, no freed one is touched.',
      ['an operation treats an entry by its neighbours only, lists of up to three entries show every case (first, inner, last, alone, neighbours removed too)'])
def p46(ctx):
    p = ctx.prog()
    n = 0
    e = [obj('entry%d' % i) for i in range(4)]
    br, br2, root, arr, ns, other = obj('branch'), obj('branch2'), obj('root'), obj('branches'), obj('ns'), obj('ns2')
    found = {}

    def run(fn, args, what, setup, want, freed):
        nonlocal n
        r = Shape(p)

        def begin(S, st):
            st.cells[(arr, 0)] = (br, '*raw')
            st.cells[(arr, 8)] = (0, '*raw')
            st.cells[(arr, 16)] = (br2, '*raw')
            st.cells[(('g', 'buckets_branches'), 0)] = (3, '@buckets_branches')
            r.put(S, st, root, RT, 'branches', arr)
            for x in e:
                r.put(S, st, x, EN, 'namespace', other)
            setup(r, S, st)
        S, ex = ctx.sim(p, r, fn, args, setup=begin)
        if not ex and not r.hits:
            found.setdefault((fn, 'ends'), ('%s never ends' % what, p.defined[fn].loc, []))
        for st, ret in ex:
            n += 1
            b = r.walk and st.cells.get((arr, 0), (br,))[0]
            if type(b) is tuple:
                r.judge(st, fn, b, want, freed, what)
            if fn == clean:
                r.judge(st, fn, br2, [], None, what + ' (another branch)')
        if not r.loads:
            ctx.broken('%s reads no list' % fn)
        for k, text, loc, path in r.hits:
            found.setdefault((fn, k), (text, loc, path))

    clean = need(p, 'index_clean_namespace')
    for k in range(4):
        for mem in product((0, 1), repeat=k):
            def setup(r, S, st):
                r.chain(S, st, br, e[:k])
                for x, m in zip(e, mem):
                    r.put(S, st, x, EN, 'namespace', ns if m else other)
                r.chain(S, st, br2, [e[3]])
                r.put(S, st, e[3], EN, 'namespace', ns)
            run(clean, [root, ns], 'removing a namespace', setup, [x for x, m in zip(e, mem) if not m], [x for x, m in zip(e, mem) if m] + [e[3]])
    delete = need(p, 'index_entry_delete_memory')
    for k in range(1, 4):
        for j in range(k):
            run(delete, [root, e[j]], 'deleting a key', lambda r, S, st: r.chain(S, st, br, e[:k]), [x for i, x in enumerate(e[:k]) if i != j], [e[j]])
    append = need(p, 'index_branch_append')
    for k in range(-1, 3):
        def setup(r, S, st):
            if k < 0:
                st.cells[(arr, 0)] = (0, '*raw')
            else:
                r.chain(S, st, br, e[:k])
        run(append, [arr, 0, e[3]], 'adding a key', setup, e[:max(k, 0)] + [e[3]], [])
    for (fn, k), (text, loc, path) in sorted(found.items()):
        ctx.bad('%s:%s' % (fn, k), loc, '%s: %s' % (fn, text), path)
    for fn in (clean, delete, append):
        if not any(a == fn for a, b in found):
            ctx.ok(fn, '%s keeps the lists' % fn, p.defined[fn].loc)
    ctx.need(n, 20, 'final shapes')


# ------------------------------------------------------------------ P47
NR, NS = 'ns_root_t', 'namespace_t'


class Slots(Shape):
    """the list of namespaces with a few slots; everything about content and files is left aside"""

    def __init__(self, p, load):
        Shape.__init__(self, p)
        self.new = load
        self.used = {n for n, f in p.defined.items() if any(i.op in ('load', 'store') and (p.cls_of_ptr(f, i.ops[0 if i.op == 'load' else 1]) or '').startswith((NR, 'namespace_t.idlist')) for i in f.ins())}
        self.walks = {n for n in p.defined if n in self.used or self.used & p.reach[n]}
        self.opaque = (load,)
        self.events = (load, 'free', 'realloc', 'malloc', 'calloc')

    def on_load(self, S, st, ins, key, cls, val):
        Shape.on_load(self, S, st, ins, key, cls, val)
        b = sim.base_of(key[0])
        if type(b) is tuple and b[:2] == ('al', '#heap') and b[2].startswith('list') and val is not None and (type(val) is not tuple or val[0] == 'ld'):
            if type(val) is tuple:
                self.hit(st, ins, 'slots', 'a slot beyond the list of namespaces is read')

    def on_call(self, S, st, ins, name, args):
        if name == self.new:
            return [(st, obj('created'))]
        if name == 'realloc':
            new, old = obj('list2'), args[0]
            for (r, o), v in list(st.cells.items()):
                if r == old:
                    del st.cells[(r, o)]
                    st.cells[(new, o)] = v
            s2 = st.copy()
            for (r, o), v in list(s2.cells.items()):
                if r == new:
                    del s2.cells[(r, o)]
                    s2.cells[(old, o)] = v
            st.auto = st.auto + (old,)
            return [(st, new), (s2, 0)]
        return Shape.on_call(self, S, st, ins, name, args)


@prop('P47', 'Shape enumeration by abstract execution: creating a namespace, deleting one and walking through them are interpreted on every list of up to three slots (each used or free); the other namespaces '
      'keep their slots, the number counted is the number listed, the walk meets each exactly once.',
      ['the slots of a list are treated alike except the first one (default), lists of up to three slots show every case'])
def p47(ctx):
    p = ctx.prog()
    root, arr = obj('nsroot'), obj('list')
    load = need(p, 'namespace_load')
    create, delete, first, nxt, count = [need(p, x) for x in ('namespace_create', 'namespace_delete', 'namespace_iter', 'namespace_iter_next', 'namespace_length')]
    found, n = {}, 0
    ptr = 8
    glob = [g for g in p.globals if g == 'nsroot' or g.endswith('.nsroot')]
    if not glob:
        raise lib.AnalysisBroken('the list of namespaces was not found')

    def run(fn, args, slots, judge):
        nonlocal n
        r = Slots(p, load)

        def begin(S, st):
            st.cells[(('g', glob[0]), 0)] = (root, '@' + glob[0])
            r.put(S, st, root, NR, 'namespaces', arr)
            r.put(S, st, root, NR, 'length', len(slots))
            r.put(S, st, root, NR, 'effective', sum(1 for x in slots if x))
            for i, x in enumerate(slots):
                st.cells[(arr, ptr * i)] = (x, '*raw')
                if x:
                    r.put(S, st, x, NS, 'idlist', i)
        S, ex = ctx.sim(p, r, fn, args, setup=begin)
        if not ex and not r.hits:
            found.setdefault((fn, 'ends'), ('it never ends', p.defined[fn].loc, []))
        if not r.loads:
            ctx.broken('%s reads no list' % fn)
        out = []
        for st, ret in ex:
            n += 1
            why = judge(r, st, ret)
            if why:
                r.hits.append(('list', why, p.defined[fn].loc, st.path()))
            out.append(ret)
        for k, text, loc, path in r.hits:
            found.setdefault((fn, k), (text, loc, path))
        return out

    def state(r, st):
        l = r.get(st, root, NR, 'namespaces')
        k = r.get(st, root, NR, 'length')
        if type(k) is not int or k > 8:
            return None, None
        return [st.cells.get((l, ptr * i), ('?',))[0] for i in range(k)], r.get(st, root, NR, 'effective')

    ds = obj('default')
    shapes = [(ds,) + x for k in range(3) for x in product((0, 1), repeat=k)]
    shapes = [tuple(obj('ns%d' % i) if x == 1 else x for i, x in enumerate(s)) for s in shapes]
    made = obj('created')
    for slots in shapes:
        def created(r, st, ret):
            now, eff = state(r, st)
            if now is None:
                return 'the length of the list is not known'
            if ret == 0:
                return None if [x for x in now if x] == [x for x in slots if x] and eff == sum(1 for x in slots if x) else 'creating a namespace failed and changed the list'
            if now.count(made) != 1:
                return 'the new namespace is in %d slots' % now.count(made)
            if any(x and (i >= len(now) or now[i] != x) for i, x in enumerate(slots)) or any(x not in slots + (made,) for x in now):
                return 'creating a namespace changes the slot of another'
            if eff != sum(1 for x in now if x):
                return 'after creating a namespace the number counted is not the number listed'
            if r.get(st, made, NS, 'idlist') != now.index(made):
                return 'the new namespace does not know its slot: a walk through the namespaces misses or repeats some'
        run(create, [('arg', 'name')], slots, created)
        for x in slots[1:]:
            if not x:
                continue

            def deleted(r, st, ret):
                now, eff = state(r, st)
                if now is None:
                    return 'the length of the list is not known'
                if x in now:
                    return 'the deleted namespace is still listed'
                if [y for y in now if y] != [y for y in slots if y and y != x]:
                    return 'deleting a namespace changes the slot of another'
                if eff != sum(1 for y in now if y):
                    return 'after deleting a namespace the number counted is not the number listed'
                for i, y in enumerate(now):
                    if y and r.get(st, y, NS, 'idlist') != i:
                        return 'a namespace does not know its slot'
            run(delete, [x], slots, deleted)
        seq = run(first, [], slots, lambda r, st, ret: None if ret == ds else 'the walk does not start with the default namespace')
        want = [x for x in slots if x]
        for a, b in zip(want, want[1:] + [0]):
            run(nxt, [a], slots, lambda r, st, ret: None if ret == b else 'the walk goes from one namespace to a wrong one')
        run(count, [], slots, lambda r, st, ret: None if ret == len(want) else 'the number of namespaces is wrong')
    for (fn, k), (text, loc, path) in sorted(found.items()):
        ctx.bad('%s:%s' % (fn, k), loc, '%s: %s' % (fn, text), path)
    for fn in (create, delete, first, nxt, count):
        if not any(a == fn for a, b in found):
            ctx.ok(fn, '%s keeps the list of namespaces' % fn, p.defined[fn].loc)
    ctx.need(n, 30, 'final lists')
