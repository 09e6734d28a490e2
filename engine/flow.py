"""Flow-insensitive, field-based propagation of labels over a whole program:
which kind of file a path string names, and which kind of file a descriptor
refers to.  Pointers and the strings they point to share one node."""
from collections import defaultdict

# external -> (destination argument or 'ret', source arguments or 'rest' from an index)
COPY = {'sprintf': (0, 2), 'snprintf': (0, 3), 'asprintf': (0, 2), 'strcpy': (0, 1), 'strncpy': (0, 1), 'strcat': (0, 1),
        'strncat': (0, 1), 'memcpy': (0, 1), 'memmove': (0, 1)}
RET = {'strdup': 0, 'strndup': 0, 'realpath': 0, 'strcpy': 0, 'strncpy': 0, 'dup': 0, 'realloc': 0, 'basename': 0, 'dirname': 0}


class Flow:
    def __init__(self, p, field_sources, open_label=None):
        """field_sources: class -> label added to values loaded from it.
        open_label(labels) -> label of the descriptor open() returns for a path with those labels"""
        self.p = p
        self.edges = defaultdict(set)
        self.labels = defaultdict(set)
        self.opens = []
        self.open_label = open_label
        work = []

        def edge(a, b):
            if a is not None and b is not None and a != b:
                self.edges[a].add(b)

        for f in p.defined.values():
            n = lambda o: self.node(f, o)
            for i in f.ins():
                me = ('r', f.name, i.id)
                if i.op == 'load':
                    c = p.cls_of_ptr(f, i.ops[0])
                    a = ('f', c) if c else n(i.ops[0])
                    edge(a, me)
                    if c in field_sources:
                        work.append((me, field_sources[c]))
                    # a pointer loaded from memory aliases what is stored there
                    edge(me, a) if i.ty == 'ptr' and c else None
                elif i.op == 'store':
                    c = p.cls_of_ptr(f, i.ops[1])
                    edge(n(i.ops[0]), ('f', c) if c else n(i.ops[1]))
                elif i.op == 'getelementptr':
                    c = p.cls_of_ptr(f, ['i', i.id])
                    if c:
                        edge(('f', c), me)
                        edge(me, ('f', c))
                        if c in field_sources:
                            work.append((me, field_sources[c]))
                    else:
                        edge(n(i.ops[0]), me)
                        edge(me, n(i.ops[0]))
                elif i.op == 'phi':
                    for o, _ in i.ops:
                        edge(n(o), me)
                elif i.op == 'select':
                    edge(n(i.ops[1]), me)
                    edge(n(i.ops[2]), me)
                elif i.op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze'):
                    edge(n(i.ops[0]), me)
                elif i.op == 'ret' and i.ops:
                    edge(n(i.ops[0]), ('ret', f.name))
                elif i.op == 'call':
                    for t in p.targets(i):
                        if t in p.defined:
                            for k, o in enumerate(i.ops):
                                edge(n(o), ('r', t, 'a%d' % k))
                                # strings written by the callee through its argument
                                if self.is_ptr(f, o):
                                    edge(('r', t, 'a%d' % k), n(o))
                            edge(('ret', t), me)
                        else:
                            b = 'memcpy' if t.startswith('llvm.memcpy') or t.startswith('llvm.memmove') else t
                            if b in COPY:
                                d, s = COPY[b]
                                srcs = i.ops[s:] if b.endswith('printf') else [i.ops[s]]
                                for o in srcs:
                                    edge(n(o), n(i.ops[d]))
                                if b.startswith('mem'):
                                    pass
                            if b in RET:
                                edge(n(i.ops[RET[b]]), me)
                            if b in ('open', 'open64', 'creat', 'fopen', 'openat'):
                                self.opens.append(i)
        pend = set()
        for w in work:
            pend.add(w)
        self.run(pend)
        # descriptors
        if open_label:
            second = set()
            for i in self.opens:
                l = open_label(self.labels[self.node(i.fn, i.ops[0])])
                if l:
                    second.add((('r', i.fn.name, i.id), l))
            self.run(second)

    def run(self, work):
        work = list(work)
        while work:
            n, l = work.pop()
            if l in self.labels[n]:
                continue
            self.labels[n].add(l)
            for m in self.edges.get(n, ()):
                if l not in self.labels[m]:
                    work.append((m, l))

    def is_ptr(self, f, o):
        if o[0] == 'i':
            return f.byid[o[1]].ty == 'ptr' and f.byid[o[1]].op in ('alloca', 'call', 'getelementptr', 'phi')
        return False

    def node(self, f, o):
        if o[0] == 'i':
            return ('r', f.name, o[1])
        if o[0] == 'a':
            return ('r', f.name, 'a%d' % o[1])
        if o[0] == 'g':
            return ('g', o[1])
        if o[0] == 'gep':
            c = self.p.cls_of_ptr(f, o)
            return ('f', c) if c else self.node(f, o[1])
        return None

    def of(self, f, o):
        n = self.node(f, o)
        return self.labels.get(n, set()) if n else set()
