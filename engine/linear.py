"""Linear inequalities that follow from what is known on a path: intervals of the terms and
comparisons between them (a small elimination, no solver)."""
import sim
from lib import lin, ladd, lrange

INF = -sim.NEG


def known(S, st):
    """linear forms that are >= 0 on the path (from comparisons)"""
    out, later, differ = [], [], []
    for t, f in st.facts.items():
        if t[0] == 'op' and t[1] in ('add', 'sub') and (f[0] > sim.NEG or f[1] < INF):
            # a bound known for a sum or difference
            l = ladd((1, lin(S, st, t[2])), (1 if t[1] == 'add' else -1, lin(S, st, t[3])))
            if l and l[1]:
                if f[0] > sim.NEG:
                    out.append((l[0] - f[0], l[1]))
                if f[1] < INF:
                    out.append((f[1] - l[0], {x: -k for x, k in l[1].items()}))
            continue
        if t[0] != 'cmp' or f[0] != f[1]:
            continue
        pred, a, b = t[1], t[2], t[3]
        if not f[0]:
            pred = sim.NEGP[pred]
        la, lb = lin(S, st, a), lin(S, st, b)
        if la is None or lb is None:
            continue
        d = ladd((1, lb), (-1, la))      # b - a
        e = ladd((1, la), (-1, lb))
        if not d[1]:
            continue
        if pred == 'eq':
            out += [d, e]
        elif pred == 'ne':
            differ.append((d, e))
        elif pred in ('slt', 'sle', 'ult', 'ule'):
            x = (d[0] - (1 if pred.endswith('lt') else 0), d[1])
            (out if pred[0] == 's' or pointer(a) else later).append((x, la, lb) if pred[0] == 'u' and not pointer(a) else x)
        elif pred in ('sgt', 'sge', 'ugt', 'uge'):
            x = (e[0] - (1 if pred.endswith('gt') else 0), e[1])
            (out if pred[0] == 's' or pointer(a) else later).append((x, la, lb) if pred[0] == 'u' and not pointer(a) else x)
    res = []
    for x in out:
        if x not in res:
            res.append(x)
    for x, la, lb in later:
        # unsigned order is signed order when both sides are known not to be negative
        if x not in res and prove(S, st, la, res, 2) and prove(S, st, lb, res, 2):
            res.append(x)
    for d, e in differ:
        for x in (d, e):
            if prove(S, st, x, res, 2):
                res.append((x[0] - 1, x[1]))
    return res


def pointer(v):
    return type(v) is tuple and v[0] in ('[]', '+', 'al', 'g')


def prove(S, st, l, eqs=None, depth=4, seen=None):
    """l >= 0 on the path"""
    if l is None:
        return False
    if lrange(S, st, l)[0] >= 0:
        return True
    if depth == 0 or not l[1]:
        return False
    eqs = known(S, st) if eqs is None else eqs
    seen = seen if seen is not None else set()
    key = (l[0], frozenset(l[1].items()), depth)
    if key in seen:
        return False
    seen.add(key)
    for c, d in eqs:
        # l = l' + m * e: eliminate a term l has with the same sign in e
        for x, k in d.items():
            n = l[1].get(x)
            if n is None or (n > 0) != (k > 0) or n % k:
                continue
            m = n // k
            r = ladd((1, l), *[(-1, (c, d))] * m) if m <= 8 else None
            if r is not None and prove(S, st, r, eqs, depth - 1, seen):
                return True
    # replace one term by its bound
    for x, k in l[1].items():
        lo, hi, _ = S.rng(st, x)
        b = lo if k > 0 else hi
        if abs(b) < INF and len(l[1]) > 1:
            d = dict(l[1])
            del d[x]
            if prove(S, st, (l[0] + k * b, d), eqs, depth - 1, seen):
                return True
    return False


def equal(S, st, a, b, eqs=None):
    d = ladd((1, a), (-1, b))
    if d is None:
        return False
    if not d[1]:
        return d[0] == 0
    eqs = known(S, st) if eqs is None else eqs
    return prove(S, st, d, eqs, 3) and prove(S, st, (-d[0], {x: -k for x, k in d[1].items()}), eqs, 3)
