"""Linear facts over integer terms: what a conjunction of facts entails (Fourier-Motzkin over the integers' order)."""
from terms import *

LIMIT = 400

def facts_of(K, more=()):
    """constraints (terms, bound): sum of coefficient*term <= bound"""
    cs = []
    for base, (lo, hi, ex) in K.i.items():
        c, d = lin_parts(base)
        if hi is not None: cs.append((d, hi - c))
        if lo is not None: cs.append(({t: -k for t, k in d.items()}, c - lo))
    for d, b in more: cs.append((dict(d), b))
    if any(abs(b) >= 1 << 60 for d, b in cs):
        # nothing in memory is that long
        for t in {t for d, b in cs for t in d if t[0] == 'len'}: cs.append(({t: 1}, 1 << 48))
    holes = [(lin_parts(base), sorted(ex)) for base, (lo, hi, ex) in K.i.items() if ex]
    # x != c sharpens a bound that ends at c
    for (c, d), ex in holes:
        for _ in range(3):
            for x in ex:
                b = x - c
                nd = {t: -k for t, k in d.items()}
                if entails(cs, d, b) and not entails(cs, d, b - 1): cs.append((d, b - 1))
                if entails(cs, nd, -b) and not entails(cs, nd, -b - 1): cs.append((nd, -b - 1))
            if len(ex) < 2: break
    return cs

def entails(cs, d, b):
    """do the facts force sum of d <= b"""
    goal = ({t: -k for t, k in d.items()}, -b - 1)
    if not d: return 0 <= b
    # facts that share terms with the goal, directly or through others
    rel = [goal]; terms = set(d); rest = list(cs); grown = True
    while grown:
        grown = False
        for c in list(rest):
            if any(t in terms for t in c[0]): rel.append(c); rest.remove(c); terms.update(c[0]); grown = True
        for t in list(terms):
            if len(terms) < 40:
                u = upper_of(t)
                if u is not None:
                    for x in lin_parts(u)[1]:
                        if x not in terms: terms.add(x); grown = True
    for t in terms:
        if nonneg(t): rel.append(({t: -1}, 0))
        u = upper_of(t)
        if u is not None:
            c, e = lin_parts(u)
            e = {x: -k for x, k in e.items()}; e[t] = e.get(t, 0) + 1
            rel.append((e, c))
    return infeasible(rel)

def infeasible(cs):
    cur = {}
    def put(d, b):
        d = {t: k for t, k in d.items() if k}
        if not d: return b < 0
        key = frozenset(d.items())
        if key not in cur or cur[key] > b: cur[key] = b
        return False
    for d, b in cs:
        if put(d, b): return True
    while cur:
        cnt = {}
        for key in cur:
            for t, k in key:
                p = cnt.setdefault(t, [0, 0]); p[k > 0] += 1
        t = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], repr(x)))
        pos, neg, old = [], [], {}
        for key, b in cur.items():
            d = dict(key); k = d.get(t, 0)
            if k > 0: pos.append((d, k, b))
            elif k < 0: neg.append((d, k, b))
            else: old[key] = b
        cur = old
        for d1, k1, b1 in pos:
            for d2, k2, b2 in neg:
                d = {x: y * -k2 for x, y in d1.items()}
                for x, y in d2.items(): d[x] = d.get(x, 0) + y * k1
                if put(d, b1 * -k2 + b2 * k1): return True
        if len(cur) > LIMIT: return False
    return False

def proves_le(cs, a, b, c=0):
    """a - b <= c"""
    k, d = lin_parts(sub(a, b))
    return entails(cs, d, c - k)
