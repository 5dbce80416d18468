"""Which paths of a transition system can be taken: linear invariants of the loop variables (by Houdini),
invariants of the elements of growing vectors, and a disjunctive exploration over the variants of loop
variables and over the places of iterators among the children of parse tree nodes."""
import time
from terms import *
from interp import OPT
from equiv import infer_sorts, BOOLS, canon
import linear

class TooMany(Exception): pass

def chain(cut):
    while cut is not None:
        yield cut
        cut = cut.parent

class Reach:
    MAX = 4000
    def __init__(self, ts, facts=None, tf=None, holds=None, pre=None):
        """holds(vec, type, variant, field): is that field of element i known to be i"""
        self.ts, self.facts, self.tf, self.given, self.pre = ts, facts, tf, holds, pre
        infer_sorts(ts)
        self.inv = {}           # cut -> [(terms, bound)]
        self.elems = set()      # (phi, type, variant, field)
        self.rw = {}
        self.nodes = 0
        self.fresh()

    # ---------------------------------------------------------------- element fields
    def vec_holds(self, v, name, k, i):
        if (v, name, k, i) in self.elems: return True
        if v[0] == 'upd': return self.vec_holds(v[1], name, k, i) and v[3][0] == 'adt' and v[3][1] == name and self.clean(v[3][3][i]) == v[2]
        return bool(self.given and self.given(v, name, k, i))
    def clean(self, t):
        if not isinstance(t, tuple): return t
        r = self.rw.get(t)
        if r is None:
            r = rebuild(t, self.clean) if t and isinstance(t[0], str) else tuple(self.clean(x) for x in t)
            if r and r[0] == 'fld' and r[1][0] == 'elem' and self.vec_holds(r[1][1], r[2], r[3], r[4]): r = r[1][2]
            self.rw[t] = r
        return r
    def fresh(self):
        self.rw = {}; self.logs = {}; self.asg = {}
        for t in self.ts.transitions():
            self.logs[id(t)] = [(self.clean(a), v) for a, v in (t.log if hasattr(t, 'log') and t.log is not None else t.conds.log)]
            self.asg[id(t)] = {p: self.clean(v) for p, v in t.assign.items()}
    def elem_candidates(self):
        for t in self.ts.transitions():
            for p, v in t.assign.items():
                if self.ts.sorts.get(p) != 'vec' or v[0] != 'vec': continue
                for s in v[1]:
                    if s[0] == 'one' and s[1][0] == 'adt':
                        for i, x in enumerate(s[1][3]):
                            if x[0] in ('int', 'lin') or x in NONNEG or nonneg(x): yield (p, s[1][1], s[1][2], i)
    def elem_ok(self, c, t):
        """the invariant holds of what the transition assigns"""
        p, name, k, i = c
        if p not in t.assign: return True
        K = self.state(t)
        if K is None: return True
        cs = self.linear(t.src_cut, K)
        def ok(v, at):
            if v[0] == 'vec':
                for s in v[1]:
                    if s[0] == 'one':
                        x = s[1]
                        if not (x[0] == 'adt' and x[1] == name and x[2] == k): return False
                        if not (linear.proves_le(cs, x[3][i], at) and linear.proves_le(cs, at, x[3][i])): return False
                        at = add(at, ('int', 1))
                    else:
                        if not (at == ('int', 0) and ok(s[1], at)): return False
                        at = add(at, vlen(s[1]))
                return True
            if v[0] == 'upd':
                x = v[3]
                return ok(v[1], at) and x[0] == 'adt' and x[1] == name and x[2] == k and self.clean(x[3][i]) == v[2]
            return at == ('int', 0) and self.vec_holds(v, name, k, i)
        return ok(self.asg[id(t)][p], ('int', 0))

    # ---------------------------------------------------------------- conjunctions
    def state(self, t, extra=()):
        """facts of a transition; None when they contradict each other"""
        K = Conds()
        if self.pre:
            class S: pass
            s = S(); s.conds = K; self.pre(s)
        for a, v in list(extra) + self.logs[id(t)]:
            if not K.assume(a if a[0] in BOOLS else ('atom', a), v): return None
        return K
    def invs(self, cut):
        return [c for x in chain(cut) for c in self.inv.get(x.id, ())]
    def linear(self, cut, K): return linear.facts_of(K, self.invs(cut))

    # ---------------------------------------------------------------- linear invariants
    def int_terms(self, cut):
        out = []
        for x in chain(cut):
            for p in x.phis.values():
                k = self.ts.sorts.get(p)
                if k == 'int': out.append(p)
                elif k == 'vec': out.append(vlen(p))
        return out
    def ground(self):
        g = set()
        for t in self.ts.transitions():
            for a, v in self.logs[id(t)]:
                if a[0] == 'atom': a = a[1]
                if a[0] in ('ile', 'ieq'):
                    for x in lin_parts(a[1])[1]:
                        if not contains(x, lambda y: y[0] == 'phi'): g.add(x)
        return sorted(g, key=repr)
    def houdini(self, deadline):
        for c in self.ts.cuts:
            for t in c.trans: t.src_cut = c
        G = self.ground()
        self.inv = {}; cands = {}
        for c in self.ts.cuts:
            own = [p for p in self.int_terms(c)]
            mine = set(p for p in c.phis.values()) | {vlen(p) for p in c.phis.values() if self.ts.sorts.get(p) == 'vec'}
            prs = []
            for x in own:
                for y in own + G:
                    if x != y and (x in mine or y in mine): prs += [(x, y), (y, x)]
                if x in mine: prs += [(x, ('int', 0)), (('int', 0), x)]
            cands[c.id] = sorted(set(prs), key=repr)
        reached = {self.ts.cuts[0].id}
        work = list(self.ts.cuts[:1])
        while work:
            c = work.pop(0)
            for t in c.trans:
                if t.target is None: continue
                if time.time() > deadline: self.inv = {}; return False
                K = self.state(t)
                if K is None: continue
                if self.facts and not self.facts(K): continue
                T = t.target
                cs = self.linear(c, K); asg = self.asg[id(t)]
                if linear.infeasible([x for x in cs]): continue
                def val(x): return subst(x, asg) if x[0] != 'int' else x
                if T.id not in reached:
                    reached.add(T.id); inv = []
                    for x, y in cands[T.id]:
                        a, b = val(x), val(y)
                        for k in (-1, 0, 1):
                            if linear.proves_le(cs, a, b, k): inv.append(self.con(x, y, k)); break
                    self.inv[T.id] = inv
                    if T not in work: work.append(T)
                    continue
                old = self.inv.get(T.id, []); new = []
                for d, b in old:
                    e = ('int', 0)
                    for x, k in d.items(): e = add(e, val(x), k)
                    c0, dd = lin_parts(e)
                    for bb in range(b, max(b, 1) + 1):
                        if linear.entails(cs, dd, bb - c0): new.append((d, bb)); break
                if new != old:
                    self.inv[T.id] = new
                    # everything that starts below it has to be looked at again
                    for x in self.ts.cuts:
                        if T in chain(x) and x.id in reached and x not in work: work.append(x)
        return True
    def con(self, x, y, k):
        c, d = lin_parts(sub(x, y))
        return d, k - c
    def invariants(self, seconds):
        deadline = time.time() + seconds
        self.elems = set(self.elem_candidates())
        while True:
            self.fresh()
            if not self.houdini(deadline): self.elems = set(); self.fresh(); return False
            bad = {c for c in self.elems for t in self.ts.transitions() if not self.elem_ok(c, t)}
            if not bad: return True
            self.elems -= bad

    # ---------------------------------------------------------------- exploration
    def tracked(self):
        """pairs (node, loop variable) such that the variable is a place among the children of the node"""
        out = set()
        for t in self.ts.transitions():
            def see(x):
                if x[0] == 'elem' and x[1][0] == 'children':
                    for y, k in lin_parts(x[2])[1].items():
                        if y[0] == 'phi' and k == 1: out.add((x[1][1], y))
                return False
            contains(tuple(a for a, v in t.conds.log), see)
        return out

    def kept_nodes(self):
        """parse tree nodes held in loop variables whose text or kind matters"""
        out = set()
        for t in self.ts.transitions():
            def see(x):
                if x[0] in ('pstr', 'rule'):
                    y = x[1]
                    while y[0] == 'fld': y = y[1]
                    if y[0] == 'phi': out.add(x[1])
                return False
            contains(tuple(a for a, v in t.conds.log), see)
        return sorted(out, key=repr)

    def places(self, X, sets, n0, K, cs):
        """walk over children n0, n0+1, .. of X from automaton places; those possible"""
        S = sets; j = 0; cur = S
        # S holds (start place, place now)
        cur = {(s, s) for s in S}
        n = vlen(('children', X))
        while j < 5:
            at = add(n0, ('int', j))
            if linear.proves_le(cs, n, at):
                cur = {(s, q) for s, q in cur if self.dfa(q[0]).acc[q[1]]}
                break
            if not linear.proves_le(cs, at, n, -1): break
            cur = {(s, r) for s, q in cur for r in self.step(q, X, at, K)}
            j += 1
        return frozenset(s for s, q in cur)
    def dfa(self, r): return self.tf.children(r)
    def step(self, q, X, at, K):
        al = K.v.get(('rule', velem(('children', X), at)))
        for a, t in self.dfa(q[0]).trans[q[1]].items():
            if al is None or self.tf.idx.get(a) in al: yield (q[0], t)
    def starts(self, X, K):
        al = K.v.get(('rule', X))
        if al is None: return None
        names = [self.tf.name[i] for i in al if i in self.tf.name]
        if any(self.dfa(n) is None for n in names): return None
        return frozenset((n, 0) for n in names)

    def abstract(self, v, p, K, cs):
        """what is remembered of the value of a loop variable"""
        k = self.ts.sorts.get(p)
        if k == 'vec' or k == 'str':
            n = vlen(v) if k == 'vec' else slen(v)
            if linear.proves_le(cs, n, ('int', 0)): return 'empty'
            if linear.proves_le(cs, ('int', 1), n): return 'some'
            return None
        if k == 'int':
            return ('int', v[1]) if v[0] == 'int' and v[1] <= 2 and False else None
        if v[0] in BOOLS:
            return K.get(v)
        if v[0] == 'adt': return ('var', v[2])
        s = K.v.get(v)
        if isinstance(s, frozenset) and len(s) == 1 and v[0] != 'rule': return ('var', next(iter(s)))
        if p in self.bools: return K.get(('atom', v))
        return None

    def facts_at(self, cut, ab):
        out = []
        for (p, x) in ab:
            if isinstance(p, tuple) and p[0] == 'place': continue
            if isinstance(p, tuple) and p[0] == 'kind': out.append((('kind', p[1], x), True)); continue
            if x == 'empty': out.append((b_le(self.length(p), ('int', 0)), True))
            elif x == 'some': out.append((b_le(('int', 1), self.length(p)), True))
            elif isinstance(x, tuple) and x[0] == 'var': out.append((('var', p, x[1]), True))
            elif x in (True, False): out.append((('atom', p), x))
        return out
    def length(self, p): return vlen(p) if self.ts.sorts.get(p) == 'vec' else slen(p)

    def enter(self, t, ab):
        """facts when a transition starts in an abstract state; None when it cannot"""
        K = Conds()
        if self.pre:
            class S: pass
            s = S(); s.conds = K; self.pre(s)
        for a, v in self.facts_at(None, ab):
            if a[0] == 'kind':
                if not K.restrict(('rule', a[1]), a[2]): return None
            elif a[0] == 'var':
                if not K.restrict(a[1], {a[2]}): return None
            elif not K.assume(a, v): return None
        for a, v in self.logs[id(t)]:
            if not K.assume(a if a[0] in BOOLS else ('atom', a), v): return None
        if self.facts and not self.facts(K): return None
        return K

    def explore(self, seconds):
        """-> transitions that end in a panic and may be taken"""
        deadline = time.time() + seconds
        self.bools = {p for p, k in self.ts.sorts.items() if k == 'bool'}
        self.track = self.tracked() if self.tf else set()
        self.kept = self.kept_nodes() if self.tf else ()
        root = self.ts.cuts[0]
        start = (root, frozenset())
        seen = {(root.id, frozenset())}; todo = [start]; hot = {}
        while todo:
            cut, ab = todo.pop()
            d = dict(ab)
            for t in cut.trans:
                if time.time() > deadline or len(seen) > self.MAX: raise TooMany()
                K = self.enter(t, ab)
                if K is None: continue
                cs = self.linear(cut, K)
                if linear.infeasible(cs): continue
                # places among children
                good = True; place = {}
                for (X, p) in self.track:
                    S = d.get(('place', X, p))
                    if S is None: continue
                    al = K.v.get(('rule', X))
                    if al is not None: S = frozenset(s for s in S if self.tf.idx.get(s[0]) in al)
                    S = self.places(X, S, p, K, cs)
                    if not S: good = False; break
                    place[(X, p)] = S
                if not good: continue
                if t.target is None:
                    if t.kind == 'panic': hot.setdefault(id(t), (t, K))
                    continue
                asg = self.asg[id(t)]
                new = {}
                for x in chain(t.target):
                    for p in x.phis.values():
                        if p in asg:
                            v = asg[p]
                            a = d.get(v) if v[0] == 'phi' and d.get(v) is not None else self.abstract(v, p, K, cs)
                        else: a = d.get(p)
                        if a is not None: new[p] = a
                scope = {p for x in chain(t.target) for p in x.phis.values()}
                for N in self.kept:
                    if contains(N, lambda y: y[0] == 'phi' and y not in scope): continue
                    if contains(N, lambda y: y[0] == 'phi' and y in asg): k = K.v.get(('rule', self.clean(canon(subst(N, asg), K))))
                    else: k = K.v.get(('rule', N)) or d.get(('kind', N))
                    if k is not None: new[('kind', N)] = k
                for (X, p) in self.track:
                    if p not in scope: continue
                    if contains(X, lambda y: y[0] == 'phi' and y not in scope): continue
                    if p not in asg and not contains(X, lambda y: y[0] == 'phi' and y in asg):
                        if (X, p) in place: new[('place', X, p)] = place[(X, p)]
                        continue
                    v = asg.get(p, p); Y = subst(X, asg) if asg else X
                    S = None
                    c, dd = lin_parts(v)
                    if not dd: S = self.starts(Y, K); at = ('int', 0); k = c
                    elif len(dd) == 1:
                        q = next(iter(dd))
                        if (Y, q) in place and dd[q] == 1: S = place[(Y, q)]; at = q; k = c
                    if S is None or k < 0 or k > 8: continue
                    for j in range(k): S = frozenset(r for s in S for r in self.step(s, Y, add(at, ('int', j)), K))
                    if not S: good = False; break
                    new[('place', X, p)] = S
                if not good: continue
                nb = frozenset(new.items())
                key = (t.target.id, nb)
                if key not in seen: seen.add(key); todo.append((t.target, nb))
        self.nodes = len(seen)
        return list(hot.values())

    # ---------------------------------------------------------------- loops end
    def ranked(self, cut):
        """a quantity that every round of a loop brings closer to a bound, or None"""
        rounds = [t for t in self.ts.transitions() if t.target is cut and cut in chain(t.src_cut)]
        live = []
        for t in rounds:
            K = self.state(t)
            if K is None or self.facts and not self.facts(K): continue
            live.append((t, self.linear(t.src_cut, K)))
        if not live: return ('none',)
        qs = []
        for p in cut.phis.values():
            k = self.ts.sorts.get(p)
            if k == 'int' or k == 'any': qs.append(p)
            if k == 'vec': qs.append(vlen(p))
            if k == 'str': qs.append(slen(p))
        todo = live; used = []
        # lexicographic: take a quantity no round moves back, drop the rounds that move it on
        while todo:
            for q in qs:
                if q in used: continue
                r = self.one_rank(q, todo)
                if r is not None: used.append(q); todo = r; break
            else: return None
        return tuple(used)
    def one_rank(self, q, rounds):
        for sign in (1, -1):
            left = []
            for t, cs in rounds:
                new = subst(q, self.asg[id(t)])
                a, b = (q, new) if sign == 1 else (new, q)
                if linear.proves_le(cs, a, b, -1) and self.bounded(q, sign, t, cs): continue
                if linear.proves_le(cs, a, b, 0): left.append((t, cs)); continue
                break
            else:
                if len(left) < len(rounds): return left
        return None
    def bounded(self, q, sign, t, cs):
        """q has a bound that the loop leaves alone"""
        scope = set(t.target.phis.values())
        if sign == -1: return linear.proves_le(cs, ('int', -1), q, 0)
        for d, b in cs:
            k = d.get(q)
            if k is None and q[0] == 'lin': continue
            if k and k > 0 and not any(x != q and contains(x, lambda y: y[0] == 'phi' and y in scope) for x in d): return True
        return False
