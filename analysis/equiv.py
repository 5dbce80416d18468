"""Equivalence of two transition systems over the same arguments.

The product pairs control points of the code with control points of the specification.  For every
pair a congruence over the loop variables of both sides (equal up to a constant, booleans up to
negation and as emptiness tests) is inferred as a greatest fixpoint: start from everything the first
arrival satisfies, drop what a later arrival breaks.  Every pair of paths whose conditions are
jointly consistent under that congruence must agree on where it goes and on what it returns.
"""
from terms import *
from interp import *

BOOLS = ('bool', 'atom', 'natom')

class Mismatch:
    def __init__(self, kind, code, spec, why, definite=True):
        self.kind, self.code, self.spec, self.why, self.definite = kind, code, spec, why, definite
    def text(self):
        w = self.code.where if self.code is not None else None
        loc = '%s (%s:%s)' % (w[0], w[1], w[2]) if w else '?'
        return '%s: %s' % (loc, self.why)

def bnot(v): return neg(v)

class Held:
    """a side that has already produced its outcome"""
    loc = 'held'
    def __init__(self, t, value, mem):
        self.t, self.value, self.mem = t, value, mem
        self.phis = {}; self.id = ('held', id(t)); self.trans = []
    def __eq__(self, o): return isinstance(o, Held) and o.t is self.t
    def __hash__(self): return hash(id(self.t))

class Pair:
    def __init__(self, c, s, feats):
        self.c, self.s, self.feats = c, s, feats
        self.cls = None     # list of lists of (feature, offset)
        self.dom = {}       # variant set of a term over the loop variables; absent: not reached with a value
        self.dirty = True

def phisort(ts, phi): return ts.sorts.get(phi, 'any')

def features(ts, cut):
    out = []
    for phi in cut.phis.values():
        k = phisort(ts, phi)
        if k == 'int': out.append(('i', phi))
        elif k == 'bool': out.append(('b', ('atom', phi)))
        else:
            out.append(('x', phi))
            if k in ('vec', 'str'):
                out.append(('i', vlen(phi) if k == 'vec' else slen(phi)))
                out.append(('b', b_le(('int', 1), vlen(phi))))
            if k == 'opt': out.append(('b', ('atom', ('isvar', phi, 1, 2))))
    return out

def infer_sorts(ts):
    """sort of every loop variable from the values it is given"""
    ts.sorts = {}
    vals = {}
    for t in ts.transitions():
        for p, v in t.assign.items(): vals.setdefault(p, []).append(v)
    for _ in range(3):
        for p, vs in vals.items():
            if p in ts.sorts: continue
            ks = set()
            for v in vs:
                if v[0] in ('int', 'lin') or nonneg(v) : ks.add('int')
                elif v[0] in BOOLS: ks.add('bool')
                elif v[0] == 'vec': ks.add('vec')
                elif v[0] in ('str', 'cat', 'substr', 'lower'): ks.add('str')
                elif v[0] == 'adt' and v[1] == OPT: ks.add('opt')
                elif v in ts.sorts: ks.add(ts.sorts[v])
            if p in NONNEG: ks = {'int'}
            if len(ks) == 1: ts.sorts[p] = ks.pop()
    for p in vals:
        if p not in ts.sorts: ts.sorts[p] = 'any'

def text(p): return p[1] if p[0] == 'str' else chr(p[1])

class Equiv:
    def __init__(self, code, spec, hooks=None, facts=None, skip=None):
        self.facts, self.skip = facts, skip
        self.code, self.spec = code, spec
        infer_sorts(code); infer_sorts(spec)
        self.tag(spec)
        self.pairs = {}; self.out = []; self.structure = []
        # some path knows that a string lacks something, and something is replaced
        every = tuple((tuple(t.assign.values()), t.value or (), tuple((t.mem or {}).values()), tuple(a for a, v in t.log)) for x in (code, spec) for t in x.transitions())
        self.lacks = contains(every, lambda y: y[0] in ('replace', 'replacen')) and contains(every, lambda y: y[0] in ('contains', 'allchars'))
        self.n_pairs = self.n_joint = 0

    def tag(self, ts):
        """rename the specification's loop variables apart"""
        m = {}
        for c in ts.cuts:
            for k, p in list(c.phis.items()):
                q = ('phi', ('S',) + p[1]) + p[2:]
                m[p] = q; c.phis[k] = q
                if p in NONNEG: NONNEG.add(q)
        ts.sorts = {m.get(p, p): k for p, k in ts.sorts.items()}
        for t in ts.transitions():
            t.assign = {m[p]: subst(v, m) for p, v in t.assign.items()}
            if t.value is not None: t.value = subst(t.value, m)
            if t.mem: t.mem = {i: subst(v, m) for i, v in t.mem.items()}
            t.log = [(subst(a, m), v) for a, v in t.conds.log]
        for t in self.code.transitions(): t.log = list(t.conds.log)

    # ---------------------------------------------------------------- relations
    def rel(self, pr):
        """substitution and boolean links that express the congruence of a pair"""
        m, links = {}, []
        for cl in pr.cls or []:
            kind = cl[0][0][0]
            if len(cl) < 2: continue
            def rank(fo):
                f = fo[0][1]
                return (0 if is_const(f) else 1 if f[0] == 'phi' and 'S' not in f[1][:1] else 2 if f[0] == 'len' else 3, repr(f))
            if kind == 'b':
                rep, ro = min(cl, key=rank)
                for f, o in cl:
                    if f == rep: continue
                    r = rep[1] if o == ro else bnot(rep[1])
                    if f[1][0] == 'atom' and f[1][1][0] == 'phi': m[f[1][1]] = r
                    else: links.append((f[1], r))
            else:
                rep, ro = min(cl, key=rank)
                for f, o in cl:
                    if f == rep: continue
                    if is_const(f[1]): continue
                    if kind == 'i': m[f[1]] = add(rep[1], sub(o, ro))
                    else: m[f[1]] = rep[1]
        return m, links

    def apply(self, t, m):
        for _ in range(6):
            n = subst(t, m)
            if n == t: return t
            t = n
        return t

    def bool_of(self, a):
        return a if a[0] in BOOLS else ('atom', a)

    def settle(self, t, J):
        """replacing what a string lacks leaves it as it is"""
        if not self.lacks or not contains(t, lambda y: y[0] == 'replace'): return t
        no = {}
        for a, v in J.b.items():
            if a[0] == 'contains' and not v and a[2][0] in ('str', 'char'): no.setdefault(a[1], []).append(lambda q, p=text(a[2]): p in q)
            elif a[0] == 'allchars' and v: no.setdefault(a[1], []).append(lambda q, cs=a[2]: any(min(ord(c), 128) not in cs for c in q))
        if not no: return t
        def go(x):
            if not isinstance(x, tuple): return x
            if x and x[0] in ('int', 'str', 'char', 'fn', 'phi', 'arg'): return x
            y = rebuild(x, go) if x and isinstance(x[0], str) else tuple(go(z) for z in x)
            if y and y[0] == 'replace' and y[2][0] in ('str', 'char') and any(f(text(y[2])) for f in no.get(y[1], ())): return y[1]
            return y
        return go(t)

    def domains(self, pr, m):
        return [(self.apply(t, m), d) for t, d in pr.dom.items() if d is not None]

    def joint(self, tc, ts, m, links, doms=()):
        J = Conds()
        for t, d in doms:
            if t[0] == 'rule' and not J.restrict(t, d): return None
        todo = [(a, v) for t in (tc, ts) if t is not None for a, v in t.log]
        for a, v in todo:
            if not J.assume(self.bool_of(self.settle(self.apply(a, m), J)), v): return None
        for _ in range(2):
            for x, y in links:
                x, y = self.bool_of(self.apply(x, m)), self.bool_of(self.apply(y, m))
                gx, gy = J.get(x), J.get(y)
                if gx is None and gy is not None: J.assume(x, gy)
                elif gy is None and gx is not None: J.assume(y, gx)
                elif gx is not None and gx != gy: return None
        if self.facts and not self.facts(J): return None
        if any(v and a[0] == 'eq' and not is_const(a[2]) for a, v in J.b.items()) and closed(J) is None: return None
        return J

    def norm(self, t, m, J):
        """value under the congruence and the path's facts"""
        t = self.settle(self.apply(t, m), J)
        for _ in range(4):
            n = canon(t, J)
            if n == t: break
            t = n
        return t

    # ---------------------------------------------------------------- exploration
    def run(self):
        c, s = self.code.cuts[0], self.spec.cuts[0]
        self.pairs = {}
        self.work = []
        self.arrive(c, s, {}, {}, {}, None)
        for _ in range(4000):
            p = next((q for q in self.pairs.values() if q.dirty), None)
            if p is None: break
            p.dirty = False
            self.step(p, False)
        self.out = []
        for p in list(self.pairs.values()): self.step(p, True)
        self.n_pairs = len(self.pairs)
        return self.out

    def shape(self, ts, cut):
        if isinstance(cut, Held): return ()
        return tuple(sorted(phisort(ts, p) for p in cut.phis.values()))

    def arrive(self, c, s, ac, as_, m, J):
        """the pair (c,s) is reached with loop variables assigned by ac / as_"""
        # unguarded moves of one side happen at once
        for side in (0, 1):
            cut, asg = (c, ac) if side == 0 else (s, as_)
            n = 0
            while not isinstance(cut, Held) and len(cut.trans) == 1 and cut.trans[0].kind == 'cut' and n < 8:
                t = cut.trans[0]; n += 1
                mm = {p: v for p, v in asg.items()}
                asg = {p: subst(v, mm) for p, v in t.assign.items()}
                # variables of the outer heads stay as they are
                asg.update({p: v for p, v in mm.items() if p not in asg and self.live(t.target, p)})
                cut = t.target
            if side == 0: c, ac = cut, asg
            else: s, as_ = cut, asg
        key = (c.id if not isinstance(c, Held) else c, s.id if not isinstance(s, Held) else s)
        pr = self.pairs.get(key)
        if pr is None:
            fs = self.allfeats(self.code, c) + self.allfeats(self.spec, s)
            pr = self.pairs[key] = Pair(c, s, fs)
        vals = []
        for f in pr.feats:
            if is_const(f[1]): vals.append((f, f[1])); continue
            v = subst(f[1], {**ac, **as_}) if (ac or as_) else f[1]
            v = self.apply(v, m) if m else v
            if f[0] == 'b': v = self.bool_of(v)
            if J is not None: v = canon(canon(self.settle(v, J), J), J)
            if f[0] == 'b' and J is not None:
                g = J.get(v)
                if g is not None: v = ('bool', g)
            vals.append((f, v))
        if self.facts: self.arrive_domains(pr, {**ac, **as_}, m, J)
        vd = dict(vals)
        old = pr.cls
        if old is None:
            groups = {}
            for f, v in vals:
                k, o = self.base(f, v)
                groups.setdefault(k, []).append((f, o))
            pr.cls = [g for g in groups.values()]
            pr.dirty = True
        else:
            new = []
            for cl in old:
                groups = {}
                for f, o in cl:
                    v = vd[f]
                    if f[0] == 'i': k = ('i', sub(v, o))
                    elif f[0] == 'b':
                        w = v if o == 0 else bnot(v)
                        k = ('b', w)
                    else: k = ('x', v)
                    groups.setdefault(k, []).append((f, o))
                new += list(groups.values())
            if len(new) != len(old):
                pr.cls = new; pr.dirty = True

    def arrive_domains(self, pr, asg, m, J):
        """kinds of parse tree nodes a loop variable may hold"""
        for f in pr.feats:
            if f[0] != 'x': continue
            for t in (('rule', f[1]), ('rule', ('fld', f[1], OPT, 1, 0))):
                v = subst(t, asg) if asg else t
                v = self.apply(v, m) if m else v
                if J is not None: v = canon(canon(v, J), J)
                if v[1] == ('absurd',): continue
                d = J.v.get(v) if J is not None else None
                if t not in pr.dom: new = d
                else: new = None if d is None or pr.dom[t] is None else pr.dom[t] | d
                if t not in pr.dom or new != pr.dom[t]: pr.dom[t] = new; pr.dirty = True

    def base(self, f, v):
        if f[0] == 'i':
            c, d = lin_parts(v)
            return ('i', mk_lin(0, d)), ('int', c)
        if f[0] == 'b':
            if v[0] == 'natom': return ('b', ('atom', v[1])), 1
            if v == ('bool', False): return ('b', ('bool', True)), 1
            return ('b', v), 0
        return ('x', v), 0

    def live(self, cut, p):
        return len(p[1]) and True

    def allfeats(self, ts, c):
        fs = []
        x = c
        while x is not None and not isinstance(x, Held):
            fs += features(ts, x); x = x.parent
        return fs + ([('i', ('int', 0)), ('b', ('bool', True)), ] if ts is self.code else [])

    def outer_assign(self, t):
        """assignment of every loop variable in scope after the transition"""
        a = dict(t.assign)
        x = t.target.parent
        while x is not None:
            for p in x.phis.values(): a.setdefault(p, p)
            x = x.parent
        return a

    def held_assign(self, h): return {}

    def moves(self, cut):
        return cut.trans if not isinstance(cut, Held) else [None]

    def step(self, pr, final):
        m, links = self.rel(pr)
        doms = self.domains(pr, m)
        for tc in self.moves(pr.c):
            for ts in self.moves(pr.s):
                if tc is None and ts is None: continue
                J = self.joint(tc, ts, m, links, doms)
                if J is None: continue
                if final: self.n_joint += 1
                self.pair_paths(pr, tc, ts, m, J, final)

    def outcome(self, cut, t):
        if isinstance(cut, Held): return ('ret', cut.value, cut.mem)
        if t.kind == 'ret': return ('ret', t.value, t.mem)
        if t.kind == 'panic': return ('panic', t.value, None)
        return None

    def pair_paths(self, pr, tc, ts, m, J, final):
        oc, os_ = self.outcome(pr.c, tc), self.outcome(pr.s, ts)
        if os_ and os_[0] == 'panic': return                    # unspecified
        if oc and os_ and self.skip and self.skip(oc[0], oc[1], os_[1], J, False): return
        if oc and os_:
            if not final: return
            if oc[0] == 'panic':
                definite = not contains(tuple(a for a, v in tc.log), lambda x: x[0] == 'phi')
                self.out.append(Mismatch('panic', tc, ts, 'panics (%s) where a value is specified' % (oc[1][1],), definite)); return
            a, b = self.norm(oc[1], m, J), self.norm(os_[1], m, J)
            if a != b and not self.same(a, b, self.apply(oc[1], m), self.apply(os_[1], m), J):
                self.out.append(Mismatch('value', tc or pr.c.t, ts or pr.s.t, self.differs('returns', a, b), self.shapes(pr)))
                return
            for i in set(oc[2] or {}) | set(os_[2] or {}):
                a = self.norm((oc[2] or {}).get(i, ('none',)), m, J); b = self.norm((os_[2] or {}).get(i, ('none',)), m, J)
                if a != b:
                    self.out.append(Mismatch('value', tc or pr.c.t, ts or pr.s.t, self.differs('leaves argument %d as' % i, a, b), self.shapes(pr)))
                    return
            return
        if oc:
            if oc[0] == 'panic':
                if final: self.out.append(Mismatch('panic', tc, ts, 'panics (%s) where a value is specified' % (oc[1][1],), False))
                return
            c2 = pr.c if isinstance(pr.c, Held) else self.hold(pr, tc, oc, m, J)
            self.arrive(c2, ts.target, self.held_vars(c2), self.outer_assign(ts), m, J); return
        if os_:
            s2 = pr.s if isinstance(pr.s, Held) else self.hold(pr, ts, os_, m, J)
            self.arrive(tc.target, s2, self.outer_assign(tc), self.held_vars(s2), m, J); return
        self.arrive(tc.target, ts.target, self.outer_assign(tc), self.outer_assign(ts), m, J)

    def same(self, a, b, ra, rb, J):
        """equal in another presentation: literals that the path knows to be part of a string"""
        if ra == rb: return True
        def lift(t):
            for x, v in J.b.items():
                if x[0] == 'eq' and v and x[1][0] == 'substr' and x[2][0] == 'str' and x[2][1]:
                    t = lift_literal(t, x[1], x[2][1])
            return t
        ra, rb = lift(ra), lift(rb)
        if ra == rb: return True
        return alike(ra, rb, J)

    def hold(self, pr, t, o, m, J):
        v = self.norm(o[1], m, J)
        mem = {i: self.norm(x, m, J) for i, x in (o[2] or {}).items()}
        return Held(t, v, mem)

    def held_vars(self, h): return {}

    def shapes(self, pr):
        return self.shape(self.code, pr.c) == self.shape(self.spec, pr.s)

    def differs(self, what, a, b):
        x, y = first_diff(a, b)
        s = '%s %s where %s is specified' % (what, show(x)[:160], show(y)[:160])
        return s

def lift_literal(t, x, lit):
    if not isinstance(t, tuple) or not t: return t
    if t == ('str', lit): return x
    if t[0] == 'cat':
        out = []
        for p in t[1]:
            if p[0] == 'str' and p[1].startswith(lit): out += [x, ('str', p[1][len(lit):])]
            else: out.append(lift_literal(p, x, lit))
        return mk_cat(out)
    if t[0] == 'adt': return ('adt', t[1], t[2], tuple(lift_literal(y, x, lit) for y in t[3]))
    if t[0] == 'tup': return ('tup', tuple(lift_literal(y, x, lit) for y in t[1]))
    return t

def first_diff(a, b):
    while True:
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b) or not a: return a, b
        if isinstance(a[0], str) and a[0] != b[0]: return a, b
        ds = [(x, y) for x, y in zip(a, b) if x != y]
        if len(ds) != 1 or not isinstance(ds[0][0], tuple) or not isinstance(ds[0][1], tuple): return a, b
        a, b = ds[0]

STRUCTS = set()     # types with a single variant

def alike(x, y, J):
    """equal under the facts of a path"""
    if x == y: return True
    if not (isinstance(x, tuple) and isinstance(y, tuple) and x and y): return False
    for p, q in ((x, y), (y, x)):
        if q[0] == 'adt' and p[0] != 'adt':
            k = J.v.get(p)
            if q[1] in STRUCTS or isinstance(k, frozenset) and k == {q[2]}:
                return all(alike(mk_fld(p, q[1], q[2], i), f, J) for i, f in enumerate(q[3]))
            if q[1] == OPT and J_is_option(J, p) and isinstance(k, frozenset) and k == {q[2]}: return True
        if q == ('str', '') and J.get(b_le(slen(p), ('int', 0))): return True
        if q[0] == 'vec' and all(z[0] == 'one' for z in q[1]) and p[0] != 'vec':
            n = vlen(p)
            if (J.get(b_le(n, ('int', 0))) if not q[1] else J.get(b_ieq(n, ('int', len(q[1]))))): return all(alike(velem(p, ('int', i)), z[1], J) for i, z in enumerate(q[1]))
    if x[0] in ('adt', 'tup') and x[0] == y[0] and x[:-1] == y[:-1] and len(x[-1]) == len(y[-1]): return all(alike(p, q, J) for p, q in zip(x[-1], y[-1]))
    return False

def canon(t, J):
    """rewrite a value with the facts of a path"""
    m = {}
    for base, (lo, hi, ex) in J.i.items():
        if lo is not None and lo == hi:
            c, d = lin_parts(base)
            cand = [(x, k) for x, k in d.items() if k in (1, -1)]
            if cand:
                x, k = max(cand, key=lambda y: (y[0][0] == 'phi', repr(y[0])))
                rest = mk_lin(0, {y: z for y, z in d.items() if y != x})
                m[x] = sub(('int', lo), rest) if k == 1 else sub(rest, ('int', lo))
    for a, v in J.b.items():
        if a[0] == 'eq' and v:
            if is_const(a[2]) or not contains(a[2], lambda y: y == a[1]): m[a[1]] = a[2]
    for x, s in J.v.items():
        if isinstance(s, frozenset) and len(s) == 1 and x[0] != 'eqc':
            k = next(iter(s)); name = None
            if k == 0 and J_is_option(J, x): m[x] = NONE
    return canon2(subst(t, m), J)

def J_is_option(J, x):
    for a, v in J.log:
        if a[0] == 'isvar' and a[1] == x and a[3] == 2: return True
        if a[0] == 'invar' and a[1] == x and len(a) > 3 and a[3] == OPT: return True
    return False

def canon2(t, J):
    if not isinstance(t, tuple): return t
    if t and t[0] in BOOLS:
        g = J.get(t)
        if g is not None: return ('bool', g)
        return t
    if t and t[0] in ('int', 'str', 'char', 'fn', 'phi', 'arg'): return t
    if t and t[0] == 'adt': return ('adt', t[1], t[2], tuple(canon2(x, J) for x in t[3]))
    if t and t[0] in ('tup',): return ('tup', tuple(canon2(x, J) for x in t[1]))
    return t
