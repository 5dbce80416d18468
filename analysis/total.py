"""Absence of panics and of endless loops in the transition system of an entry point.

Every panicking transition has to be shown impossible and every loop to have a bounded quantity that moves on with
each round (reach.py).  For those that remain a concrete path from the entry is searched; it is reported only if all
conditions on it are understood exactly."""
import hang
import random, re, time
from eqrun import *
from reach import Reach, TooMany, chain
import equiv, linear, strlang

class Nothing:
    """a system that returns at once"""
    def __init__(self):
        t = Ret()
        class Cut: pass
        c = Cut(); c.id = 0; c.phis = {}; c.parent = None; c.trans = [t]; c.loc = 'end'
        self.cuts = [c]; self.opaque = set(); self.fns = set(); self.calls = 0; self.t = t
        self.sorts = {}; c.recs = []
    def transitions(self): return [self.t]
class Ret:
    kind = 'ret'; target = None; value = ('masked',); mem = {}; assign = {}; where = None; log = []
    def __init__(self): self.conds = Conds()

class Total(Oblig):
    seconds = 60
    def __init__(self, *a, **kw):
        self.tf = kw.pop('tf', None); self.holds = kw.pop('holds', None); self.allow = kw.pop('allow', None); self.ints = kw.pop('ints', False); self.domain = kw.pop('domain', None)
        Oblig.__init__(self, *a, **kw)

    def run(self):
        Interp.overflows = True
        try: code = self.ts(self.root)
        except Undecided as e: return 'undecided', [], {'why': str(e)}
        finally: Interp.overflows = False
        if self.domain:
            for t in code.transitions(): pass
        R = Reach(code, self.facts, self.tf, self.holds, self.pre)
        pans = [t for t in code.transitions() if t.kind == 'panic' and not (self.allow and self.allow(t))]
        loops = code.cuts[1:]
        info = {'paths': len(code.transitions()), 'panic_paths': len(pans), 'loops': len(loops), 'fns': sorted(code.fns), 'calls': code.calls, 'spec': 'no panic, no endless loop', 'pairs': 0, 'joint': 0}
        for c in code.cuts:
            for t in c.trans: t.src_cut = c
        why = []
        hot = []
        if pans:
            hot = self.hot(R, pans, 0)
            if hot: R.invariants(self.seconds / 3); hot = self.hot(R, pans, 1)
        open_loops = [c for c in loops if R.ranked(c) is None]
        if open_loops and not R.inv:
            R.invariants(self.seconds / 3); open_loops = [c for c in loops if R.ranked(c) is None]
        info['nodes'] = R.nodes
        rec = Recursion(self, code, R)
        bad = rec.run()
        info['recursive_calls'] = rec.sites
        if bad and bad[0]: return 'differs', [Mismatch('panic', bad[1], None, bad[2])], dict(info, path=[('' if v else 'not ') + show(a) for a, v in bad[3].log])
        if not hot and not open_loops:
            if bad: return 'undecided', [], dict(info, why=bad[2])
            return 'equal', [], info
        S = Search(self, code, R, hot, open_loops)
        hit = S.run()
        if hit:
            t, K, what = hit
            return 'differs', [Mismatch('panic', t, None, what)], dict(info, path=[('' if v else 'not ') + show(a) for a, v in K.log])
        if open_loops and S.J0 is not None:
            h = hang.endless(self, code, S.J0, open_loops, R.clean, R.logs, R.asg)
            if h:
                c, ex, K = h
                return 'differs', [Mismatch('panic', c.trans[0], None, 'a loop that never ends, for example with ' + ', '.join('%s = %r' % (k[:60], v) for k, v in list(ex.items())[:4]))], dict(info, path=[('' if v else 'not ') + show(a) for a, v in K.log])
        m = [Mismatch('panic', t, None, 'may panic (%s)' % (t.value[1],)) for t in hot] + [Mismatch('loop', c.trans[0], None, 'loop without a ranking function') for c in open_loops]
        return 'undecided', m, dict(info, why=('unmodelled: %s; ' % ', '.join(sorted(code.opaque)) if code.opaque else '') + m[0].text())

    def hot(self, R, pans, stage):
        try: found = [t for t, K in R.explore(self.seconds / 3)]
        except TooMany: return pans
        return [t for t in pans if any(t is x for x in found)]

class Dispatch:
    """nodes of other kinds that the parser hands to the conversion of instructions"""
    def __init__(self, P, parse, visit, known): self.P, self.parse, self.visit, self.known = P, parse, visit, known
    def run(self):
        try: code = self.parse.ts(self.parse.root)
        except Undecided as e: return 'undecided', [], {'why': str(e)}
        seen = set()
        for t in code.transitions():
            K = Conds()
            for a, v in t.conds.log:
                if not K.assume(a if a[0] in BOOLS else ('atom', a), v): break
            else:
                for a in K.b:
                    if a[0] != 'insok': continue
                    K2 = Conds(K)
                    if not self.parse.facts(K2): continue
                    s = K2.v.get(('rule', a[1]))
                    if s is None: return 'undecided', [], {'why': 'kinds of nodes handed over'}
                    seen |= {i for i in s if K2.__class__(K2).restrict(('rule', a[1]), {i}) and self.possible(K2, a[1], i)}
        info = {'kinds': len(seen), 'fns': sorted(code.fns), 'calls': code.calls, 'paths': len(code.transitions()), 'spec': 'no panic, no endless loop', 'pairs': 0, 'joint': 0}
        worst = 'equal', [], info
        for i in sorted(seen - self.known):
            r = self.visit(i).run()
            if r[0] == 'differs': return r
            if r[0] == 'undecided': worst = r
        return worst
    def possible(self, K, X, i):
        K = Conds(K)
        return K.restrict(('rule', X), {i}) and self.parse.facts(K)

def narrow_of(t):
    """bits of the counter whose overflow this is, or None"""
    if t.kind != 'panic' or t.value[1] != 'overflow' or not t.conds.log: return None
    a = t.conds.log[-1][0]; a = a[1] if a[0] == 'atom' else a
    if a[0] == 'ile':
        for w in (8, 16):
            if abs(abs(a[2]) - (1 << w)) <= 2: return w
    return None

class Recursion:
    """every recursive call has an argument that gets smaller, and by an amount the input does not control"""
    def __init__(self, ob, code, R): self.ob, self.code, self.R = ob, code, R; self.sites = 0
    def run(self):
        """None, or (is it certain, where, what, conditions)"""
        by = {}
        for c in self.code.cuts:
            for r in c.recs: by.setdefault(r[0], []).append((c,) + r[1:])
        if not by: return None
        worst = None
        for key, recs in by.items():
            self.sites += len(recs)
            self.types = [self.ob.P.ty(l) for l in self.ob.P.fns[key]['locals'][1:]]
            n = len(recs[0][1])
            if any(self.smaller(i, recs) for i in range(n)): continue
            for r in recs:
                w = self.cyclic(key, r)
                if w: return w
            worst = (False, None, 'recursive calls of %s have no argument that gets smaller' % key, None)
        return worst
    def ground(self, c, ps, args, K):
        cs = self.R.linear(c, K)
        return cs
    def smaller(self, i, recs):
        t = self.types[i]
        for c, ps, args, K, where, since in recs:
            p, a = self.R.clean(ps[i]), self.R.clean(args[i])
            cs = self.R.linear(c, K)
            if linear.infeasible(cs): continue
            if t['k'] == 'uint' and linear.proves_le(cs, a, p, -1): continue
            if p[0] == 'arg' or p[0] == 'fld':
                if below(a, p) and not self.nests(a, p, K): continue
            return False
        return True
    def nests(self, a, p, K):
        tf = self.ob.tf
        if not tf: return True
        rs = K.v.get(('rule', p)), K.v.get(('rule', a))
        if None in rs: return True
        for r in rs[0] & rs[1]:
            n = tf.name.get(r)
            if n is None or n in tf.reachable(n): return True
        return False
    def cyclic(self, key, r):
        """a call that may have the same arguments again, or goes down a structure the input may nest at will"""
        c, ps, args, K, where, since = r
        for env, J in self.ways(c):
            J2 = Conds(J); ok = True
            for a, v in K.log:
                b = self.R.clean(subst(a, env) if env else a)
                if not J2.assume(b if b[0] in BOOLS else ('atom', b), v): ok = False; break
            if not ok or self.ob.facts and not self.ob.facts(J2): continue
            q = [self.R.clean(subst(x, env) if env else x) for x in ps]
            a = [self.R.clean(subst(x, env) if env else x) for x in args]
            for zero in (False, True):
                J3 = Conds(J2)
                if zero and not all(J3.assume(b_le(x, ('int', 0)), True) for x, t in zip(q, self.types) if t['k'] == 'uint'): continue
                same = [canon(x, J3) == canon(y, J3) for x, y in zip(q, a)]
                why = None
                rest = [i for i, s in enumerate(same) if not s]
                if not rest or all(self.free(a[i], q[i], J3) for i in rest): why = 'calls itself with the same arguments: the recursion never ends'
                elif len(rest) == 1 and below(a[rest[0]], q[rest[0]]) and not zero:
                    i = rest[0]; tf = self.ob.tf; rs = J3.v.get(('rule', a[i]))
                    # the same steps once more, one level down
                    deep = lambda t: a[i] if t == q[i] else rebuild(t, deep) if isinstance(t, tuple) and t and isinstance(t[0], str) else t
                    for x in (rs or ()) if tf else ():
                        J4 = Conds(J3)
                        if not J4.restrict(('rule', a[i]), {x}): continue
                        if not all(J4.assume(b if b[0] in BOOLS else ('atom', b), v) for b, v in [(deep(self.R.clean(subst(y, env) if env else y)), v) for y, v in K.log[since:]]): continue
                        if not J4.restrict(('rule', deep(a[i])), {x}) or self.ob.facts and not self.ob.facts(J4) or not strict(J4, self.ob): continue
                        why = 'recurses once per nested %s, to a depth the input decides: the stack overflows' % tf.name.get(x)
                        break
                if why and strict(J3, self.ob, None, self.code):
                    class W: pass
                    w = W(); w.where = where; w.kind = 'panic'; w.value = ('panic', 'stack overflow'); w.conds = J3
                    return True, w, why, J3
        return None
    def free(self, a, q, J):
        """a value of a table the caller gave, which may be anything"""
        if a[0] != 'mget' or not data(a[1]) or not data(q): return False
        return not any(contains(x, lambda y: y == a) for x in list(J.b) + list(J.i) + list(J.v))
    def ways(self, c, lim=4):
        """values of loop variables on concrete ways to a control point"""
        J0 = Conds()
        if self.ob.pre:
            class S: pass
            s = S(); s.conds = J0; self.ob.pre(s)
        stack = [(self.code.cuts[0], {}, J0, 0)]; n = 0
        while stack and n < 400:
            cut, env, J, k = stack.pop(0); n += 1
            if cut is c: yield env, J
            if k == lim: continue
            for t in cut.trans:
                if t.target is None: continue
                K = Conds(J); ok = True
                for a, v in self.R.logs[id(t)]:
                    b = self.R.clean(subst(a, env) if env else a)
                    if not K.assume(b if b[0] in BOOLS else ('atom', b), v): ok = False; break
                if not ok or self.ob.facts and not self.ob.facts(K): continue
                e2 = dict(env)
                for p, v in self.R.asg[id(t)].items(): e2[p] = self.R.clean(canon(subst(v, env), K))
                stack.append((t.target, e2, K, k + 1))

def below(a, p):
    """a node strictly below another"""
    n = 0
    while a != p:
        if a[0] == 'elem' and a[1][0] in ('children', 'descendants'): a = a[1][1]; n += 1
        else: return False
    return n > 0

class Search:
    """a concrete path from the entry to a panic or around a loop without change"""
    def __init__(self, ob, code, R, hot, loops):
        self.ob, self.code, self.R, self.hot, self.loops = ob, code, R, hot, loops
        self.narrow = self.J0 = None
        # control points a target can be reached from
        good = {t.src_cut.id for t in hot} | {c.id for c in loops}
        grown = True
        while grown:
            grown = False
            for t in code.transitions():
                if t.target is not None and t.target.id in good and t.src_cut.id not in good: good.add(t.src_cut.id); grown = True
        self.good = good

    def run(self):
        J0 = Conds()
        if self.ob.pre:
            class S: pass
            s = S(); s.conds = J0; self.ob.pre(s)
        self.J0 = J0
        full = self.hot, self.loops
        # a small counter: its limit is moved near to where it starts, when nothing else bounds it
        for t in full[0]:
            w = narrow_of(t)
            if w is None or self.bounded_else(t, w): continue
            self.hot, self.loops, self.narrow = [t], [], w
            self.t1 = time.time() + 8
            r = self.deepen(J0)
            if r: return r[0], r[1], 'a counter of %d bits overflows' % w
        self.hot, self.loops, self.narrow = [t for t in full[0] if narrow_of(t) is None], full[1], None
        self.t1 = time.time() + 25
        return self.deepen(J0)
    def deepen(self, J0):
        for lim in range(1, 24):
            try: r = self.walk(J0, lim)
            except Budget: return None
            if r: return r
    def shrink(self, a):
        if self.narrow is None: return a
        b = a[1] if a[0] == 'atom' else a
        if b[0] == 'ile' and abs(abs(b[2]) - (1 << self.narrow)) <= 2:
            d = (1 << self.narrow) - 3
            return ('atom', ('ile', b[1], b[2] - d if b[2] > 0 else b[2] + d))
        return a
    def bounded_else(self, t, w):
        ps = set()
        a = t.conds.log[-1][0]; a = a[1] if a[0] == 'atom' else a
        contains(a, lambda y: y[0] == 'phi' and ps.add(y))
        if not ps: return True
        for u in self.code.transitions():
            for a, v in u.conds.log:
                b = a[1] if a[0] == 'atom' else a
                if b[0] == 'ile' and abs(abs(b[2]) - (1 << w)) <= 2: continue
                if contains(b, lambda y: y in ps): return True
        return False

    def walk(self, J0, lim):
        stack = [(self.code.cuts[0], {}, J0, 0, {})]
        while stack:
            cut, env, J, n, was = stack.pop()
            for t in reversed(cut.trans):
                if time.time() > self.t1: raise Budget()
                if t.target is None and not any(t is h for h in self.hot): continue
                if t.target is not None and t.target.id not in self.good: continue
                K = Conds(J); ok = True
                for a, v in self.R.logs[id(t)]:
                    if self.narrow: a = self.shrink(a)
                    b = subst(a, env) if env else a
                    b = self.R.clean(b)
                    b = b if b[0] in BOOLS else ('atom', b)
                    if not K.assume(b, v): ok = False; break
                if not ok or self.ob.facts and not self.ob.facts(K): continue
                if t.target is None:
                    if n + 1 == lim and self.panic_counts(t) and strict(K, self.ob, t, self.code): return t, K, 'panics (%s)' % (t.value[1],)
                    continue
                if n + 1 >= lim: continue
                e2 = dict(env)
                for p, v in self.R.asg[id(t)].items(): e2[p] = self.R.clean(canon(subst(v, env), K))
                live = {p for x in chain(t.target) for p in x.phis.values()}
                e2 = {p: v for p, v in e2.items() if p in live}
                w2 = {c: e for c, e in was.items() if c == t.target.id or any(x.id == c for x in chain(t.target))}
                if t.target in self.loops and w2.get(t.target.id) == e2 and t.target in chain(t.src_cut):
                    if strict(K, self.ob, t, self.code): return t, K, 'a round of the loop changes nothing: it never ends'
                w2[t.target.id] = e2
                stack.append((t.target, e2, K, n + 1, w2))
        return None

    def panic_counts(self, t):
        k = str(t.value[1])
        return k in ('bounds', 'index out of bounds', 'map index', 'overflow', 'Vec::remove', 'str split_at', 'slice index', 'str index', 'truncate', 'split_off', 'insert_str', 'replace_range') or any(x in k for x in ('panicking', 'unwrap', 'expect', 'panic', 'slice', 'split_at', 'overflow', 'remove', 'zero'))

# ---------------------------------------------------------------------------------- are the conditions exact
DEBUG = False
class No(Exception): pass

def strict(K, ob, t=None, code=None):
    """every condition of the path is understood, so that values exist that satisfy all of them"""
    for K2 in images(K, ob):
        try: check(K2, ob)
        except (No, strlang.Unsupported) as e:
            if DEBUG: print('   not strict:', t and t.value, repr(e)[:300])
        else: return True
    try:
        if by_example(K, ob, code): return True
    except strlang.Unsupported: pass
    try: return by_words(K, ob)
    except strlang.Unsupported: return False

# conditions that search a string with a regular expression: a string that satisfies them
def samples(p, extra, n=14):
    """some strings a regular expression matches, short ones first"""
    tree, _ = strlang.parse_regex(p)
    rnd = random.Random(1); chars = 'Xa_Y0-.' + extra
    def one(items):
        out = ''
        for it in items:
            op, av = it; o = str(op)
            if o in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY'):
                st = strlang.re_set(it); ok = [c for c in chars if ord(c) in st] or [chr(b) for b in st if b < 128]
                if not ok: raise strlang.Unsupported()
                out += rnd.choice(ok)
            elif o == 'SUBPATTERN': out += one(av[3])
            elif o == 'BRANCH': out += one(rnd.choice(av[1]))
            elif 'REPEAT' in o: out += ''.join(one(av[2]) for _ in range(rnd.randint(av[0], max(av[0], min(av[0] + 2, 3 if av[1] is strlang.sre.MAXREPEAT else av[1])))))
            elif o == 'AT': pass
            else: raise strlang.Unsupported()
        return out
    return sorted({one(tree) for _ in range(300)}, key=lambda w: (len(w), w))[:n]

class Example:
    """terms over one string, evaluated"""
    def __init__(self, S, w): self.S, self.w, self.memo = S, w, {}
    def pat(self, p):
        if p[0] == 'str': return p[1]
        if p[0] == 'char': return chr(p[1])
        raise No(p)
    def ev(self, t):
        if t == self.S: return self.w
        k = t[0]
        if k in ('str', 'int', 'bool'): return t[1]
        if k == 'char': return chr(t[1])
        if not contains(t, lambda y: y == self.S): raise No(t)
        if k == 'lin': return t[1] + sum(c * self.ev(x) for x, c in t[2])
        if k == 'len': return len(self.ev(t[1]))
        if k == 'substr':
            x, a, b = self.ev(t[1]), self.ev(t[2]), self.ev(t[3])
            if not 0 <= a <= b <= len(x): raise No(t)
            return x[a:b]
        if k in ('find', 'rfind'):
            i = getattr(self.ev(t[1]), k)(self.pat(t[2]))
            if i < 0: raise No(t)
            return i
        if k == 'captures' or k == 'finds':
            if t[1][0] != 'regex': raise No(t)
            return list(re.finditer(t[1][1], self.ev(t[2]), re.A))
        if k in ('chars', 'bytes'): return self.ev(t[1])
        if k == 'elem':
            x, i = self.ev(t[1]), t[2]
            if i[0] != 'int' or not 0 <= i[1] < len(x): raise No(t)
            return x[i[1]]
        if k == 'match' and t[2][0] == 'int':
            m = self.ev(t[1]); return m.span(t[2][1])
        if k in ('mstart', 'mend') and t[1][0] == 'match':
            a, b = self.ev(t[1])
            if a < 0: raise No(t)
            return a if k == 'mstart' else b
        if k == 'lower': return self.ev(t[1]).lower()
        raise No(t)
    def truth(self, a):
        k = a[0]
        if k == 'atom': return self.truth(a[1])
        if k == 'natom': return not self.truth(a[1])
        if k == 'ile': return self.ev(a[1]) <= a[2]
        if k == 'ieq': return self.ev(a[1]) == a[2]
        if k == 'eq': return self.ev(a[1]) == self.ev(a[2])
        if k == 'group' and a[2][0] == 'int': return self.ev(a[1]).span(a[2][1])[0] >= 0
        if k == 'prefix': return self.ev(a[1]).startswith(self.pat(a[2]))
        if k == 'suffix': return self.ev(a[1])[-1:] in map(chr, a[2][1]) if a[2][0] == 'cset' else self.ev(a[1]).endswith(self.pat(a[2]))
        if k == 'contains': return self.pat(a[2]) in self.ev(a[1])
        if k == 'inset': return ord(self.ev(a[2])) in a[1]
        if k == 'cclass':
            s = strlang.class_set(a[1])
            if s is None: raise No(a)
            return ord(self.ev(a[2])) in s
        if k == 'boundary': return 0 <= self.ev(a[2]) <= len(self.ev(a[1]))
        if k == 'rmatch' and a[1][0] == 'regex': return re.search(a[1][1], self.ev(a[2]), re.A) is not None
        raise No(a)
    def put(self, t):
        """the term with what is known written out"""
        if not isinstance(t, tuple) or not t or not isinstance(t[0], str) or t[0] in ('int', 'str', 'char', 'bool', 'fn'): return t
        if contains(t, lambda y: y == self.S):
            try:
                v = self.ev(t)
                if isinstance(v, str): return ('str', v)
                if isinstance(v, int): return ('int', v)
            except No: pass
            return rebuild(t, self.put)
        return t

def by_example(K, ob, code):
    """a string for the one subject of the searches, such that what is left is understood"""
    found = set()
    contains((tuple(K.b), tuple(K.i), tuple(K.v)), lambda y: y[0] in ('captures', 'finds') and found.add(y))
    subjects = {y[2] for y in found}
    if len(subjects) != 1 or any(y[1][0] != 'regex' for y in found): return False
    S = subjects.pop()
    if not data(S) or S[0] == 'fld': return False
    lits = set()
    contains(tuple(a for a, v in K.log), lambda y: y[0] in ('str', 'char') and lits.update(y[1] if y[0] == 'str' else chr(y[1])))
    ss = samples(sorted(found, key=repr)[0][1][1], ''.join(c for c in sorted(lits) if ord(c) < 128 and c not in '$'))
    mine = [(a, v) for a, v in K.log if contains(a, lambda y: y == S)]
    rest = [(a, v) for a, v in K.log if not contains(a, lambda y: y == S)]
    def words():
        yield ''
        yield 'a'
        for x in ss: yield x
        for x in ss:
            for y in ss: yield x + '-' + y
        for x in ss[:8]:
            for y in ss[:8]:
                for z in ss[:8]: yield x + '-' + y + '-' + z
    for w in words():
        E = Example(S, w); J = Conds(); ok = True; left = []
        for a, v in mine:
            try:
                if E.truth(a) != v: ok = False; break
            except (No, KeyError, IndexError, AttributeError, TypeError): left.append((a, v))
        if not ok: continue
        if ob.pre:
            class P: pass
            p = P(); p.conds = J; ob.pre(p)
        good = True
        for a, v in rest + left:
            b = E.put(a)
            if not J.assume(b if b[0] in BOOLS else ('atom', b), v): good = False; break
        if not good: continue
        for t, s in list(J.v.items()):
            if t[0] == 'rec' and t[1] == ob.root and t[2][0][0] == 'mget' and data(t[2][0][1]) and code is not None and may_give(code, s, ob): del J.v[t]
        for a in [a for a in J.b if a[0] in ('invar', 'isvar')]: del J.b[a]
        try: check(J, ob)
        except (No, strlang.Unsupported): continue
        return True
    return False

_spent = {}
def by_words(K, ob, seconds=12):
    """texts for the strings of the path, such that the conditions on them hold and what is left is understood"""
    import random, sample, hang
    spent = _spent.setdefault(id(ob), [0.0, {}, ob])
    if spent[0] > seconds: return False
    log = [(a[1] if a[0] == 'atom' else a, v) for a, v in K.log]
    subjects = set()
    def seen(y):
        if y[0] == 'pstr': subjects.add(y)
        for i in sample.STR1.get(y[0], ()) if isinstance(y[0], str) else ():
            if i < len(y) and isinstance(y[i], tuple) and y[i]:
                b = strlang.base_term(y[i])
                if data(b): subjects.add(b)
        return False
    contains(tuple(a for a, v in log), seen)
    if not subjects: return False
    for s in subjects:
        if s[0] == 'pstr' and (not node(s[1]) or any(o != s and o[0] == 'pstr' and contains(s, lambda y: y == o[1]) for o in subjects)): return False
        if s[0] != 'pstr' and any(o != s and contains(s, lambda y: y == o) for o in subjects): return False
    mine = [(a, v) for a, v in log if contains(a, lambda y: y in subjects)]
    rest = [(a, v) for a, v in K.log if not contains(a, lambda y: y in subjects)]
    if len(mine) == 0: return False
    key = frozenset(mine)
    hit = spent[1].get(key)
    if hit is None:
        t0 = time.time()
        try: hit = words_for(mine, subjects, K, ob, random.Random(3), t0 + 1.5)
        except No: hit = False
        spent[0] += time.time() - t0; spent[1][key] = hit
    if not hit: return False
    J = Conds()
    if ob.pre:
        class P: pass
        p = P(); p.conds = J; ob.pre(p)
    for s in subjects:
        if s[0] == 'pstr' and not J.restrict(('rule', s[1]), frozenset(K.v.get(('rule', s[1]), ()))): return False
    for a, v in rest:
        if not J.assume(a if a[0] in BOOLS else ('atom', a), v): return False
    try: check(J, ob)
    except (No, strlang.Unsupported) as e:
        if DEBUG: print('   words', hit, 'but', repr(e)[:300])
        return False
    return True

def words_for(mine, subjects, K, ob, rnd, t_end):
    import sample, hang
    W = sample.World(mine, (), rnd); W.exact = True; toks = {}; docs = {}
    for s in subjects:
        if s[0] == 'pstr':
            rs = K.v.get(('rule', s[1]))
            if rs is None or not ob.tf: return False
            toks[s] = hang.Tokens(ob.tf, [ob.tf.name[i] for i in rs if i in ob.tf.name])
            if not toks[s].Ds: return False
        else: docs[s] = in_document(s)
    def fits(s, w):
        if s in toks: return toks[s].member(w)
        return all(w.startswith(c[1]) if c[0] == 'prefix' else len(w) >= 1 if c[0] == 'len' else re.search(c[1].replace('$', '\\Z'), w) is not None for t, c, v in docs[s])
    def fresh(key, sort):
        if key not in subjects: raise No(key)
        w = W.env.get(key)
        for k in range(30):
            if w is not None and rnd.random() < .6:
                i = rnd.randint(0, len(w)); j = min(len(w), i + rnd.randint(0, 2))
                x = w[:i] + rnd.choice(W.pool) + w[j:]
            elif key in toks:
                try: x = toks[key].random(rnd, W.pool)
                except hang.No: continue
            else: x = sample.World.fresh(W, key, 'str')
            if fits(key, x): return x
        raise No(key)
    W.fresh = fresh
    best = None
    for k in range(4000):
        if time.time() > t_end: return False
        if k % 60 == 0: W.env = {}; best = None
        bad = []
        for a, v in mine:
            W.used = set()
            try:
                if W.truth(a) != v: bad.append(set(W.used))
            except sample.Part: bad.append(set(W.used))
            except (RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError): return False
            except sample.No:
                if DEBUG: print('   words: not evaluated', repr(a)[:300])
                return False
        if not bad: return {show(q): v for q, v in W.env.items()} if set(W.env) <= subjects else False
        us = sorted(rnd.choice(bad) & {(q, z) for q in subjects for z in ('str',)}, key=repr)
        if best is not None and len(bad) > best[0] and rnd.random() < .8: W.env = dict(best[1])
        else: best = len(bad), dict(W.env)
        if not us: continue
        q, z = rnd.choice(us); W.env[q] = fresh(q, z)
    return False

def may_give(code, variants, ob):
    """some value of the first argument, nothing else known, makes the function return such a variant"""
    key = id(code), variants
    if key not in _gives:
        _gives[key] = False
        stack = [(code.cuts[0], {}, Conds(), 0)]
        while stack:
            cut, env, J, n = stack.pop()
            for t in cut.trans:
                K = Conds(J); good = True
                for a, v in t.log:
                    b = subst(a, env) if env else a
                    if not K.assume(b if b[0] in BOOLS else ('atom', b), v): good = False; break
                if not good: continue
                if t.target is not None:
                    if n < 2: stack.append((t.target, {p: canon(subst(v, env), K) for p, v in t.assign.items()}, K, n + 1))
                elif t.kind != 'panic' and t.value is not None and t.value[0] == 'adt' and t.value[2] in variants:
                    only = not any(contains(a, lambda y: y[0] == 'arg' and y != ('arg', 0) or y[0] in ('rec', 'after', 'opaque')) for a, v in K.log)
                    if only and K.log:
                        try: check(K, ob)
                        except (No, strlang.Unsupported): continue
                        _gives[key] = True
    return _gives[key]
_gives = {}

def images(K, ob):
    """where the parts of an image reference matter: some simple references"""
    found = set()
    contains((tuple(K.b), tuple(K.i), tuple(K.v)), lambda y: y[0] == 'imgparse' and found.add(y))
    if not found: yield K; return
    if len(found) > 1: return
    im = found.pop(); S = im[1]
    name = next((n for n in ob.P.adts if n.endswith('::ImageRef')), None)
    if name is None: return
    fs = ob.P.adts[name]['variants'][0]['f']
    if not {'registry', 'image', 'tag', 'hash'} <= set(fs): return
    def part(c): f = ('find', S, ('str', c)); return mk_substr(S, ('int', 0), f), mk_substr(S, add(f, ('int', 1)), slen(S))
    no = lambda c: (('contains', S, ('str', c)), False)
    for kind in ('digest', 'tag', 'plain'):
        vals = {'registry': NONE, 'tag': NONE, 'hash': NONE, 'image': S}; more = [no('/')]
        if kind == 'plain': more += [no('@'), no(':')]
        else:
            c = '@' if kind == 'digest' else ':'
            vals['image'], rest = part(c); vals['hash' if kind == 'digest' else 'tag'] = some(rest)
            more += [(('prefix', S, ('str', 'a' + c)), True)]
            if kind == 'tag': more.append(no('@'))
        v = ('adt', name, 0, tuple(vals.get(f, NONE) for f in fs))
        J = Conds()
        if ob.pre:
            class P: pass
            p = P(); p.conds = J; ob.pre(p)
        if all(J.assume(b if b[0] in BOOLS else ('atom', b), w) for b, w in [(subst(a, {im: v}), w) for a, w in K.log] + [(('atom', a), w) for a, w in more]):
            if not ob.facts or ob.facts(J): yield J

def node(X):
    """is it a node of the parse tree at a known place"""
    while X[0] == 'elem' and X[1][0] in ('children', 'descendants') and X[2][0] == 'int': X = X[1][1]
    return X[0] == 'arg' or X[0] == 'root' and data(X[2])
def data(t):
    """a part of an argument that may be anything"""
    while t[0] in ('fld', 'elem') and (t[0] == 'fld' or t[1][0] in ('fld', 'arg', 'elem') and t[2][0] in ('int', 'parse_usize', 'arg')): t = t[1]
    return t[0] == 'arg'
def flat(t):
    """number of steps below the argument"""
    n = 0
    while t[0] in ('fld', 'elem'): t = t[1]; n += 1
    return n

def check(K, ob):
    if linear.infeasible(linear.facts_of(K)): raise No('numbers')
    stage_facts(K)
    parsed = set(); numbers = set(); strs = {}; pstr = {}; groups = {}; images = set(); eqs = []
    def string(r, why):
        b = strlang.base_term(r[0])
        if b[0] == 'pstr':
            if not node(b[1]): raise No(why)
            pstr.setdefault(b, []).append(r)
        elif data(b): strs.setdefault(b, []).append(r)
        else: raise No(why)
    for a, v in K.b.items():
        if not isinstance(a, tuple) or not a or not isinstance(a[0], str): raise No(a)
        r = strlang.constraint(a, v, K)
        if r: string(r, a); continue
        if a[0] == 'atom': a = a[1]
        if a[0] == 'boundary':
            c, d = lin_parts(a[2])
            if not d: part, k = a[1], c
            else:
                if len(d) != 1: raise No(a)
                f = next(iter(d))
                if f[0] not in ('find', 'rfind') or d[f] != 1 or c < 0: raise No(a)
                part, k = ('substr', a[1], f, slen(a[1])), c
            string((part, ('nb', k), not v), a); continue
        if a[0] == 'unqok':
            string((a[1], ('unq',), v), a); continue
        if a[0] == 'group' and a[1][0] == 'elem' and a[1][1][0] == 'captures' and data(strlang.base_term(a[1][1][2])) and a[1][1][1][0] == 'regex':
            groups.setdefault(a[1], {})[a[2]] = v; continue
        if a[0] == 'mhas' and data(a[1]) : continue
        if a[0] == 'setempty' and data(a[1]): continue
        if a[0] == 'pestok' and data(a[2]):
            parsed.add(a[2]); continue
        if a[0] == 'insok' and node(a[1]): continue
        if a[0] == 'parses' and a[1] == 'usize' and data(a[2]):
            if v: numbers.add(a[2])
            else: strs.setdefault(a[2], []).append((a[2], ('re', '^\\+?[0-9]+$'), False))
            continue
        if a[0] == 'eq':
            x, y = a[1], a[2]
            if y[0] in ('str', 'char', 'int'): raise No(a)
            bx, by = strlang.base_term(x), strlang.base_term(y)
            if not all(data(b) or b[0] == 'pstr' and node(b[1]) for b in (bx, by)): raise No(a)
            eqs.append((bx, by, v)); continue
        if a[0] == 'arg' or data(a): continue
        raise No(a)
    nums = []; octets = {}; measured = set()
    for base, (lo, hi, ex) in K.i.items():
        d = lin_parts(base)[1]
        r = None
        try: r = strlang.lengths(base, lo, hi)
        except strlang.Unsupported: pass
        if r:
            string((r[0], r[1], True), base)
            for x in ex:
                q = strlang.lengths(base, x, x)
                if q: string((q[0], q[1], False), base)
            continue
        for x in d:
            if x[0] == 'len' and x[1][0] == 'children' and node(x[1][1]) and len(d) == 1: continue
            if x[0] == 'len' and x[1][0] == 'descendants' and node(x[1][1]) and len(d) == 1: continue
            if x[0] == 'len' and data(x[1]): measured.add(x[1]); continue
            if x[0] == 'len' and x[1][0] == 'captures' and len(d) == 1 and data(strlang.base_term(x[1][2])) and x[1][1][0] == 'regex':
                if hi == 0: string((x[1][2], ('re', x[1][1][1]), False), base)
                elif (lo or 0) <= 3 and hi is None: string((x[1][2], ('re', x[1][1][1]), True), base)
                else: raise No(base)
                continue
            if x[0] == 'parse_usize' and data(x[1]) and x[1] in numbers: continue
            if x[0] == 'elem' and x[1][0] == 'bytes' and data(x[1][1]) and x[2][0] == 'int' and len(d) == 1 and d[x] == 1:
                c = lin_parts(base)[0]
                if not any((lo is None or c + j >= lo) and (hi is None or c + j <= hi) and c + j not in ex for j in range(128)): raise No(base)
                octets.setdefault(x[1][1], []).append(x[2][1]); continue
            if x[0] == 'arg': continue
            if x[0] == 'fld' and data(x) and ob.ints: continue
            raise No(base)
        nums.append(base)
    for x, s in K.v.items():
        if x[0] == 'rule':
            if not node(x[1]): raise No(x)
        elif x[0] == 'eqc': continue
        elif x[0] == 'fld' or x[0] == 'elem' or x[0] == 'arg':
            if not data(x): raise No(x)
            images.add(x)
        elif x[0] == 'parse_res' : continue
        else: raise No(x)
    if len([x for x in images if flat(x) <= 1 and x[0] == 'fld' and x[2].endswith('ImageRef')]) > 1: raise No('image')
    for bx, by, v in eqs:
        if v and (bx in strs or bx in pstr) and (by in strs or by in pstr): raise No('eq')
        if v and bx == by: raise No('eq')
    for c, g in groups.items():
        ps = participation(c[1][1][1])
        if not any(all((i[1] in p) == v for i, v in g.items()) for p in ps): raise No('groups')
    for b in set(numbers) | set(octets) | measured:
        if any(c[0] != 'len' or t != b for t, c, v in strs.get(b, ())): raise No(b)
    for b in parsed:
        if b in strs or b in measured or b in numbers or b in octets: raise No(b)
    for b in numbers:
        if b in octets or strs.get(b): raise No(b)
    for b, cs in strs.items():
        if not strlang.decide_exactly(cs + in_document(b)): raise No(b)
    for b, cs in pstr.items():
        if not ob.tf: raise No(b)
        rs = K.v.get(('rule', b[1]))
        if rs is None: raise No(b)
        if not any(exact_text(ob.tf, ob.tf.name[i], cs) for i in rs if i in ob.tf.name): raise No(b)

def holders(t):
    out = []
    while t[0] in ('fld', 'elem', 'len'):
        if t[0] == 'fld': out.append((t[2].split('::')[-1], t[3], t[4]))
        t = t[1]
    return out
WORD = '^[^\\s"\'\\\\]+$'
def in_document(t):
    """what the strings of a parsed document look like"""
    hs = holders(t); names = [h[0] for h in hs]
    if 'ImageRef' in names[:-1]: raise No(t)
    if not hs or 'Dockerfile' == names[0] or 'ImageRef' in names or 'StringArray' in names or names == ['SpannedString']: return []
    if 'BreakableString' in names or 'BreakableStringComponent' in names: return [(t, ('prefix', '#'), True)] if 'SpannedComment' in names else [(t, ('len', 1, None), True)]
    if 'SpannedComment' in names: return [(t, ('prefix', '#'), True)]
    return [(t, ('re', WORD), True)]
def stage_facts(K):
    """a stage starts with its FROM and holds no other"""
    for x, s in K.v.items():
        if x[0] == 'elem' and x[1][0] == 'fld' and x[1][2].endswith('::Stage') and x[2][0] == 'int':
            if x[2][1] == 0 and 0 not in s: raise No(x)
            if x[2][1] > 0 and s == {0}: raise No(x)
        elif x[0] == 'fld' and x[2].endswith('::Stage') or holders(x) and holders(x)[0][0] == 'StageParent': raise No(x)
    for b, (lo, hi, ex) in K.i.items():
        for x in lin_parts(b)[1]:
            if x[0] == 'len' and x[1][0] == 'fld' and x[1][2].endswith('::Stage') and (hi is not None and hi <= 0 or len(lin_parts(b)[1]) > 1): raise No(x)

def participation(p):
    """sets of groups of a regular expression that may take part together in a match"""
    tree, _ = strlang.parse_regex(p)
    def seq(items):
        out = {frozenset()}
        for it in items:
            op, av = it; o = str(op)
            if o == 'SUBPATTERN':
                inner = seq(av[3])
                if av[0] is not None: inner = {x | {av[0]} for x in inner}
            elif o == 'BRANCH': inner = set().union(*[seq(b) for b in av[1]])
            elif 'REPEAT' in o:
                inner = seq(av[2])
                if av[0] == 0: inner = inner | {frozenset()}
                if av[1] == 0: inner = {frozenset()}
            else: inner = {frozenset()}
            out = {x | y for x in out for y in inner}
        return out
    return seq(tree)

def exact_text(tf, r, cs):
    """is there a token of rule r that satisfies conditions on its text (over bytes)"""
    D = tf.text(r)
    if D is None: raise No(r)
    A = tf.A
    sets = []
    for t, c, v in cs: sets.append(strlang.term_sets(t)); sets.append(strlang.own_sets(c))
    L = strlang.Lang(set().union(*sets) | {frozenset(ord(x) if ord(x) < 128 else 128 for x in cl if True) & strlang.ALL for cl in class_sets(A)})
    # the token's automaton over bytes
    n = [D.n()]
    def build(new, edge, ep, s):
        ids = [new() for _ in range(D.n())]
        ep(s, ids[0])
        for q, row in enumerate(D.trans):
            for a, to in row.items():
                asc, hi = class_bytes(A, a)
                if asc: edge(ids[q], asc, ids[to])
                if hi:
                    p = ids[q]
                    for j in range(4):
                        m = new(); edge(p, frozenset([strlang.HI]), m); p = m
                        if j: ep(m, ids[to])
        return {ids[q] for q in range(D.n()) if D.acc[q]}
    T = L.build(build)
    for t, c, v in cs:
        T = L.inter(T, strlang.preimage(L, t, strlang.solutions(L, c, v)))
        if L.empty(T): return False
    return True
def class_bytes(A, a):
    cl = A.classes[a]
    asc = frozenset(ord(c) for c in cl if ord(c) < 128) if cl is not None else frozenset()
    return asc, any(ord(c) >= 128 for c in cl)
def class_sets(A): return A.classes
