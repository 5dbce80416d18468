"""An endless loop, shown by a text that drives it round in a circle.

A loop without a ranking function whose variables are strings and numbers computed from tokens or arguments: texts are chosen
for those (tokens keep to the language of their rule), the loop's own updates are evaluated on them, and a state that comes back
shows that the loop never ends for that text."""
import random, time
from terms import *
from equiv import *
import sample
from sample import World, No
from reach import chain
from peg import uc

BAD = (No, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError)

def const(v):
    if isinstance(v, bool): return ('bool', v)
    if isinstance(v, int): return ('int', v)
    if isinstance(v, str): return ('str', v)
    if isinstance(v, list): return mk_vec([('one', const(x)) for x in v])
    if isinstance(v, tuple) and v[0] == 'A': return ('adt', v[1], v[2], tuple(const(x) for x in v[3]))
    if isinstance(v, tuple) and v[0] == 'T': return ('tup', tuple(const(x) for x in v[1:]))
    raise No(v)

class Tokens:
    """texts of a token"""
    def __init__(self, tf, rules):
        self.tf, self.rules = tf, rules
        self.Ds = [D for D in (tf.text(r) for r in rules) if D is not None]
        self.A = tf.A
    def member(self, s):
        for D in self.Ds:
            q = 0
            for c in s:
                q = D.trans[q].get(self.A.of.get(uc(c)), -1)
                if q < 0: break
            else:
                if D.acc[q]: return True
        return False
    def random(self, rnd, pool):
        if not self.Ds: raise No('token')
        D = rnd.choice(self.Ds); q, out = 0, ''
        chars = ''.join(pool) + 'ab'
        # distance to an accepting state
        if not hasattr(D, 'far'):
            far = {i: 0 for i in range(D.n()) if D.acc[i]}; ch = True
            while ch:
                ch = False
                for i in range(D.n()):
                    for a, t in D.trans[i].items():
                        if t >= 0 and t in far and far[t] + 1 < far.get(i, 1 << 30): far[i] = far[t] + 1; ch = True
            D.far = far
        n = rnd.choice((0, 2, 4, 8, 12))
        for k in range(60):
            if D.acc[q] and (k >= n or not D.trans[q]): return out
            es = [(a, t) for a, t in D.trans[q].items() if t >= 0 and t in D.far and (k < n or D.far[t] < D.far[q])]
            if not es: break
            if rnd.random() < .7:
                want = [(a, t) for a, t in es if self.A.classes[a] and any(c in chars for c in self.A.classes[a])]
                es = want or es
            a, q = rnd.choice(es)
            cl = self.A.classes[a]
            cs = [c for c in chars if cl is not None and c in cl] or sorted(cl or 'z')[:4]
            out += rnd.choice(cs)
        raise No('token')

def endless(ob, code, J0, loops, clean, logs, asg, seconds=20):
    """(loop, example) or None"""
    t1 = time.time() + seconds
    rnd = random.Random(5)
    stack = [(code.cuts[0], {}, J0, 0)]
    while stack:
        cut, env, J, n = stack.pop()
        if time.time() > t1: return None
        if cut in loops:
            ex = around(ob, cut, env, J, rnd, t1, logs, asg)
            if ex: return cut, ex, J
            continue
        for t in cut.trans:
            if t.target is None or n > 4: continue
            K = Conds(J)
            if not all(K.assume(b if b[0] in BOOLS else ('atom', b), v) for b, v in ((clean(subst(a, env)), v) for a, v in logs[id(t)])): continue
            if ob.facts and not ob.facts(K): continue
            e2 = dict(env)
            for p, v in asg[id(t)].items(): e2[p] = clean(canon(subst(v, env), K))
            stack.append((t.target, e2, K, n + 1))
    return None

def around(ob, cut, env, J, rnd, t1, logs, asg):
    every = []
    seen = set(); todo = [cut]
    while todo:
        c = todo.pop()
        if c.id in seen: continue
        seen.add(c.id)
        for t in c.trans:
            every += list(asg[id(t)].values()) + [a for a, v in logs[id(t)]]
            if t.target is not None: todo.append(t.target)
    log = [(a[1] if a[0] == 'atom' else a, v) for a, v in J.log]
    W = World(log, tuple(env.values()) + tuple(every), rnd)
    toks = {}
    def fresh(key, sort):
        if isinstance(key, tuple) and key[:1] == ('pstr',):
            if key not in toks:
                rs = J.v.get(('rule', key[1]))
                toks[key] = Tokens(ob.tf, [ob.tf.name[i] for i in rs if i in ob.tf.name]) if rs and ob.tf else None
            T = toks[key]
            if T:
                if key in W.env and rnd.random() < .8:
                    for _ in range(20):
                        s = W.env[key]; i = rnd.randint(0, len(s)); j = min(len(s), i + rnd.randint(0, 2))
                        s = s[:i] + rnd.choice(W.pool) + s[j:]
                        if T.member(s): return s
                return T.random(rnd, W.pool)
        return World.fresh(W, key, sort)
    W.fresh = fresh
    for k in range(2000):
        if time.time() > t1: return None
        if k % 40 == 0: W.env = {}
        elif W.env:
            key = rnd.choice(sorted(W.env, key=repr)); v = W.env[key]
            W.env[key] = fresh(key, 'str' if isinstance(v, str) else 'bool' if isinstance(v, bool) else 'int')
        W.used = set()
        try:
            if not all(W.truth(a) == v for a, v in log if known(W, a)): continue
        except BAD: continue
        st = {p: value(W, v) for p, v in env.items()}
        if turns(W, J, cut, st, logs, asg): return {show(q): v for q, v in W.env.items()}
    return None

def known(W, a):
    """conditions on the shape of the tree are settled by the path itself"""
    return not contains(a, lambda y: y[0] in ('children', 'descendants', 'rule')) or contains(a, lambda y: y[0] == 'pstr')

def value(W, v):
    if tree(v): return v
    try: return const(W.ev(v))
    except BAD: return v
def tree(a): return contains(a, lambda y: y[0] in ('children', 'descendants', 'rule')) and not contains(a, lambda y: y[0] == 'pstr')

def turns(W, J, cut, st, logs, asg):
    seen = set()
    def holds(a, v):
        a = subst(a[1] if a[0] == 'atom' else a, st)
        if not known(W, a):
            # the shape of the tree: as the path so far has it
            K = Conds(J)
            return K.assume(a if a[0] in BOOLS else ('atom', a), v)
        return W.truth(a) == v
    for _ in range(60):
        key = (cut.id, tuple(sorted(st.items(), key=repr)))
        if key in seen: return True
        seen.add(key)
        for t in cut.trans:
            try:
                if all(holds(a, v) for a, v in logs[id(t)]): break
            except BAD: return False
        else: return False
        if t.target is None: return False
        nx = {p: value(W, subst(v, st)) for p, v in asg[id(t)].items()}
        live = {p for x in chain(t.target) for p in x.phis.values()}
        st = {p: v for p, v in st.items() if p in live}; st.update(nx)
        cut = t.target
    return False
