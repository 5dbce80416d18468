"""A difference found by the equivalence engine is reported only together with a concrete joint path.

The engine works with loop variables; its inferred relations may be too weak, so a difference seen
there may not be real.  Here both systems are unrolled from their entries with the loop variables
replaced by their actual values.  A path of the code and a path of the specification whose conditions
hold together, and which end differently, are the witness; without one the obligation is undecided.
"""
import linear, os, random, time
import sample, strlang
from equiv import *

class Budget(Exception): pass

class Path:
    __slots__ = ('t', 'value', 'mem', 'J', 'steps', 'kind')
    def __init__(self, t, value, mem, J, steps): self.t, self.value, self.mem, self.J, self.steps, self.kind = t, value, mem, J, steps, t.kind

class Confirm:
    def __init__(self, E, init=None, facts=None, budget=40, max_steps=10):
        self.E, self.facts, self.t1, self.max_steps = E, facts, time.time() + budget, max_steps
        self.init = init
        self.joint = self.alike = 0
        # functions the specification leaves open too
        self.spec_calls = set(); seen = set()
        for t in E.spec.transitions():
            for x in (t.value, tuple((t.mem or {}).values()), tuple(a for a, v in t.log), tuple(t.assign.values())):
                if x is not None: contains(x, lambda y: y[0] in ('opaque', 'after', 'rec') and self.spec_calls.add(y[1]), seen)

    def logs(self, t): return t.log

    def steps(self, cut, env, J, only=None):
        """transitions of a control point possible under J: (transition, new facts, new environment)"""
        out = []
        for t in only or cut.trans:
            if time.time() > self.t1: raise Budget()
            K = Conds(J); good = True
            for a, v in t.log:
                b = subst(a, env) if env else a
                if not K.assume(self.E.bool_of(self.E.settle(b, K)), v): good = False; break
            if not good: continue
            if self.facts and not self.facts(K): continue
            e2 = None
            if t.target is not None:
                e2 = dict(env)
                for p, v in t.assign.items(): e2[p] = canon(subst(v, env), K)
            out.append((t, K, e2))
        return out

    def end(self, t, env, K, n):
        val = subst(t.value, env) if t.value is not None else None
        return Path(t, val, {i: subst(v, env) for i, v in (t.mem or {}).items()}, K, n)

    def finish(self, cut, env, J, limit):
        """ends of the specification reachable from here"""
        stack = [(cut, env, J, 0)]
        while stack:
            cut, env, J, n = stack.pop()
            for t, K, e2 in reversed(self.steps(cut, env, J)):
                if t.target is None: yield self.end(t, env, K, n + 1)
                elif n + 1 < limit: stack.append((t.target, e2, K, n + 1))

    def walk(self, limit, J0):
        """code paths of exactly limit transitions, with the specification following along"""
        stack = [(self.E.code.cuts[0], {}, J0, 0, (self.E.spec.cuts[0], {}))]
        while stack:
            cut, env, J, n, sp = stack.pop()
            # the specification follows as long as the code's facts leave it one way
            while True:
                st = self.steps(sp[0], sp[1], J)
                if len(st) != 1 or st[0][0].target is None: break
                J = st[0][1]; sp = (st[0][0].target, st[0][2])
            for t, K, e2 in reversed(self.steps(cut, env, J)):
                if t.target is None:
                    if n + 1 == limit: yield self.end(t, env, K, n + 1), sp
                elif n + 1 < limit: stack.append((t.target, e2, K, n + 1, sp))

    def outcomes_differ(self, a, b):
        J = b.J
        E = self.E
        if b.kind == 'panic': return None
        if E.skip and E.skip(a.kind, a.value, b.value, J): return None
        if a.kind == 'panic':
            if not self.panic_counts(a): return None
            return 'panics (%s) where %s is specified' % (a.value[1], show(E.norm(b.value, {}, J))[:160])
        x, y = E.norm(a.value, {}, J), E.norm(b.value, {}, J)
        if x != y and not E.same(x, y, a.value, b.value, J) and distinct(x, y): return E.differs('returns', x, y)
        for i in set(a.mem) | set(b.mem):
            x = E.norm(a.mem.get(i, ('none',)), {}, J); y = E.norm(b.mem.get(i, ('none',)), {}, J)
            if x != y and not alike(x, y, J) and distinct(x, y): return E.differs('leaves argument %d as' % i, x, y)
        return None

    def panic_counts(self, p):
        k = str(p.value[1])
        return k in ('index out of bounds', 'map index', 'Vec::remove') or 'panicking' in k or 'unwrap' in k or 'expect' in k or 'panic_' in k

    def understood(self, p):
        """no call the interpreter has no meaning for decides this path or its outcome"""
        bad = lambda x: x[0] == 'unordered' or x[0] in ('opaque', 'after', 'rec') and x[1] not in self.spec_calls
        if contains(p.value, bad) or contains(tuple(p.mem.values()), bad): return False
        return not any(contains(a, bad) for a, v in p.J.log)

    def run(self):
        J0 = Conds()
        wraps = lambda t: contains(tuple(t.assign.values()) + (t.value, tuple((t.mem or {}).values()), tuple(a for a, v in t.log)), lambda x: x and x[0] == 'wrap')
        ts = [t for t in self.E.code.transitions() if wraps(t)]
        for t in ts:
            # a counter that wraps is unrolled as if it had one bit, so that few rounds show it
            f = lambda x: narrow_wraps(x)
            t.assign = {p: f(v) for p, v in t.assign.items()}
            if t.value is not None: t.value = f(t.value)
            if t.mem: t.mem = {i: f(v) for i, v in t.mem.items()}
            t.log = [(f(a), v) for a, v in t.log]
        if self.init:
            class S: pass
            s = S(); s.conds = J0; self.init(s)
        return self.search(J0) or self.scaled(J0)

    def scaled(self, J0):
        """a number that limits how often a loop goes round is made small, in two ways: a difference seen with both is there with the
        real limit too, after as many rounds more"""
        ts = self.E.code.transitions()
        big, had = set(), set()
        for t in ts: counts(t, big)
        for t in self.E.spec.transitions(): counts(t, had)
        # what a digest looks like is a condition of its own, in which the length is not written out
        hidden = lambda y: y[0] in ('digestok', 'imgparse')
        if any(contains((tuple(t.log), tuple(t.assign.values()), t.value), hidden) for X in (self.E.code, self.E.spec) for t in X.transitions()): had |= {64, 71}
        big = sorted(c for c in big if not any(abs(c - d) <= 2 for d in had))
        if not big or len(self.E.code.cuts) < 2: return None
        hits = []
        was = [(t, t.assign, t.value, t.mem, t.log) for t in ts]
        for k in (2, 3):
            new, last = {}, None
            for c in big:
                new[c] = new[last] + c - last if last is not None and c - last <= 3 else k
                last = c
            f = lambda x: shrunk(x, new)
            for t in ts:
                t.assign = {p: f(v) for p, v in t.assign.items()}
                if t.value is not None: t.value = f(t.value)
                if t.mem: t.mem = {i: f(v) for i, v in t.mem.items()}
                t.log = [(f(a), v) for a, v in t.log]
            self.t1 = time.time() + 10
            try: hits.append(self.search(J0))
            finally:
                for t, a, v, m, l in was: t.assign, t.value, t.mem, t.log = a, v, m, l
            if not hits[-1]: return None
        m, J = hits[0]
        m.why = (m.why or '') + ' (with %s lowered to 2; after more rounds also as it is)' % ', '.join(map(str, big))
        return m, J

    def search(self, J0):
        t0, t1 = time.time(), self.t1
        self.t1 = t0 + (t1 - t0) * .5
        try:
            for lim in range(1, self.max_steps + 1):
                for a, sp in self.walk(lim, J0):
                    r = self.check(a, sp, lim + 4)
                    if r: return r
        except Budget: pass
        self.t1 = t1
        try:
            rnd = random.Random(1)
            for k in range(100000):
                a, sp, n = self.stroll(rnd, (4, 8, 16, 24)[k % 4], J0)
                r = a is not None and self.check(a, sp, n + 4)
                if r: return r
        except Budget: pass
        return None

    def check(self, a, sp, limit):
        if not self.understood(a): return None
        for b in self.finish(sp[0], sp[1], a.J, limit):
            self.joint += 1
            why = self.outcomes_differ(a, b)
            if why is None: continue
            K = closed(b.J)
            if K is None or compared(K) or linear.infeasible(linear.facts_of(K)) or texts_clash(K): continue
            b = Path(b.t, b.value, b.mem, K, b.steps)
            why = self.outcomes_differ(a, b)
            if why is None: continue
            if a.kind != 'panic':
                verdict, ex = sample.judge(K.log, self.E.norm(a.value, {}, K), self.E.norm(b.value, {}, K), part=a.J.log) if a.value is not None and same_mem(a.mem, b.mem) else ('open', 'mem')
                if os.environ.get('VP_JUDGE'): open(os.environ['VP_JUDGE'], 'a').write('%s\t%s\t%s\n' % (verdict, ex, why[:300]))
                # written differently, yet the same under every example that meets the conditions of the path
                if verdict == 'same' and ex >= 20: self.alike += 1; continue
                # the code's path has examples, and none of them meets the conditions of the specification's path
                if verdict == 'impossible': continue
                if verdict == 'open' and hidden_equal(K.log, a, b): self.alike += 1; continue
                if verdict == 'differ' and ex: why += ' (for example with ' + ', '.join('%s = %r' % (k[:60], v) for k, v in list(ex.items())[:6]) + ')'
            return Mismatch('value', a.t, b.t, why, True), b.J

    def stroll(self, rnd, least, J):
        """one path of the code, taken at random, that stays in its loops for a while"""
        cut, env, n = self.E.code.cuts[0], {}, 0
        sp = (self.E.spec.cuts[0], {})
        while True:
            while True:
                st = self.steps(sp[0], sp[1], J)
                if len(st) != 1 or st[0][0].target is None: break
                J = st[0][1]; sp = (st[0][0].target, st[0][2])
            n += 1
            # the first possible transition in random order, those that go on before those that end
            ts = list(cut.trans); rnd.shuffle(ts)
            if n < least: ts.sort(key=lambda t: (t.target is None, t.kind == 'panic'))
            elif n > 3 * least: return None, sp, n
            else: ts.sort(key=lambda t: t.target is not None)
            for t in ts:
                st = self.steps(cut, env, J, [t])
                if st: break
            else: return None, sp, n
            t, J, e2 = st[0]
            if t.target is None: return self.end(t, env, J, n), sp, n
            cut, env = t.target, e2

def texts_clash(K):
    """do the conditions on one text (whatever it is computed from) rule each other out"""
    by = {}
    for a, v in K.b.items():
        q = a[1] if a[0] == 'atom' else a
        try: r = strlang.constraint(q, v, K)
        except strlang.Unsupported: r = None
        if r and r[0][0] != 'pstr': by.setdefault(r[0], []).append((('arg', 0), r[1], r[2]))
    return any(len(cs) > 1 and not strlang.decide(cs) for cs in by.values())

CUTS = ('split', 'rsplit', 'splitn', 'rsplitn', 'split_terminator', 'split_inclusive', 'lines', 'matches', 'match_indices', 'split_whitespace', 'char_indices')
MADE = CUTS + ('replace', 'replacen', 'cat', 'concat', 'substr', 'lower', 'chstr')
def hidden_equal(log, a, b):
    """without an example: may two texts that are computed in different ways from the same one be the same text here"""
    def pieces(x): return contains(x, lambda y: y[0] in ('elem', 'len') and y[1][0] in CUTS)
    if pieces((tuple(q for q, v in a.J.log), a.value)) != pieces((tuple(q for q, v in b.t.log), b.t.value)): return True
    made = lambda x: contains(x, lambda y: y[0] in MADE or isinstance(y[0], str) and y[0].startswith('s_'))
    def leaves(x):
        out = set(); contains(x, lambda y: y[0] in ('pstr', 'arg') and out.add(y)); return out
    known = [(q[1] if q[0] == 'atom' else q, v) for q, v in log]
    known = [(q, v) for q, v in known if q[0] in sample.UF_BOOL or q[0] in ('digestok', 'rmatch', 'parses')]
    for q, v in known:
        for r, w in known:
            if v and not w and q[0] == r[0] and len(q) == len(r) and (made(q[1:]) or made(r[1:])) and leaves(q) & leaves(r): return True
    return False

def same_mem(x, y): return all(x.get(i) == y.get(i) for i in set(x) | set(y))

def texty(x): return contains(x, lambda y: y[0] in ('bytes', 'chars', 'char'))
def counts(t, out):
    """large numbers that counters start at or are compared with"""
    for p, v in t.assign.items():
        if v[0] == 'int' and 40 <= v[1] < 1 << 40: out.add(v[1])
    for a, v in t.log:
        a = a[1] if a[0] == 'atom' else a
        if a[0] in ('ile', 'ieq') and not texty(a[1]):
            c = abs(a[2])
            if 40 <= c < 1 << 40: out.add(c)
def shrunk(t, new):
    if not isinstance(t, tuple) or not t: return t
    if t[0] == 'int': return ('int', new.get(t[1], t[1]))
    if t[0] in ('ile', 'ieq') and not texty(t[1]):
        c = t[2]
        return (t[0], shrunk(t[1], new), new.get(c, -new[-c] if -c in new else c))
    if t[0] in ('str', 'char', 'bool', 'fn', 'adt', 'lin', 'ile', 'ieq'): return t if t[0] != 'adt' else t[:3] + (tuple(shrunk(x, new) for x in t[3]),)
    return rebuild(t, lambda x: shrunk(x, new))

def narrow_wraps(t):
    if not isinstance(t, tuple): return t
    if t and t[0] == 'wrap': return wrapped(1, narrow_wraps(t[2]))
    if t and t[0] in ('int', 'str', 'char', 'bool', 'fn'): return t
    return rebuild(t, narrow_wraps)

def distinct(x, y): return True

def compared(J):
    """two sequences compared as a whole and element by element: the path may contradict itself"""
    for a, v in J.b.items():
        if a[0] != 'eq' or v or is_const(a[2]): continue
        parts = lambda s: lambda y: y[0] in ('elem', 'subseq', 'substr') and (y[1] == s or y[1][0] in ('bytes', 'chars') and y[1][1] == s)
        if any(b != a and contains(b, parts(a[1])) and contains(b, parts(a[2])) for b, w in J.log): return True
    return False
