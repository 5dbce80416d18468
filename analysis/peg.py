"""Exact languages of parsing expression grammars.

The annotated language of a rule is the set of all accepted texts, each interleaved with the begin and
end markers of the tokens the parser reports.  It is computed by derivatives of Boolean combinations of
continuation stacks: an ordered choice a/b followed by k is  a.k  or  (not a.anything  and  b.k); the
second conjunct is a condition on the remaining text only.  Combinations are kept as decision diagrams,
so equal combinations are the same state and the result is a deterministic automaton.
"""
import sys
from pestfile import GrammarError

UNI = [chr(i) for i in range(128)] + ['\u00e9', '\u0663', '\u2003', '\u3042', '\U0001f600', '\u212a', '\u0085']
U = frozenset(UNI)
def cs(s): return frozenset(s)
ALPHA = cs('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
DIGIT = cs('0123456789')
BUILTIN = {
    'ANY': U, 'ASCII_DIGIT': DIGIT, 'ASCII_NONZERO_DIGIT': DIGIT - {'0'}, 'ASCII_BIN_DIGIT': cs('01'), 'ASCII_OCT_DIGIT': cs('01234567'),
    'ASCII_HEX_DIGIT': cs('0123456789abcdefABCDEF'), 'ASCII_ALPHA_LOWER': cs('abcdefghijklmnopqrstuvwxyz'),
    'ASCII_ALPHA_UPPER': cs('ABCDEFGHIJKLMNOPQRSTUVWXYZ'), 'ASCII_ALPHA': ALPHA, 'ASCII_ALPHANUMERIC': ALPHA | DIGIT,
    'ASCII': frozenset(chr(i) for i in range(128)), 'WHITE_SPACE': frozenset(c for c in UNI if c.isspace() or c == '\u0085') - cs('\x1c\x1d\x1e\x1f'),
    'ALPHABETIC': frozenset(c for c in UNI if c.isalpha()), 'LETTER': frozenset(c for c in UNI if c.isalpha()),
    'NUMBER': frozenset(c for c in UNI if c.isnumeric()), 'DECIMAL_NUMBER': frozenset(c for c in UNI if c.isdecimal()),
    'UPPERCASE': frozenset(c for c in UNI if c.isupper()), 'LOWERCASE': frozenset(c for c in UNI if c.islower()),
    'UPPERCASE_LETTER': frozenset(c for c in UNI if c.isupper()), 'LOWERCASE_LETTER': frozenset(c for c in UNI if c.islower()),
}
def uc(c): return c if c in U else UNI[128]      # an unlisted non-ASCII literal stands for itself only approximately

# ------------------------------------------------------------------ conditions on the remaining text
class Pool:
    """regular languages over character classes, one number per language (0: none, 1: all)"""
    def __init__(self, k):
        self.k = k
        self.acc = [False, True]; self.trans = [(0,) * k, (1,) * k]
        self.flat = {}                  # states outside of cycles, by acceptance and row
        self.cyc = {}                   # canonical text of a cyclic component from each of its states
        self.memo = {}
    def add(self, acc, rows):
        """local automaton: rows[q] = [local state or ('g', id)] -> ids"""
        n = len(acc); k = self.k
        # minimise
        ext = {}
        cls = [1 if x else 0 for x in acc]; m = len(set(cls))
        while True:
            sig = {}; new = []
            for q in range(n):
                new.append(sig.setdefault((cls[q], tuple([cls[t] if isinstance(t, int) else t for t in rows[q]])), len(sig)))
            cls = new
            if len(sig) == m: break
            m = len(sig)
        rep = {}
        for q in range(n): rep.setdefault(cls[q], q)
        R = {c: [cls[t] if isinstance(t, int) else t for t in rows[q]] for c, q in rep.items()}
        A = {c: bool(acc[q]) for c, q in rep.items()}
        # components, successors first
        idx, low, st, on, comps, cnt = {}, {}, [], set(), [], [0]
        for root in R:
            if root in idx: continue
            work = [(root, iter(set(t for t in R[root] if isinstance(t, int))))]
            idx[root] = low[root] = cnt[0]; cnt[0] += 1; st.append(root); on.add(root)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]; cnt[0] += 1; st.append(w); on.add(w)
                        work.append((w, iter(set(t for t in R[w] if isinstance(t, int))))); break
                    elif w in on: low[v] = min(low[v], idx[w])
                else:
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        c = []
                        while True:
                            w = st.pop(); on.discard(w); c.append(w)
                            if w == v: break
                        comps.append(c)
        gid = {}
        for c in comps:
            if len(c) == 1 and c[0] not in R[c[0]]:
                q = c[0]; self.ext(gid, q, A[q], tuple([gid[t] if isinstance(t, int) else t[1] for t in R[q]])); continue
            inside = set(c)
            # a cycle all of whose states are as if they were one existing state
            for q in c:
                order = {q: 0}; todo = [q]; text = []
                for v in todo:
                    row = [A[v]]
                    for t in R[v]:
                        if isinstance(t, int) and t in inside:
                            if t not in order: order[t] = len(order); todo.append(t)
                            row.append(-1 - order[t])
                        else: row.append(gid[t] if isinstance(t, int) else t[1])
                    text.append(tuple(row))
                text = tuple(text)
                g = self.cyc.get(text)
                if g is None:
                    # may behave like a state that exists: all its successors outside agree
                    if len(c) == 1:
                        outs = set(x for x in text[0][1:] if x >= 0)
                        for b in (0, 1):
                            if self.acc[b] == A[q] and all(x == b for x in outs): g = b
                    if g is None:
                        g = len(self.acc); self.acc.append(A[q]); self.trans.append(None)
                    self.cyc[text] = g
                gid[q] = g
            for q in c:
                if self.trans[gid[q]] is None:
                    self.trans[gid[q]] = tuple([gid[t] if isinstance(t, int) else t[1] for t in R[q]])
                    self.flat.setdefault((A[q], self.trans[gid[q]]), gid[q])
        return [gid[cls[q]] for q in range(n)]
    def ext(self, gid, q, acc, row):
        key = (acc, row)
        if acc == False and all(x == 0 for x in row): gid[q] = 0; return
        if acc and all(x == 1 for x in row): gid[q] = 1; return
        g = self.flat.get(key)
        if g is None:
            g = self.flat[key] = len(self.acc); self.acc.append(acc); self.trans.append(row)
        gid[q] = g
    def build(self, start, step, accept, simple):
        """explore local states; simple(s) -> id of an existing language or None"""
        g = simple(start)
        if g is not None: return g
        ids = {start: 0}; todo = [start]; acc, rows = [], []
        i = 0
        while i < len(todo):
            s = todo[i]; row = []
            for a in range(self.k):
                t = step(s, a); g = simple(t)
                if g is not None: row.append(('g', g)); continue
                if t not in ids:
                    ids[t] = len(todo); todo.append(t)
                    if len(todo) > 60000: raise GrammarError('automaton too large')
                row.append(ids[t])
            acc.append(accept(s)); rows.append(row); i += 1
        return self.add(acc, rows)[0]
    def AND(self, x, y):
        if x == y or y == 1: return x
        if x == 1: return y
        if x == 0 or y == 0: return 0
        if x > y: x, y = y, x
        k = (x, y); r = self.memo.get(k)
        if r is None:
            T, C = self.trans, self.acc
            def simple(s):
                p, q = s
                if p == q or q == 1: return p
                if p == 1: return q
                if p == 0 or q == 0: return 0
                return self.memo.get(s if p < q else (q, p))
            r = self.memo[k] = self.build(k, lambda s, a: (T[s[0]][a], T[s[1]][a]), lambda s: C[s[0]] and C[s[1]], simple)
        return r
    def NOT(self, x):
        if x < 2: return 1 - x
        k = ('n', x); r = self.memo.get(k)
        if r is None:
            T, C = self.trans, self.acc
            r = self.memo[k] = self.build(x, lambda s, a: T[s][a], lambda s: not C[s], lambda s: 1 - s if s < 2 else self.memo.get(('n', s)))
            self.memo[('n', r)] = x
        return r
    def OR(self, x, y):
        if x == y or y == 0: return x
        if x == 0: return y
        if x == 1 or y == 1: return 1
        return self.NOT(self.AND(self.NOT(x), self.NOT(y)))

# ------------------------------------------------------------------ automata
class DFA:
    """complete deterministic automaton; trans[q][symbol] -> state; dead state -1"""
    def __init__(self, syms): self.syms = syms; self.trans = []; self.acc = []; self.start = 0
    def n(self): return len(self.trans)
    def symidx(self, a):
        ix = self.__dict__.get('_ix')
        if ix is None or len(ix) != len(self.syms): ix = self._ix = {x: i for i, x in enumerate(self.syms)}
        return ix[a]

def explore(start, step, accept, syms, limit=60000):
    D = DFA(list(syms)); ids = {start: 0}; todo = [start]; D.trans.append(None); D.acc.append(None)
    i = 0
    while i < len(todo):
        s = todo[i]; row = {}
        for a in D.syms:
            t = step(s, a)
            if t is None: continue
            k = ids.get(t)
            if k is None:
                k = ids[t] = len(todo); todo.append(t); D.trans.append(None); D.acc.append(None)
                if k > limit: raise GrammarError('automaton too large')
            row[a] = k
        D.trans[i] = row; D.acc[i] = accept(s)
        i += 1
    return D

def trim(D):
    """drop states from which nothing is accepted"""
    back = [[] for _ in range(D.n())]
    for q, row in enumerate(D.trans):
        for a, r in row.items(): back[r].append(q)
    live = [False] * D.n(); st = [q for q in range(D.n()) if D.acc[q]]
    for q in st: live[q] = True
    while st:
        q = st.pop()
        for p in back[q]:
            if not live[p]: live[p] = True; st.append(p)
    for q in range(D.n()):
        D.trans[q] = {a: r for a, r in D.trans[q].items() if live[r]} if live[q] else {}
    D.live = live
    return D

def minimize(D):
    """Hopcroft-like partition refinement (Moore), on trimmed partial automata"""
    trim(D)
    rows = [sorted(((D.symidx(a), r) for a, r in row.items())) for row in D.trans]
    cls = [-1 if not D.live[q] else 1 if D.acc[q] else 0 for q in range(D.n())]
    n = len(set(cls))
    while True:
        sig = {-1: -1}; new = [-1] * D.n()
        for q in range(D.n()):
            if cls[q] == -1: continue
            k = (cls[q], tuple([(a, cls[r]) for a, r in rows[q]]))
            new[q] = sig.setdefault(k, len(sig))
        m = len(set(new)); cls = new
        if m == n: break
        n = m
    if cls[0] == -1:
        E = DFA(D.syms); E.trans = [{}]; E.acc = [False]; return E
    order = {}; E = DFA(D.syms)
    todo = [0]; order[cls[0]] = 0
    E.trans.append({}); E.acc.append(D.acc[0])
    i = 0
    while i < len(todo):
        q = todo[i]
        for a, r in D.trans[q].items():
            k = cls[r]
            if k not in order:
                order[k] = len(todo); todo.append(r); E.trans.append({}); E.acc.append(D.acc[r])
            E.trans[i][a] = order[k]
        i += 1
    return E

def product(A, B, accept, syms=None):
    """automaton of pairs (either may be None = dead)"""
    syms = syms or list(dict.fromkeys(A.syms + B.syms))
    def step(s, a):
        p, q = s
        p = A.trans[p].get(a) if p is not None else None
        q = B.trans[q].get(a) if q is not None else None
        if p is None and q is None: return None
        return (p, q)
    return explore((0, 0), step, lambda s: accept(s[0] is not None and A.acc[s[0]], s[1] is not None and B.acc[s[1]]), syms)

def inter(A, B):
    def step(s, a):
        p = A.trans[s[0]].get(a); q = B.trans[s[1]].get(a)
        return None if p is None or q is None else (p, q)
    return trim(explore((0, 0), step, lambda s: A.acc[s[0]] and B.acc[s[1]], [a for a in A.syms if a in set(B.syms)]))

def complement(A, syms):
    def step(s, a):
        if s is None or s == -1: return -1
        r = A.trans[s].get(a)
        return -1 if r is None else r
    return explore(0, step, lambda s: s == -1 or not A.acc[s], syms)

def shortest(D):
    """a shortest accepted word, or None"""
    if D.acc[0]: return []
    prev = {0: None}; todo = [0]
    for q in todo:
        for a, r in D.trans[q].items():
            if r in prev: continue
            prev[r] = (q, a)
            if D.acc[r]:
                w = []
                while prev[r]: r, a = prev[r]; w.append(a)
                return w[::-1]
            todo.append(r)
    return None

def difference(A, B):
    """shortest word in exactly one of both -> (word, in_A) or None"""
    D = product(A, B, lambda x, y: bool(x) != bool(y))
    w = shortest(D)
    if w is None: return None
    return w, accepts(A, w)

def accepts(A, w):
    q = 0
    for a in w:
        q = A.trans[q].get(a)
        if q is None: return False
    return bool(A.acc[q])

def determinize(n, start, eps, trans, acc, syms):
    """nfa: eps[q] -> set, trans[q] -> {sym: set}; start set; acc predicate on state"""
    def close(S):
        S = set(S); st = list(S)
        while st:
            q = st.pop()
            for r in eps.get(q, ()):
                if r not in S: S.add(r); st.append(r)
        return frozenset(S)
    def step(S, a):
        T = set()
        for q in S: T |= trans.get(q, {}).get(a, set())
        return close(T) if T else None
    return explore(close(start), step, lambda S: any(acc(q) for q in S), syms)

def project(D, f):
    """erase (f(sym) is None) or rename symbols, then determinise and minimise"""
    eps, tr, syms = {}, {}, []
    for q, row in enumerate(D.trans):
        for a, r in row.items():
            b = f(a)
            if b is None: eps.setdefault(q, set()).add(r)
            else: tr.setdefault(q, {}).setdefault(b, set()).add(r)
    for a in D.syms:
        b = f(a)
        if b is not None and b not in syms: syms.append(b)
    return minimize(determinize(D.n(), {0}, eps, tr, lambda q: D.acc[q], syms))

# ------------------------------------------------------------------ grammars
class Alphabet:
    """partition of the characters by the sets a group of grammars mentions"""
    def __init__(self, sets):
        sig = {}
        sets = list(sets)
        for c in UNI: sig.setdefault(tuple(c in s for s in sets), []).append(c)
        self.classes = [frozenset(v) for v in sig.values()]
        pref = 'abefxyzABEFXYZ0159"\'\\#=,[]@:./${}-_ \t\n\r'
        self.rep = [min(v, key=lambda c: (pref.find(c) if c in pref else 99, c)) for v in self.classes]
        self.of = {c: i for i, v in enumerate(self.classes) for c in v}
    def mask(self, s): return frozenset(i for i, v in enumerate(self.classes) if v & s)

def char_sets(rules):
    out = set()
    def go(e):
        k = e[0]
        if k == 'lit': out.update(frozenset([uc(c)]) for c in e[1])
        elif k == 'ci': out.update(frozenset([uc(c.lower()), uc(c.upper())]) if ord(c) < 128 else frozenset([uc(c)]) for c in e[1]); 
        elif k == 'range': out.add(frozenset(c for c in UNI if e[1] <= c <= e[2]))
        elif k == 'set': out.add(e[1])
        elif k == 'ref':
            if e[1] in BUILTIN: out.add(BUILTIN[e[1]])
            elif e[1] == 'NEWLINE': out.update([cs('\n'), cs('\r')])
        else:
            for x in e[1:]:
                if isinstance(x, tuple):
                    if x and isinstance(x[0], tuple):
                        for y in x: go(y)
                    elif x and isinstance(x[0], str): go(x)
    for m, e, l in rules.values(): go(e)
    return out

class Lang:
    """languages of one grammar; proj(rule, ctx, chain) -> (emit, quiet_inside)"""
    def __init__(self, rules, alpha, emit=None, quiet=None, erase_in=None):
        self.rules, self.alpha = rules, alpha
        self.pool = Pool(len(alpha.classes)); self.mode_p = False
        self.items = {}; self.stacks = {}; self.stack_list = [None]    # stack 0 = empty
        self.exp = {}; self.alw = {}
        self.emit = emit or (lambda name, ctx: True)        # is the token's marker kept
        self.quiet = quiet or (lambda name: False)          # nothing inside this token is marked
        self.busy = set(); self.heads = {}; self.heading = set()

    # -------- items
    def push(self, item, rest):
        if item[0] == 'M' and rest:
            top = self.stack_list[rest][0]
            if top == item and item[1][0] == '>': return rest     # ends of tail recursion coincide
        k = (item, rest)
        r = self.stacks.get(k)
        if r is None:
            self.stack_list.append(k); r = self.stacks[k] = len(self.stack_list) - 1
            if r > 200000: raise GrammarError('grammar is not regular')
        return r

    def conv(self, e, ctx):
        """expression in an atomicity context -> item"""
        key = (e, ctx)
        r = self.items.get(key)
        if r is None: r = self.items[key] = self._conv(e, ctx)
        return r

    def _conv(self, e, ctx):
        k = e[0]
        A = self.alpha
        if k == 'lit': return self.seq([('C', A.mask(frozenset([uc(c)]))) for c in e[1]])
        if k == 'ci': return self.seq([('C', A.mask(frozenset([uc(c.lower()), uc(c.upper())]) if ord(c) < 128 else frozenset([uc(c)]))) for c in e[1]])
        if k == 'range': return ('C', A.mask(frozenset(c for c in UNI if e[1] <= c <= e[2])))
        if k == 'set': return ('C', A.mask(e[1]))
        if k == 'seq': return self.seq([self.conv(x, ctx) for x in e[1]])
        if k == 'alt':
            r = self.conv(e[1][-1], ctx)
            for x in reversed(e[1][:-1]): r = ('A', self.conv(x, ctx), r)
            return r
        if k == 'union':
            r = self.conv(e[1][-1], ctx)
            for x in reversed(e[1][:-1]): r = ('U', self.conv(x, ctx), r)
            return r
        if k == 'ustar': return ('U*', self.conv(e[1], ctx))
        if k == 'tok': return self.seq([('M', ('<', e[1])), self.conv(e[2], ctx), ('M', ('>', e[1]))])
        if k == 'star': return ('*', self.conv(e[1], ctx))
        if k == 'opt': return ('A', self.conv(e[1], ctx), ('EPS',))
        if k == 'not': return ('!', self.conv(e[1], ctx))
        if k == 'and': return ('&', self.conv(e[1], ctx))
        if k == 'ref':
            n = e[1]
            if n in self.rules: return ('R', n, ctx)
            if n in BUILTIN: return ('C', A.mask(BUILTIN[n]))
            if n == 'NEWLINE': return self.conv(('alt', (('lit', '\n'), ('lit', '\r\n'), ('lit', '\r'))), ctx)
            if n == 'SOI': return ('EPS',)
            if n == 'EOI': return ('EOI', ctx)
            raise GrammarError('built-in %s' % n)
        raise GrammarError('expression ' + k)

    def seq(self, xs):
        xs = [x for x in xs if x != ('EPS',)]
        if not xs: return ('EPS',)
        return xs[0] if len(xs) == 1 else ('S', tuple(xs))

    def body(self, name, ctx):
        """a rule called in a context -> (item, emitted)"""
        mod, e, l = self.rules[name]
        at, q = ctx
        if mod == '_': return self.conv(e, ctx), False
        emitted = not q and self.emit(name, at)
        if mod == '@': emitted = emitted and at != 'a'; inner = 'a'
        elif mod == '$': inner = 'c'
        elif mod == '!': inner = 'n'
        else: emitted = emitted and at != 'a'; inner = at
        return self.conv(e, (inner, q or self.quiet(name))), emitted

    # -------- expansion to the next characters and markers: {stack: condition}
    def expand(self, stack, mode):
        k = (stack, mode)
        r = self.exp.get(k)
        if r is not None: return r
        if k in self.busy: raise GrammarError('left recursion or repetition of the empty text')
        self.busy.add(k)
        r = self._expand(stack, mode)
        self.busy.discard(k)
        self.exp[k] = r
        return r

    def union(self, *fs):
        out = {}
        for f in fs:
            for s, c in f.items():
                o = out.get(s)
                out[s] = c if o is None else self.pool.OR(o, c)
        return out

    def given(self, c, f):
        if c == 1: return f
        out = {}
        if c == 0: return out
        for s, d in f.items():
            e = self.pool.AND(c, d)
            if e: out[s] = e
        return out

    def succeeds(self, stack):
        """does the rest succeed whatever follows"""
        while stack:
            item, stack = self.stack_list[stack]
            if not self.always(item): return False
        return True

    def _expand(self, stack, mode):
        if stack == 0: return {0: 1}
        if mode == 'P' and self.succeeds(stack): return {0: 1}
        item, rest = self.stack_list[stack]
        k = item[0]
        if k == 'C': return {stack: 1} if item[1] else {}
        if k == 'M': return self.expand(rest, mode) if mode == 'P' else {stack: 1}
        if k == 'EPS': return self.expand(rest, mode)
        if k == 'S':
            s = rest
            for x in reversed(item[1]): s = self.push(x, s)
            return self.expand(s, mode)
        if mode == 'P' and k == 'A' and self.succeeds(rest):          # only whether it succeeds matters
            return self.union(self.expand(self.push(item[1], 0), mode), self.expand(self.push(item[2], 0), mode))
        if k == 'A':
            a = self.expand(self.push(item[1], rest), mode)
            b = self.expand(self.push(item[2], rest), mode)
            return self.union(a, self.given(self.pool.NOT(self.ahead(item[1])), b))
        if k == 'U':
            return self.union(self.expand(self.push(item[1], rest), mode), self.expand(self.push(item[2], rest), mode))
        if k == '*':
            a = self.expand(self.push(item[1], stack), mode)
            return self.union(a, self.given(self.pool.NOT(self.ahead(item[1])), self.expand(rest, mode)))
        if k == 'U*':
            return self.union(self.expand(self.push(item[1], stack), mode), self.expand(rest, mode))
        if k == '!': return self.given(self.pool.NOT(self.ahead(item[1])), self.expand(rest, mode))
        if k == '&': return self.given(self.ahead(item[1]), self.expand(rest, mode))
        if k == 'R':
            b, emitted = self.body(item[1], item[2])
            s = self.push(('M', ('>', item[1])), rest) if emitted and mode == 'T' else rest
            s = self.push(b, s)
            if emitted and mode == 'T': s = self.push(('M', ('<', item[1])), s)
            return self.expand(s, mode)
        if k == 'EOI':
            s = rest
            if mode == 'T' and not item[1][1] and self.emit('EOI', item[1][0]) and item[1][0] != 'a': s = self.push(('M', ('<', 'EOI')), self.push(('M', ('>', 'EOI')), s))
            return self.given(self.pool.NOT(self.ahead(('C', self.alpha.mask(U)))), self.expand(s, mode))
        raise GrammarError('item ' + k)

    def always(self, item):
        k = item[0]
        if k in ('EPS', '*', 'U*', 'M'): return True
        if k in ('A', 'U'): return self.always(item[1]) or self.always(item[2])
        if k == 'S': return all(self.always(x) for x in item[1])
        if k == 'R':
            r = self.alw.get(item[1:])
            if r is None:
                self.alw[item[1:]] = False
                r = self.alw[item[1:]] = self.always(self.body(item[1], item[2])[0])
            return r
        return False

    def ahead(self, item):
        """the texts on a prefix of which item succeeds"""
        r = self.heads.get(item)
        if r is not None: return r
        if item in self.heading: raise GrammarError('recursive lookahead')
        self.heading.add(item)
        P = self.pool
        start = self.freeze(self.expand(self.push(item, 0), 'P'))
        r = self.heads[item] = P.build(start, lambda f, a: self.step(f, a, 'P'), lambda f: self.accepting(f), lambda f: 0 if not f else 1 if f == ((0, 1),) else f[0][1] if len(f) == 1 and f[0][0] == 0 else None)
        self.heading.discard(item)
        return r

    def freeze(self, f):
        if f.get(0) == 1 and len(f) > 1 and self.mode_p: return ((0, 1),)
        return tuple(sorted(f.items()))

    def accepting(self, f): return any(s == 0 and self.pool.acc[c] for s, c in f)

    def step(self, f, a, mode):
        out = {}
        P = self.pool
        mark = isinstance(a, tuple)
        for s, c in f:
            if mark:
                if s == 0: continue
                item, rest = self.stack_list[s]
                if item[0] != 'M' or item[1] != a: continue
                d = c
            else:
                d = P.trans[c][a]
                if d == 0: continue
                if s == 0:
                    if mode == 'P': out[0] = P.OR(out.get(0, 0), d)
                    continue
                item, rest = self.stack_list[s]
                if item[0] != 'C' or a not in item[1]: continue
            for s2, c2 in self.expand(rest, mode).items():
                e = P.AND(d, c2)
                if e:
                    o = out.get(s2)
                    out[s2] = e if o is None else P.OR(o, e)
        if mode == 'P' and out.get(0) == 1: return ((0, 1),)
        return tuple(sorted(out.items()))

    # -------- automaton
    def dfa(self, start_expr, ctx=('n', False), limit=60000, without=(), monitor=None):
        """annotated language of an expression that has to consume everything"""
        start = self.freeze(self.expand(self.push(self.conv(start_expr, ctx), 0), 'T'))
        letters = [a for a in range(len(self.alpha.classes)) if not self.alpha.classes[a] & frozenset(without)]
        m0, mstep = monitor or (None, lambda m, a: None)
        D = DFA(list(range(len(self.alpha.classes))))
        ids = {(start, m0): 0}; todo = [(start, m0)]; i = 0; allmarks = set()
        while i < len(todo):
            f, m = todo[i]; row = {}
            chars, ms = False, set()
            for s, c in f:
                if s:
                    it = self.stack_list[s][0]
                    if it[0] == 'M': ms.add(it[1])
                    else: chars = True
            allmarks |= ms
            for a in (letters if chars else []) + sorted(ms):
                n = m
                if monitor:
                    n = mstep(m, a)
                    if n is None: continue
                g = self.step(f, a, 'T')
                if not g: continue
                g = (g, n)
                if g not in ids:
                    ids[g] = len(todo); todo.append(g)
                    if len(todo) > limit: raise GrammarError('automaton too large')
                row[a] = ids[g]
            D.trans.append(row); D.acc.append(self.accepting(f)); i += 1
        D.syms += sorted(allmarks)
        self.explored = D.n()
        return minimize(D)

    def prefix_dfa(self, start_expr, ctx=('n', True)):
        """texts on which the expression succeeds (on some prefix)"""
        return self.pool_dfa(self.ahead(self.conv(start_expr, ctx)))

    def pool_dfa(self, g):
        P = self.pool
        return minimize(explore(g, lambda q, a: P.trans[q][a] or None, lambda q: P.acc[q], range(P.k)))

    def show(self, w):
        out = ''
        for a in w:
            if isinstance(a, tuple): out += '⟨' + a[1] + ' ' if a[0] == '<' else '⟩'
            else: out += self.alpha.rep[a]
        return out
    def text(self, w): return ''.join(self.alpha.rep[a] for a in w if not isinstance(a, tuple))
