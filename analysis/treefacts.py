"""What the grammar guarantees about parse trees: kinds of children in order, and texts of tokens.

Over-approximations, used to leave out paths of the conversions on trees that do not occur."""
import time
import peg, strlang
from peg import *
from grammar import *
from terms import *

SPLIT = '"\'`$@:/=-_.{}[]()#,\\ \t\n\r0'

# conditions on texts that are decided with strlang
STRANGE = {'inset', 'cclass', 'rmatch', 'allchars', 'digestok', 'suffix', 'eq', 'prefix', 'contains'}

class TreeFacts:
    def __init__(self, repo, names, root_kind=None):
        """names: {rule: discriminant}"""
        self.G = Grammars(repo); self.rules = self.G.code
        self.idx = names; self.name = {i: n for n, i in names.items()}
        self.contexts()
        self.kids = {}; self.below = {}; self.txt = {}; self._doc = None; self.memo = {}

    # ---------------------------------------------------------------- children
    def contexts(self):
        """contexts in which each rule is used, from the whole document"""
        self.ctx = {}
        todo = [('dockerfile', 'n')]
        while todo:
            r, at = todo.pop()
            if at in self.ctx.setdefault(r, set()): continue
            self.ctx[r].add(at)
            if r not in self.rules: continue
            inner = self.inner(r, at)
            for x in self.refs(self.rules[r][1]): todo.append((x, inner))
    def inner(self, r, at): return {'@': 'a', '$': 'c', '!': 'n'}.get(self.rules[r][0], at)
    def emitted(self, r, at):
        m = self.rules[r][0]
        return m in ('$', '!') or m != '_' and at != 'a'
    def refs(self, e):
        if e[0] == 'ref': yield e[1]
        elif e[0] in ('lit', 'ci', 'range', 'set'): return
        elif e[0] in ('seq', 'alt', 'union'):
            for x in e[1]: yield from self.refs(x)
        else:
            for x in e[1:]:
                if isinstance(x, tuple): yield from self.refs(x)

    def reachable(self, r):
        """names of nodes that may be somewhere below a node of rule r"""
        seen = set(); todo = [r]
        while todo:
            D = self.children(todo.pop())
            if D is None: continue
            for t in D.trans:
                for a in t:
                    if a not in seen: seen.add(a); todo.append(a)
        return seen

    def children(self, r):
        """DFA of the names of the children of rule r, or None"""
        if r in self.kids: return self.kids[r]
        self.kids[r] = None
        out = None
        if r in self.rules:
            try:
                self.nst = 1; self.eps = {}; self.tr = {}
                ends = set()
                for at in sorted(self.ctx.get(r, ())):
                    ends.add(self.frag(0, self.rules[r][1], self.inner(r, at), (r,)))
                syms = sorted({a for t in self.tr.values() for a in t})
                out = minimize(determinize(self.nst, {0}, self.eps, self.tr, lambda q: q in ends, syms))
            except GrammarError: out = None
        elif r == 'EOI':
            out = DFA([]); out.trans = [{}]; out.acc = [True]
        self.kids[r] = out
        return out
    def new(self): self.nst += 1; return self.nst - 1
    def edge(self, p, q): self.eps.setdefault(p, set()).add(q)
    def frag(self, p, e, at, chain):
        k = e[0]
        if k in ('lit', 'ci', 'range', 'set', 'not', 'and'): return p
        if k == 'seq':
            for x in e[1]: p = self.frag(p, x, at, chain)
            return p
        if k == 'alt':
            q = self.new()
            for x in e[1]: self.edge(self.frag(p, x, at, chain), q)
            return q
        if k == 'opt':
            q = self.new(); self.edge(p, q); self.edge(self.frag(p, e[1], at, chain), q); return q
        if k == 'star':
            h = self.new(); self.edge(p, h); self.edge(self.frag(h, e[1], at, chain), h); return h
        if k == 'ref':
            n = e[1]
            if n == 'EOI':
                q = self.new(); self.tr.setdefault(p, {}).setdefault('EOI', set()).add(q); return q
            if n not in self.rules: return p
            if self.emitted(n, at):
                q = self.new(); self.tr.setdefault(p, {}).setdefault(n, set()).add(q); return q
            if chain.count(n) > 1:
                # recursion through rules without a node of their own: any of the names reachable
                h = self.new(); self.edge(p, h)
                for m in self.reach(n, at): self.tr.setdefault(h, {}).setdefault(m, set()).add(h)
                return h
            return self.frag(p, self.rules[n][1], self.inner(n, at), chain + (n,))
        raise GrammarError('expression ' + k)
    def reach(self, n, at):
        out, seen, todo = set(), set(), [(n, at)]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            m, a = x
            if m not in self.rules: continue
            for y in self.refs(self.rules[m][1]):
                if y not in self.rules: continue
                if self.emitted(y, self.inner(m, a)): out.add(y)
                else: todo.append((y, self.inner(m, a)))
        return out
    def symbols(self, r):
        D = self.children(r)
        return None if D is None else frozenset(a for t in D.trans for a in t)
    def descendants(self, r):
        """names of everything below r, or None"""
        if r in self.below: return self.below[r]
        out, todo = set(), [r]; seen = set()
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            s = self.symbols(x)
            if s is None: self.below[r] = None; return None
            out |= s; todo += s
        self.below[r] = frozenset(out)
        return self.below[r]

    # ---------------------------------------------------------------- texts
    def recursive(self, r):
        b = self.descendants(r)
        return b is None or r in b
    def doc(self):
        """automaton of documents with one instruction and all tokens marked"""
        if self._doc is None:
            try:
                A = peg.Alphabet(peg.char_sets(self.rules) | {frozenset([c]) for c in SPLIT})
                L = peg.Lang(self.rules, A, emit=lambda n, c: not self.recursive(n))
                mon = (0, lambda m, a: (m + 1 if m < 1 else None) if isinstance(a, tuple) and a[0] == '<' and a[1] in KINDS else m)
                self.A, self._doc = A, L.dfa(('ref', 'dockerfile'), monitor=mon)
            except (GrammarError, RecursionError): self._doc = False
        return self._doc
    def text(self, r):
        """DFA of the texts of token r over the classes of self.A, or None"""
        if r in self.txt: return self.txt[r]
        D = self.doc(); out = None
        if D and r in self.rules and not self.recursive(r):
            starts = [t[('<', r)] for t in D.trans if ('<', r) in t]
            n = D.n(); end = n
            chars = [a for a in D.syms if not isinstance(a, tuple)]
            eps = {q: {end if a == ('>', r) else t for a, t in D.trans[q].items() if isinstance(a, tuple)} for q in range(n)}
            tr = {q: {a: {t} for a, t in D.trans[q].items() if not isinstance(a, tuple)} for q in range(n)}
            out = minimize(determinize(n + 1, set(starts), eps, tr, lambda q: q == end, chars))
        self.txt[r] = out
        return out

    def known_char(self, c): return c in self.A.of and len(self.A.classes[self.A.of[c]]) == 1
    def possible_text(self, r, cons):
        """may the text of token r satisfy cons: tuples (kind, value, truth)"""
        key = (r, cons)
        if key in self.memo: return self.memo[key]
        D = self.text(r); ans = True
        if D is not None:
            A = self.A
            mons = []
            for k, v, want in cons:
                if k == 'at':
                    i, c = v
                    c = chr(c)
                    cl = A.of.get(c)
                    if cl is None: continue
                    def step(m, a, i=i, cl=cl, c=c, want=want):
                        if m > i: return m
                        if m == i:
                            if want and a != cl: return None
                            if not want and a == cl and self.known_char(c): return None
                        return m + 1
                    mons.append((0, step, (lambda m, i=i: m > i) if want else (lambda m: True)))
                elif k == 'empty':
                    mons.append((False, lambda m, a: True, lambda m, want=want: m != want))
                elif k in ('prefix', 'suffix', 'contains', 'equal'):
                    if v and not all(self.known_char(c) for c in v): continue
                    w = [A.of[c] for c in v]
                    def step(m, a): return m + (a,) if len(m) < 4096 else m
                    # matcher over the last len(w) symbols / the first ones
                    if k == 'prefix' or k == 'equal':
                        lim = len(w) + (1 if k == 'equal' else 0)
                        mons.append(((), lambda m, a, lim=lim: m + (a,) if len(m) < lim else m,
                                     lambda m, w=tuple(w), k=k, want=want: ((m == w) if k == 'equal' else (m[:len(w)] == w)) == want))
                    elif k == 'suffix':
                        mons.append(((), lambda m, a, n=len(w): (m + (a,))[-n:] if n else (), lambda m, w=tuple(w), want=want: (m == w) == want))
                    else:
                        mons.append(((False, ()), lambda m, a, w=tuple(w): (True, ()) if m[0] or (m[1] + (a,))[-len(w):] == w else (False, (m[1] + (a,))[-len(w):]),
                                     lambda m, want=want, w=w: (m[0] or not w) == want))
            if mons:
                start = (0, tuple(m[0] for m in mons)); seen = {start}; todo = [start]; ans = False
                while todo and not ans:
                    q, ms = todo.pop()
                    if D.acc[q] and all(m[2](x) for m, x in zip(mons, ms)): ans = True; break
                    for a, t in D.trans[q].items():
                        ns = []
                        for m, x in zip(mons, ms):
                            y = m[1](x, a)
                            if y is None: break
                            ns.append(y)
                        else:
                            k = (t, tuple(ns))
                            if k not in seen: seen.add(k); todo.append(k)
                    if len(seen) > 20000: ans = True
            elif shortest(D) is None: ans = False
        self.memo[key] = ans
        return ans

    def possible_lang(self, r, cs):
        """may the text of token r satisfy constraints of strlang: tuples (part, constraint, truth)"""
        key = (r, cs)
        if key not in self.memo:
            D = self.text(r)
            if D is None: self.memo[key] = True
            else:
                A = self.A
                sets = [frozenset({ord(c) for c in v if ord(c) < 128}) for v in A.classes]
                wide = [any(ord(c) > 127 for c in v) for v in A.classes]
                H = frozenset([strlang.HI])
                def f(L):
                    k = (r, tuple(L.classes))
                    if k in self.memo: return self.memo[k]
                    def nfa(new, edge, ep, s):
                        ids = [new() for _ in range(D.n())]
                        ep(s, ids[0])
                        for q, row in enumerate(D.trans):
                            for a, t in row.items():
                                if sets[a]: edge(ids[q], sets[a], ids[t])
                                if wide[a]:
                                    p = ids[q]
                                    for j in range(4):
                                        n = new(); edge(p, H, n); p = n
                                        if j: ep(n, ids[t])
                        return {ids[q] for q in range(D.n()) if D.acc[q]}
                    self.memo[k] = L.build(nfa)
                    return self.memo[k]
                if D.n() > 400: self.memo[key] = True
                else: self.memo[key] = strlang.decide(cs, (sets + [H], f))
        return self.memo[key]

    def possible_kids(self, r, cons, lo, hi):
        """may rule r have between lo and hi children with those at given places in given sets"""
        key = (r, cons, lo, hi)
        if key in self.memo: return self.memo[key]
        D = self.children(r); ans = True
        if D is not None:
            at = dict(cons)
            need = max([lo] + [i + 1 for i in at])
            cap = max(need, (hi if hi is not None else 0)) + 1
            start = (0, 0); seen = {start}; todo = [start]; ans = False
            while todo:
                q, n = todo.pop()
                if D.acc[q] and n >= lo and (hi is None or n <= hi): ans = True; break
                for a, t in D.trans[q].items():
                    if n in at and a not in at[n]: continue
                    k = (t, min(n + 1, cap))
                    if k not in seen: seen.add(k); todo.append(k)
        self.memo[key] = ans
        return ans

    # ---------------------------------------------------------------- use on conjunctions of facts
    def facts(self, K):
        """drop kinds that cannot be; False when the facts cannot hold of any tree"""
        if not any(x[0] == 'rule' for x in K.v): return True
        for _ in range(3):
            r = self.once(K)
            if r is None: return False
            if not r: return True
        return True
    def once(self, K):
        text = {}; odd = False
        def con(X, c): text.setdefault(X, set()).add(c)
        for a, v in K.b.items():
            if not (isinstance(a, tuple) and len(a) > 1): continue
            k = a[0]
            if k == 'eq' and a[1][0] == 'elem' and a[1][1][0] == 'chars' and a[1][1][1][0] == 'pstr' and a[1][2][0] == 'int' and a[2][0] == 'char':
                con(a[1][1][1][1], ('at', (a[1][2][1], a[2][1]), v))
            elif k == 'eq' and a[1][0] == 'pstr' and a[2][0] == 'str': con(a[1][1], ('equal', a[2][1], v))
            elif k in ('prefix', 'suffix', 'contains') and a[1][0] == 'pstr' and a[2][0] in ('str', 'char'):
                con(a[1][1], (k, a[2][1] if a[2][0] == 'str' else chr(a[2][1]), v))
            elif k in STRANGE: odd = True
        counts = {}
        for base, (lo, hi, ex) in K.i.items():
            if base[0] == 'len' and base[1][0] == 'pstr':
                if hi == 0: con(base[1][1], ('empty', None, True))
                elif lo is not None and lo >= 1: con(base[1][1], ('empty', None, False))
            elif base[0] == 'len' and base[1][0] == 'children':
                counts[base[1][1]] = (lo or 0, hi)
        for b, x in list(K.v.items()):
            if b[0] == 'eqc' and x[0] == 'char' and b[1][0] == 'elem' and b[1][1][0] == 'chars' and b[1][1][1][0] == 'pstr' and b[1][2][0] == 'int':
                con(b[1][1][1][1], ('at', (b[1][2][1], x[1]), True))
        lang = {b[1]: frozenset(cs) for b, cs in strlang.groups_of(K).items() if b[0] == 'pstr'} if odd else {}
        nodes = {x[1] for x in K.v if x[0] == 'rule'} | set(text) | set(counts)
        allowed = {}
        def dom(X):
            if X in allowed: return allowed[X]
            allowed[X] = None
            s = K.v.get(('rule', X))
            d = None if s is None else {self.name[i] for i in s if i in self.name}
            if X[0] == 'elem' and X[1][0] in ('children', 'descendants'):
                Y = X[1][1]; e = dom(Y)
                if e is not None:
                    sets = [self.symbols(r) if X[1][0] == 'children' else self.descendants(r) for r in e]
                    if all(x is not None for x in sets):
                        u = set().union(*sets) if sets else set()
                        d = u if d is None else d & u
            if d is not None:
                c = tuple(sorted(text.get(X, ()), key=repr))
                if c: d = {r for r in d if self.possible_text(r, c)}
                if X in lang: d = {r for r in d if self.possible_lang(r, lang[X])}
            allowed[X] = d
            return d
        parents = {}
        for X in list(nodes):
            d = dom(X)
            if d is not None and not d: return None
            if X[0] == 'elem' and X[1][0] == 'children' and X[2][0] == 'int':
                parents.setdefault(X[1][1], {})[X[2][1]] = frozenset(d) if d is not None else None
        for Y in set(parents) | set(counts):
            d = dom(Y)
            if d is None: continue
            cons = tuple(sorted((i, s) for i, s in parents.get(Y, {}).items() if s is not None)) if Y in parents else ()
            lo, hi = counts.get(Y, (0, None))
            if parents.get(Y): lo = max(lo, 0)
            d = {r for r in d if self.possible_kids(r, cons, lo, hi)}
            if not d: return None
            allowed[Y] = d
        changed = False
        for X in nodes:
            d = allowed.get(X)
            if d is None: continue
            s = frozenset(self.idx[n] for n in d if n in self.idx)
            o = K.v.get(('rule', X))
            if s != o:
                if o is not None: s = s & o
                if not s: return None
                if s != o: K.v[('rule', X)] = s; changed = True
        return changed
