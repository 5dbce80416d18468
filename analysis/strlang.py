"""Languages of strings: decides conjunctions of conditions on one string (prefixes, searches, splits,
lengths, regular expressions) by automata over bytes."""
import re
try: import re._parser as sre
except ImportError: import sre_parse as sre
from peg import DFA, explore, minimize, determinize
from terms import *

HI = 128                    # any byte of a character outside of ASCII
ALL = frozenset(range(129))
class Unsupported(Exception): pass

CLASSES = {
    'is_ascii_digit': '0123456789', 'is_ascii_hexdigit': '0123456789abcdefABCDEF', 'is_ascii_alphabetic': ''.join(map(chr, [*range(65, 91), *range(97, 123)])),
    'is_ascii_alphanumeric': ''.join(map(chr, [*range(48, 58), *range(65, 91), *range(97, 123)])), 'is_ascii_uppercase': ''.join(map(chr, range(65, 91))),
    'is_ascii_lowercase': ''.join(map(chr, range(97, 123))), 'is_ascii': ''.join(map(chr, range(128))), 'is_ascii_whitespace': ' \t\n\r\x0c',
    'is_ascii_punctuation': ''.join(c for c in map(chr, range(33, 127)) if not c.isalnum()), 'is_control': None, 'is_whitespace': None, 'is_alphabetic': None, 'is_alphanumeric': None, 'is_numeric': None}
def class_set(cls):
    s = CLASSES.get(cls)
    return None if s is None else frozenset(map(ord, s))

class Lang:
    """automata over a partition of the bytes"""
    def __init__(self, sets):
        sig = {}
        sets = list(sets)
        for b in range(129): sig.setdefault(tuple(b in s for s in sets), []).append(b)
        self.classes = [frozenset(v) for v in sig.values()]
        self.syms = list(range(len(self.classes)))
        self.of = {b: i for i, v in enumerate(self.classes) for b in v}
    def mask(self, s): return [i for i, v in enumerate(self.classes) if v & s]

    def build(self, nfa):
        """nfa(new, edge, eps, start) -> set of final states"""
        n = [1]; tr, eps = {}, {}
        def new(): n[0] += 1; return n[0] - 1
        def edge(p, s, q):
            for a in self.mask(s): tr.setdefault(p, {}).setdefault(a, set()).add(q)
        def ep(p, q): eps.setdefault(p, set()).add(q)
        fin = nfa(new, edge, ep, 0)
        return minimize(determinize(n[0], {0}, eps, tr, lambda q: q in fin, self.syms))
    def total(self): return self.build(lambda new, edge, ep, s: (edge(s, ALL, s), {s})[1])
    def word(self, w):
        def f(new, edge, ep, s):
            for b in w.encode():
                q = new(); edge(s, frozenset([min(b, HI)]), q); s = q
            return {s}
        return self.build(f)
    def sets(self, xs):
        """strings whose bytes are in the given sets, in order; a set followed by None repeats"""
        def f(new, edge, ep, s):
            for x, star in xs:
                if star:
                    q = new(); ep(s, q); edge(q, x, q); s = q
                else: q = new(); edge(s, x, q); s = q
            return {s}
        return self.build(f)
    def length(self, lo, hi):
        if (hi if hi is not None else lo) > 400: raise Unsupported()
        return self.sets([(ALL, False)] * lo + ([(ALL, True)] if hi is None else [])) if hi is None else self.upto(lo, hi)
    def upto(self, lo, hi):
        def f(new, edge, ep, s):
            fin = set()
            for i in range(hi + 1):
                if i >= lo: fin.add(s)
                if i < hi: q = new(); edge(s, ALL, q); s = q
            return fin
        return self.build(f)
    def chars(self, lo, hi):
        """at least the strings of lo to hi characters (those outside of ASCII have two to four bytes)"""
        if max(lo, hi or 0) > 100: raise Unsupported()
        H = frozenset([HI])
        def f(new, edge, ep, s):
            fin = set()
            for i in range((lo if hi is None else hi) + 1):
                if i >= lo: fin.add(s)
                if hi is None and i == lo: edge(s, ALL, s); break
                if i == hi: break
                q = new(); edge(s, ALL - H, q); p = s
                for j in range(4):
                    r = new(); edge(p, H, r); p = r
                    if j: ep(r, q)
                s = q
            return fin
        return self.build(f)
    def embed(self, D, new, edge, ep, s):
        ids = [new() for _ in range(D.n())]
        ep(s, ids[0])
        for q, row in enumerate(D.trans):
            for a, t in row.items(): edge(ids[q], self.classes[a], ids[t])
        return {ids[q] for q in range(D.n()) if D.acc[q]}
    def cat(self, *Ds):
        def f(new, edge, ep, s):
            cur = {s}
            for D in Ds:
                p = new()
                for c in cur: ep(c, p)
                cur = self.embed(D, new, edge, ep, p)
            return cur
        return self.build(f)
    def union(self, *Ds):
        def f(new, edge, ep, s):
            out = set()
            for D in Ds: out |= self.embed(D, new, edge, ep, s)
            return out
        return self.build(f)
    def inter(self, A, B):
        def step(s, a):
            p, q = A.trans[s[0]].get(a), B.trans[s[1]].get(a)
            return None if p is None or q is None else (p, q)
        return minimize(explore((0, 0), step, lambda s: A.acc[s[0]] and B.acc[s[1]], self.syms))
    def complement(self, A):
        def step(s, a): return -1 if s == -1 else A.trans[s].get(a, -1)
        return minimize(explore(0, step, lambda s: s == -1 or not A.acc[s], self.syms))
    def empty(self, A): return not any(A.acc)
    def lowered(self, D):
        """strings whose lower case is in D"""
        lo = {}
        for i, v in enumerate(self.classes):
            img = {self.of[b + 32 if 65 <= b <= 90 else b] for b in v}
            if len(img) > 1: raise Unsupported()
            lo[i] = img.pop()
        return minimize(explore(0, lambda s, a: D.trans[s].get(lo[a]), lambda s: D.acc[s], self.syms))
    def show(self, A):
        from peg import shortest
        w = shortest(A)
        return None if w is None else ''.join(chr(min(self.classes[a])) for a in w)

    # ---------------------------------------------------------------- regular expressions
    def regex(self, pattern):
        """strings a regular expression is found in"""
        tree, flags = parse_regex(pattern)
        n = [2]; tr, eps, bol, eol = {}, {}, {}, {}
        def new(): n[0] += 1; return n[0] - 1
        def edge(p, s, q):
            for a in self.mask(s): tr.setdefault(p, {}).setdefault(a, set()).add(q)
        def ep(p, q, where=eps): where.setdefault(p, set()).add(q)
        ci = bool(flags & re.I)
        def seq(items, s):
            for it in items: s = one(it, s)
            return s
        def one(it, s):
            op, av = it
            o = str(op)
            if o in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY'):
                q = new(); edge(s, re_set(it, ci), q); return q
            if o == 'SUBPATTERN': return seq(av[3], s)
            if o == 'BRANCH':
                q = new()
                for b in av[1]: ep(seq(b, s), q)
                return q
            if o in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                lo, hi, x = av
                if lo > 300: raise Unsupported()
                for _ in range(lo): s = seq(x, s)
                if hi is sre.MAXREPEAT:
                    h = new(); ep(s, h); ep(seq(x, h), h); return h
                if hi > 300: raise Unsupported()
                q = new(); ep(s, q)
                for _ in range(hi - lo): s = seq(x, s); ep(s, q)
                return q
            if o == 'AT':
                w = str(av)
                q = new()
                if w in ('AT_BEGINNING', 'AT_BEGINNING_STRING'): ep(s, q, bol)
                elif w in ('AT_END', 'AT_END_STRING'): ep(s, q, eol)
                else: raise Unsupported()
                return q
            raise Unsupported()
        edge(0, ALL, 0)
        end = seq(tree, 0)
        if flags & (re.M | re.X): raise Unsupported()
        def close(S, b, e):
            S = set(S); st = list(S)
            while st:
                q = st.pop()
                nx = set(eps.get(q, ())) | (bol.get(q, set()) if b else set()) | (eol.get(q, set()) if e else set())
                for r in nx:
                    if r not in S: S.add(r); st.append(r)
            return frozenset(S)
        def step(s, a):
            S, b = s
            if S == 'yes': return s
            C = close(S, b, False)
            T = set()
            for q in C: T |= tr.get(q, {}).get(a, set())
            T = close(T, False, False)
            return ('yes', False) if end in T else (T, False)
        s0 = (frozenset([0]), True)
        if end in close([0], True, False): s0 = ('yes', False)
        return minimize(explore(s0, step, lambda s: s[0] == 'yes' or end in close(s[0], s[1], True), self.syms))

POSIX = {'xdigit': '0-9A-Fa-f', 'digit': '0-9', 'alpha': 'A-Za-z', 'alnum': '0-9A-Za-z', 'upper': 'A-Z', 'lower': 'a-z', 'word': '0-9A-Za-z_'}
def parse_regex(p):
    for k, v in POSIX.items(): p = p.replace('[:%s:]' % k, v)
    p = p.replace(r'\z', r'\Z')
    p = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: re.escape(chr(int(m.group(1), 16))), p)
    try: t = sre.parse(p)
    except Exception: raise Unsupported()
    return t, t.state.flags
def re_set(it, ci=False):
    op, av = it; o = str(op)
    if o == 'LITERAL': s = {min(av, HI)}
    elif o == 'NOT_LITERAL': s = set(ALL) - ({av} if av < 128 else set())
    elif o == 'ANY': s = set(ALL) - {10}
    else:
        s, neg = set(), False
        for k, v in av:
            k = str(k)
            if k == 'NEGATE': neg = True
            elif k == 'LITERAL': s.add(min(v, HI))
            elif k == 'RANGE': s |= set(range(v[0], min(v[1], 127) + 1)) | ({HI} if v[1] > 127 else set())
            elif k == 'CATEGORY':
                w = str(v)
                base = {'DIGIT': '0123456789', 'WORD': CLASSES['is_ascii_alphanumeric'] + '_', 'SPACE': ' \t\n\r\x0b\x0c'}.get(w.split('_')[-1])
                if base is None: raise Unsupported()
                b = set(map(ord, base)) | {HI}
                s |= (set(ALL) - b) | {HI} if '_NOT_' in w else b
            else: raise Unsupported()
        if neg: s = (set(ALL) - s) | {HI}
    if ci: s |= {b ^ 32 for b in s if 65 <= b & ~32 <= 90 and b < 128}
    return frozenset(s)
def regex_sets(p):
    out = set()
    def go(items):
        for it in items:
            op, av = it; o = str(op)
            if o in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY'): out.add(re_set(it, bool(t.state.flags & re.I)))
            elif o == 'SUBPATTERN': go(av[3])
            elif o == 'BRANCH':
                for b in av[1]: go(b)
            elif 'REPEAT' in o: go(av[2])
    t, _ = parse_regex(p)
    go(t)
    return out

DIGEST = r'\Asha256:[0-9a-fA-F]{64}\Z'

# ------------------------------------------------------------------ conditions of a path
def lit(p):
    if p[0] == 'str': return p[1]
    if p[0] == 'char': return chr(p[1])
    raise Unsupported()
def single(p):
    if p[0] == 'cset': return p[1]
    w = lit(p)
    if len(w) != 1 or ord(w) > 127: raise Unsupported()
    return frozenset([ord(w)])

def at(e, s, v):
    # the place exists: it was tested before it was read
    return e[1][1], ('at', e[2][1], s if v else ALL - s, e[1][0]), True

def constraint(a, v, K):
    """(string term, constraint) of an atom, or None.  constraints: ('re',p) ('eq',w) ('prefix',w) ('suffix',w) ('contains',w) ('at',i,set) ('all',set) ('parts',..)"""
    k = a[0]
    if k == 'eq' and a[2][0] == 'str': return a[1], ('eq', a[2][1]), v
    if k == 'eq' and a[2][0] == 'char' and a[1][0] == 'elem' and a[1][1][0] in ('chars', 'bytes') and a[1][2][0] == 'int' and a[2][1] < 128:
        return at(a[1], frozenset([a[2][1]]), v)
    if k == 'cclass' and a[2][0] == 'elem' and a[2][1][0] in ('chars', 'bytes') and a[2][2][0] == 'int':
        s = class_set(a[1])
        return at(a[2], s, v) if s else None
    if k == 'inset' and a[2][0] == 'elem' and a[2][1][0] in ('chars', 'bytes') and a[2][2][0] == 'int': return at(a[2], a[1], v)
    if k == 'suffix' and a[2][0] == 'cset': return a[1], ('ends', a[2][1]), v
    if k in ('prefix', 'suffix', 'contains') and a[2][0] in ('str', 'char'): return a[1], (k, lit(a[2])), v
    if k == 'rmatch' and a[1][0] == 'regex': return a[2], ('re', a[1][1]), v
    if k == 'allchars': return a[1], ('all', a[2]), v
    if k == 'digestok': return a[1], ('re', DIGEST), v
    return None

def base_term(t):
    """the string a term is a part of"""
    while True:
        if t[0] == 'substr': t = t[1]
        elif t[0] == 'elem' and t[1][0] in ('split', 'rsplit', 'splitn', 'rsplitn') : t = t[1][1]
        elif t[0] in ('lower', 'bytes', 'upper'): t = t[1]
        else: return t
def term_sets(t):
    out = set()
    while True:
        if t[0] == 'substr':
            for x in (t[2], t[3]):
                for y in lin_parts(x)[1]:
                    if y[0] in ('find', 'rfind'): out.add(single(y[2]))
            t = t[1]
        elif t[0] == 'elem' and t[1][0] in ('split', 'rsplit', 'splitn', 'rsplitn'):
            out.add(single(t[1][-1])); t = t[1][1]
        elif t[0] in ('lower', 'bytes'):
            if t[0] == 'lower': out |= {frozenset([b]) for b in [*range(65, 91), *range(97, 123)]}
            t = t[1]
        elif t[0] == 'upper': raise Unsupported()
        else: return out

def preimage(L, t, D):
    """language of the base such that the part t of it is in D"""
    while True:
        if t[0] == 'bytes': t = t[1]
        elif t[0] == 'lower': D = L.lowered(D); t = t[1]
        elif t[0] == 'substr':
            s, a, b = t[1], t[2], t[3]
            n = slen(s)
            # the end
            back = sub(n, b)
            if back == ('int', 0): pass
            elif back[0] == 'int' and a == ('int', 0) or back[0] == 'int' and a[0] == 'int': D = L.cat(D, L.sets([(ALL, False)] * back[1]))
            elif b[0] in ('find', 'rfind') and b[1] == s and a == ('int', 0):
                c = single(b[2]); no = L.sets([(ALL - c, True)]); one = L.sets([(c, False)])
                D = L.cat(L.inter(D, no), one, L.total()) if b[0] == 'find' else L.cat(D, one, no)
            elif b[0] in ('find', 'rfind') and b[1] == s and a[0] == 'int':
                c = single(b[2]); no = L.sets([(ALL - c, True)]); one = L.sets([(c, False)])
                k = L.sets([(ALL, False)] * a[1])
                D = L.cat(L.inter(L.cat(k, D), no), one, L.total()) if b[0] == 'find' else L.cat(k, D, one, no)
                t = s; continue
            elif a == ('int', 0) and b[0] == 'int': D = L.cat(D, L.total()); t = s; continue
            elif a[0] == 'int' and b[0] == 'int': D = L.cat(L.sets([(ALL, False)] * a[1]), D, L.total()); t = s; continue
            else: raise Unsupported()
            # the start
            if a == ('int', 0): pass
            elif a[0] == 'int': D = L.cat(L.sets([(ALL, False)] * a[1]), D)
            else:
                c0, dd = lin_parts(a)
                if len(dd) != 1 or back != ('int', 0): raise Unsupported()
                (f, kk), = dd.items()
                if f[0] not in ('find', 'rfind') or f[1] != s or kk != 1 or c0 not in (0, 1): raise Unsupported()
                c = single(f[2]); no = L.sets([(ALL - c, True)]); one = L.sets([(c, False)])
                if c0 == 0: rest = L.inter(D, L.cat(one, L.total() if f[0] == 'find' else no)); D = L.cat(no if f[0] == 'find' else L.total(), rest)
                elif f[0] == 'find': D = L.cat(no, one, D)
                else: D = L.cat(L.total(), one, L.inter(D, no))
            t = s
        elif t[0] == 'elem' and t[1][0] in ('split', 'rsplit') and t[2][0] == 'int':
            c = single(t[1][2]); no = L.sets([(ALL - c, True)]); one = L.sets([(c, False)]); i = t[2][1]
            D = L.inter(D, no)
            rest = L.union(L.word(''), L.cat(one, L.total()) if t[1][0] == 'split' else L.cat(L.total(), one))
            before = [no, one] * i if t[1][0] == 'split' else [one, no] * i
            D = L.cat(*(before + [D, rest])) if t[1][0] == 'split' else L.cat(*([rest, D] + before))
            t = t[1][1]
        elif t[0] == 'elem' and t[1][0] == 'splitn' and t[2][0] == 'int' and t[1][2][0] == 'int':
            c = single(t[1][3]); no = L.sets([(ALL - c, True)]); one = L.sets([(c, False)]); i, n = t[2][1], t[1][2][1]
            if i > n - 1: raise Unsupported()
            if i == n - 1: D = L.cat(*([no, one] * i + [D]))
            else: D = L.cat(*([no, one] * i + [L.inter(D, no), L.union(L.word(''), L.cat(one, L.total()))]))
            t = t[1][1]
        else: return D

def own_sets(c):
    k = c[0]
    if k == 're': return regex_sets(c[1])
    if k in ('eq', 'prefix', 'suffix', 'contains'): return {frozenset([min(b, HI)]) for b in c[1].encode()}
    if k == 'at': return {c[2]}
    if k in ('all', 'ends'): return {c[1]}
    if k == 'clen': return {frozenset([HI])}
    if k == 'parts': return {c[1]}
    if k == 'nb': return {frozenset([HI])}
    if k == 'unq': return {frozenset([34]), frozenset([92]), frozenset([48])}
    return set()
def own_lang(L, c):
    k = c[0]
    if k == 're': return L.regex(c[1])
    if k == 'eq': return L.word(c[1])
    if k == 'prefix': return L.cat(L.word(c[1]), L.total())
    if k == 'suffix': return L.cat(L.total(), L.word(c[1]))
    if k == 'contains': return L.cat(L.total(), L.word(c[1]), L.total())
    if k == 'at':
        one = [(ALL, False)] if c[3] == 'bytes' else [(ALL, False), (frozenset([HI]), True)]
        return L.sets(one * c[1] + [(c[2], False), (ALL, True)])
    if k == 'all': return L.sets([(c[1], True)])
    if k == 'ends': return L.sets([(ALL, True), (c[1], False)])
    if k == 'len': return L.length(c[1], c[2])
    if k == 'clen': return L.chars(c[1], c[2])
    if k == 'parts':
        # number of parts when split at a character
        no = (ALL - c[1], True); lo, hi = max(1, c[2]), c[3]
        if hi is None: return L.sets([no] + [(c[1], False), no] * (lo - 1) + [(ALL, True)])
        if hi > 60: raise Unsupported()
        out = [L.sets([no] + [(c[1], False), no] * (n - 1)) for n in range(lo, hi + 1)]
        return L.union(*out) if out else L.complement(L.total())
    raise Unsupported()

def lengths(base, lo, hi):
    """(string term, constraint) for an interval of an integer term"""
    c0, d = lin_parts(base)
    if len(d) == 1:
        (t, k), = d.items()
        if k != 1: return None
        if t[0] == 'len' and t[1][0] == 'split': return t[1][1], ('parts', single(t[1][2]), lo or 0, hi)
        if t[0] == 'len' and t[1][0] == 'chars': return t[1][1], ('clen', max(0, lo or 0), hi)
        if t[0] == 'len' and t[1][0] == 'elem' and t[1][1][0] in ('split', 'rsplit', 'splitn'): return t[1], ('len', max(0, lo or 0), hi)
        if t[0] == 'len' and t[1][0] in ('fld', 'pstr', 'arg', 'elem', 'lower'): return t[1], ('len', max(0, lo or 0), hi)
        if t[0] in ('find', 'rfind'): return ('substr', t[1], ('int', 0), t), ('len', max(0, lo or 0), hi)
    if len(d) == 2:
        ls = [t for t, k in d.items() if t[0] == 'len' and k == 1]; fs = [t for t, k in d.items() if t[0] in ('find', 'rfind') and k == -1]
        if ls and fs and fs[0][1] == ls[0][1]: return ('substr', fs[0][1], fs[0], ls[0]), ('len', max(0, lo or 0), hi)
        # the other way round
        ls = [t for t, k in d.items() if t[0] == 'len' and k == -1]; fs = [t for t, k in d.items() if t[0] in ('find', 'rfind') and k == 1]
        if ls and fs and fs[0][1] == ls[0][1]:
            return ('substr', fs[0][1], fs[0], ls[0]), ('len', max(0, -hi if hi is not None else 0), None if lo is None else -lo)
    return None

_memo = {}
def groups_of(K):
    """conditions on each string"""
    groups = {}
    for a, v in K.b.items():
        if not isinstance(a, tuple) or not a or not isinstance(a[0], str): continue
        try: r = constraint(a, v, K)
        except Unsupported: continue
        if r: groups.setdefault(base_term(r[0]), set()).add(r)
    for base, (lo, hi, ex) in K.i.items():
        try: r = lengths(base, lo, hi)
        except Unsupported: continue
        if r:
            b = base_term(r[0])
            groups.setdefault(b, set()).add((r[0], r[1], True))
            for x in ex:
                try: q = lengths(base, x, x)
                except Unsupported: continue
                if q and q[1][0] != 'clen': groups[b].add((q[0], q[1], False))
    return groups

def possible(K, want=None):
    """may the conditions hold together, as far as strings go"""
    for b, cs in groups_of(K).items():
        if len(cs) < 2: continue
        if want and not want(b, cs): continue
        key = frozenset(cs)
        r = _memo.get(key)
        if r is None: r = _memo[key] = decide(cs)
        if not r: return False
    return True

def decide(cs, more=None):
    """may a string satisfy the constraints; more = (sets, Lang -> automaton) restricts it further"""
    sets, use = set(more[0]) if more else set(), []
    for t, c, v in sorted(cs, key=repr):
        try:
            s = term_sets(t) | own_sets(c)
            use.append((t, c, v)); sets |= s
        except Unsupported: pass
    L = Lang(sets)
    D = L.total()
    if more:
        D = more[1](L)
        if L.empty(D): return False
    for t, c, v in use:
        try:
            E = own_lang(L, c)
            if not v: E = L.complement(E)
            E = preimage(L, t, E)
        except Unsupported: continue
        D = L.inter(D, E)
        if L.empty(D): return False
    return True

# ------------------------------------------------------------------ exact answers
def exact_lang(L, c):
    """language of a constraint, or Unsupported when only a larger one is known"""
    if c[0] == 'clen' or c[0] == 'at' and c[3] != 'bytes' and c[1] != 0: raise Unsupported()
    if c[0] == 'nb':
        # inside of a character: two bytes of it around the place
        return L.sets([(ALL, False)] * (c[1] - 1) + [(frozenset([HI]), False)] * 2 + [(ALL, True)]) if c[1] > 0 else L.complement(L.total())
    return own_lang(L, c)
def solutions(L, c, v):
    """strings that satisfy a constraint (for unquoting: some of them)"""
    if c[0] == 'unq':
        q = frozenset([34]); no = ALL - frozenset([34, 92])
        if v: return L.sets([(q, False), (no, True), (q, False)])
        return L.sets([(q, False), (no, True), (frozenset([92]), False), (frozenset([48]), False), (q, False)])
    E = exact_lang(L, c)
    return E if v else L.complement(E)
def decide_exactly(cs):
    """is there a string that satisfies all constraints; Unsupported when not known"""
    sets = set()
    for t, c, v in cs: sets |= term_sets(t) | own_sets(c)
    L = Lang(sets); D = L.total()
    for t, c, v in sorted(cs, key=repr):
        D = L.inter(D, preimage(L, t, solutions(L, c, v)))
        if L.empty(D): return False
    return True
