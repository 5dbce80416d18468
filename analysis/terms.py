"""Value terms of the abstract interpreter: a Herbrand domain with linear integers, sequences as
concatenations of segments, and conditions over atoms.

values
  ('int',n) ('lin',c,((t,k),..))      integers (t opaque integer terms)
  ('bool',b) ('atom',a) ('natom',a)    booleans
  ('str',s) ('char',n) ('bytes',t)
  ('tup',(..)) ('adt',name,v,(..)) ('clo',name,key,(..)) ('fn',callee)
  ('vec',segs)  segs: ('one',x) | ('all',seqterm)   also used for strings: ('cat',pieces)
  ('mref',cell,path)
  ('it',kind,seq,lo,hi)
  anything else: opaque term
"""

def mk_int(n): return ('int', n)

NONNEG = set()      # opaque integer terms known to be non-negative

def lin_parts(v):
    if v[0] == 'int': return v[1], {}
    if v[0] == 'lin': return v[1], dict(v[2])
    return 0, {v: 1}

def mk_lin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d: return ('int', c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1: return t
    return ('lin', c, tuple(sorted(d.items(), key=lambda x: repr(x[0]))))

def add(a, b, k=1):
    c1, d1 = lin_parts(a); c2, d2 = lin_parts(b)
    d = dict(d1)
    for t, x in d2.items(): d[t] = d.get(t, 0) + k * x
    return mk_lin(c1 + k * c2, d)

def sub(a, b): return add(a, b, -1)

WIDTH = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16}     # wider counters do not run over on any document that fits in memory

def wrapped(w, v):
    """a number in an integer type of w bits"""
    if v[0] == 'int': return ('int', v[1] % (1 << w)) if v[1] >= 0 else v
    if v[0] == 'lin' and any(t[0] == 'wrap' and t[1] <= w for t, k in v[2]) and len(v[2]) == 1 and v[2][0][1] == 1:
        return wrapped(w, ('lin', v[1], ((v[2][0][0][2], 1),))) if v[2][0][0][1] == w else ('wrap', w, v)
    if v[0] == 'wrap' and v[1] <= w: return v
    return ('wrap', w, v)

def nonneg(t):
    if t in NONNEG: return True
    if not isinstance(t, tuple): return False
    return t[0] in ('len', 'pos', 'mstart', 'mend', 'find', 'rfind', 'sstart', 'send', 'parse_usize', 'count', 'clen', 'wrap')

def is_const(v):
    return v[0] in ('int', 'bool', 'str', 'char')

# ------------------------------------------------------------------ strings and sequences
def find_at(s, b):
    """the literal a search found at position b of s, or None"""
    c, d = lin_parts(b)
    for t, k in d.items():
        if t[0] in ('find', 'rfind') and k == 1 and t[2][0] in ('char', 'str'):
            off = sub(b, t); u = t[1]
            if u == s and off == ('int', 0) or u[0] == 'substr' and u[1] == s and u[2] == off:
                return chr(t[2][1]) if t[2][0] == 'char' else t[2][1]
    return None

def mk_cat(pieces):
    out = []
    todo = []
    for p in pieces: todo.extend(p[1] if p[0] == 'cat' else (p,))
    todo.reverse()
    while todo:
            q = todo.pop()
            if q == ('str', ''): continue
            if q[0] == 'str' and out and out[-1][0] == 'substr':
                w = find_at(out[-1][1], out[-1][3])
                if w and q[1].startswith(w):
                    x = out[-1]; out[-1] = mk_substr(x[1], x[2], add(x[3], ('int', len(w.encode()))))
                    if q[1][len(w):]: todo.append(('str', q[1][len(w):]))
                    continue
            if q[0] == 'substr' and out and out[-1][0] == 'str':
                # s[a-n..a] is the literal found there
                for n in range(1, min(4, len(out[-1][1]) + 1)):
                    lit = out[-1][1][-n:]; pos = sub(q[2], ('int', len(lit.encode())))
                    if find_at(q[1], pos) == lit and len(out[-1][1]) == n:
                        out.pop(); q = mk_substr(q[1], pos, q[3]); break
            if out and out[-1][0] == 'str' and q[0] == 'str':
                out[-1] = ('str', out[-1][1] + q[1])
            elif out and out[-1][0] == 'substr' and q[0] == 'substr' and out[-1][1] == q[1] and out[-1][3] == q[2]:
                out[-1] = mk_substr(q[1], out[-1][2], q[3])
            else: out.append(q)
    if not out: return ('str', '')
    if len(out) == 1: return out[0]
    return ('cat', tuple(out))

def slen(s):
    if s[0] == 'str': return ('int', len(s[1].encode()))
    if s[0] == 'char': return ('int', len(chr(s[1]).encode()))
    if s[0] == 'cat':
        r = ('int', 0)
        for p in s[1]: r = add(r, slen(p))
        return r
    if s[0] == 'substr': return sub(s[3], s[2])
    if s[0] == 'cset' and 128 not in s[1]: return ('int', 1)
    if s[0] in ('lower', 'upper'): return slen(s[1])     # ASCII case mapping keeps the length
    return ('len', s)

def mk_substr(s, a, b):
    if a == ('int', 0) and b == slen(s): return s
    if a == b: return ('str', '')
    if s[0] == 'str' and a[0] == 'int' and b[0] == 'int':
        return ('str', s[1].encode()[a[1]:b[1]].decode('utf8', 'replace'))
    if s[0] == 'substr':
        return mk_substr(s[1], add(s[2], a), add(s[2], b))
    return ('substr', s, a, b)

def mk_vec(segs):
    out = []
    for s in segs:
        if s[0] == 'all':
            v = s[1]
            if v[0] == 'vec': out.extend(v[1])
            else: out.append(s)
        else: out.append(s)
    if len(out) == 1 and out[0][0] == 'all': return out[0][1]
    return ('vec', tuple(out))

def vlen(v):
    if v[0] == 'vec':
        r = ('int', 0)
        for s in v[1]: r = add(r, ('int', 1) if s[0] == 'one' else vlen(s[1]))
        return r
    if v[0] in ('upd', 'reversed'): return vlen(v[1])
    if v[0] == 'subseq': return sub(v[3], v[2])
    if v[0] == 'bytes': return slen(v[1])
    if v[0] in ('str', 'cat', 'substr', 'lower', 'lossy'): return slen(v)
    return ('len', v)

def velem(v, i):
    """element i of sequence v"""
    if v[0] == 'mrefs': return ('mref', v[1], v[2] + (('elem', i),))
    if v[0] == 'vec':
        rest = i
        for k, s in enumerate(v[1]):
            if s[0] == 'one':
                if rest == ('int', 0): return s[1]
                rest = sub(rest, ('int', 1))
            else:
                n = vlen(s[1])
                r2 = sub(rest, n)
                if r2[0] == 'int' and r2[1] >= 0: rest = r2; continue
                # index provably inside this segment is only known for rest < n
                c, d = lin_parts(sub(n, rest))
                if not d and c > 0: return velem(s[1], rest)
                break
    if v[0] == 'upd':
        if v[2] == i: return v[3]
        c, d = lin_parts(sub(v[2], i))
        if not d: return velem(v[1], i)
    if v[0] == 'subseq': return velem(v[1], add(v[2], i))
    if v[0] == 'reversed': return velem(v[1], sub(sub(vlen(v[1]), ('int', 1)), i))
    return ('elem', v, i)

def mk_reversed(v):
    if v[0] == 'vec' and all(g[0] == 'one' for g in v[1]): return ('vec', v[1][::-1])
    if v[0] == 'reversed': return v[1]
    return ('reversed', v)

def mk_upd(v, i, x):
    """sequence v with element i replaced by x"""
    if v[0] == 'vec':
        n = i
        for k, g in enumerate(v[1]):
            if n == ('int', 0) and g[0] == 'one':
                return mk_vec(v[1][:k] + (('one', x),) + v[1][k + 1:])
            n = sub(n, ('int', 1) if g[0] == 'one' else vlen(g[1]))
            if n[0] == 'int' and n[1] < 0: break
    if v[0] == 'upd' and v[2] == i: v = v[1]
    if x == velem(v, i): return v
    return ('upd', v, i, x)

def mk_subseq(v, a, b):
    if a == ('int', 0) and b == vlen(v): return v
    if a == b: return ('vec', ())
    if v[0] == 'subseq': return mk_subseq(v[1], add(v[2], a), add(v[2], b))
    if v[0] == 'vec':
        segs = list(v[1]); x = a; y = sub(vlen(v), b)      # drop x from the front, y from the back
        while segs and segs[0][0] == 'one' and x[0] == 'int' and x[1] > 0:
            segs.pop(0); x = ('int', x[1] - 1)
        while segs and segs[-1][0] == 'one' and y[0] == 'int' and y[1] > 0:
            segs.pop(); y = ('int', y[1] - 1)
        if x == ('int', 0) and y == ('int', 0): return mk_vec(segs)
        w = mk_vec(segs)
        if w != v: return mk_subseq(w, x, sub(vlen(w), y))
    return ('subseq', v, a, b)

# ------------------------------------------------------------------ substitution
def subst(t, m):
    """replace opaque sub-terms by m (dict term->term), rebuilding normal forms"""
    if not m: return t
    cache = {}
    def go(t):
        if not isinstance(t, tuple): return t
        if t in m: return m[t]
        r = cache.get(t)
        if r is not None: return r
        r = rebuild(t, go)
        cache[t] = r
        return r
    return go(t)

def rebuild(t, go):
    k = t[0] if t else None
    if not isinstance(k, str): return tuple(go(x) for x in t)
    if k in ('int', 'bool', 'str', 'char', 'fn'): return t
    if k == 'lin':
        r = ('int', t[1])
        for x, c in t[2]: r = add(r, go(x), c)
        return r
    if k == 'len': return vlen(go(t[1]))
    if k == 'cat': return mk_cat([go(x) for x in t[1]])
    if k == 'vec': return mk_vec([(s[0], go(s[1])) for s in t[1]])
    if k == 'substr': return mk_substr(go(t[1]), go(t[2]), go(t[3]))
    if k == 'subseq': return mk_subseq(go(t[1]), go(t[2]), go(t[3]))
    if k == 'elem': return velem(go(t[1]), go(t[2]))
    if k == 'fld':
        return mk_fld(go(t[1]), t[2], t[3], t[4])
    if k == 'reversed': return mk_reversed(go(t[1]))
    if k == 'wrap': return wrapped(t[1], go(t[2]))
    if k == 'upd': return mk_upd(go(t[1]), go(t[2]), go(t[3]))
    if k == 'adt': return ('adt', t[1], t[2], tuple(go(x) for x in t[3]))
    if k == 'clo': return ('clo', t[1], t[2], tuple(go(x) for x in t[3]))
    if k in ('ile', 'ieq'):
        return norm_int_atom(k, go(t[1]), t[2])
    if k == 'eq': return mk_eq(go(t[1]), go(t[2]))
    if k == 'slt':
        p, q = go(t[1]), go(t[2])
        if p == q: return ('bool', False)
        return ('natom', ('slt', q, p)) if repr(q) < repr(p) else ('atom', ('slt', p, q))
    if k in ('atom', 'natom'):
        x = go(t[1])
        if x[0] in ('bool', 'atom', 'natom'): return neg(x) if k == 'natom' else x
        return (k, x)
    if k == 'isvar':
        x = go(t[1])
        if x[0] == 'adt': return ('bool', x[2] == t[2])
        return ('isvar', x, t[2], t[3])
    if k == 'invar':
        x = go(t[1])
        if x[0] == 'adt': return ('bool', x[2] in t[2])
        return ('invar', x, t[2], t[3])
    if k == 'discr':
        return ('discr', go(t[1]), t[2])
    if k in ('fld', 'clo', 'fnk'): pass
    return tuple(go(x) if isinstance(x, tuple) else x for x in t)

def mk_fld(t, name, v, i):
    if t[0] == 'adt': return t[3][i] if t[2] == v and i < len(t[3]) else ('absurd',)
    if t[0] == 'tup': return t[1][i] if i < len(t[1]) else ('absurd',)
    if t[0] == 'clo': return t[3][i] if i < len(t[3]) else ('absurd',)
    return ('fld', t, name, v, i)

# ------------------------------------------------------------------ atoms
def norm_int_atom(k, base, c):
    """atom base<=c or base==c, as (value) with a constant-free base, leading coefficient positive"""
    c0, d = lin_parts(base)
    if not d:
        return ('bool', (c0 <= c) if k == 'ile' else (c0 == c))
    c -= c0
    lead = sorted(d.items(), key=lambda x: repr(x[0]))[0][1]
    if k == 'ieq' and len(d) == 1:
        # the first byte of a text is an ASCII character exactly when its first character is that one
        (t, x), = d.items()
        if t[0] == 'elem' and t[1][0] == 'bytes' and t[2] == ('int', 0) and abs(x) == 1 and 0 <= c * x < 128:
            return mk_eq_atom(('elem', ('chars', t[1][1]), t[2]), ('char', c * x))
    if lead < 0:
        nb = mk_lin(0, {t: -x for t, x in d.items()})
        if k == 'ieq': return ('atom', ('ieq', nb, -c))
        # base<=c  <=>  -base >= -c  <=>  not(-base <= -c-1)
        return ('natom', ('ile', nb, -c - 1))
    return ('atom', (k, mk_lin(0, d), c))

def neg(b):
    if b[0] == 'bool': return ('bool', not b[1])
    if b[0] == 'atom': return ('natom', b[1])
    if b[0] == 'natom': return ('atom', b[1])
    return ('natom', b) if b[0] != 'not' else b[1]

def b_le(a, b): return norm_int_atom('ile', sub(a, b), 0)
def b_lt(a, b): return norm_int_atom('ile', sub(a, b), -1)
def b_ieq(a, b): return norm_int_atom('ieq', sub(a, b), 0)

def mk_eq_atom(a, b):
    while a[0] == b[0] and a[0] in ('bytes', 'chars'): a, b = a[1], b[1]
    if a == b: return ('bool', True)
    if is_const(a) and is_const(b): return ('bool', False)
    if repr(b) < repr(a) and not is_const(b) or is_const(a): a, b = b, a
    return ('atom', ('eq', a, b))

def mk_eq(a, b):
    if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1]:
        if a[2] != b[2]: return ('bool', False)
    ints = ('int', 'lin')
    if a[0] in ints and b[0] in ints: return norm_int_atom('ieq', sub(a, b), 0)
    return mk_eq_atom(a, b)

class Conds:
    """a conjunction of facts: booleans per atom, interval sets per integer base, variants per term"""
    __slots__ = ('b', 'i', 'v', 'log')
    def __init__(self, o=None):
        if o: self.b, self.i, self.v, self.log = dict(o.b), dict(o.i), dict(o.v), o.log
        else: self.b, self.i, self.v, self.log = {}, {}, {}, ()

    def dom(self, base):
        r = self.i.get(base)
        if r is not None: return r
        return default_dom(base)

    def get(self, bv):
        """True/False/None for a boolean value"""
        if bv[0] == 'bool': return bv[1]
        if bv[0] == 'natom':
            r = self.get(('atom', bv[1])); return None if r is None else not r
        if bv[0] != 'atom': return self.b.get(bv)
        a = bv[1]
        if a[0] == 'ile':
            lo, hi, ex = self.dom(a[1])
            if hi is not None and hi <= a[2]: return True
            if lo is not None and lo > a[2]: return False
            return None
        if a[0] == 'ieq':
            lo, hi, ex = self.dom(a[1])
            if a[2] in ex or (lo is not None and a[2] < lo) or (hi is not None and a[2] > hi): return False
            if lo is not None and lo == hi == a[2]: return True
            return None
        if a[0] == 'isvar':
            s = self.v.get(a[1])
            if s is not None:
                if s == frozenset([a[2]]): return True
                if a[2] not in s: return False
            return None
        if a[0] == 'invar':
            s = self.v.get(a[1])
            if s is not None:
                if s <= a[2]: return True
                if not (s & a[2]): return False
            return None
        r = self.b.get(a)
        if r is None and a[0] == 'eq' and is_const(a[2]):
            e = self.v.get(('eqc', a[1]))
            if e is not None: return a[2] == e
        return r

    def assume(self, bv, val=True):
        """add bv==val; False when contradictory"""
        if bv[0] == 'bool': return bv[1] == val
        if bv[0] == 'natom': return self.assume(('atom', bv[1]), not val)
        if bv[0] == 'atom': a = bv[1]
        else: a = bv
        cur = self.get(bv)
        if cur is not None: return cur == val
        self.log = self.log + ((a, val),)
        if a[0] == 'ile':
            lo, hi, ex = self.dom(a[1])
            if val: hi = a[2] if hi is None else min(hi, a[2])
            else: lo = a[2] + 1 if lo is None else max(lo, a[2] + 1)
            return self.setdom(a[1], lo, hi, ex)
        if a[0] == 'ieq':
            lo, hi, ex = self.dom(a[1])
            if val: return self.setdom(a[1], a[2], a[2], frozenset())
            return self.setdom(a[1], lo, hi, ex | {a[2]})
        if a[0] == 'invar':
            s = self.v.get(a[1])
            s = a[2] if s is None else (s & a[2])
            if not val: raise ValueError('negated variant set')
            self.v[a[1]] = s
            return bool(s)
        if a[0] == 'isvar':
            s = self.v.get(a[1])
            if s is None: s = frozenset(range(a[3]))
            s = (s & {a[2]}) if val else (s - {a[2]})
            self.v[a[1]] = s
            return bool(s)
        self.b[a] = val
        if a[0] == 'eq' and is_const(a[2]) and val:
            self.v[('eqc', a[1])] = a[2]
        return True

    def setdom(self, base, lo, hi, ex):
        while lo is not None and lo in ex: ex = ex - {lo}; lo += 1
        while hi is not None and hi in ex: ex = ex - {hi}; hi -= 1
        if lo is not None and hi is not None and lo > hi: return False
        self.i[base] = (lo, hi, ex)
        return True

    def restrict(self, t, allowed):
        s = self.v.get(t)
        s = frozenset(allowed) if s is None else s & frozenset(allowed)
        self.v[t] = s
        return bool(s)

def closed(J):
    """the facts of a path with equal terms replaced by one of them; None when they contradict each other"""
    for _ in range(4):
        m = {}; lin = set()
        for base, (lo, hi, ex) in J.i.items():
            if lo is not None and lo == hi and len(lin_parts(base)[1]) == 2:
                c, d = lin_parts(base)
                (x, k), (y, l) = sorted(d.items(), key=repr)
                if k in (1, -1) and l == -k and not contains(y, lambda z: z == x):
                    y = subst(add(y, ('int', k * lo)), m)
                    if x in m or contains(y, lambda z: z == x): continue
                    m = {z: subst(w, {x: y}) for z, w in m.items()}; m[x] = y; lin.add(base)
        for a, v in J.b.items():
            if v and a[0] == 'eq':
                p, q = subst(a[1], m), subst(a[2], m)
                if p == q: continue
                if is_const(p) and is_const(q): return None
                if is_const(p) or contains(p, lambda y: y == q): p, q = q, p
                if contains(q, lambda y: y == p): continue
                m = {x: subst(y, {p: q}) for x, y in m.items()}; m[p] = q
        K = Conds(); K.v = {}
        for a, v in J.log:
            if a[0] == 'eq' and v and J.b.get(a): b = ('atom', a) ; K.log += ((a, v),); K.b[a] = v; continue
            if a[0] in ('ieq', 'ile') and a[1] in lin:
                K.log += ((a, v),); K.i[a[1]] = J.i[a[1]]; continue
            b = subst(a, m)
            if not K.assume(b if b[0] in ('bool', 'atom', 'natom') else ('atom', b), v): return None
        for t, s in J.v.items():
            if t[0] == 'eqc' or not isinstance(s, frozenset): continue
            t2 = subst(t, m)
            if t2[0] == 'adt':
                if t2[2] not in s: return None
            elif not K.restrict(t2, s): return None
        for a, v in K.b.items():
            if a[0] == 'eq' and not v and a[1][0] not in ('int', 'lin', 'char') and a[2][0] != 'char':
                z = ('int', 0)
                if all(K.get(b_le(subst(vlen(x), m), z)) for x in a[1:]): return None
        new = {a for a, v in K.b.items() if v and a[0] == 'eq'} - {a for a, v in J.b.items() if v and a[0] == 'eq'}
        if not new: return K
        J = K
    return K

DOM_HOOKS = []

def upper_of(t):
    """term that bounds t from above, or None"""
    if t[0] in ('find', 'rfind'):
        p = slen(t[2]) if t[2][0] in ('str', 'char') else ('int', 0)
        if p[0] != 'int': p = ('int', 0)
        return sub(slen(t[1]), p)
    if t[0] == 'sstart': return ('send', t[1])
    if t[0] == 'wrap': return ('int', (1 << t[1]) - 1)
    if t[0] == 'mstart': return ('mend', t[1])
    if t[0] == 'mend' and t[1][0] == 'match' and t[1][1][0] == 'elem' and t[1][1][1][0] == 'captures':
        return slen(t[1][1][1][2])
    return None

def low(c, d, fuel=6):
    """a lower bound of c + sum k*t, or None"""
    for t, k in sorted(d.items(), key=lambda x: -len(repr(x[0]))):
        if k < 0:
            u = upper_of(t)
            if u is None or fuel == 0: continue
            c2, d2 = lin_parts(u)
            e = dict(d); del e[t]
            for x, y in d2.items(): e[x] = e.get(x, 0) + k * y
            return low(c + k * c2, {x: y for x, y in e.items() if y}, fuel - 1)
    if all(k > 0 and nonneg(t) for t, k in d.items()): return c
    return None

def default_dom(base):
    c, d = lin_parts(base)
    lo = low(0, d)
    hi = low(0, {t: -k for t, k in d.items()})
    if hi is not None: hi = -hi
    for h in DOM_HOOKS:
        r = h(base, d)
        if r: lo, hi = r
    return (lo, hi, frozenset())

def contains(t, pred, _seen=None):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or id(x) in seen: continue
        seen.add(id(x))
        if x and isinstance(x[0], str) and pred(x): return x
        st.extend(x)
    return None

def show(t, d=0):
    """readable form"""
    if not isinstance(t, tuple): return str(t)
    if not t: return '()'
    k = t[0]
    if not isinstance(k, str): return '(' + ', '.join(show(x) for x in t) + ')'
    if k == 'int': return str(t[1])
    if k == 'bool': return str(t[1]).lower()
    if k == 'str': return repr(t[1])
    if k == 'char': return "'%s'" % chr(t[1])
    if k == 'atom': return show(t[1])
    if k == 'natom': return '!' + show(t[1])
    if k == 'lin':
        s = ' + '.join((('%d*' % c if c not in (1, -1) else '-' if c == -1 else '') + show(x)) for x, c in t[2])
        return s + (' %+d' % t[1] if t[1] else '')
    if k == 'adt': return '%s#%s(%s)' % (str(t[1]).split('::')[-1], t[2], ', '.join(show(x) for x in t[3]))
    if k == 'tup': return '(' + ', '.join(show(x) for x in t[1]) + ')'
    if k == 'vec': return '[' + ', '.join(show(s[1]) if s[0] == 'one' else '*' + show(s[1]) for s in t[1]) + ']'
    if k == 'cat': return ' ++ '.join(show(x) for x in t[1])
    if k == 'substr': return '%s[%s..%s]' % (show(t[1]), show(t[2]), show(t[3]))
    if k == 'elem': return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'fld': return '%s.%s%s' % (show(t[1]), ('v%d.' % t[3]) if t[3] else '', t[4])
    if k == 'ile': return '(%s <= %d)' % (show(t[1]), t[2])
    if k == 'ieq': return '(%s == %d)' % (show(t[1]), t[2])
    if k == 'isvar': return '%s is v%d' % (show(t[1]), t[2])
    if k == 'eq': return '(%s == %s)' % (show(t[1]), show(t[2]))
    if k == 'arg': return 'arg%s' % t[1]
    if k == 'phi': return 'phi<%s>' % (t[2],)
    if k == 'fn': return 'fn'
    return k + '(' + ', '.join(show(x) for x in t[1:]) + ')'
