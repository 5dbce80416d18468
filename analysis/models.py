"""Meaning of the standard-library and third-party functions the analysed code calls, as terms."""
from terms import *
from interp import *
from strlang import CLASSES

M = {}
def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
            # the same item under the path it is re-exported at
            for a, b in (('pest::iterators::pair::', 'pest::iterators::'), ('pest::iterators::pairs::', 'pest::iterators::'),
                         ('pest::span::', 'pest::'), ('pest::parser::', 'pest::'), ('regex::regex::string::', 'regex::')):
                if a in n: M[n.replace(a, b)] = f
        return f
    return deco

def d(I, st, v):
    """value behind a mutable reference"""
    while v[0] == 'mref': v = I.rd(st, v[1], v[2])
    return v

def cellof(v):
    if v[0] != 'mref': raise Undecided('mutation of a shared value')
    return v[1], v[2]

def put(I, st, ref, val):
    c, p = cellof(ref)
    # follow a reference stored in the cell
    cur = I.rd(st, c, p)
    while cur[0] == 'mref':
        c, p = cur[1], cur[2]; cur = I.rd(st, c, p)
    st.set(c, p, val, I.P)

def ident(I, st, a, x): return [(st, d(I, st, a[0]))]

def tyname(I, x, i=0):
    """kind or adt name of the i-th type argument, through references"""
    a = x.c['a']
    if i >= len(a) or not isinstance(a[i], int): return None
    t = I.P.strip(a[i])
    return t.get('n') if t['k'] == 'adt' else t['k']

STRS = ('str', 'std::string::String', 'std::borrow::Cow')
INTS = ('uint', 'int')

# ------------------------------------------------------------------ identities
for n in ('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::borrow::Borrow::borrow', 'std::borrow::ToOwned::to_owned',
          'std::string::String::as_str', 'std::string::String::into_boxed_str', 'std::boxed::Box::<T>::new', 'std::string::String::as_mut_str',
          'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', 'core::slice::<impl [T]>::to_vec',
          'std::vec::Vec::<T, A>::into_boxed_slice', 'std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec',
          'std::str::<impl str>::to_owned', 'std::str::<impl str>::into_string', 'std::hint::must_use', 'std::hint::black_box',
          'std::boxed::Box::<T>::from', 'std::rc::Rc::<T>::new', 'std::sync::Arc::<T>::new',
          'std::vec::Vec::<T, A>::shrink_to_fit', 'std::slice::<impl [T]>::into_iter'):
    pass

LOCALC = 'dockerfile_parser'

@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut')
def m_deref(I, st, a, x):
    rn = x.c.get('rn', '')
    if x.c.get('i') and rn.startswith('<' + LOCALC): return None
    t = tyname(I, x)
    if t and (t.startswith(LOCALC) or 'Lazy' in t): return None
    if x.c['n'].endswith('deref_mut'): return [(st, a[0])]
    return ident(I, st, a, x)

@model('std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::convert::AsMut::as_mut')
def m_asref(I, st, a, x):
    if x.c.get('i') and x.c.get('rn', '').startswith('<' + LOCALC): return None
    t = tyname(I, x)
    if t in STRS or t in ('std::vec::Vec', 'slice', 'std::boxed::Box'):
        b = tyname(I, x, 1)
        v = d(I, st, a[0])
        if b == 'slice' and t in STRS: v = ('bytes', v)
        return [(st, v)]
    return None

@model('std::borrow::ToOwned::to_owned', 'std::string::String::as_str', 'std::boxed::Box::<T>::new', 'std::vec::Vec::<T, A>::as_slice',
       'std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec', 'std::str::<impl str>::to_owned', 'std::hint::must_use',
       'std::string::String::into_boxed_str', 'std::str::<impl str>::into_string', 'std::clone::Clone::clone',
       'std::vec::Vec::<T, A>::into_boxed_slice', 'std::option::Option::<&T>::cloned', 'std::option::Option::<&T>::copied',
       'std::borrow::Cow::<\'_, B>::into_owned')
def m_ident(I, st, a, x): return ident(I, st, a, x)

@model('<std::string::String as std::convert::From<&str>>::from', '<std::string::String as std::convert::From<&std::string::String>>::from',
       '<std::string::String as std::convert::From<&mut str>>::from', '<std::boxed::Box<str> as std::convert::From<&str>>::from',
       '<std::string::String as std::convert::From<std::boxed::Box<str>>>::from', "<std::string::String as std::convert::From<std::borrow::Cow<'a, str>>>::from",
       '<T as std::convert::From<T>>::from', '<std::string::String as std::str::FromStr>::from_str')
def m_from_ident(I, st, a, x):
    v = d(I, st, a[0])
    if x.c['n'].endswith('from_str'): v = ok(v)
    return [(st, v)]

@model('<std::string::String as std::convert::From<char>>::from')
def m_from_char(I, st, a, x): return [(st, chstr(a[0]))]

def chstr(c): return ('str', chr(c[1])) if c[0] == 'char' else ('chstr', c)

ORD = 'std::cmp::Ordering'
def ordered(I, st, p, q, n):
    """a total order about which nothing else is known"""
    if n in ('max', 'min'): return None
    if p[0] == q[0] == 'bytes': p, q = p[1], q[1]
    out = []
    for s, e in I.fork_bool(st, mk_eq_atom(p, q)):
        if e: out.append((s, 0)); continue
        swap = repr(q) < repr(p)
        at = ('atom', ('slt', q, p) if swap else ('slt', p, q))
        out += [(s2, -1 if b != swap else 1) for s2, b in I.fork_bool(s, at)]
    val = {'lt': lambda c: ('bool', c < 0), 'le': lambda c: ('bool', c <= 0), 'gt': lambda c: ('bool', c > 0), 'ge': lambda c: ('bool', c >= 0),
           'cmp': lambda c: ('adt', ORD, c + 1, ()), 'partial_cmp': lambda c: some(('adt', ORD, c + 1, ()))}[n]
    return [(s, val(c)) for s, c in out]

@model('std::mem::discriminant')
def m_discriminant(I, st, a, x):
    v = d(I, st, a[0]); t = I.P.strip(x.c['a'][0])
    if v[0] == 'adt': return [(st, ('int', I.dval(v[1], I.P.adts[v[1]]['variants'][v[2]]['d'])))]
    return [(st, ('discr', v, t['n']))] if t.get('n') in I.P.adts else None

@model('<std::mem::Discriminant<T> as std::cmp::PartialEq>::eq')
def m_discriminant_eq(I, st, a, x):
    p, q = d(I, st, a[0]), d(I, st, a[1])
    return I.binop(st, 'Eq', p, q, False, None) if 'discr' in (p[0], q[0]) else [(st, b_ieq(p, q))] if p[0] == q[0] == 'int' else None

@model('std::string::ToString::to_string')
def m_to_string(I, st, a, x):
    t = tyname(I, x)
    v = d(I, st, a[0])
    if t in STRS: return [(st, v)]
    if t == 'char': return [(st, chstr(v))]
    if t in INTS or t == 'bool': return [(st, int_str(v))]
    return None

def int_str(v):
    return ('str', str(v[1])) if v[0] == 'int' else ('str', str(v[1]).lower()) if v[0] == 'bool' else ('itoa', v)

# ------------------------------------------------------------------ comparison
@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def m_eq(I, st, a, x):
    p, q = d(I, st, a[0]), d(I, st, a[1])
    t, u = tyname(I, x), tyname(I, x, 1) or tyname(I, x)
    ne = x.c['n'].endswith('ne')
    r = None
    if t in STRS or u in STRS: r = str_eq(p, q)
    elif t in INTS: r = b_ieq(p, q)
    elif t == 'char': r = mk_eq_atom(p, q)
    elif t == 'bool':
        out = []
        for s, b1 in I.fork_bool(st, I.as_bool(p)):
            for s2, b2 in I.fork_bool(s, I.as_bool(q)): out.append((s2, ('bool', (b1 == b2) != ne)))
        return out
    elif t in ('std::vec::Vec', 'slice', 'array', 'std::collections::HashSet', 'std::collections::HashMap'):
        r = mk_eq_atom(p, q)
        if p[0] == 'vec' and q[0] == 'vec' and all(s[0] == 'one' for s in p[1] + q[1]):
            if len(p[1]) != len(q[1]): r = ('bool', False)
    elif t == 'std::io::ErrorKind': r = mk_eq_atom(p, q) if p != q else ('bool', True)
    elif p == q and t and t.startswith(LOCALC) and p[0] != 'adt': r = ('bool', True) if False else None
    if r is None: return None
    return [(st, neg(r) if ne else r)]

def str_eq(p, q):
    if p == ('str', '') or q == ('str', ''):
        o = q if p == ('str', '') else p
        return b_le(slen(o), ('int', 0))
    # equality of two case mappings with a constant that has upper-case letters is false
    for m, o in ((p, q), (q, p)):
        if m[0] == 'lower' and o[0] == 'str' and o[1] != ascii_lower(o[1]): return ('bool', False)
    return mk_eq_atom(p, q)

def ascii_lower(s): return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in s)

@model('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge',
       'std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp', 'std::cmp::Ord::max', 'std::cmp::Ord::min')
def m_ord(I, st, a, x):
    t = tyname(I, x)
    n = x.c['n'].split('::')[-1]
    if t in STRS or t in ('std::vec::Vec', 'slice', 'array'): return ordered(I, st, d(I, st, a[0]), d(I, st, a[1]), n)
    if t not in INTS: return None
    p, q = d(I, st, a[0]), d(I, st, a[1])
    if 'discr' in (p[0], q[0]):
        if n in ('max', 'min'): return None
        O = lambda x, y: -1 if x < y else int(x > y)
        num = lambda s, x, y: [(s, ('int', O(x[1], y[1])))] if x[0] == y[0] == 'int' else [(s2, ('int', v[2] - 1)) for s2, v in I.cmp3(s, x, y)]
        val = {'lt': lambda c: ('bool', c < 0), 'le': lambda c: ('bool', c <= 0), 'gt': lambda c: ('bool', c > 0), 'ge': lambda c: ('bool', c >= 0),
               'cmp': lambda c: ('adt', ORD, c + 1, ()), 'partial_cmp': lambda c: some(('adt', ORD, c + 1, ()))}[n]
        return [(s3, val(c[1])) for s1, x in I.which(st, p) for s2, y in I.which(s1, q) for s3, c in num(s2, x, y)]
    if n == 'lt': return [(st, b_lt(p, q))]
    if n == 'le': return [(st, b_le(p, q))]
    if n == 'gt': return [(st, b_lt(q, p))]
    if n == 'ge': return [(st, b_le(q, p))]
    if n == 'cmp': return I.cmp3(st, p, q)
    if n == 'partial_cmp': return [(s, some(v)) for s, v in I.cmp3(st, p, q)]
    return [(s, (q if b else p) if n == 'max' else (p if b else q)) for s, b in I.fork_bool(st, b_lt(p, q))]

@model('std::intrinsics::discriminant_value', 'std::mem::discriminant')
def m_discr(I, st, a, x):
    v = d(I, st, a[0])
    if v[0] == 'adt': return [(st, ('int', int(I.P.adts[v[1]]['variants'][v[2]]['d'])))]
    return [(st, ('discr', v, tyname(I, x)))]

# ------------------------------------------------------------------ integers
def sat_sub(I, st, p, q):
    return [(s, ('int', 0) if b else sub(p, q)) for s, b in I.fork_bool(st, b_lt(p, q))]

@model(*['core::num::<impl %s>::saturating_sub' % t for t in ('u8', 'u16', 'u32', 'u64', 'usize')])
def m_satsub(I, st, a, x): return sat_sub(I, st, a[0], a[1])

@model(*['core::num::<impl %s>::checked_sub' % t for t in ('u8', 'u16', 'u32', 'u64', 'usize')])
def m_chksub(I, st, a, x):
    return [(s, NONE if b else some(sub(a[0], a[1]))) for s, b in I.fork_bool(st, b_lt(a[0], a[1]))]

@model(*['core::num::<impl %s>::%s' % (t, f) for t in ('usize', 'isize', 'u64', 'i64') for f in ('saturating_add', 'wrapping_add')])
def m_addi(I, st, a, x): return [(st, add(a[0], a[1]))]

@model(*['core::num::<impl %s>::%s' % (t, f) for t in ('isize', 'i64') for f in ('saturating_sub', 'wrapping_sub')])
def m_subi(I, st, a, x): return [(st, sub(a[0], a[1]))]

@model('core::num::<impl usize>::checked_add')
def m_chkadd(I, st, a, x): return [(st, some(add(a[0], a[1])))]

def m_limit(t, hi):
    def f(I, st, a, x): return [(st, ('int', (1 << t) - 1 if hi else 0))]
    return f
for _t, _w in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('usize', 64), ('u128', 128)):
    model('core::num::<impl %s>::max_value' % _t)(m_limit(_w, True)); model('core::num::<impl %s>::min_value' % _t)(m_limit(_w, False))

# ------------------------------------------------------------------ strings
def pat(p, I=None):
    """what a search looks for: a string, or a set of characters"""
    if p[0] == 'char': return ('str', chr(p[1]))
    S = None
    if p[0] in ('clo', 'fn') and I is not None: S = charpred(I, p)
    if p[0] == 'vec' and p[1] and all(g[0] == 'one' and g[1][0] == 'char' and g[1][1] < 128 for g in p[1]): S = frozenset(g[1][1] for g in p[1])
    if S is None: return p
    if len(S) == 1 and min(S) < 128: return ('str', chr(min(S)))
    return ('cset', S)

ASCII = frozenset(range(128)); HI = 128
UNI = {'is_whitespace': ' \t\n\r\x0b\x0c', 'is_control': ''.join(map(chr, [*range(32), 127])), 'is_alphabetic': CLASSES['is_ascii_alphabetic'],
       'is_alphanumeric': CLASSES['is_ascii_alphanumeric'], 'is_numeric': CLASSES['is_ascii_digit'], 'is_lowercase': CLASSES['is_ascii_lowercase'], 'is_uppercase': CLASSES['is_ascii_uppercase']}
PC = ('pc',)
class Unclear(Exception): pass

def pchar(t, c):
    """value of a character or byte term at PC = c"""
    if t == PC: return c
    if t[0] in ('char', 'int'): return t[1]
    if t[0] == 'clower': x = pchar(t[1], c); return x + 32 if 65 <= x <= 90 else x
    if t[0] == 'wrap': x = pchar(t[2], c); return x % (1 << t[1])
    if t[0] == 'lin': return t[1] + sum(k * pchar(x, c) for x, k in t[2])
    raise Unclear()

def patom(a, c):
    k = a[0]
    if k == 'bool': return a[1]
    if k == 'eq':
        for x in a[1:]:
            if x[0] == 'char' and x[1] > 127: raise Unclear()
        return pchar(a[1], c) == pchar(a[2], c)
    if k == 'cclass':
        x = pchar(a[2], c); w = CLASSES.get(a[1]) or UNI.get(a[1])
        if w is None: raise Unclear()
        if x > 127:
            if a[1].startswith('is_ascii'): return False
            raise Unclear()
        return chr(x) in w
    if k == 'charcmp':
        x, y = pchar(a[2], c), pchar(a[3], c)
        if max((z[1] for z in a[2:] if z[0] == 'char'), default=0) > 127: raise Unclear()
        return {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[a[1]]
    if k == 'ile': return pchar(a[1], c) <= a[2]
    if k == 'ieq': return pchar(a[1], c) == a[2]
    if k == 'inset': x = pchar(a[2], c); return (x if x < 128 else HI) in a[1]
    raise Unclear()

_preds = {}
def charpred(I, f, byte=False):
    """the set of characters a predicate holds for, or None"""
    if f[0] == 'fn':
        c = f[1].c; last = c['n'].split('::')[-1]
        if '<impl char>' in c['n'] or '<impl u8>' in c['n']:
            w = CLASSES.get(last)
            return frozenset(map(ord, w)) if w else None
        key, args = c.get('i'), [PC]
    elif f[0] == 'clo': key, args = f[2], [f, PC]
    else: return None
    if key not in I.P.fns or 'blocks' not in I.P.fns[key] or I.P.fns[key]['argc'] != len(args): return None
    if contains(f, lambda x: x[0] in ('mref', 'phi')): return None
    memo = (id(I.P), key, f if f[0] == 'clo' else None, byte)
    if memo in _preds: return _preds[memo]
    S = set()
    try:
        ts = Interp(I.P, I.models, I.boundary, 2000).analyze(key, args=args)
        if len(ts.cuts) != 1 or any(t.kind != 'ret' or t.value[0] != 'bool' for t in ts.transitions()): raise Unclear()
        def at(c):
            hit = {t.value[1] for t in ts.transitions() if all(patom(a, c) == v for a, v in t.conds.log)}
            if len(hit) != 1: raise Unclear()
            return hit.pop()
        S = {c for c in range(128) if at(c)}
        hi = {at(c) for c in (range(128, 256) if byte else (0x80, 0xff, 0x100, 0xd7ff, 0x10ffff))}
        if len(hi) != 1: raise Unclear()
        if hi.pop(): S.add(HI)
        S = frozenset(S)
    except (Unclear, Undecided): S = None
    _preds[memo] = S
    return S

PRE = {}        # calls that are understood before they are read from a model loop
def pre(*names):
    def deco(f):
        for n in names: PRE[n] = f
        return f
    return deco

@pre('std::iter::Iterator::all', 'std::iter::Iterator::any')
def it_all(I, st, a, x):
    v = d(I, st, a[0])
    if v[0] != 'it' or v[2][0] not in ('chars', 'bytes') or v[3] != ('int', 0) or v[4] != vlen(v[2]) or a[0][0] != 'mref': return None
    f = d(I, st, a[1]); S = charpred(I, f, v[2][0] == 'bytes')
    if S is None: return None
    put(I, st, a[0], ('dead',))
    if x.c['n'].endswith('all'): return [(st, allchars(v[2][1], S))]
    return [(st, neg(allchars(v[2][1], (ASCII | {HI}) - S)))]

@pre('<std::collections::HashSet<T, S> as std::iter::FromIterator<T>>::from_iter', '<std::collections::HashMap<K, V, S> as std::iter::FromIterator<(K, V)>>::from_iter')
def set_again(I, st, a, x):
    """all entries of a table, put into a new one"""
    v = a[0]
    return [(st, v[2][1])] if v[0] == 'it' and v[2][0] == 'unordered' and v == mk_it(v[2]) else None

def allchars(s, S):
    if S >= ASCII | {HI}: return ('bool', True)
    if s[0] == 'str': return ('bool', all(min(ord(c), HI) in S for c in s[1]))
    if not S: return b_le(slen(s), ('int', 0))
    return ('atom', ('allchars', s, S))

def known_pat(p): return p[0] in ('str', 'char')

@model('core::str::<impl str>::len', 'std::string::String::len')
def s_len(I, st, a, x): return [(st, slen(d(I, st, a[0])))]

@model('core::str::<impl str>::is_empty', 'std::string::String::is_empty')
def s_empty(I, st, a, x): return [(st, b_le(slen(d(I, st, a[0])), ('int', 0)))]

@model('std::string::String::as_bytes', 'core::str::<impl str>::as_bytes', 'std::string::String::into_bytes')
def s_bytes(I, st, a, x): return [(st, ('bytes', d(I, st, a[0])))]

def lower(s):
    if s[0] == 'str': return ('str', ascii_lower(s[1]))
    if s[0] == 'lower': return s
    return ('lower', s)

@model('std::str::<impl str>::to_ascii_lowercase', 'core::str::<impl str>::to_ascii_lowercase')
def s_lower(I, st, a, x): return [(st, lower(d(I, st, a[0])))]

@model('core::str::<impl str>::eq_ignore_ascii_case')
def s_eqi(I, st, a, x): return [(st, str_eq(lower(d(I, st, a[0])), lower(d(I, st, a[1]))))]

def unary(tag):
    def f(I, st, a, x): return [(st, (tag, d(I, st, a[0])))]
    return f
for n in ('to_lowercase', 'to_uppercase', 'to_ascii_uppercase', 'trim', 'trim_start', 'trim_end', 'escape_debug', 'trim_left', 'trim_right'):
    for pre in ('std::str::<impl str>::', 'core::str::<impl str>::'): M[pre + n] = unary('s_' + n)

@model('core::str::<impl str>::make_ascii_lowercase', 'std::string::String::make_ascii_lowercase')
def s_mkl(I, st, a, x): put(I, st, a[0], lower(d(I, st, a[0]))); return [(st, UNIT)]
@model('core::str::<impl str>::make_ascii_uppercase', 'std::string::String::make_ascii_uppercase')
def s_mku(I, st, a, x): put(I, st, a[0], ('s_to_ascii_uppercase', d(I, st, a[0]))); return [(st, UNIT)]

@model('std::string::String::pop')
def s_pop(I, st, a, x):
    s = d(I, st, a[0]); out = []
    for q, b in I.fork_bool(st, b_le(slen(s), ('int', 0))):
        if b: out.append((q, NONE)); continue
        put(I, q, a[0], ('s_popped', s)); out.append((q, some(('s_lastchar', s))))
    return out

def s2(tag):
    def f(I, st, a, x): return [(st, (tag, d(I, st, a[0]), pat(d(I, st, a[1]), I)))]
    return f
for n in ('trim_matches', 'trim_start_matches', 'trim_end_matches', 'repeat'):
    for pre in ('std::str::<impl str>::', 'core::str::<impl str>::'): M[pre + n] = s2('s_' + n)

@model('std::str::<impl str>::replace', 'core::str::<impl str>::replace')
def s_replace(I, st, a, x): return [(st, ('replace', d(I, st, a[0]), pat(d(I, st, a[1]), I), d(I, st, a[2])))]

@model('std::str::<impl str>::replacen')
def s_replacen(I, st, a, x): return [(st, ('replacen', d(I, st, a[0]), pat(d(I, st, a[1]), I), d(I, st, a[2]), a[3]))]

def chars(s): return ('chars', s)

@model('core::str::<impl str>::contains')
def s_contains(I, st, a, x):
    s, p = d(I, st, a[0]), pat(d(I, st, a[1]), I)
    if s[0] == 'str' and p[0] == 'str': return [(st, ('bool', p[1] in s[1]))]
    if p[0] == 'cset': return [(st, neg(allchars(s, (ASCII | {HI}) - p[1])))]
    return [(st, ('atom', ('contains', s, p)))]

def fork_find(I, st, s, p, last=False):
    """[(state, position or None)]"""
    if s[0] == 'str' and p[0] == 'str':
        i = s[1].rfind(p[1]) if last else s[1].find(p[1])
        return [(st, None if i < 0 else ('int', len(s[1][:i].encode())))]
    if p[0] == 'cset': c = neg(allchars(s, (ASCII | {HI}) - p[1]))
    else: c = ('atom', ('contains', s, p))
    return [(s2, (('rfind' if last else 'find'), s, p) if b else None) for s2, b in I.fork_bool(st, c)]

@model('core::str::<impl str>::find')
def s_find(I, st, a, x):
    return [(s, NONE if p is None else some(p)) for s, p in fork_find(I, st, d(I, st, a[0]), pat(d(I, st, a[1]), I))]

@model('core::str::<impl str>::rfind')
def s_rfind(I, st, a, x):
    return [(s, NONE if p is None else some(p)) for s, p in fork_find(I, st, d(I, st, a[0]), pat(d(I, st, a[1]), I), True)]

def split2(I, st, s, p, last=False):
    out = []
    for s2, pos in fork_find(I, st, s, p, last):
        if pos is None: out.append((s2, None))
        else: out.append((s2, (mk_substr(s, ('int', 0), pos), mk_substr(s, add(pos, slen(p)), slen(s)))))
    return out

@model('core::str::<impl str>::split_once')
def s_split_once(I, st, a, x):
    return [(s, NONE if r is None else some(('tup', r))) for s, r in split2(I, st, d(I, st, a[0]), pat(d(I, st, a[1]), I))]

@model('core::str::<impl str>::rsplit_once')
def s_rsplit_once(I, st, a, x):
    return [(s, NONE if r is None else some(('tup', r))) for s, r in split2(I, st, d(I, st, a[0]), pat(d(I, st, a[1]), I), True)]

def mk_it(seq): return ('it', 'v', seq, ('int', 0), vlen(seq))

@model('core::str::<impl str>::splitn', 'core::str::<impl str>::rsplitn')
def s_splitn(I, st, a, x):
    s, n, p = d(I, st, a[0]), a[1], pat(d(I, st, a[2]), I)
    r = x.c['n'].endswith('rsplitn')
    if n == ('int', 1): return [(st, mk_it(mk_vec([('one', s)])))]
    if n != ('int', 2): return [(st, mk_it(('rsplitn' if r else 'splitn', s, n, p)))]
    out = []
    for s2, q in split2(I, st, s, p, r):
        parts = [s] if q is None else list(q)[::-1] if r else list(q)
        out.append((s2, mk_it(mk_vec([('one', y) for y in parts]))))
    return out

@model('core::str::<impl str>::split', 'core::str::<impl str>::rsplit', 'core::str::<impl str>::split_terminator', 'core::str::<impl str>::matches',
       'core::str::<impl str>::match_indices', 'core::str::<impl str>::split_inclusive')
def s_split(I, st, a, x):
    return [(st, mk_it((x.c['n'].split('::')[-1], d(I, st, a[0]), pat(d(I, st, a[1]), I))))]

@model('core::str::<impl str>::chars', 'core::str::<impl str>::char_indices', 'core::str::<impl str>::lines', 'core::str::<impl str>::split_whitespace')
def s_chars(I, st, a, x): return [(st, mk_it((x.c['n'].split('::')[-1], d(I, st, a[0]))))]

@model('core::str::<impl str>::bytes')
def s_bytesit(I, st, a, x): return [(st, mk_it(('bytes', d(I, st, a[0]))))]

def starts(I, st, s, p):
    """boolean outcomes of s.starts_with(p)"""
    if s[0] == 'str' and p[0] == 'str': return [(st, s[1].startswith(p[1]))]
    if p == ('str', ''): return [(st, True)]
    if p[0] == 'str' and len(p[1]) == 1:
        out = []
        for s2, b in I.fork_bool(st, b_le(slen(s), ('int', 0))):
            if b: out.append((s2, False))
            else: out += I.fork_bool(s2, mk_eq_atom(('elem', chars(s), ('int', 0)), ('char', ord(p[1]))))
        return out
    if p[0] == 'cset':
        out = []
        for s2, b in I.fork_bool(st, b_le(slen(s), ('int', 0))):
            if b: out.append((s2, False))
            else: out += I.fork_bool(s2, ('atom', ('inset', p[1], ('elem', chars(s), ('int', 0)))))
        return out
    return I.fork_bool(st, ('atom', ('prefix', s, p)))

@model('core::str::<impl str>::starts_with')
def s_starts(I, st, a, x):
    p = d(I, st, a[1])
    if p[0] == 'vec' and all(s[0] == 'one' and s[1][0] == 'char' for s in p[1]):
        sts, out = [st], []
        for s in p[1]:
            nx = []
            for q in sts:
                for q2, b in starts(I, q, d(I, q, a[0]), pat(s[1])):
                    if b: out.append((q2, ('bool', True)))
                    else: nx.append(q2)
            sts = nx
        return out + [(q, ('bool', False)) for q in sts]
    p = pat(p, I)
    if p[0] not in ('str', 'cset'): return [(st, ('atom', ('prefix', d(I, st, a[0]), p)))]
    return [(s, ('bool', b)) for s, b in starts(I, st, d(I, st, a[0]), p)]

@model('core::str::<impl str>::ends_with')
def s_ends(I, st, a, x): return [(st, ('atom', ('suffix', d(I, st, a[0]), pat(d(I, st, a[1]), I))))]

@model('core::str::<impl str>::strip_prefix')
def s_strip(I, st, a, x):
    s, p = d(I, st, a[0]), pat(d(I, st, a[1]), I)
    return [(s2, some(mk_substr(s, slen(p), slen(s))) if b else NONE) for s2, b in starts(I, st, s, p)]

@model('core::str::<impl str>::strip_suffix')
def s_strips(I, st, a, x):
    s, p = d(I, st, a[0]), pat(d(I, st, a[1]), I)
    return [(s2, some(mk_substr(s, ('int', 0), sub(slen(s), slen(p)))) if b else NONE)
            for s2, b in I.fork_bool(st, ('atom', ('suffix', s, p)))]

@model('core::str::<impl str>::parse')
def s_parse(I, st, a, x):
    t = I.P.strip(x.c['a'][0]) if x.c['a'] else {}
    if t.get('k') == 'adt':
        return None
    s = d(I, st, a[0]); n = t.get('n', t.get('k'))
    return [(s2, ok(('parse_' + str(n), s)) if b else err(('parse_err', n, s))) for s2, b in I.fork_bool(st, ('atom', ('parses', n, s)))]

def is_boundary(s, i):
    """is byte i of s certainly a character boundary"""
    if s[0] in ('lower', 'upper'): return is_boundary(s[1], i)
    if i == ('int', 0) or i == slen(s): return True
    c, dd = lin_parts(i)
    for t, k in dd.items():
        if k != 1: continue
        if t[0] in ('find', 'rfind') and t[1] == s:
            n = slen(t[2]) if known_pat(t[2]) else None
            if i == t or n is not None and i == add(t, n): return True
        if t[0] in ('mstart', 'mend') and i == t and t[1][0] == 'match' and matched(t[1]) == s: return True
    if s[0] == 'substr': return is_boundary(s[1], add(s[2], i)) or boundary_base(s, i)
    return boundary_base(s, i)

def boundary_base(s, i):
    """positions found in a substring of s"""
    c, dd = lin_parts(i)
    for t, k in dd.items():
        if k == 1 and t[0] in ('find', 'rfind') and t[1][0] == 'substr' and t[1][1] == s:
            j = sub(i, t[1][2])
            if j == t or known_pat(t[2]) and j == add(t, slen(t[2])): return True
    return False

def matched(m):
    """subject string of a regex match term ('match', caps, i)"""
    return m[1][1][2] if m[1][0] == 'elem' and m[1][1][0] == 'captures' else None

def slice_guard(I, st, s, lo, hi):
    """-> (ok states, panic states) for s[lo..hi]"""
    good, bad = [], []
    for s1, b in I.fork_bool(st, b_le(lo, hi)):
        if not b: bad.append(s1); continue
        for s2, b2 in I.fork_bool(s1, b_le(hi, slen(s))):
            if not b2: bad.append(s2); continue
            cur = [s2]
            for i in (lo, hi):
                nx = []
                for q in cur:
                    if is_boundary(s, i): nx.append(q); continue
                    r = s
                    j = i
                    while r[0] == 'substr': j = add(r[2], j); r = r[1]
                    for q2, b3 in I.fork_bool(q, ('atom', ('boundary', r, j))):
                        (nx if b3 else bad).append(q2)
                cur = nx
            good += cur
    return good, bad

@model('core::str::<impl str>::split_at')
def s_split_at(I, st, a, x):
    s, i = d(I, st, a[0]), a[1]
    g, b = slice_guard(I, st, s, ('int', 0), i)
    return [(q, ('tup', (mk_substr(s, ('int', 0), i), mk_substr(s, i, slen(s))))) for q in g] + [(q, ('panic!', 'str split_at')) for q in b]

@model('core::str::<impl str>::is_char_boundary')
def s_bound(I, st, a, x):
    s, i = d(I, st, a[0]), a[1]
    out = []
    for s1, b in I.fork_bool(st, b_le(i, slen(s))):
        if not b: out.append((s1, ('bool', False)))
        elif is_boundary(s, i): out.append((s1, ('bool', True)))
        else: out.append((s1, ('atom', ('boundary', s, i))))
    return out

def range_of(I, r, n):
    """(lo, hi) of a range value over length n, or None"""
    if r[0] == 'adt':
        k = r[1].split('::')[-1]
        if k == 'Range': return r[3][0], r[3][1]
        if k == 'RangeFrom': return r[3][0], n
        if k == 'RangeTo': return ('int', 0), r[3][0]
        if k == 'RangeFull': return ('int', 0), n
        if k == 'RangeInclusive': return r[3][0], add(r[3][1], ('int', 1))
        if k == 'RangeToInclusive': return ('int', 0), add(r[3][0], ('int', 1))
    return None

@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def m_index(I, st, a, x):
    t = tyname(I, x)
    if t and t.startswith(LOCALC): return None
    s = d(I, st, a[0]); ix = a[1]
    if t in ('std::collections::HashMap',):
        return [(s2, ('mget', s, d(I, s2, ix)) if b else ('panic!', 'map index')) for s2, b in I.fork_bool(st, ('atom', ('mhas', s, d(I, st, ix))))]
    isstr = t in STRS
    n = slen(s) if isstr else vlen(s)
    r = range_of(I, ix, n)
    if r is None:
        if isstr or ix[0] == 'adt': return None
        out = []
        for s2, b in I.fork_bool(st, b_lt(ix, n)):
            if not b: out.append((s2, ('panic!', 'index out of bounds')))
            elif x.c['n'].endswith('index_mut'): out.append((s2, ('mref', a[0][1], a[0][2] + (('elem', ix),))))
            else: out.append((s2, velem(s, ix)))
        return out
    if isstr:
        g, b = slice_guard(I, st, s, r[0], r[1])
        return [(q, mk_substr(s, r[0], r[1])) for q in g] + [(q, ('panic!', 'str slice')) for q in b]
    out = []
    for s1, b in I.fork_bool(st, b_le(r[0], r[1])):
        for s2, b2 in (I.fork_bool(s1, b_le(r[1], n)) if b else [(s1, False)]):
            out.append((s2, mk_subseq(s, r[0], r[1]) if b2 else ('panic!', 'slice index')))
    return out

@model('core::str::<impl str>::get')
def s_get(I, st, a, x):
    s = d(I, st, a[0])
    r = range_of(I, a[1], slen(s))
    if r is None: return None
    g, b = slice_guard(I, st, s, r[0], r[1])
    return [(q, some(mk_substr(s, r[0], r[1]))) for q in g] + [(q, NONE) for q in b]

@model('std::string::String::new', 'std::string::String::with_capacity', '<std::string::String as std::default::Default>::default')
def s_new(I, st, a, x): return [(st, ('str', ''))]

@model('std::string::String::push_str', '<std::string::String as std::fmt::Write>::write_str')
def s_push_str(I, st, a, x):
    put(I, st, a[0], mk_cat([d(I, st, a[0]), d(I, st, a[1])]))
    return [(st, ok(UNIT) if x.c['n'].endswith('write_str') else UNIT)]

@model('std::string::String::push')
def s_push(I, st, a, x):
    put(I, st, a[0], mk_cat([d(I, st, a[0]), chstr(a[1])])); return [(st, UNIT)]

@model('std::string::String::clear')
def s_clear(I, st, a, x): put(I, st, a[0], ('str', '')); return [(st, UNIT)]

@model('std::string::String::replace_range')
def s_replace_range(I, st, a, x):
    s = d(I, st, a[0]); r = range_of(I, a[1], slen(s))
    if r is None: return None
    g, b = slice_guard(I, st, s, r[0], r[1])
    out = [(q, ('panic!', 'replace_range')) for q in b]
    for q in g:
        put(I, q, a[0], mk_cat([mk_substr(s, ('int', 0), r[0]), d(I, q, a[2]), mk_substr(s, r[1], slen(s))]))
        out.append((q, UNIT))
    return out

@model('std::string::String::insert_str')
def s_insert_str(I, st, a, x):
    s = d(I, st, a[0]); g, b = slice_guard(I, st, s, ('int', 0), a[1])
    out = [(q, ('panic!', 'insert_str')) for q in b]
    for q in g:
        put(I, q, a[0], mk_cat([mk_substr(s, ('int', 0), a[1]), d(I, q, a[2]), mk_substr(s, a[1], slen(s))])); out.append((q, UNIT))
    return out

@model('std::string::String::truncate')
def s_truncate(I, st, a, x):
    s = d(I, st, a[0]); out = []
    for s1, b in I.fork_bool(st, b_le(slen(s), a[1])):
        if b: out.append((s1, UNIT)); continue
        g, bad = slice_guard(I, s1, s, ('int', 0), a[1])
        out += [(q, ('panic!', 'truncate')) for q in bad]
        for q in g: put(I, q, a[0], mk_substr(s, ('int', 0), a[1])); out.append((q, UNIT))
    return out

@model('std::string::String::split_off')
def s_splitoff(I, st, a, x):
    s = d(I, st, a[0]); g, bad = slice_guard(I, st, s, a[1], slen(s))
    out = [(q, ('panic!', 'split_off')) for q in bad]
    for q in g: put(I, q, a[0], mk_substr(s, ('int', 0), a[1])); out.append((q, mk_substr(s, a[1], slen(s))))
    return out

@model('<std::string::String as std::ops::Add<&str>>::add')
def s_add(I, st, a, x): return [(st, mk_cat([a[0], d(I, st, a[1])]))]

@model('<std::string::String as std::ops::AddAssign<&str>>::add_assign')
def s_adda(I, st, a, x): put(I, st, a[0], mk_cat([d(I, st, a[0]), d(I, st, a[1])])); return [(st, UNIT)]

@model('std::slice::<impl [T]>::concat', 'std::slice::<impl [S]>::concat')
def s_concat(I, st, a, x):
    v = d(I, st, a[0])
    if v[0] == 'vec' and all(s[0] == 'one' for s in v[1]): return [(st, mk_cat([s[1] for s in v[1]]))]
    return [(st, ('concat', v))]

for cls in ('is_ascii_digit', 'is_ascii_hexdigit', 'is_ascii_alphabetic', 'is_ascii_alphanumeric', 'is_ascii_whitespace', 'is_whitespace',
            'is_alphabetic', 'is_alphanumeric', 'is_numeric', 'is_ascii', 'is_ascii_uppercase', 'is_ascii_lowercase', 'is_ascii_punctuation', 'is_control'):
    def f(I, st, a, x, cls=cls): return [(st, cclass(cls, d(I, st, a[0])))]
    M['core::char::methods::<impl char>::' + cls] = f
    M['core::num::<impl u8>::' + cls] = f
def cclass(cls, c):
    w = CLASSES.get(cls)
    if c[0] in ('char', 'int') and w is not None: return ('bool', c[1] < 128 and chr(c[1]) in w)
    return ('atom', ('cclass', cls, c))

@model('core::char::methods::<impl char>::is_digit')
def c_isdigit(I, st, a, x):
    w = {('int', 10): 'is_ascii_digit', ('int', 16): 'is_ascii_hexdigit'}.get(a[1])
    if w: return [(st, cclass(w, d(I, st, a[0])))]
    if a[1] == ('int', 8): return [(st, ('atom', ('inset', frozenset(range(48, 56)), d(I, st, a[0]))))]
    return None

@model('core::char::methods::<impl char>::to_digit')
def c_todigit(I, st, a, x):
    r = c_isdigit(I, st, a, x)
    if r is None: return None
    return [(s, some(('todigit', d(I, s, a[0]), a[1])) if b else NONE) for s, b in I.fork_bool(st, r[0][1])]

@model('core::char::methods::<impl char>::eq_ignore_ascii_case', 'core::num::<impl u8>::eq_ignore_ascii_case')
def c_eqi(I, st, a, x):
    p, q = d(I, st, a[0]), d(I, st, a[1])
    if q[0] not in ('char', 'int'): p, q = q, p
    if q[0] not in ('char', 'int'): return [(st, ('atom', ('eq',) + tuple(sorted((('clower', p), ('clower', q)), key=repr))))]
    return [(st, ('atom', ('inset', frozenset(ord(c) for c in {chr(q[1]).lower(), chr(q[1]).upper()}), p)))] if q[1] < 128 else None

@model('core::char::methods::<impl char>::to_ascii_lowercase', 'core::num::<impl u8>::to_ascii_lowercase')
def c_lower(I, st, a, x): return [(st, ('clower', d(I, st, a[0])))]

# ------------------------------------------------------------------ vectors and slices
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', '<std::vec::Vec<T> as std::default::Default>::default')
def v_new(I, st, a, x): return [(st, ('vec', ()))]

@model('std::boxed::Box::<T>::new_uninit')
def b_uninit(I, st, a, x):
    c = ('H', st.fresh()); st.cells[c] = ('uninit',)
    return [(st, ('mref', c, ()))]

@model('std::boxed::box_assume_init_into_vec_unsafe', 'std::boxed::Box::<std::mem::MaybeUninit<T>, A>::assume_init')
def b_vec(I, st, a, x): return [(st, d(I, st, a[0]))]

@model('std::vec::from_elem')
def v_from_elem(I, st, a, x): return None

@model('std::vec::Vec::<T, A>::push')
def v_push(I, st, a, x):
    put(I, st, a[0], mk_vec([('all', d(I, st, a[0])), ('one', a[1])])); return [(st, UNIT)]

@model('std::vec::Vec::<T, A>::append')
def v_append(I, st, a, x):
    put(I, st, a[0], mk_vec([('all', d(I, st, a[0])), ('all', d(I, st, a[1]))])); put(I, st, a[1], ('vec', ())); return [(st, UNIT)]

@model('std::vec::Vec::<T, A>::extend_from_slice')
def v_extsl(I, st, a, x):
    put(I, st, a[0], mk_vec([('all', d(I, st, a[0])), ('all', d(I, st, a[1]))])); return [(st, UNIT)]

@model('std::vec::Vec::<T, A>::insert')
def v_insert(I, st, a, x):
    v = d(I, st, a[0])
    put(I, st, a[0], mk_vec([('all', mk_subseq(v, ('int', 0), a[1])), ('one', a[2]), ('all', mk_subseq(v, a[1], vlen(v)))])); return [(st, UNIT)]

@model('std::vec::Vec::<T, A>::remove')
def v_remove(I, st, a, x):
    v = d(I, st, a[0]); out = []
    for s, b in I.fork_bool(st, b_lt(a[1], vlen(v))):
        if not b: out.append((s, ('panic!', 'Vec::remove'))); continue
        put(I, s, a[0], mk_vec([('all', mk_subseq(v, ('int', 0), a[1])), ('all', mk_subseq(v, add(a[1], ('int', 1)), vlen(v)))]))
        out.append((s, velem(v, a[1])))
    return out

@model('std::vec::Vec::<T, A>::swap_remove')
def v_swap_remove(I, st, a, x):
    v = d(I, st, a[0]); n = vlen(v); m = sub(n, ('int', 1)); out = []
    for s, b in I.fork_bool(st, b_lt(a[1], n)):
        if not b: out.append((s, ('panic!', 'Vec::remove'))); continue
        for s2, l in I.fork_bool(s, b_ieq(a[1], m)):
            put(I, s2, a[0], mk_subseq(v, ('int', 0), m) if l else mk_vec([('all', mk_subseq(v, ('int', 0), a[1])), ('one', velem(v, m)), ('all', mk_subseq(v, add(a[1], ('int', 1)), m))]))
            out.append((s2, velem(v, a[1])))
    return out

@model('std::vec::Vec::<T, A>::split_off')
def v_split_off(I, st, a, x):
    v = d(I, st, a[0]); n = vlen(v); out = []
    for s, b in I.fork_bool(st, b_le(a[1], n)):
        if not b: out.append((s, ('panic!', 'slice index'))); continue
        put(I, s, a[0], mk_subseq(v, ('int', 0), a[1])); out.append((s, mk_subseq(v, a[1], n)))
    return out

@model('core::slice::<impl [T]>::reverse')
def v_reverse(I, st, a, x): put(I, st, a[0], mk_reversed(d(I, st, a[0]))); return [(st, UNIT)]

@model('core::slice::<impl [T]>::swap')
def v_swap(I, st, a, x):
    v = d(I, st, a[0]); n = vlen(v); out = []
    for s, b in I.fork_bool(st, b_lt(a[1], n)):
        for s2, b2 in (I.fork_bool(s, b_lt(a[2], n)) if b else [(s, False)]):
            if not b2: out.append((s2, ('panic!', 'index out of bounds'))); continue
            p, q = velem(v, a[1]), velem(v, a[2])
            put(I, s2, a[0], mk_upd(mk_upd(v, a[1], q), a[2], p)); out.append((s2, UNIT))
    return out

@model('std::vec::Vec::<T, A>::truncate')
def v_trunc(I, st, a, x):
    v = d(I, st, a[0]); out = []
    for s, b in I.fork_bool(st, b_lt(a[1], vlen(v))):
        if b: put(I, s, a[0], mk_subseq(v, ('int', 0), a[1]))
        out.append((s, UNIT))
    return out

@model('std::vec::Vec::<T, A>::clear')
def v_clear(I, st, a, x): put(I, st, a[0], ('vec', ())); return [(st, UNIT)]

@model('std::vec::Vec::<T, A>::pop')
def v_pop(I, st, a, x):
    v = d(I, st, a[0]); n = vlen(v); out = []
    for s, b in I.fork_bool(st, b_le(n, ('int', 0))):
        if b: out.append((s, NONE)); continue
        m = sub(n, ('int', 1))
        put(I, s, a[0], mk_subseq(v, ('int', 0), m))
        out.append((s, some(velem(v, m))))
    return out

@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len')
def v_len(I, st, a, x): return [(st, vlen(d(I, st, a[0])))]

@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def v_empty(I, st, a, x): return [(st, b_le(vlen(d(I, st, a[0])), ('int', 0)))]

def at(I, st, v, cond, ix, ref=None):
    out = []
    for s, b in I.fork_bool(st, cond):
        if not b: out.append((s, NONE))
        elif ref is not None: out.append((s, some(('mref', ref[1], ref[2] + (('elem', ix),)))))
        else: out.append((s, some(velem(v, ix))))
    return out

@model('core::slice::<impl [T]>::first')
def v_first(I, st, a, x): v = d(I, st, a[0]); return at(I, st, v, b_le(('int', 1), vlen(v)), ('int', 0))

@model('core::slice::<impl [T]>::last')
def v_last(I, st, a, x): v = d(I, st, a[0]); return at(I, st, v, b_le(('int', 1), vlen(v)), sub(vlen(v), ('int', 1)))

def mtarget(I, st, r):
    while True:
        c = I.rd(st, r[1], r[2])
        if c[0] == 'mref': r = c
        else: return r

@model('core::slice::<impl [T]>::last_mut')
def v_lastm(I, st, a, x):
    v = d(I, st, a[0]); return at(I, st, v, b_le(('int', 1), vlen(v)), sub(vlen(v), ('int', 1)), mtarget(I, st, a[0]))

@model('core::slice::<impl [T]>::first_mut')
def v_firstm(I, st, a, x):
    v = d(I, st, a[0]); return at(I, st, v, b_le(('int', 1), vlen(v)), ('int', 0), mtarget(I, st, a[0]))

@model('core::slice::<impl [T]>::get')
def v_get(I, st, a, x):
    v = d(I, st, a[0])
    r = range_of(I, a[1], vlen(v))
    if r is not None:
        out = []
        for s1, b in I.fork_bool(st, b_le(r[0], r[1])):
            for s2, b2 in (I.fork_bool(s1, b_le(r[1], vlen(v))) if b else [(s1, False)]):
                out.append((s2, some(mk_subseq(v, r[0], r[1])) if b2 else NONE))
        return out
    return at(I, st, v, b_lt(a[1], vlen(v)), a[1])

@model('core::slice::<impl [T]>::get_mut')
def v_getm(I, st, a, x):
    v = d(I, st, a[0]); return at(I, st, v, b_lt(a[1], vlen(v)), a[1], mtarget(I, st, a[0]))

@model('core::slice::<impl [T]>::split_last')
def v_splitlast(I, st, a, x):
    v = d(I, st, a[0]); n = vlen(v); m = sub(n, ('int', 1))
    return [(s, some(('tup', (velem(v, m), mk_subseq(v, ('int', 0), m)))) if b else NONE) for s, b in I.fork_bool(st, b_le(('int', 1), n))]

@model('core::slice::<impl [T]>::split_first')
def v_splitfirst(I, st, a, x):
    v = d(I, st, a[0]); n = vlen(v)
    return [(s, some(('tup', (velem(v, ('int', 0)), mk_subseq(v, ('int', 1), n)))) if b else NONE) for s, b in I.fork_bool(st, b_le(('int', 1), n))]

# ------------------------------------------------------------------ iterators
@model('core::slice::<impl [T]>::iter', 'std::vec::Vec::<T, A>::iter')
def it_iter(I, st, a, x): return [(st, mk_it(d(I, st, a[0])))]

@model('core::slice::<impl [T]>::iter_mut')
def it_itermut(I, st, a, x):
    if a[0][0] != 'mref': return None
    r = mtarget(I, st, a[0]); n = vlen(I.rd(st, r[1], r[2]))
    return [(st, ('it', 'v', ('mrefs', r[1], r[2]), ('int', 0), n))]

@model('std::iter::IntoIterator::into_iter')
def it_into(I, st, a, x):
    v = a[0]
    if v[0] == 'it': return [(st, v)]
    if v[0] == 'mref':
        w = d(I, st, v)
        if w[0] == 'it': return [(st, v)]
        t0 = I.P.ty(x.c['a'][0])
        t = tyname(I, x)
        if t in ('std::vec::Vec', 'slice', 'array'):
            return it_itermut(I, st, a, x)
        return [(st, v)]
    t = tyname(I, x)
    if t in ('std::vec::Vec', 'slice', 'array', 'std::boxed::Box'): return [(st, mk_it(v))]
    if t == OPT:
        out = []
        for s, w in open_opt(I, st, v): out.append((s, mk_it(mk_vec([] if w is None else [('one', w)]))))
        return out
    if t in ('std::collections::HashMap', 'std::collections::HashSet'): return [(st, mk_it(('unordered', v)))]
    if x.c.get('rn', '') == '<I as std::iter::IntoIterator>::into_iter': return [(st, v)]
    return None

def open_opt(I, st, v):
    if v[0] == 'adt': return [(st, None if v[2] == 0 else v[3][0])]
    out = []
    for s, b in I.fork_bool(st, ('atom', ('isvar', v, 1, 2))): out.append((s, ('fld', v, OPT, 1, 0) if b else None))
    return out

def seq_nonempty(seq, lo, hi):
    if seq[0] == 'chars' and lo == ('int', 0) and hi == vlen(seq): return b_le(('int', 1), slen(seq[1]))
    return b_lt(lo, hi)

@model('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')
def it_next(I, st, a, x):
    v = d(I, st, a[0])
    if v[0] != 'it': return None
    _, kind, seq, lo, hi = v
    back = x.c['n'].endswith('next_back')
    out = []
    for s, b in I.fork_bool(st, seq_nonempty(seq, lo, hi)):
        if not b: out.append((s, NONE)); continue
        if back:
            e = sub(hi, ('int', 1)); put(I, s, a[0], ('it', kind, seq, lo, e))
            out.append((s, some(velem(seq, e))))
        else:
            put(I, s, a[0], ('it', kind, seq, add(lo, ('int', 1)), hi))
            out.append((s, some(velem(seq, lo))))
    return out

@model('std::iter::Iterator::nth')
def it_nth(I, st, a, x):
    v = d(I, st, a[0])
    if v[0] != 'it': return None
    _, kind, seq, lo, hi = v
    p = add(lo, a[1]); out = []
    for s, b in I.fork_bool(st, b_lt(p, hi)):
        put(I, s, a[0], ('it', kind, seq, add(p, ('int', 1)) if b else hi, hi))
        out.append((s, some(velem(seq, p)) if b else NONE))
    return out

@model('std::iter::ExactSizeIterator::len')
def it_len(I, st, a, x):
    v = d(I, st, a[0])
    if v[0] != 'it': return None
    return [(st, sub(v[4], v[3]))]

@model("pest::iterators::pairs::Pairs::<'i, R>::peek", "std::iter::Peekable::<I>::peek")
def it_peek(I, st, a, x):
    v = d(I, st, a[0])
    if v[0] != 'it': return None
    return [(s, some(velem(v[2], v[3])) if b else NONE) for s, b in I.fork_bool(st, b_lt(v[3], v[4]))]

@model('std::iter::Iterator::by_ref')
def it_byref(I, st, a, x): return [(st, a[0])]

@model('std::iter::Iterator::cloned', 'std::iter::Iterator::copied', 'std::iter::Iterator::fuse', 'std::iter::Iterator::peekable')
def it_same(I, st, a, x):
    return [(st, a[0])] if a[0][0] == 'it' else None

@model('std::iter::Iterator::skip')
def it_skip(I, st, a, x):
    v = a[0]
    if v[0] != 'it' or a[1][0] != 'int': return None
    _, k, seq, lo, hi = v; n = a[1]; out = []
    for s, b in I.fork_bool(st, b_le(add(lo, n), hi)): out.append((s, ('it', k, seq, add(lo, n) if b else hi, hi)))
    return out

@model('std::iter::Iterator::collect')
def it_collect(I, st, a, x):
    """collecting a plain sequence into a Vec is the sequence"""
    v = a[0]
    t = I.P.ty(x.c['a'][1]) if len(x.c['a']) > 1 else {}
    if v[0] == 'it' and t.get('n') == 'std::string::String' and v[2][0] == 'split' and v[3] == ('int', 0) and v[4] == vlen(v[2]): return [(st, ('replace', v[2][1], v[2][2], ('str', '')))]
    if v[0] == 'it' and t.get('n') == 'std::vec::Vec': return [(st, mk_subseq(v[2], v[3], v[4]))]
    return None

M['probe::model::vec_from_iter'] = None
del M['probe::model::vec_from_iter']

# ------------------------------------------------------------------ memory
@model('std::prelude::v1::Some', 'std::option::Option::Some')
def c_some(I, st, a, x): return [(st, some(a[0]))]
@model('std::prelude::v1::Ok', 'std::result::Result::Ok')
def c_ok(I, st, a, x): return [(st, ok(a[0]))]
@model('std::prelude::v1::Err', 'std::result::Result::Err')
def c_err(I, st, a, x): return [(st, err(a[0]))]

@model('std::mem::replace')
def mem_replace(I, st, a, x):
    v = d(I, st, a[0]); put(I, st, a[0], a[1]); return [(st, v)]

@model('std::mem::take')
def mem_take(I, st, a, x):
    v = d(I, st, a[0]); t = tyname(I, x)
    z = {'std::string::String': ('str', ''), 'std::vec::Vec': ('vec', ()), 'uint': ('int', 0), 'int': ('int', 0), 'bool': ('bool', False), OPT: NONE}.get(t)
    if z is None: return None
    put(I, st, a[0], z); return [(st, v)]

@model('std::mem::swap')
def mem_swap(I, st, a, x):
    p, q = d(I, st, a[0]), d(I, st, a[1]); put(I, st, a[0], q); put(I, st, a[1], p); return [(st, UNIT)]

@model('std::mem::drop', 'std::mem::forget')
def mem_drop(I, st, a, x): return [(st, UNIT)]

@model('std::option::Option::<T>::take')
def opt_take(I, st, a, x):
    v = d(I, st, a[0]); put(I, st, a[0], NONE); return [(st, v)]

@model('std::option::Option::<T>::replace')
def opt_replace(I, st, a, x):
    v = d(I, st, a[0]); put(I, st, a[0], some(a[1])); return [(st, v)]

@model('std::option::Option::<T>::as_deref', 'std::option::Option::<T>::as_slice')
def opt_asderef(I, st, a, x):
    t = tyname(I, x)
    if t in STRS or t in ('std::vec::Vec', 'std::boxed::Box'): return ident(I, st, a, x)
    return None

# ------------------------------------------------------------------ maps and sets
@model('std::collections::HashMap::<K, V>::new', '<std::collections::HashMap<K, V, S> as std::default::Default>::default', 'std::collections::HashMap::<K, V>::with_capacity')
def h_new(I, st, a, x): return [(st, ('mapnew',))]

@model('std::collections::HashSet::<T>::new', '<std::collections::HashSet<T, S> as std::default::Default>::default', 'std::collections::HashSet::<T>::with_capacity')
def hs_new(I, st, a, x): return [(st, ('setnew',))]

@model('std::collections::HashMap::<K, V, S, A>::insert')
def h_insert(I, st, a, x):
    m = d(I, st, a[0]); put(I, st, a[0], ('mapins', m, d(I, st, a[1]), d(I, st, a[2])))
    return [(st, ('mapold', m, d(I, st, a[1])))]

@model('std::collections::HashMap::<K, V, S, A>::get')
def h_get(I, st, a, x):
    m, k = d(I, st, a[0]), d(I, st, a[1])
    return [(s, some(('mget', m, k)) if b else NONE) for s, b in I.fork_bool(st, ('atom', ('mhas', m, k)))]

@model('std::collections::HashMap::<K, V, S, A>::contains_key')
def h_has(I, st, a, x): return [(st, ('atom', ('mhas', d(I, st, a[0]), d(I, st, a[1]))))]

@model('std::collections::HashSet::<T, S, A>::is_empty')
def hs_empty(I, st, a, x):
    m = d(I, st, a[0])
    if m[0] == 'setins': return [(st, ('bool', False))]
    if m[0] == 'setnew': return [(st, ('bool', True))]
    return [(st, ('atom', ('setempty', m)))]

@model('std::collections::HashSet::<T, S, A>::insert')
def hs_insert(I, st, a, x):
    m = d(I, st, a[0]); k = d(I, st, a[1])
    put(I, st, a[0], ('setins', m, k)); return [(st, ('natom', ('sethas', m, k)))]

@model('std::collections::HashSet::<T, S, A>::contains')
def hs_has(I, st, a, x): return [(st, ('atom', ('sethas', d(I, st, a[0]), d(I, st, a[1]))))]

# ------------------------------------------------------------------ pest
@model("pest::iterators::pair::Pair::<'i, R>::as_rule")
def p_rule(I, st, a, x): return [(st, ('rule', d(I, st, a[0])))]
@model("pest::iterators::pair::Pair::<'i, R>::as_str", "pest::span::Span::<'i>::as_str")
def p_str(I, st, a, x):
    v = d(I, st, a[0]); return [(st, ('pstr', v[1] if v[0] == 'span' else v))]
@model("pest::iterators::pair::Pair::<'i, R>::as_span")
def p_span(I, st, a, x): return [(st, ('span', d(I, st, a[0])))]
@model("pest::span::Span::<'i>::start")
def p_start(I, st, a, x): return [(st, ('sstart', d(I, st, a[0])[1]))]
@model("pest::span::Span::<'i>::end")
def p_end(I, st, a, x): return [(st, ('send', d(I, st, a[0])[1]))]
@model("pest::iterators::pair::Pair::<'i, R>::into_inner")
def p_inner(I, st, a, x): return [(st, mk_it(('children', d(I, st, a[0]))))]
@model("pest::iterators::pairs::Pairs::<'i, R>::flatten")
def p_flatten(I, st, a, x):
    """the descendants in the order in which they start"""
    v = a[0]
    if v[0] != 'it' or v[2][0] != 'children' or v[3] != ('int', 0) or v[4] != vlen(v[2]): return None
    return [(st, mk_it(('descendants', v[2][1])))]
@model('pest::parser::Parser::parse')
def p_parse(I, st, a, x):
    r, s = a[0], d(I, st, a[1])
    return [(s2, ok(mk_it(mk_vec([('one', ('root', r, s))]))) if b else err(('pesterr', r, s)))
            for s2, b in I.fork_bool(st, ('atom', ('pestok', r, s)))]

# ------------------------------------------------------------------ other crates
@model('enquote::unquote')
def e_unquote(I, st, a, x):
    s = d(I, st, a[0])
    return [(s2, ok(('unquote', s)) if b else err(('unqerr', s))) for s2, b in I.fork_bool(st, ('atom', ('unqok', s)))]

@model('lazy_static::lazy::Lazy::<T>::get', 'std::sync::OnceLock::<T>::get_or_init', 'std::cell::OnceCell::<T>::get_or_init')
def l_get(I, st, a, x): raise CallVal(a[1])

class CallVal(Exception):
    pass

@model('regex::regex::string::Regex::new')
def r_new(I, st, a, x):
    p = d(I, st, a[0])
    if p[0] != 'str': return None
    return [(st, ok(('regex', p[1])))]

@model('regex::regex::string::Regex::is_match')
def r_match(I, st, a, x): return [(st, ('atom', ('rmatch', d(I, st, a[0]), d(I, st, a[1]))))]

@model('regex::regex::string::Regex::captures_iter', 'regex::regex::string::Regex::find_iter')
def r_caps(I, st, a, x):
    return [(st, mk_it(('captures' if 'captures' in x.c['n'] else 'finds', d(I, st, a[0]), d(I, st, a[1]))))]

@model("regex::regex::string::Captures::<'h>::get")
def r_get(I, st, a, x):
    c, i = d(I, st, a[0]), a[1]
    if i == ('int', 0): return [(st, some(('match', c, i)))]
    return [(s, some(('match', c, i)) if b else NONE) for s, b in I.fork_bool(st, ('atom', ('group', c, i)))]

@model("regex::regex::string::Match::<'h>::as_str")
def m_str(I, st, a, x):
    m = d(I, st, a[0]); s = matched(m) if m[0] == 'match' else None
    return [(st, mk_substr(s, ('mstart', m), ('mend', m)) if s else ('mstr', m))]
@model("regex::regex::string::Match::<'h>::range")
def m_range(I, st, a, x):
    m = d(I, st, a[0]); return [(st, ('adt', 'std::ops::Range', 0, (('mstart', m), ('mend', m))))]
@model("regex::regex::string::Match::<'h>::start")
def m_start(I, st, a, x): return [(st, ('mstart', d(I, st, a[0])))]
@model("regex::regex::string::Match::<'h>::end")
def m_end(I, st, a, x): return [(st, ('mend', d(I, st, a[0])))]

@model('std::io::BufReader::<R>::new', 'std::io::BufReader::<R>::with_capacity')
def io_buf(I, st, a, x): return [(st, a[-1])]

@model('std::io::Read::take')
def io_take(I, st, a, x):
    n = a[1]
    return [(st, a[0] if n[0] == 'int' and n[1] >= 1 << 62 else ('rtake', d(I, st, a[0]), n))]
@model('std::io::Read::by_ref')
def io_byref(I, st, a, x): return [(st, a[0])]

@model('std::io::Read::read_to_string', 'std::io::read_to_string')
def io_rts(I, st, a, x):
    r = d(I, st, a[0]); out = []
    for s, b in I.fork_bool(st, ('atom', ('readok', r))):
        if not b:
            # what was read before the failure stays in the buffer
            if len(a) > 1: put(I, s, a[1], mk_cat([d(I, s, a[1]), ('readpart', r)]))
            out.append((s, err(('readerr', r)))); continue
        if len(a) == 1: out.append((s, ok(('readstr', r))))
        else:
            put(I, s, a[1], mk_cat([d(I, s, a[1]), ('readstr', r)]))
            out.append((s, ok(('readlen', r))))
    return out

@model('std::io::Read::read_to_end')
def io_rte(I, st, a, x):
    r = d(I, st, a[0]); out = []
    for s, b in I.fork_bool(st, ('atom', ('readok', r))):
        # the bytes of a text, bytes that are no text, or a failure
        for s2, b2 in ([(s, True)] if b else I.fork_bool(s, ('atom', ('readraw', r)))):
            if not b2: out.append((s2, err(('readerr', r)))); continue
            w = d(I, s2, a[1])
            if w != ('vec', ()): return None
            put(I, s2, a[1], ('bytes', ('readstr', r)) if b else ('rawbytes', r)); out.append((s2, ok(('readlen', r))))
    return out

@model('std::string::String::from_utf8', 'core::str::converts::from_utf8')
def utf8(I, st, a, x):
    v = d(I, st, a[0])
    if v[0] == 'bytes': return [(st, ok(v[1]))]
    if v[0] == 'rawbytes': return [(st, err(('readerr', v[1])))]
    return None
@model('std::string::String::from_utf8_lossy')
def utf8l(I, st, a, x):
    v = d(I, st, a[0])
    if v[0] == 'bytes': return [(st, v[1])]
    if v[0] == 'rawbytes': return [(st, ('lossy', v[1]))]
    return None
@model('std::io::Error::kind')
def io_kind(I, st, a, x): return [(st, ('errkind', d(I, st, a[0])))]

# ------------------------------------------------------------------ formatting
@model("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug")
def f_arg(I, st, a, x):
    kind = 'disp' if x.c['n'].endswith('display') else 'debug'
    fc = None
    body = I.P.fns.get(x.c.get('i') or '')
    if body and 'blocks' in body:
        for b in body['blocks']:
            for pl, rv in b['s']:
                c = find_fn(rv)
                if c: fc = c
            c = find_fn(b['t'])
            if c and c['n'].endswith('::fmt'): fc = c
    return [(st, ('farg', kind, d(I, st, a[0]), tyname(I, x), FnRef(fc) if fc else None))]

def find_fn(j):
    if isinstance(j, list):
        if len(j) == 2 and j[0] == 'fn' and isinstance(j[1], dict) and j[1]['n'].endswith('::fmt'): return j[1]
        for y in j:
            r = find_fn(y)
            if r: return r
    return None

@model("std::fmt::Arguments::<'a>::new")
def f_new(I, st, a, x):
    t, ar = d(I, st, a[0]), d(I, st, a[1])
    if t[0] != 'bstr': return None
    b = bytes(t[1]); i = 0; k = 0; out = []
    while b[i] != 0:
        n = b[i]; i += 1
        if n < 0x80: out.append(('str', b[i:i + n].decode())); i += n
        elif n == 0x80:
            n = b[i] | b[i + 1] << 8; i += 2; out.append(('str', b[i:i + n].decode())); i += n
        else:
            plain = not (n & 0x37)
            if n & 1: i += 4
            if n & 2: i += 2
            if n & 4: i += 2
            if n & 8: k = b[i] | b[i + 1] << 8; i += 2
            g = velem(ar, ('int', k)); k += 1
            if n & ~0xC8: g = ('farg', 'special', g, None, None)
            out.append(g)
    return [(st, ('fargs', tuple(out)))]

@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::new_const")
def f_const(I, st, a, x): return [(st, ('fargs', (d(I, st, a[0]),)))]

def fmt_ops(I, fargs, dst):
    """ops appending the formatted pieces to the string cell dst"""
    ops = []
    for g in fargs[1]:
        if g[0] != 'farg':
            def op(cut, st, g=g):
                put(I, st, dst, mk_cat([d(I, st, dst), g])); return [st]
            ops.append(op); continue
        _, kind, v, t, fc = g
        if kind == 'disp' and t in STRS: txt = v
        elif kind == 'disp' and t == 'char': txt = chstr(v)
        elif kind == 'disp' and t in INTS: txt = int_str(v)
        elif kind == 'disp' and fc is not None and fc.c.get('i') in I.P.fns and 'blocks' in I.P.fns[fc.c['i']]:
            def op(cut, st, v=v, fc=fc):
                cell = ('T', st.fresh())
                return I.push(st, fc.c['i'], [v, dst], (cell, ()), None)
            ops.append(op); continue
        else: txt = (kind, v)
        def op(cut, st, txt=txt):
            put(I, st, dst, mk_cat([d(I, st, dst), txt])); return [st]
        ops.append(op)
    return ops

def run_ops(I, st, x, ops, result):
    """push a synthetic frame that runs ops and then delivers result(st)"""
    fr = Frame(st.fresh(), None, ops=[])
    def last(cut, s):
        v = result(s)
        s.frames.pop()
        return I.finish(cut, s, x.dest, x.target, v)
    fr.ops = list(ops) + [last]
    st.frames.append(fr)
    return [(st, 'PUSHED')]

@model("std::fmt::Formatter::<'a>::write_fmt", 'std::fmt::Write::write_fmt')
def f_write(I, st, a, x):
    if a[1][0] != 'fargs': return None
    dst = fmt_target(I, st, a[0])
    return run_ops(I, st, x, fmt_ops(I, a[1], dst), lambda s: ok(UNIT))

def fmt_target(I, st, f):
    v = I.rd(st, f[1], f[2])
    while v[0] in ('mref', 'fmtr') or v[0] == 'adt' and v[1] == 'std::fmt::Formatter':
        if v[0] == 'adt': v = v[3][1]
        f = v if v[0] == 'mref' else v[1]
        v = I.rd(st, f[1], f[2])
    return f

@model("std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'a>::pad")
def f_write_str(I, st, a, x):
    dst = fmt_target(I, st, a[0])
    put(I, st, dst, mk_cat([d(I, st, dst), d(I, st, a[1])])); return [(st, ok(UNIT))]

@model("std::fmt::Formatter::<'a>::write_char", "std::fmt::Write::write_char")
def f_write_char(I, st, a, x):
    dst = fmt_target(I, st, a[0])
    put(I, st, dst, mk_cat([d(I, st, dst), chstr(a[1])])); return [(st, ok(UNIT))]

@model('std::fmt::format')
def f_format(I, st, a, x):
    if a[0][0] != 'fargs': return None
    c = ('T', st.fresh()); st.cells[c] = ('str', '')
    dst = ('mref', c, ())
    return run_ops(I, st, x, fmt_ops(I, a[0], dst), lambda s: d(I, s, dst))

@model("std::fmt::Formatter::<'a>::new")
def f_fnew(I, st, a, x): return [(st, ('fmtr', a[0]))]

@model('std::fmt::FormattingOptions::new')
def f_fo(I, st, a, x): return [(st, ('fmtopts',))]

@model('std::fmt::Display::fmt')
def f_disp(I, st, a, x):
    t = tyname(I, x)
    v = d(I, st, a[0])
    if t in STRS: txt = v
    elif t in INTS: txt = int_str(v)
    elif t == 'char': txt = chstr(v)
    else: return None
    dst = fmt_target(I, st, a[1])
    put(I, st, dst, mk_cat([d(I, st, dst), txt])); return [(st, ok(UNIT))]

@model('std::fmt::Debug::fmt')
def f_dbg(I, st, a, x):
    dst = fmt_target(I, st, a[1])
    put(I, st, dst, mk_cat([d(I, st, dst), ('debug', d(I, st, a[0]))])); return [(st, ok(UNIT))]
