"""Small example values for the unknowns of a path: whether two results that are written differently are different.

The terms of a path (its conditions, the value the code returns, the value specified) are evaluated under values chosen for the strings and
numbers they mention.  An example that meets every condition and tells the results apart confirms a difference; when examples meet
the conditions and none tells the results apart, the two are taken to be the same thing written in two ways.
"""
import random, re, time
from terms import *
from strlang import CLASSES, DIGEST

STRUCTS = set()

class No(Exception): pass
class Part(No):
    """no value for these arguments: the example does not meet the condition"""

STR1 = {'substr': (1,), 'find': (1, 2), 'rfind': (1, 2), 'lower': (1,), 'chars': (1,), 'bytes': (1,), 'char_indices': (1,), 'lines': (1,), 'split_whitespace': (1,),
        'contains': (1, 2), 'prefix': (1, 2), 'suffix': (1, 2), 'allchars': (1,), 'boundary': (1,), 'replace': (1, 2, 3), 'replacen': (1, 2, 3), 'captures': (2,), 'finds': (2,),
        'rmatch': (2,), 'split': (1, 2), 'rsplit': (1, 2), 'split_terminator': (1, 2), 'split_inclusive': (1, 2), 'matches': (1, 2), 'match_indices': (1, 2),
        'splitn': (1, 3), 'rsplitn': (1, 3), 'parses': (2,), 's_truncate': (1,), 's_popped': (1,), 's_lastchar': (1,), 'chstr': ()}
for n in 'to_lowercase to_uppercase to_ascii_uppercase trim trim_start trim_end trim_left trim_right trim_matches trim_start_matches trim_end_matches repeat'.split():
    STR1['s_' + n] = (1, 2) if n.endswith('matches') else (1,)
BASE = ('arg', 'fld', 'elem', 'mget', 'rec', 'opaque', 'phi', 'imgparse', 'spliced', 'subst', 'sval', 'text', 'pstr')
# functions of which only this is used: the same arguments give the same result
UF_STR = ('unquote', 'readstr', 'readpart', 'lossy')
UF_INT = ('sstart', 'send')
UF_BOOL = ('unqok', 'readok', 'readraw', 'pestok')
UF = ('unqerr', 'pesterr', 'root', 'readerr')
WS = ' \t\n\x0b\x0c\r'

def generic(t):
    """a term with the positions of elements forgotten"""
    if t[0] == 'elem': return ('elem', generic(t[1]), '*')
    if t[0] == 'fld': return t[:1] + (generic(t[1]),) + t[2:]
    return t

class World:
    def __init__(self, log, vals, rnd):
        self.log, self.vals, self.rnd = log, vals, rnd
        self.sorts, self.lits, self.nums = {}, set(), {0, 1, 2}
        self.scan(tuple(a for a, v in log) + tuple(vals))
        # equal terms have the same sort
        for _ in range(3):
            for a, v in log:
                if a[0] in ('eq', 'slt'):
                    s = [self.sort(x) for x in a[1:3]]
                    for x, y in ((0, 1), (1, 0)):
                        if s[x] is None and s[y] in ('str', 'char') and self.leaf(a[1 + x]): self.sorts[generic(a[1 + x])] = s[y]
        self.known = {}
        for a, v in log:
            if v and a[0] in ('invar', 'isvar'): self.known[a[1]] = a[2]
        pool = sorted(self.lits)
        self.pool = ['', 'a', 'b', 'A', ' ', '0', 'ab', 'a b'] + pool
        self.env = {}

    def leaf(self, t): return t[0] in BASE

    def args(self, t):
        out = []
        for x in t[1:]:
            v = self.ev(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x
            out.append(freeze(v))
        return (t[0],) + tuple(out)

    def sort(self, t):
        k = t[0]
        if k in ('str', 'cat', 'substr', 'lower', 'replace', 'replacen', 'chstr', 'itoa', 'concat') or k.startswith('s_') and k != 's_lastchar': return 'str'
        if k in ('int', 'lin', 'find', 'rfind', 'len'): return 'int'
        if k == 'char': return 'char'
        if k in UF_STR or k == 'pstr': return 'str'
        if k in UF_INT: return 'int'
        if k == 'elem' and t[1][0] == 'chars': return 'char'
        if k == 'elem' and t[1][0] == 'bytes': return 'int'
        if k == 'elem' and t[1][0] in ('split', 'rsplit', 'splitn', 'rsplitn', 'lines', 'split_whitespace', 'split_terminator', 'split_inclusive', 'matches'): return 'str'
        return self.sorts.get(generic(t))

    def scan(self, t):
        seen = set()
        def go(t):
            if not isinstance(t, tuple) or t in seen: return
            seen.add(t)
            if t and isinstance(t[0], str):
                k = t[0]
                if k == 'str': self.lits.add(t[1])
                if k == 'char' and t[1] < 128: self.lits.add(chr(t[1]))
                if k == 'cset': self.lits.update(chr(c) for c in sorted(t[1])[:2] if c < 128)
                if k in ('ile', 'ieq'): self.nums.update((t[2], t[2] + 1, t[2] - 1))
                if k == 'inset' and isinstance(t[1], frozenset): self.lits.update(chr(c) for c in sorted(t[1])[:3] if c < 128)
                for i in STR1.get(k, ()):
                    if i < len(t) and isinstance(t[i], tuple) and self.leaf(t[i]): self.sorts[generic(t[i])] = 'str'
                if k == 'cat':
                    for p in t[1]:
                        if self.leaf(p): self.sorts[generic(p)] = 'str'
                if k == 'lin':
                    for x, c in t[2]:
                        if self.leaf(x): self.sorts[generic(x)] = 'int'
                if k in ('ile', 'ieq') and self.leaf(t[1]): self.sorts[generic(t[1])] = 'int'
                if k == 'itoa' and self.leaf(t[1]): self.sorts[generic(t[1])] = 'int'
                if k == 'elem' and self.leaf(t[1]): self.sorts.setdefault(generic(t[1]), 'vec')
            for x in t: go(x)
        go(t)

    # ---------------------------------------------------------------- values of unknowns
    def fresh(self, key, sort):
        r = self.rnd
        if sort == 'str':
            few = [r.choice(self.pool) for _ in range(r.choice((1, 2, 3)))]
            return ''.join(r.choice(few) for _ in range(r.choice((0, 1, 1, 2, 3, 4, 5))))
        if sort == 'char': return r.choice([c for p in self.pool for c in p] + ['x'])
        if sort == 'bool': return r.random() < .5
        if sort == 'int': return max(0, r.choice(sorted(self.nums) + [3, 7]))
        raise No(key)

    def get(self, key, sort):
        self.used.add((key, sort))
        if key not in self.env: self.env[key] = self.fresh(key, sort)
        return self.env[key]

    # ---------------------------------------------------------------- evaluation
    def pat(self, p):
        if p[0] == 'str': return p[1]
        if p[0] == 'char': return chr(p[1])
        if p[0] == 'cset': return p[1]
        if p[0] == 'fn':
            n = getattr(p[1], 'c', {}).get('n', '').split('::')[-1]
            if n == 'is_whitespace' or n == 'is_ascii_whitespace': return frozenset(map(ord, ' \t\n\r\x0c' + ('\x0b' if n == 'is_whitespace' else '')))
            raise No(p)
        v = self.ev(p)
        if isinstance(v, str): return v
        raise No(p)

    def find(self, s, p, last=False):
        if isinstance(p, frozenset):
            ps = [i for i, c in enumerate(s) if min(ord(c), 128) in p]
            return (ps[-1] if last else ps[0]) if ps else -1
        return s.rfind(p) if last else s.find(p)

    def strv(self, t):
        v = self.ev(t)
        if isinstance(v, str): return v
        if self.leaf(t): self.sorts[generic(t)] = 'str'; return self.ev(t)
        raise No(t)

    def seq(self, k, t):
        """sequences computed from a string"""
        s = self.strv(t[2] if k in ('splitn', 'rsplitn') and False else t[1])
        if k in ('chars', 'bytes'): return list(s) if k == 'chars' else [ord(c) for c in s]
        if k == 'char_indices': return [('T', i, c) for i, c in enumerate(s)]
        if k == 'split_whitespace': return s.split()
        if k == 'lines':
            l = s.split('\n'); l = l[:-1] if l and l[-1] == '' else l
            return [x[:-1] if x.endswith('\r') else x for x in l]
        if k in ('split', 'rsplit', 'split_terminator', 'splitn', 'rsplitn'):
            p = self.pat(t[3] if k.endswith('splitn') else t[2])
            n = self.ev(t[2]) if k.endswith('splitn') else None
            if p == '' or n == 0: raise No(t)
            out, rest, last = [], s, k in ('rsplit', 'rsplitn')
            while n is None or len(out) < n - 1:
                i = self.find(rest, p, last); w = 1 if isinstance(p, frozenset) else len(p)
                if i < 0: break
                if last: out.append(rest[i + w:]); rest = rest[:i]
                else: out.append(rest[:i]); rest = rest[i + w:]
            out.append(rest)
            if k == 'split_terminator' and out and out[-1] == '': out.pop()
            return out
        if k in ('matches', 'match_indices', 'split_inclusive'):
            p = self.pat(t[2]); out, i = [], 0
            if p == '': raise No(t)
            while True:
                j = self.find(s[i:], p, False); w = 1 if isinstance(p, frozenset) else len(p)
                if j < 0: break
                out.append((i, i + j)); i += j + w
            if k == 'matches': return [s[b:b + w] for _, b in out]
            if k == 'match_indices': return [('T', b, s[b:b + w]) for _, b in out]
            return [s[a:b + w] for a, b in out] + ([s[i:]] if i < len(s) else [])
        raise No(t)

    def ev(self, t):
        k = t[0]
        if k in ('str', 'int', 'bool'): return t[1]
        if k == 'char': return chr(t[1])
        if k == 'lin': return t[1] + sum(c * self.num(x) for x, c in t[2])
        if k == 'cat': return ''.join(self.strv(x) for x in t[1])
        if k == 'itoa': return str(self.num(t[1]))
        if k == 'chstr':
            c = self.ev(t[1])
            if isinstance(c, str) and len(c) == 1: return c
            raise No(t)
        if k == 'len':
            x = t[1]
            if self.sort(x) == 'str': return len(self.strv(x))
            try: v = self.ev(x)
            except Part: raise
            except No:
                if x[0] in STR1: raise
                v = None
            if isinstance(v, (str, list)): return len(v)
            return self.get(('len', x), 'int')
        if k == 'substr':
            s, a, b = self.strv(t[1]), self.num(t[2]), self.num(t[3])
            if not 0 <= a <= b <= len(s): raise Part(t)
            return s[a:b]
        if k in ('find', 'rfind'):
            i = self.find(self.strv(t[1]), self.pat(t[2]), k == 'rfind')
            if i < 0: raise Part(t)
            return i
        if k == 'lower': return self.strv(t[1]).lower()
        if k == 'clower':
            c = self.ev(t[1]); return c.lower() if isinstance(c, str) else ord(chr(c).lower())
        if k in ('replace', 'replacen'):
            s, p, r = self.strv(t[1]), self.pat(t[2]), self.strv(t[3])
            n = self.num(t[4]) if k == 'replacen' else -1
            if p == '': raise No(t)
            if isinstance(p, frozenset): return ''.join(r if min(ord(c), 128) in p else c for c in s) if n < 0 else self.no(t)
            return s.replace(p, r, n)
        if k.startswith('s_'): return self.strfn(k[2:], t)
        if k in ('captures', 'finds'):
            if t[1][0] != 'regex': raise No(t)
            return [('M', m) for m in re.finditer(t[1][1], self.strv(t[2]), re.A)]
        if k == 'match' and t[2][0] == 'int':
            m = self.ev(t[1])
            if m[0] != 'M': raise No(t)
            return ('S', m[1].span(t[2][1]))
        if k in ('mstart', 'mend'):
            m = self.ev(t[1])
            if m[0] != 'S' or m[1][0] < 0: raise Part(t)
            return m[1][k == 'mend']
        if k == 'fld':
            try: b = self.ev(t[1])
            except Part: raise
            except No: b = None
            if isinstance(b, tuple) and b[0] == 'A': return b[3][t[4]] if t[4] < len(b[3]) else self.no(t)
            if isinstance(b, tuple) and b[0] == 'T': return b[1 + t[4]] if t[4] + 1 < len(b) else self.no(t)
            return self.unknown(t)
        if k == 'elem':
            i = self.num(t[2])
            if t[1][0] in STR1 or t[1][0] in ('vec', 'subseq', 'upd', 'reversed'):
                v = self.ev(t[1])
                if isinstance(v, list):
                    if not 0 <= i < len(v): raise Part(t)
                    return v[i]
            return self.unknown(('elem', t[1], ('int', i)))
        if k in STR1: return self.seq(k, t)
        if k == 'adt': return ('A', t[1], t[2], tuple(self.ev(x) for x in t[3]))
        if k == 'tup': return ('T',) + tuple(self.ev(x) for x in t[1])
        if k == 'vec':
            out = []
            for s in t[1]:
                if s[0] == 'one': out.append(self.ev(s[1]))
                else: out += self.vec(s[1])
            return out
        if k == 'subseq':
            v, a, b = self.vec(t[1]), self.num(t[2]), self.num(t[3])
            if not 0 <= a <= b <= len(v): raise Part(t)
            return v[a:b]
        if k == 'reversed': return self.vec(t[1])[::-1]
        if k == 'upd':
            v, i = list(self.vec(t[1])), self.num(t[2])
            if not 0 <= i < len(v): raise Part(t)
            v[i] = self.ev(t[3]); return v
        if k in ('atom', 'natom'): return self.truth(t)
        if k == 'it' and t[1] == 'v':
            v, a, b = self.vec(t[2]), self.num(t[3]), self.num(t[4])
            return v[a:b]
        if k == 'masked': return ('L', t)
        if k in ('parse_usize', 'parse_u64', 'parse_u32'):
            s = self.strv(t[1])
            if not re.fullmatch(r'\+?[0-9]+', s): raise Part(t)
            return int(s)
        if self.leaf(t): return self.unknown(t)
        if k == 'bin' and t[1] in ('Div', 'Rem'):
            x, y = self.num(t[2]), self.num(t[3])
            if y <= 0 or x < 0: raise Part(t)
            return x // y if t[1] == 'Div' else x % y
        if k == 'unquote' and self.exact:
            r = self.inner(t[1])
            if r is None: raise Part(t)
            return r
        if k in UF_STR: return self.get(self.args(t), 'str')
        if k in UF_INT: return self.get(self.args(t), 'int')
        if k in UF: return ('L', self.args(t))
        raise No(t)

    def no(self, t): raise No(t)
    def part(self, t): raise Part(t)

    def num(self, t):
        v = self.ev(t)
        if isinstance(v, bool): raise No(t)
        if isinstance(v, int): return v
        if isinstance(v, str) and len(v) == 1: return ord(v)
        if self.leaf(t): self.sorts[generic(t)] = 'int'; return self.ev(t)
        raise No(t)

    def vec(self, t):
        v = self.ev(t)
        if isinstance(v, list): return v
        if self.leaf(t):
            n = self.get(('len', t), 'int')
            if n > 12: raise No(t)
            return [self.ev(('elem', t, ('int', i))) for i in range(n)]
        raise No(t)

    def unknown(self, t):
        if t[0] == 'pstr': return self.get(t, 'str')
        s = self.sorts.get(generic(t))
        if s in ('str', 'int', 'char'): return self.get(t, s)
        if s == 'vec' and t[0] != 'elem' or s == 'vec':
            n = self.get(('len', t), 'int')
            if n <= 12: return [self.ev(('elem', t, ('int', i))) for i in range(n)]
        return ('L', t)

    def strfn(self, n, t):
        s = self.strv(t[1])
        if n in ('to_lowercase',): return s.lower()
        if n in ('to_uppercase', 'to_ascii_uppercase'): return s.upper()
        if n == 'trim': return s.strip(WS)
        if n in ('trim_start', 'trim_left'): return s.lstrip(WS)
        if n in ('trim_end', 'trim_right'): return s.rstrip(WS)
        if n == 'truncate':
            k = self.num(t[2])
            return s[:k]
        if n == 'popped': return s[:-1] if s else self.part(t)
        if n == 'lastchar': return s[-1] if s else self.part(t)
        if n == 'repeat': return s * min(self.num(t[2]), 8)
        if n.startswith('trim_'):
            p = self.pat(t[2])
            if isinstance(p, frozenset):
                cs = ''.join(chr(c) for c in p if c < 128)
                return s.strip(cs) if n == 'trim_matches' else s.lstrip(cs) if n == 'trim_start_matches' else s.rstrip(cs)
            if p == '': raise No(t)
            if n != 'trim_end_matches':
                while s.startswith(p): s = s[len(p):]
            if n != 'trim_start_matches':
                while s.endswith(p): s = s[:len(s) - len(p)]
            return s
        raise No(t)

    exact = False
    def inner(self, t):
        """what a quoted string means, where that is plain; None where it is no quoted string"""
        s = self.strv(t)
        if len(s) < 2 or s[0] != s[-1] or s[0] not in '"\'`': return None
        if s[0] in s[1:-1] or '\\' in s: raise Part(t)
        return s[1:-1]
    def truth(self, a):
        k = a[0]
        if k == 'bool': return a[1]
        if k == 'atom': return self.truth(a[1])
        if k == 'natom': return not self.truth(a[1])
        if k == 'ile': return self.num(a[1]) <= a[2]
        if k == 'ieq': return self.num(a[1]) == a[2]
        if k == 'eq':
            r = same(self.ev(a[1]), self.ev(a[2]), self)
            if r is None: raise No(a)
            return r
        if k == 'slt':
            x, y = self.ev(a[1]), self.ev(a[2])
            if isinstance(x, str) and isinstance(y, str): return x < y
            raise No(a)
        if k == 'unqok' and self.exact: return self.inner(a[1]) is not None
        if k in UF_BOOL: return self.get(self.args(a), 'bool')
        if k == 'digestok': return re.search(DIGEST, self.strv(a[1]), re.A) is not None
        if k == 'rmatch' and a[1][0] == 'regex': return re.search(re.sub(r'\$$', r'\\Z', a[1][1]), self.strv(a[2]), re.A) is not None
        if k == 'contains': return self.find(self.strv(a[1]), self.pat(a[2])) >= 0
        if k in ('prefix', 'suffix'):
            s, p = self.strv(a[1]), self.pat(a[2])
            if isinstance(p, frozenset): return bool(s) and min(ord(s[0 if k == 'prefix' else -1]), 128) in p
            return s.startswith(p) if k == 'prefix' else s.endswith(p)
        if k == 'allchars': return all(min(ord(c), 128) in a[2] for c in self.strv(a[1]))
        if k == 'inset' and isinstance(a[1], frozenset): return min(self.num(a[2]), 128) in a[1]
        if k == 'cclass':
            c = chr(self.num(a[2])); w = CLASSES.get(a[1])
            if w is None: raise No(a)
            return ord(c) < 128 and c in w
        if k == 'boundary': return 0 <= self.num(a[2]) <= len(self.strv(a[1]))
        if k == 'parses' and a[1] in ('usize', 'u64', 'u32'):
            return re.fullmatch(r'\+?[0-9]+', self.strv(a[2])) is not None
        if k in ('isvar', 'invar'):
            v = self.ev(a[1])
            if isinstance(v, tuple) and v[0] == 'A': return v[2] in a[2] if k == 'invar' else v[2] == a[2]
            if isinstance(v, tuple) and v[0] == 'S' : return ((v[1][0] >= 0) == (a[2] == 1)) if k == 'isvar' else (int(v[1][0] >= 0) in a[2])
        raise No(a)

def freeze(v):
    if isinstance(v, (list, tuple)): return tuple(freeze(x) for x in v)
    return v

def same(x, y, W=None):
    """True, False or None where it cannot be told"""
    if isinstance(x, bool) or isinstance(y, bool): return x == y if isinstance(x, bool) and isinstance(y, bool) else None
    if isinstance(x, (str, int)) and isinstance(y, (str, int)):
        if type(x) != type(y): return None
        return x == y
    if isinstance(x, list) and isinstance(y, list):
        if len(x) != len(y): return False
        rs = [same(p, q, W) for p, q in zip(x, y)]
    elif isinstance(x, tuple) and isinstance(y, tuple):
        if x[0] == 'L' and y[0] == 'A': x, y = y, x
        if x[0] == 'A' and y[0] == 'L' and W is not None and (x[1] in STRUCTS or W.known.get(y[1]) in (x[2], frozenset({x[2]}))):
            y = ('A', x[1], x[2], tuple(W.ev(mk_fld(y[1], x[1], x[2], i)) for i in range(len(x[3]))))
        if 'L' in (x[0], y[0]): return True if x == y else None
        if x[0] != y[0]: return None
        if x[0] == 'A':
            if x[1] != y[1]: return None
            if x[2] != y[2]: return False
            if len(x[3]) != len(y[3]): return None
            rs = [same(p, q, W) for p, q in zip(x[3], y[3])]
        elif x[0] == 'T':
            if len(x) != len(y): return None
            rs = [same(p, q, W) for p, q in zip(x[1:], y[1:])]
        else: return True if x == y else None
    else: return None
    if False in rs: return False
    return None if None in rs else True

def judge(log, x, y, tries=400, seed=1, part=None):
    """-> ('differ', example) | ('same', number of examples) | ('impossible', number) | ('open', why)
    part: the conditions of the code's path alone; 'impossible' when these have examples and the whole has none"""
    rnd = random.Random(seed)
    n_same, why, unsure = 0, 'no example', False
    log = [(a, v) for a, v in log]
    order = None
    t_end = time.time() + 4
    for k in range(tries):
        if time.time() > t_end: unsure = unsure or k < 60; break
        W = World(log, (x, y), rnd) if k == 0 else W.again()
        ok, best, undo = False, None, None
        for step in range(60 + 3 * len(log)):
            bad, hard = [], False
            for a, v in log:
                W.used = set()
                try:
                    if W.truth(a) != v: bad.append(set(W.used))
                except Part:
                    if W.used: bad.append(set(W.used))
                except (No, RecursionError): hard = True if W.used else hard
                except (KeyError, IndexError, TypeError, AttributeError, ValueError): hard = True
            if not bad: ok = True; break
            unsure = unsure or hard
            # a change that breaks more than it mends is mostly taken back
            if best is not None and len(bad) > len(best) and rnd.random() < .85:
                if undo[1] is None: W.env.pop(undo[0], None)
                else: W.env[undo[0]] = undo[1]
                bad = best
            best = bad
            us = rnd.choice(bad)
            if not us: break
            key, sort = rnd.choice(sorted(us, key=repr))
            undo = key, W.env.get(key)
            if sort == 'str' and key in W.env and rnd.random() < .4:
                s = W.env[key]; i = rnd.randint(0, len(s)); j = min(len(s), i + rnd.randint(0, 2))
                W.env[key] = s[:i] + rnd.choice(W.pool) + s[j:]
            else: W.env[key] = W.fresh(key, sort)
        if not ok: continue
        W.used = set()
        try: r = same(W.ev(x), W.ev(y), W)
        except (No, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError) as e: why = 'not evaluated: ' + repr(e)[:80]; r = None
        if r is False: return 'differ', {show(q): v for q, v in W.env.items()}
        if r is True:
            n_same += 1
            if n_same >= 200: break
        elif r is None and why == 'no example': why = 'not comparable'
    if n_same: return 'same', n_same
    if why == 'no example' and not unsure and part is not None:
        n = judge(part, ('int', 0), ('int', 0), 40, seed)
        if n[0] == 'same' and n[1] >= 20: return 'impossible', n[1]
    return 'open', why

def again(self):
    W = World.__new__(World); W.__dict__.update(self.__dict__); W.env = {}; W.used = set()
    return W
World.again = again
World.used = set()
