"""Abstract interpreter over monomorphised MIR.

A function is turned into a transition system (TS): control points are the function entry and the
loop heads met on the way (with every call inlined), and the transitions between them are the
acyclic paths, each with its conditions, the new values of the loop variables (phi terms) and, for a
path that ends, its outcome.  Nothing is executed and no path is handed to a solver: values are
terms, conditions are facts about terms, loops are cut at their heads and never unrolled.
"""
import sys, json
from terms import *
sys.setrecursionlimit(20000)

class Undecided(Exception): pass
class Regen(Exception):
    def __init__(self, cut, cells): self.cut, self.cells = cut, cells

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns, self.tys, self.adts, self.statics = d['fns'], d['tys'], d['adts'], d['statics']
        self.all_fns, self.roots = d['all_fns'], d['roots']
        self._heads = {}
        self.by_name = {}
        for k, f in self.fns.items(): self.by_name.setdefault(f['n'], []).append(k)

    def ty(self, i): return self.tys[i] if i is not None else {'k': None}

    def strip(self, i):
        """type through references and boxes"""
        t = self.ty(i)
        while t['k'] in ('ref', 'ptr'): t = self.ty(t['t'])
        return t

    def succs(self, t):
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop': return [t[2]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'assert': return [t[4]]
        return []

    def heads(self, key):
        h = self._heads.get(key)
        if h is None:
            bl = self.fns[key]['blocks']; h = set(); color = {}
            st = [(0, iter(self.succs(bl[0]['t'])))]; color[0] = 1
            while st:
                b, it = st[-1]
                for s in it:
                    c = color.get(s)
                    if c == 1: h.add(s)
                    elif c is None:
                        color[s] = 1; st.append((s, iter(self.succs(bl[s]['t'])))); break
                else:
                    color[b] = 2; st.pop()
            self._heads[key] = h
        return h

class Frame:
    __slots__ = ('uid', 'key', 'bb', 'si', 'dest', 'ret', 'ops', 'call', 'args', 'since')
    def __init__(self, uid, key, bb=0, dest=None, ret=None, ops=None, call=None):
        self.args = (); self.since = 0
        self.uid, self.key, self.bb, self.si, self.dest, self.ret, self.ops, self.call = uid, key, bb, 0, dest, ret, ops, call
    def copy(self):
        f = Frame(self.uid, self.key, self.bb, self.dest, self.ret, list(self.ops) if self.ops is not None else None, self.call)
        f.si = self.si; f.args = self.args; f.since = self.since
        return f

class State:
    __slots__ = ('frames', 'cells', 'conds', 'n', 'events')
    def __init__(self): self.frames, self.cells, self.conds, self.n, self.events = [], {}, Conds(), 0, ()
    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.cells = dict(self.cells); s.conds = Conds(self.conds); s.n = self.n; s.events = self.events
        return s
    def fresh(self):
        self.n += 1
        return self.n
    # ---- memory
    def get(self, cell, path=()):
        v = self.cells.get(cell)
        if v is None: raise Undecided('read of unset cell %r' % (cell,))
        for i, p in enumerate(path):
            v = proj(v, p)
        return v
    def set(self, cell, path, val, prog=None):
        if not path: self.cells[cell] = val; return
        old = self.cells.get(cell)
        if old is None or old[0] == 'uninit':
            # partially initialised aggregate (or a fresh box): the whole becomes the value
            if old is not None: self.cells[cell] = val; return
            raise Undecided('write into unset cell')
        self.cells[cell] = update(old, path, val, prog)
    def assume(self, bv, val=True): return self.conds.assume(bv, val)

def proj(v, p):
    """one path element: (name, variant, field) or ('elem', idx)"""
    if p[0] == 'elem': return velem(v, p[1])
    name, k, i = p
    t = v[0]
    if t == 'adt':
        if v[2] != k: raise Absurd()
        return v[3][i]
    if t == 'tup': return v[1][i]
    if t == 'clo': return v[3][i]
    if t == 'mref': return v          # box or wrapper around a heap cell
    if t in ('it', 'dead', 'uninit', 'fn', 'int', 'str', 'bool'):
        raise Undecided('field of %s' % t)
    return ('fld', v, name, k, i)

class Absurd(Exception): pass

def update(v, path, val, prog):
    if not path: return val
    p = path[0]
    if p[0] == 'elem':
        old = velem(v, p[1])
        new = update(old, path[1:], val, prog)
        return set_elem(v, p[1], new)
    name, k, i = p
    if v[0] == 'adt':
        if v[2] != k: raise Absurd()
        f = list(v[3]); f[i] = update(f[i], path[1:], val, prog)
        return mk_adt(prog, v[1], k, f)
    if v[0] == 'tup':
        f = list(v[1]); f[i] = update(f[i], path[1:], val, prog); return ('tup', tuple(f))
    if v[0] == 'clo':
        f = list(v[3]); f[i] = update(f[i], path[1:], val, prog); return ('clo', v[1], v[2], tuple(f))
    if v[0] == 'uninit': return val
    if name and name in prog.adts:
        n = len(prog.adts[name]['variants'][k]['f'])
        f = [('fld', v, name, k, j) for j in range(n)]
        f[i] = update(f[i], path[1:], val, prog)
        return mk_adt(prog, name, k, f)
    raise Undecided('update of %s' % show(v)[:60])

def set_elem(v, i, new):
    if v[0] == 'vec':
        rest = i; segs = list(v[1])
        for k, s in enumerate(segs):
            if s[0] == 'one':
                if rest == ('int', 0): segs[k] = ('one', new); return mk_vec(segs)
                rest = sub(rest, ('int', 1))
            else:
                r2 = sub(rest, vlen(s[1]))
                if r2[0] == 'int' and r2[1] >= 0: rest = r2; continue
                c, d = lin_parts(sub(vlen(s[1]), rest))
                if not d and c > 0:
                    segs[k] = ('all', set_elem(s[1], rest, new)); return mk_vec(segs)
                break
    if velem(v, i) == new: return v
    return mk_upd(v, i, new)

def mk_adt(prog, name, k, fields):
    """aggregate with eta: rebuilding every field of the same value gives the value"""
    fields = tuple(fields)
    if name == 'std::vec::Vec' and len(fields) == 2 and fields[1] == ('int', 0): return ('vec', ())
    if name == 'std::string::String' and len(fields) == 1:
        v = fields[0]
        if v == ('vec', ()): return ('str', '')
        if v[0] == 'bytes': return v[1]
    if fields and all(f[0] == 'fld' and f[2] == name and f[3] == k and f[4] == j for j, f in enumerate(fields)):
        b = fields[0][1]
        if all(f[1] == b for f in fields) and prog and name in prog.adts and len(prog.adts[name]['variants'][k]['f']) == len(fields):
            return b
    return ('adt', name, k, fields)

OPT = 'std::option::Option'; RES = 'std::result::Result'
def some(x): return ('adt', OPT, 1, (x,))
NONE = ('adt', OPT, 0, ())
def ok(x): return ('adt', RES, 0, (x,))
def err(x): return ('adt', RES, 1, (x,))
UNIT = ('tup', ())

class Cut:
    def __init__(self, cid, parent, loc):
        self.id, self.parent, self.loc = cid, parent, loc
        self.phis = {}      # (cell, path) -> phi
        self.trans, self.st0, self.kids, self.recs = [], None, 0, []
    def __repr__(self): return 'cut' + '.'.join(map(str, self.id))

class Trans:
    __slots__ = ('kind', 'src', 'conds', 'target', 'assign', 'value', 'mem', 'where', 'events', 'log', 'src_cut')
    def __init__(self, kind, src, conds, **kw):
        self.kind, self.src, self.conds = kind, src, conds
        self.target = kw.get('target'); self.assign = kw.get('assign') or {}
        self.value = kw.get('value'); self.mem = kw.get('mem'); self.where = kw.get('where')
        self.events = kw.get('events', ())

class TS:
    def __init__(self): self.cuts = []; self.opaque = set(); self.fns = set(); self.calls = 0; self.panics = []
    def transitions(self): return [t for c in self.cuts for t in c.trans]

class Interp:
    overflows = False       # does adding to a small number panic, or wrap
    def __init__(self, prog, models, boundary=None, max_states=20000):
        self.P, self.models, self.boundary, self.max_states = prog, models, boundary or {}, max_states

    # ------------------------------------------------------------------ entry
    def analyze(self, key, args=None, pre=None, memcells=None):
        f = self.P.fns[key]
        self.ts = TS(); self.budget = self.max_states
        st = State()
        fr = Frame(st.fresh(), key)
        st.frames.append(fr)
        self.memcells = {}
        for i in range(f['argc']):
            t = self.P.ty(f['locals'][i + 1])
            if args is not None and i < len(args) and args[i] is not None: v = args[i]
            else:
                v = ('arg', i)
                if t['k'] == 'uint': NONNEG.add(v)
            if t['k'] == 'ref' and t.get('mut'):
                c = ('A', i)
                tt = self.P.ty(t['t'])
                if tt['k'] == 'adt' and tt['n'].endswith('fmt::Formatter'): v = ('str', '')
                st.cells[c] = v; self.memcells[i] = c
                v = ('mref', c, ())
            st.cells[(fr.uid, i + 1)] = v
        if pre: pre(st)
        root = Cut((), None, None)
        root.st0 = st
        self.ts.cuts.append(root)
        self.stack = [root]
        self.run(root, st.copy(), True)
        return self.ts

    # ------------------------------------------------------------------ exploration
    def explore(self, cut, st):
        n0 = len(self.ts.cuts)
        entry = st
        cut.st0 = st
        while True:
            del self.ts.cuts[n0:]
            self.ts.cuts.append(cut)
            cut.trans = []; cut.kids = 0; cut.recs = []
            self.stack.append(cut)
            depth = len(self.stack)
            try:
                self.run(cut, cut.st0.copy(), True)
                self.stack.pop()
                return
            except Regen as r:
                del self.stack[depth - 1:]
                if r.cut is not cut: raise
                s = cut.st0.copy()
                for c, v in r.cells.items(): s.cells[c] = v
                cut.st0 = s

    def run(self, cut, st, first):
        work = [(st, first)]
        while work:
            st, fst = work.pop()
            self.budget -= 1
            if self.budget < 0: raise Undecided('too many paths')
            try:
                res = self.block(cut, st, fst)
            except Absurd:
                continue
            for s in reversed(res): work.append((s, False))

    def emit(self, cut, st, kind, **kw):
        cut.trans.append(Trans(kind, cut, st.conds, events=st.events, **kw))

    def goto(self, cut, st, bb):
        """continue at block bb of the top frame; returns the states to go on with"""
        fr = st.frames[-1]
        fr.bb, fr.si = bb, 0
        if bb in self.P.heads(fr.key):
            for c in reversed(self.stack):
                if c.loc == (fr.uid, bb, len(st.frames)):
                    self.backedge(cut, c, st); return []
            if self.few(fr, bb, st): return [st]
            child = Cut(cut.id + (cut.kids,), cut, (fr.uid, bb, len(st.frames)))
            cut.kids += 1
            child.where = (fr.key, bb)
            raw = st.copy()
            self.explore(child, st.copy())
            self.emit(cut, raw, 'cut', target=child, assign=self.assign(child, raw))
            return []
        return [st]

    def few(self, fr, bb, st):
        """the loop goes once over each of a few things that are written out: it is followed round by round"""
        bl = self.P.fns[fr.key]['blocks']
        refs = set()
        for _ in range(4):
            b = bl[bb]; t = b['t']
            for pl, rv in b['s']:
                if rv[0] == 'ref' and rv[2][1] in ([], ['*']): refs.add(rv[2][0])
            if t[0] == 'goto': bb = t[1]; continue
            if t[0] != 'call' or t[1][0] != 'fn' or t[1][1].get('n') != 'std::iter::Iterator::next': return False
            break
        else: return False
        its = []
        for l in refs:
            v = st.cells.get((fr.uid, l))
            if v is not None and v[0] == 'mref':
                try: v = self.rd(st, v[1], v[2])
                except Exception: v = None
            if v is not None and v[0] == 'it': its.append(v)
        if not its or any(v != its[0] for v in its): return False
        _, k, seq, lo, hi = its[0]
        return k == 'v' and seq[0] == 'vec' and lo[0] == hi[0] == 'int' and hi[1] - lo[1] <= 6 and len(seq[1]) <= 6 and all(x[0] == 'one' for x in seq[1])

    def assign(self, cut, st):
        m = {}
        for (cell, path), phi in cut.phis.items():
            v = st.cells.get(cell, ('dead',))
            try:
                for p in path: v = proj_gen(v, p)
            except (Undecided, Absurd): v = ('dead',)
            m[phi] = v
        return m

    def backedge(self, cut, target, st):
        new = {}
        for cell, old in target.st0.cells.items():
            nv = st.cells.get(cell)
            if nv is None or nv == old: continue
            g = self.gen(target, cell, (), old, nv)
            if g != old: new[cell] = g
        if new: raise Regen(target, new)
        self.emit(cut, st, 'back', target=target, assign=self.assign(target, st))

    def gen(self, cut, cell, path, old, new):
        if old == new: return old
        if (cell, path) in cut.phis: return cut.phis[(cell, path)]
        if old[0] == new[0]:
            if old[0] == 'adt' and old[1:3] == new[1:3]:
                return ('adt', old[1], old[2], tuple(self.gen(cut, cell, path + ((old[1], old[2], j),), a, b)
                        for j, (a, b) in enumerate(zip(old[3], new[3]))))
            if old[0] == 'tup' and len(old[1]) == len(new[1]):
                return ('tup', tuple(self.gen(cut, cell, path + ((None, 0, j),), a, b) for j, (a, b) in enumerate(zip(old[1], new[1]))))
            if old[0] == 'clo' and old[2] == new[2]:
                return old[:3] + (tuple(self.gen(cut, cell, path + ((None, 0, j),), a, b) for j, (a, b) in enumerate(zip(old[3], new[3]))),)
            if old[0] == 'it' and old[1:3] == new[1:3]:
                return old[:3] + tuple(self.gen(cut, cell, path + (('it', j),), old[j], new[j]) for j in (3, 4))
        if 'mref' in (old[0], new[0]) or old[0] in ('dead', 'uninit', 'clo', 'fn', 'it', 'fmtr') or new[0] in ('dead', 'uninit', 'clo', 'fn', 'it', 'fmtr'):
            return ('dead',)
        n = len(cut.phis)
        phi = ('phi', cut.id, self.cellname(cut, cell, path), n)
        if path and path[-1][0] == 'it': NONNEG.add(phi)
        elif old[0] in ('int', 'lin') or new[0] in ('int', 'lin'):
            t = self.celltype(cut, cell) if not path else None
            if t and t['k'] == 'uint': NONNEG.add(phi)
            elif old[0] == 'int' and old[1] >= 0:
                d = sub(new, old)
                if d[0] == 'int' and d[1] >= 0 and not path: NONNEG.add(phi)
                elif d[0] == 'int' and d[1] >= 0: NONNEG.add(phi)
        cut.phis[(cell, path)] = phi
        return phi

    def celltype(self, cut, cell):
        for f in cut.st0.frames:
            if f.uid == cell[0] and f.key: return self.P.ty(self.P.fns[f.key]['locals'][cell[1]])
        return None

    def cellname(self, cut, cell, path):
        nm = '%s' % (cell,)
        for f in cut.st0.frames:
            if f.uid == cell[0] and f.key:
                nm = '_%s' % cell[1]
                for v, l in self.P.fns[f.key].get('vars', []):
                    if l == cell[1]: nm = v
        return nm + ''.join('.%s' % (p[-1],) for p in path)

    # ------------------------------------------------------------------ stepping
    def block(self, cut, st, first):
        fr = st.frames[-1]
        if fr.ops is not None:
            if not fr.ops:
                st.frames.pop()
                return [st]
            op = fr.ops.pop(0)
            return op(cut, st)
        f = self.P.fns[fr.key]
        b = f['blocks'][fr.bb]
        sts = [st]
        for pl, rv in b['s'][fr.si:]:
            nxt = []
            for s in sts:
                try:
                    for s2, v in self.rvalue(s, rv):
                        self.write(s2, pl, v); nxt.append(s2)
                except Absurd: pass
            sts = nxt
        out = []
        for s in sts:
            try: out += self.term(cut, s, b)
            except Absurd: pass
        return out

    def place(self, st, pl):
        """-> ('cell', cell, path) or ('val', v)"""
        fr = st.frames[-1]
        f = self.P.fns[fr.key]
        cell, path = (fr.uid, pl[0]), ()
        ty = f['locals'][pl[0]]
        val = None          # value mode when a shared reference was followed
        variant = 0
        for e in pl[1]:
            if e == '*':
                cur = val if val is not None else self.rd(st, cell, path)
                if cur[0] == 'mref': cell, path, val = cur[1], cur[2], None
                t = self.P.ty(ty)
                ty = t.get('t') if t['k'] in ('ref', 'ptr') else (t.get('a') or [None])[0] if t['k'] == 'adt' else None
                continue
            if e == 'oc': continue
            if e[0] == 'v': variant = e[1]; continue
            if e[0] == 'f':
                cur = val if val is not None else self.rd(st, cell, path)
                t = self.P.ty(ty)
                if cur[0] == 'uninit':
                    ty = e[2]; variant = 0
                    continue
                if cur[0] == 'mref':        # Box internals / MaybeUninit wrappers around a heap cell
                    ty = e[2]; variant = 0
                    continue
                pe = (t.get('n') if t['k'] == 'adt' else None, variant, e[1])
                if val is not None: val = self.pj(val, pe, e[2])
                else:
                    path = path + (pe,)
                    self.pj(cur, pe, e[2])
                ty = e[2]; variant = 0
                continue
            if e[0] in ('i', 'ci'):
                cur = val if val is not None else self.rd(st, cell, path)
                if e[0] == 'i': ix = self.rd(st, (fr.uid, e[1]), ())
                else: ix = ('int', e[1]) if not e[3] else sub(vlen(cur), ('int', e[1]))
                if val is not None: val = velem(cur, ix)
                else: path = path + (('elem', ix),)
                t = self.P.ty(ty); ty = t.get('t')
                continue
            if e[0] == 's':
                cur = val if val is not None else self.rd(st, cell, path)
                hi = ('int', e[2]) if not e[3] else sub(vlen(cur), ('int', e[2]))
                val = mk_subseq(cur, ('int', e[1]), hi)
                continue
            raise Undecided('projection %r' % (e,))
        if val is not None: return ('val', val)
        return ('cell', cell, path)

    def pj(self, v, pe, ty):
        r = proj(v, pe)
        if r[0] == 'fld' and self.P.ty(ty)['k'] == 'uint': NONNEG.add(r)
        return r

    def rd(self, st, cell, path):
        v = st.get(cell, ())
        for p in path: v = proj(v, p)
        return v

    def read(self, st, pl):
        r = self.place(st, pl)
        if r[0] == 'val': return r[1]
        v = self.rd(st, r[1], r[2])
        if v[0] == 'fld' and pl[1] and isinstance(pl[1][-1], list) and pl[1][-1][0] == 'f' and self.P.ty(pl[1][-1][2])['k'] == 'uint':
            NONNEG.add(v)
        return v

    def write(self, st, pl, v):
        r = self.place_w(st, pl)
        if r[0] == 'val': raise Undecided('write through shared value')
        st.set(r[1], r[2], v, self.P)

    def place_w(self, st, pl):
        if not pl[1]: return ('cell', (st.frames[-1].uid, pl[0]), ())
        return self.place(st, pl)

    def operand(self, st, o):
        if o[0] in ('c', 'm'): return self.read(st, o[1])
        if o[0] == 'k': return self.const(o[2], o[1])
        if o[0] == 'rc': return ('bool', False)
        raise Undecided('operand')

    def const(self, c, ty):
        k = c[0]
        if k == 'int': return ('int', int(c[1]))
        if k == 'bool': return ('bool', c[1])
        if k == 'char': return ('char', c[1])
        if k == 'str': return ('str', c[1])
        if k == 'fn': return ('fn', FnRef(c[1]))
        if k == 'tup':
            ts = self.P.ty(ty).get('ts') or [None] * len(c[1])
            return ('tup', tuple(self.const(x, t) for x, t in zip(c[1], ts)))
        if k == 'adt':
            t = self.P.strip(ty)
            return ('adt', t.get('n'), c[1], tuple(self.const(x, None) for x in c[2]))
        if k == 'arr': return mk_vec([('one', self.const(x, self.P.ty(ty).get('t'))) for x in c[1]])
        if k == 'bytes': return ('bstr', tuple(c[1]))
        if k == 'ref': return self.const(c[1], self.P.ty(ty).get('t'))
        if k == 'static': return ('static', c[1])
        if k == 'clo':
            t = self.P.ty(ty)
            up = self.P.ty(t['a'][-1]) if t.get('a') and isinstance(t['a'][-1], int) else {}
            return ('clo', t.get('n'), t.get('f'), tuple(self.zero(x) for x in up.get('ts') or ()))
        if k == 'fnptr': return ('fnk', c[1])
        return ('konst', json.dumps(c))

    def zero(self, ty):
        """the value of a type of size zero"""
        t = self.P.ty(ty)
        if t['k'] == 'fndef': return ('fn', FnRef(t['f']))
        if t['k'] == 'closure': return self.const(['clo'], ty)
        if t['k'] == 'tuple': return ('tup', tuple(self.zero(x) for x in t.get('ts') or ()))
        return ('konst', 'zst ' + str(t.get('n') or t.get('s')))

    def fork_bool(self, st, bv):
        """-> [(state, python bool)]"""
        r = st.conds.get(bv)
        if r is not None: return [(st, r)]
        a = st.copy(); out = []
        if a.assume(bv, True): out.append((a, True))
        if st.assume(bv, False): out.append((st, False))
        return out

    def as_bool(self, v):
        if v[0] in ('bool', 'atom', 'natom'): return v
        return ('atom', v)

    def rvalue(self, st, rv):
        k = rv[0]
        if k == 'use': return [(st, self.operand(st, rv[1]))]
        if k in ('ref', 'addr'):
            if rv[1]:
                r = self.place(st, rv[2])
                if r[0] == 'val': return [(st, r[1])]
                # a mutable reborrow of something that is itself only a value snapshot stays a value
                return [(st, ('mref', r[1], r[2]))]
            r = self.place(st, rv[2])
            if r[0] == 'val': return [(st, r[1])]
            v = st.cells.get(r[1])
            if v is None or v[0] == 'uninit': return [(st, ('mref', r[1], r[2]))]
            v = self.rd(st, r[1], r[2])
            return [(st, v)]
        if k == 'agg':
            ops = [self.operand(st, o) for o in rv[2]]
            a = rv[1]
            if a[0] == 'tup': return [(st, ('tup', tuple(ops)))]
            if a[0] == 'adt':
                return [(st, mk_adt(self.P, a[1], a[2], ops))]
            if a[0] == 'clo': return [(st, ('clo', a[1], a[2], tuple(ops)))]
            if a[0] == 'arr': return [(st, mk_vec([('one', o) for o in ops]))]
            raise Undecided('aggregate ' + a[0])
        if k == 'discr':
            if not rv[1][1] and (st.frames[-1].uid, rv[1][0]) not in st.cells: return [(st, ('uninit',))]
            v = self.read(st, rv[1])
            t = self.P.strip(rv[2])
            if v[0] == 'adt':
                d = self.P.adts[v[1]]['variants'][v[2]]['d']
                return [(st, ('int', self.dval(v[1], d)))]
            return [(st, ('discr', v, t.get('n')))]
        if k in ('bin', 'cbin'): return self.binop(st, rv[1], self.operand(st, rv[2]), self.operand(st, rv[3]), k == 'cbin', rv)
        if k == 'un':
            v = self.operand(st, rv[2])
            if rv[1] == 'Not':
                if v[0] in ('bool', 'atom', 'natom'): return [(st, neg(v))]
                return [(st, neg(self.as_bool(v)))]
            if rv[1] == 'Neg': return [(st, sub(('int', 0), v))]
            if rv[1] == 'PtrMetadata': return [(st, vlen(v))]
            raise Undecided('unary ' + rv[1])
        if k == 'cast':
            v = self.operand(st, rv[2])
            ck = rv[1]
            if ck.startswith('IntToInt'):
                if v[0] == 'char': return [(st, ('int', v[1]))]
                if v[0] in ('bool', 'atom', 'natom'):
                    return [(s, ('int', int(b))) for s, b in self.fork_bool(st, v)]
                return [(st, self.narrow(v, self.P.ty(rv[3]), self.P.ty(rv[4]) if len(rv) > 4 and isinstance(rv[4], int) else None))]
            return [(st, v)]
        if k == 'len': return [(st, vlen(self.read(st, rv[1])))]
        if k == 'repeat':
            return [(st, ('repeat', self.operand(st, rv[1]), rv[2]))]
        raise Undecided('rvalue ' + k)

    def narrow(self, v, to, frm=None):
        """a number put into a type that need not hold it"""
        w = WIDTH.get(to.get('n'))
        if w is None or w >= 64 or frm is not None and WIDTH.get(frm.get('n'), 64) <= w: return v
        return wrapped(w, v)

    def discr_variants(self, name): return self.P.adts[name]['variants']

    def dval(self, name, d):
        d = int(d)
        if name == 'std::cmp::Ordering' and d > 127: return d - 256
        if d >> 63: d -= 1 << 64
        return d

    def which(self, st, v):
        """the discriminant of a value as a number, one case per variant"""
        if v[0] != 'discr': return [(st, v)]
        out = []
        for i, x in enumerate(self.discr_variants(v[2])):
            c = st.copy()
            if not c.conds.restrict(v[1], frozenset({i})): continue
            c.conds.log = c.conds.log + ((('invar', v[1], frozenset({i}), v[2]), True),)
            out.append((c, ('int', self.dval(v[2], x['d']))))
        return out

    def binop(self, st, op, a, b, checked, rv):
        bools = ('bool', 'atom', 'natom')
        if 'uninit' in (a[0], b[0]): return [(st, ('uninit',))]     # a value the optimiser left dead
        if op in ('BitAnd', 'BitOr', 'BitXor') and a[0] in bools or b[0] in bools:
            out = []
            for s, x in self.fork_bool(st, a):
                for s2, y in self.fork_bool(s, b):
                    r = {'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y, 'Eq': x == y, 'Ne': x != y}[op]
                    out.append((s2, ('bool', r)))
            return out
        if a[0] == 'discr' or b[0] == 'discr':
            sw = a[0] != 'discr'
            if sw: a, b = b, a
            if op not in ('Eq', 'Ne'):
                if b[0] == 'discr' and op in ('Lt', 'Le', 'Gt', 'Ge'):
                    if sw: a, b = b, a
                    return [z for s1, x in self.which(st, a) for s2, y in self.which(s1, b) for z in self.binop(s2, op, x, y, checked, rv)]
                if b[0] != 'int' or op not in ('Lt', 'Le', 'Gt', 'Ge'): return [(st, ('cmpd', op, a, b))]
                vs = self.discr_variants(a[2]); out = []
                f = {'Lt': lambda x: x < b[1], 'Le': lambda x: x <= b[1], 'Gt': lambda x: x > b[1], 'Ge': lambda x: x >= b[1]}[op]
                if sw: f = {'Lt': lambda x: b[1] < x, 'Le': lambda x: b[1] <= x, 'Gt': lambda x: b[1] > x, 'Ge': lambda x: b[1] >= x}[op]
                yes = frozenset(i for i, x in enumerate(vs) if f(self.dval(a[2], x['d'])))
                no = frozenset(range(len(vs))) - yes
                for g, r in ((yes, True), (no, False)):
                    if not g: continue
                    c = st.copy()
                    if not c.conds.restrict(a[1], g): continue
                    c.conds.log = c.conds.log + ((('invar', a[1], g, a[2]), True),)
                    out.append((c, ('bool', r)))
                return out
            if b[0] == 'discr':
                return [z for s1, x in self.which(st, a) for s2, y in self.which(s1, b) for z in self.binop(s2, op, x, y, checked, rv)]
            else:
                vs = self.discr_variants(a[2])
                idx = [i for i, v in enumerate(vs) if self.dval(a[2], v['d']) == b[1]]
                r = ('atom', ('isvar', a[1], idx[0], len(vs))) if idx else ('bool', False)
            return [(st, r if op == 'Eq' else neg(r))]
        if op in ('Eq', 'Ne') and ('char' in (a[0], b[0]) or a[0] == 'elem' and a[1][0] == 'chars'):
            r = mk_eq_atom(a, b)
            return [(st, r if op == 'Eq' else neg(r))]
        if op in ('Lt', 'Le', 'Gt', 'Ge') and ('char' in (a[0], b[0])):
            return [(st, ('atom', ('charcmp', op, a, b)))]
        if op in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked'):
            k = 1 if op.startswith('Add') else -1
            v = add(a, b, k)
            ty = self.operand_type(st, rv[2])
            small = self.overflows and checked and k == 1 and ty and ty['k'] == 'uint' and WIDTH.get(ty.get('n'), 64) <= 16
            # a number read from text may be as large as its type allows
            read = self.overflows and checked and k == 1 and ty and ty['k'] == 'uint' and any(t[0].startswith('parse_') for t in lin_parts(v)[1]) \
                and not contains(v, lambda y: y[0] == 'phi')
            small = small or read
            if k == 1 and ty and not small: v = self.narrow(v, ty)
            if not checked: return [(st, v)]
            ov = b_lt(('int', (1 << WIDTH.get(ty.get('n'), 64)) - 1), v) if small else ('bool', False)
            if k == -1 and ty and ty['k'] == 'uint': ov = b_lt(a, b)
            return [(st, ('tup', (v, ov)))]
        if op.startswith('Mul'):
            if a[0] == 'int' or b[0] == 'int':
                if a[0] != 'int': a, b = b, a
                c, d = lin_parts(b)
                v = mk_lin(c * a[1], {t: x * a[1] for t, x in d.items()})
            else: v = ('mul',) + tuple(sorted((a, b), key=repr))
            return [(st, ('tup', (v, ('bool', False))) if checked else v)]
        if op == 'Eq': return [(st, b_ieq(a, b))]
        if op == 'Ne': return [(st, neg(b_ieq(a, b)))]
        if op == 'Lt': return [(st, b_lt(a, b))]
        if op == 'Le': return [(st, b_le(a, b))]
        if op == 'Gt': return [(st, b_lt(b, a))]
        if op == 'Ge': return [(st, b_le(b, a))]
        if op == 'Cmp': return self.cmp3(st, a, b)
        if a[0] == 'int' and b[0] == 'int' and op in ('BitAnd', 'BitOr', 'Rem', 'Div', 'Shl', 'Shr'):
            x, y = a[1], b[1]
            return [(st, ('int', {'BitAnd': x & y, 'BitOr': x | y, 'Rem': x % y if y else 0, 'Div': x // y if y else 0,
                                  'Shl': x << y, 'Shr': x >> y}[op]))]
        return [(st, ('bin', op, a, b))]

    def cmp3(self, st, a, b):
        O = 'std::cmp::Ordering'
        out = []
        for s, x in self.fork_bool(st, b_lt(a, b)):
            if x: out.append((s, ('adt', O, 0, ())))
            else:
                for s2, y in self.fork_bool(s, b_ieq(a, b)):
                    out.append((s2, ('adt', O, 1 if y else 2, ())))
        return out

    def operand_type(self, st, o):
        if o[0] == 'k': return self.P.ty(o[1])
        pl = o[1]
        f = self.P.fns[st.frames[-1].key]
        if not pl[1]: return self.P.ty(f['locals'][pl[0]])
        e = pl[1][-1]
        if isinstance(e, list) and e[0] == 'f': return self.P.ty(e[2])
        if e == '*':
            t = self.P.ty(f['locals'][pl[0]])
            if len(pl[1]) == 1: return self.P.ty(t.get('t'))
        return None

    def where(self, st):
        for f in reversed(st.frames):
            if f.key and self.P.fns[f.key]['c'] in ('dockerfile_parser', 'probe'):
                fn = self.P.fns[f.key]
                return (fn['n'], (fn['span'] or [None])[0], fn['blocks'][f.bb]['ln'])
        return ('?', None, 0)

    # ------------------------------------------------------------------ terminators
    def term(self, cut, st, b):
        t = b['t']; k = t[0]
        fr = st.frames[-1]
        if k == 'goto': return self.goto(cut, st, t[1])
        if k == 'drop': return self.goto(cut, st, t[2])
        if k == 'switch': return self.switch(cut, st, t)
        if k == 'assert':
            v = self.operand(st, t[1])
            out = []
            if t[3][0] == 'other' and ('Misaligned' in t[3][1] or 'NullPointer' in t[3][1]):
                return self.goto(cut, st, t[4])
            for s, bv in self.fork_bool(st, self.as_bool(v)):
                if bv == t[2]: out += self.goto(cut, s, t[4])
                else: self.emit(cut, s, 'panic', value=('panic', t[3][0]), where=self.where(s))
            return out
        if k == 'return':
            v = st.cells.get((fr.uid, 0), UNIT)
            if len(st.frames) == 1:
                for s, w in self.settle(st, v):
                    mem = {i: s.cells[c] for i, c in self.memcells.items()}
                    self.emit(cut, s, 'ret', value=w, mem=mem, where=self.where(s))
                return []
            st.frames.pop()
            for c in [c for c in st.cells if c[0] == fr.uid]: del st.cells[c]
            if fr.dest is not None: st.set(fr.dest[0], fr.dest[1], v, self.P)
            if fr.ret is None: return [st]       # return into a synthetic frame
            return self.goto(cut, st, fr.ret)
        if k == 'unreachable': return []
        if k == 'call': return self.call(cut, st, t)
        if k in ('resume', 'abort'): return []
        raise Undecided('terminator ' + k)

    def settle(self, st, v):
        """booleans returned as such become constants under a condition"""
        if v[0] in ('atom', 'natom'):
            return [(s, ('bool', b)) for s, b in self.fork_bool(st, v)]
        return [(st, v)]

    def switch(self, cut, st, t):
        v = self.operand(st, t[1]); ty = self.P.ty(t[4])
        cases, other = t[2], t[3]
        out = []
        if v[0] in ('bool', 'atom', 'natom') or ty['k'] == 'bool':
            for s, b in self.fork_bool(st, self.as_bool(v)):
                tgt = other
                for val, bb in cases:
                    if int(val) == int(b): tgt = bb
                out += self.goto(cut, s, tgt)
            return out
        if v[0] == 'discr':
            vs = self.discr_variants(v[2]); term = v[1]
            left = st.conds.v.get(term, frozenset(range(len(vs))))
            groups = {}
            for val, bb in cases:
                for i, x in enumerate(vs):
                    if (int(x['d']) - int(val)) % (1 << 128) == 0 or (int(x['d']) & 0xffffffffffffffff) == int(val):
                        if i in left: groups.setdefault(bb, set()).add(i); left = left - {i}
            if left and self.P.fns[st.frames[-1].key]['blocks'][other]['t'][0] != 'unreachable': groups.setdefault(other, set()).update(left)
            for bb, s in groups.items():
                c = st.copy()
                c.conds.restrict(term, s)
                c.conds.log = c.conds.log + ((('invar', term, frozenset(s), v[2]), True),)
                out += self.goto(cut, c, bb)
            return out
        if ty['k'] == 'char' or v[0] == 'char':
            mk = lambda n: mk_eq_atom(v, ('char', n))
        else:
            mk = lambda n: b_ieq(v, ('int', n))
        s = st
        width = {'isize': 64, 'i64': 64, 'i32': 32, 'i8': 8, 'i16': 16}.get(ty.get('n'))
        for val, bb in cases:
            val = int(val)
            if ty['k'] == 'int' and width and val >> (width - 1): val -= 1 << width
            r = s.conds.get(mk(val))
            if r is True: return out + self.goto(cut, s, bb)
            if r is False: continue
            c = s.copy()
            if c.assume(mk(val), True): out += self.goto(cut, c, bb)
            if not s.assume(mk(val), False): return out
        return out + self.goto(cut, s, other)

    # ------------------------------------------------------------------ calls
    def call(self, cut, st, t):
        _, f, aops, dest, target, atys, dty = t
        args = [self.operand(st, o) for o in aops]
        if f[0] == 'fn': c = f[1]
        else:
            fv = self.operand(st, f[1])
            if fv[0] == 'fn': c = fv[1].c
            elif fv[0] == 'fnk': c = {'n': fv[1], 'rn': fv[1], 'i': fv[1], 'a': [], 'c': '?'}
            else: raise Undecided('indirect call')
        d = self.place_w(st, dest)
        if d[0] == 'val': raise Undecided('call destination')
        self.ts.calls += 1
        return self.do_call(cut, st, c, args, (d[1], d[2]), target, atys, dty)

    def finish(self, cut, st, dest, target, v):
        st.set(dest[0], dest[1], v, self.P)
        if st.frames[-1].ops is not None: return [st]
        if target is None: return []
        return self.goto(cut, st, target)

    def do_call(self, cut, st, c, args, dest, target, atys=None, dty=None):
        n, rn = c['n'], c.get('rn') or c['n']
        # closures
        if n in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
            return self.call_value(cut, st, args[0], list(args[1][1]) if args[1][0] == 'tup' else None, dest, target)
        for h in (self.boundary.get(rn), self.boundary.get(n)):
            if h:
                r = h(self, st, args, c)
                if r is not None:
                    out = []
                    for s, v in r: out += self.finish(cut, s, dest, target, v)
                    return out
        m = self.models.get(rn) or self.models.get(n)
        from models import CallVal, PRE
        if c.get('rd') and (n in PRE or rn in PRE):
            r = PRE.get(n, PRE.get(rn))(self, st, args, Ctx(self, c, atys, dty, cut, dest, target))
            if r is not None:
                out = []
                for s, v in r: out += self.finish(cut, s, dest, target, v)
                return out
        if m and not c.get('rd'):
            try: r = m(self, st, args, Ctx(self, c, atys, dty, cut, dest, target))
            except CallVal as cv: return self.call_value(cut, st, cv.args[0], [], dest, target)
            if r is not None:
                out = []
                for s, v in r:
                    if v == 'PUSHED': out.append(s); continue
                    if isinstance(v, tuple) and v and v[0] == 'panic!':
                        self.emit(cut, s, 'panic', value=('panic', v[1]), where=self.where(s)); continue
                    out += self.finish(cut, s, dest, target, v)
                return out
        key = c.get('i')
        if key and key in self.P.fns and 'blocks' in self.P.fns[key]:
            again = [f for f in st.frames if f.key == key]
            if again:
                cut.recs.append((key, again[-1].args, tuple(self.seen_value(st, a) for a in args), Conds(st.conds), self.where(st), again[-1].since))
                return self.opaque(cut, st, c, args, dest, target, 'rec')
            if len(st.frames) > 40: raise Undecided('inlining depth')
            return self.push(st, key, args, dest, target)
        if target is None:
            self.emit(cut, st, 'panic', value=('panic', rn), where=self.where(st)); return []
        v = self.constructor(n, args)
        if v is not None: return self.finish(cut, st, dest, target, v)
        return self.opaque(cut, st, c, args, dest, target, 'opaque')

    def constructor(self, n, args):
        """a tuple constructor used as a function"""
        if n in self.P.adts and len(self.P.adts[n]['variants']) == 1: a, k = n, 0
        else:
            a, _, last = n.rpartition('::')
            vs = self.P.adts.get(a, {}).get('variants', [])
            k = next((i for i, v in enumerate(vs) if v['n'] == last), None)
            if k is None: return None
        if len(self.P.adts[a]['variants'][k]['f']) != len(args): return None
        return mk_adt(self.P, a, k, args)

    def push(self, st, key, args, dest, target):
        f = self.P.fns[key]
        self.ts.fns.add(key)
        if f.get('spread') and len(args) < f['argc']:
            pass
        fr = Frame(st.fresh(), key, 0, dest, target)
        st.frames.append(fr)
        fr.since = len(st.conds.log); fr.args = tuple(self.seen_value(st, a) for a in args)
        for i, a in enumerate(args): st.cells[(fr.uid, i + 1)] = a
        return [st]

    def seen_value(self, st, a):
        for _ in range(8):
            if a[0] != 'mref': return a
            try: a = self.rd(st, a[1], a[2])
            except KeyError: return a
        return a

    def call_value(self, cut, st, fv, args, dest, target):
        if args is None: raise Undecided('closure arguments')
        while fv[0] == 'mref' or fv[0] == 'ref':
            inner = self.rd(st, fv[1], fv[2])
            if inner[0] == 'mref': fv = inner; continue
            break
        body = self.rd(st, fv[1], fv[2]) if fv[0] == 'mref' else fv
        if body[0] == 'clo':
            key = body[2]
            f = self.P.fns.get(key)
            if not f or 'blocks' not in f: raise Undecided('closure body')
            if any(fr.key == key for fr in st.frames): raise Undecided('recursive closure')
            selfarg = fv
            t1 = self.P.ty(f['locals'][1])
            if fv[0] != 'mref' and t1['k'] == 'ref' and t1.get('mut'):
                cell = ('T', st.fresh()); st.cells[cell] = body; selfarg = ('mref', cell, ())
            elif fv[0] == 'mref' and not (t1['k'] == 'ref' and t1.get('mut')): selfarg = body
            return self.push(st, key, [selfarg] + args, dest, target)
        if body[0] == 'fn': return self.do_call(cut, st, body[1].c, args, dest, target)
        if body[0] == 'fnk': return self.push(st, body[1], args, dest, target)
        raise Undecided('call of %s' % show(body)[:40])

    def opaque(self, cut, st, c, args, dest, target, tag):
        n = c.get('rn') or c['n']
        self.ts.opaque.add(n) if tag == 'opaque' else None
        clean = []
        refs = []
        for a in args:
            if a[0] == 'mref': refs.append(a); clean.append(('old', self.rd(st, a[1], a[2])))
            else: clean.append(self.strip_refs(st, a))
        v = (tag, n, tuple(clean))
        for i, a in enumerate(refs):
            st.set(a[1], a[2], ('after', n, tuple(clean), i), self.P)
        if target is None:
            self.emit(cut, st, 'panic', value=('panic', n), where=self.where(st)); return []
        return self.finish(cut, st, dest, target, v)

    def strip_refs(self, st, a):
        return a

class FnRef:
    """resolved callee, compared by its name and type arguments"""
    __slots__ = ('c', 'k')
    def __init__(self, c): self.c = c; self.k = (c.get('i') or c.get('rn') or c['n'])
    def __eq__(self, o): return isinstance(o, FnRef) and self.k == o.k
    def __hash__(self): return hash(self.k)
    def __repr__(self): return 'FnRef(%s)' % self.k

class Ctx:
    __slots__ = ('I', 'c', 'atys', 'dty', 'cut', 'dest', 'target')
    def __init__(self, I, c, atys, dty, cut, dest, target):
        self.I, self.c, self.atys, self.dty, self.cut, self.dest, self.target = I, c, atys, dty, cut, dest, target

def proj_gen(v, p):
    if p[0] == 'it': return v[p[1]] if v[0] == 'it' else ('dead',)
    return proj(v, p)
