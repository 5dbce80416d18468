"""Run one equivalence obligation: a root of the library against functions of the specification."""
import re, time
from load import *
from equiv import *
from confirm import *
import equiv

DP = 'dockerfile_parser::'

def mask_errors(P):
    """error messages are not part of any property"""
    name = next((n for n in P.adts if n.endswith('error::Error') and n.startswith('dockerfile_parser') or n == 'dockerfile_parser::Error'), None)
    return name

def map_terms(ts, f):
    for t in ts.transitions():
        t.assign = {p: f(v) for p, v in t.assign.items()}
        if t.value is not None: t.value = f(t.value)
        if t.mem: t.mem = {i: f(v) for i, v in t.mem.items()}
        log = []
        for a, v in t.conds.log:
            b = f(a)
            log.append((b if b[0] not in ('bool',) else b, v))
        t.conds.log = tuple(log)

def rewriter(fn):
    """bottom-up rewriting of terms"""
    cache = {}
    def go(t):
        if not isinstance(t, tuple): return t
        r = cache.get(t)
        if r is None:
            r = rebuild(t, go) if t and isinstance(t[0], str) else tuple(go(x) for x in t)
            r = fn(r)
            cache[t] = r
        return r
    return go

class Oblig:
    budget = 40     # seconds for the search of a witness
    def __init__(self, P, root, specs, boundary=None, mask=None, alias=None, pre=None, hook=None, nomem=None, facts=None, skip=None):
        import sample; sample.STRUCTS = equiv.STRUCTS
        equiv.STRUCTS.update(n for n, a in P.adts.items() if len(a['variants']) == 1)
        self.nomem, self.facts, self.skip = nomem, facts, skip
        self.P, self.root, self.specs = P, root, specs
        self.boundary, self.mask, self.alias, self.pre, self.hook = boundary or {}, mask, alias or {}, pre, hook

    def ts(self, key):
        if key not in self.P.fns: raise Undecided('no function ' + key)
        I = Interp(self.P, models.M, self.boundary)
        ts = I.analyze(key, pre=self.pre)
        name_alias = {k: v for k, v in self.alias.items()}
        err = mask_errors(self.P)
        variants = [v['n'] if 'n' in v else v.get('name') for v in self.P.adts[err]['variants']] if err in self.P.adts else []
        def f(t):
            if not t: return t
            if t[0] == 'adt' and t[1] == err:
                vn = variants[t[2]]
                if vn == 'GenericParseError': return ('adt', err, t[2], ())
                if vn == 'ConversionError': return ('adt', err, t[2], t[3][1:])
            if t[0] in ('rec', 'opaque', 'after') and t[1] in name_alias: t = (t[0], name_alias[t[1]]) + t[2:]
            if t[0] == 'adt' and t[1] in name_alias: t = (t[0], name_alias[t[1]]) + t[2:]
            if t[0] == 'fld' and t[2] in name_alias: t = t[:2] + (name_alias[t[2]],) + t[3:]
            if t[0] == 'regex': t = ('regex', canon_regex(t[1]))
            if self.mask: t = self.mask(t)
            return t
        map_terms(ts, rewriter(f))
        if self.nomem:
            for t in ts.transitions():
                if t.kind == 'ret' and self.nomem(t): t.mem = {}
        return ts

    def run(self):
        """-> (verdict, mismatches, info)"""
        best = None
        for spec in self.specs:
            try:
                code = self.ts(self.root)
            except Undecided as e:
                return 'undecided', [], {'why': str(e)}
            try: s = self.ts(spec)
            except Undecided as e:
                best = best or ('undecided', [], {'why': 'specification: ' + str(e)}); continue
            op = {n for n in code.opaque if n not in s.opaque}
            E = Equiv(code, s, facts=self.facts, skip=self.skip)
            E.hook = self.hook
            out = E.run()
            info = {'pairs': E.n_pairs, 'joint': E.n_joint, 'paths': len(code.transitions()), 'fns': sorted(code.fns),
                    'calls': code.calls, 'opaque': sorted(op), 'spec': spec}
            if not out: return 'equal', [], info
            C = Confirm(E, self.pre, self.facts, Oblig.budget)
            hit = C.run()
            info['witness_paths'] = C.joint
            if hit: r = ('differs', [hit[0]], dict(info, path=[('' if v else 'not ') + show(a) for a, v in hit[1].log]))
            else: r = ('undecided', out, dict(info, why=('unmodelled: %s; ' % ', '.join(sorted(op)) if op else '') + out[0].text()))
            if best is None or best[0] == 'differs' and r[0] == 'undecided': best = r
        return best

def canon_regex(p): return p

if __name__ == '__main__':
    import sys
    P = Program('build/mir.json')
    names = sys.argv[1:]
    if not names:
        names = [r.split('root_')[1] for r in P.roots if 'root_' in r]
    for n in names:
        n, sp = n.split('=') if '=' in n else (n, n)
        if 'probe::spec::' + sp not in P.fns: continue
        t = time.time()
        try: v, ms, info = Oblig(P, 'probe::root_' + n, ['probe::spec::' + sp]).run()
        except Exception as e:
            import traceback; traceback.print_exc(); print(n, 'ERROR', e); continue
        print('%-28s %-10s pairs=%s joint=%s paths=%s %.2fs %s' % (n, v, info.get('pairs'), info.get('joint'), info.get('paths'), time.time() - t, info.get('why', '')))
        for m in ms[:4]: print('      ', m.text()[:400])
