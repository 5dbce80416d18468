import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import terms, interp, models
from terms import *
from interp import *
def default_hooks(base, d):
    if len(d) == 1:
        (t, k), = d.items()
        if k == 1 and t[0] == 'len' and t[1][0] in ('split', 'rsplit', 'splitn', 'rsplitn'): return (1, None)
terms.DOM_HOOKS.append(default_hooks)
def show_ts(ts):
    for c in ts.cuts:
        print(repr(c), 'phis:', [p[2] for p in c.phis.values()], getattr(c, 'where', ''))
        for t in c.trans:
            print('   ', t.kind, repr(t.target) if t.target else '', 'if', ' & '.join(('' if v else '!') + show(a) for a, v in t.conds.log))
            for p, v in t.assign.items(): print('          ', p[2], ':=', show(v))
            if t.kind == 'ret':
                print('           =>', show(t.value), ' mem', {k: show(v) for k, v in t.mem.items()} if t.mem else '')
            if t.kind == 'panic': print('           PANIC', t.value, t.where)
    if ts.opaque: print('opaque:', ts.opaque)
if __name__ == '__main__':
    P = Program(sys.argv[1])
    for key in sys.argv[2:]:
        print('=====', key)
        I = Interp(P, models.M)
        try: show_ts(I.analyze(key))
        except Undecided as e: print('UNDECIDED', e)
