"""print the transition system of a function"""
import sys
from load import *; from interp import *; import models
from terms import show
P=Program('build/mir.json')
def pr(key, pre=None, boundary=None):
    ts=Interp(P,models.M,boundary or {}).analyze(key, pre=pre)
    for c in ts.cuts:
        print(c, {str(k):v for k,v in list(c.phis.items())} if c.phis else '')
        for t in c.trans:
            print('  if', ' & '.join(('' if v else '!')+show(a) for a,v in t.conds.log)[:600])
            print('    ->', t.kind, t.target or '', ('= '+show(t.value)[:500]) if t.value is not None else '', {show(k):show(v)[:200] for k,v in t.assign.items()} or '', {k:show(v)[:200] for k,v in (t.mem or {}).items()} or '')
    print('opaque', ts.opaque)
if __name__=='__main__':
    for k in sys.argv[1:]: pr('probe::'+k)
