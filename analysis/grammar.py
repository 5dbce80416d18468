"""Languages of the grammar under /repo and of reference.grammar over one alphabet."""
import os, sys
import pestfile, peg
from pestfile import GrammarError
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
KINDS = ('from', 'arg', 'label', 'run', 'cmd', 'entrypoint', 'copy', 'env', 'misc')
SHELLS = ('run_shell', 'cmd_shell', 'entrypoint_shell', 'env_single_value', 'misc_arguments')
LEAVES = ('string', 'arg_quoted_value', 'label_quoted_name', 'label_single_quoted_name', 'label_quoted_value', 'env_pair_quoted_value',
          'env_single_quoted_value', 'from_alias', 'arg_value', 'label_name', 'label_single_name', 'label_value', 'env_name', 'env_pair_value')

class Grammars:
    def __init__(self, repo='/repo'):
        self.path, text = pestfile.grammar_text(repo)
        self.code = pestfile.parse(text)
        self.ref = pestfile.parse(open(os.path.join(HERE, 'reference.grammar')).read(), declarative=True)
        self.alpha = peg.Alphabet(peg.char_sets(self.code) | peg.char_sets(self.ref))
        self.known = {n for n, (m, e, l) in self.ref.items() if m != '_'}
    def lang(self, which, emit=None, quiet=None):
        return peg.Lang(getattr(self, which), self.alpha, emit=emit, quiet=quiet or (lambda n: n in LEAVES))

def inside_only(D, outer, inner):
    """erase the markers of token `inner` wherever it is not within one of `outer`"""
    def step(s, a):
        q, d = s
        r = D.trans[q].get(a)
        if r is None: return None
        if isinstance(a, tuple) and a[1] in outer: d = a[0] == '<'
        return (r, d)
    E = peg.explore((0, False), step, lambda s: D.acc[s[0]], D.syms)
    # re-run with names: the flag is a function of the state, so it can be put on the symbol
    flags = {}
    ids = {(0, False): 0}; todo = [(0, False)]
    for s in todo:
        for a in D.syms:
            t = step(s, a)
            if t is not None and t not in ids: ids[t] = len(todo); todo.append(t)
    F = peg.DFA(list(D.syms)); drop = [('drop', k) for k in '<>']
    F.syms += drop
    for q, row in enumerate(E.trans):
        F.trans.append({(('drop', a[0]) if isinstance(a, tuple) and a[1] == inner and not todo[q][1] else a): r for a, r in row.items()})
        F.acc.append(E.acc[q])
    return peg.project(F, lambda a: None if isinstance(a, tuple) and a[0] == 'drop' else a)
