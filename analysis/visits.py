"""What is compared of the conversions from parse tree nodes, per property."""
from eqrun import *
from interp import *
import pestfile, os

def adt_named(P, last):
    return next((k for k in P.adts if k.startswith('dockerfile_parser') and k.split('::')[-1] == last), None)
def fields(P, drop):
    idx = {}
    for ty, names in drop.items():
        k = adt_named(P, ty)
        if k: idx[k] = [i for i, f in enumerate(P.adts[k]['variants'][0]['f']) if (f['n'] if isinstance(f, dict) else f) in names]
    return idx
M_ = ('masked',)
def is_err(t): return t is not None and t[0] == 'adt' and t[1] == RES and t[2] == 1
def is_ok(t): return t is not None and t[0] == 'adt' and t[1] == RES and t[2] == 0

def exact(P):
    def f(t): return ('adt', RES, 1, (M_,)) if is_err(t) else t
    return f
def value(P):
    sp = adt_named(P, 'Span')
    def f(t):
        if is_err(t): return ('adt', RES, 1, (M_,))
        if t[0] == 'adt' and t[1] == sp: return ('adt', sp, 0, ())
        return t
    return f
def spans(P):
    idx = fields(P, {'SpannedString': ['content'], 'SpannedComment': ['content'], 'FromInstruction': ['image_parsed', 'index']})
    def f(t):
        if is_err(t): return ('adt', RES, 1, (M_,))
        if t[0] == 'adt' and t[1] in idx: return ('adt', t[1], t[2], tuple(M_ if i in idx[t[1]] else x for i, x in enumerate(t[3])))
        return t
    return f
def kind(P):
    k = adt_named(P, 'Instruction')
    def f(t):
        if is_err(t): return ('adt', RES, 1, (M_,))
        if t[0] == 'adt' and t[1] == k: return ('adt', k, t[2], (M_,))
        return t
    return f
def ok_masked(P):
    def f(t): return ('adt', RES, 0, (M_,)) if is_ok(t) else t
    return f
def outcome(P):
    """only whether it is accepted"""
    def f(t):
        if is_err(t): return ('adt', RES, 1, (M_,))
        return ('adt', RES, 0, (M_,)) if is_ok(t) else t
    return f

def both_ok(kind, a, b, J):
    """compared only where both give a value"""
    return kind == 'panic' or is_err(a) or is_err(b)
def no_skip(kind, a, b, J): return False
def errors(kind, a, b, J):
    """two different errors are compared only where a single cause exists"""
    return errors_part(kind, a, b, J) or is_err(a) and is_err(b) and len(causes(J)) != 1
def causes(J): return {x for x, v in J.b.items() if x[0] == 'unqok' and v is False}
def errors_part(kind, a, b, J):
    """the part of it that can be told from the last steps of a path alone"""
    if kind == 'panic' or not (is_err(a) and is_err(b)): return kind == 'panic'
    digest = any('digestok' == x[0] for x in J.b) or any(contains(x, lambda y: y[0] == 'imgparse') for x in J.b)
    return len(causes(J)) > 1 or digest
def digests(kind, a, b, J):
    """a failing unescape is not the digest's business"""
    return kind == 'panic' or any(x[0] == 'unqok' and v is False for x, v in J.b.items())
comment_rule = {}
def comments(kind, a, b, J):
    """only trees with a comment where it is met"""
    c = comment_rule.get('i')
    return c is None or not any(x[0] == 'rule' and d == frozenset([c]) for x, d in J.v.items())

FORMS = {'': (exact, no_skip), 'value': (value, no_skip), 'spans': (spans, both_ok), 'text': (value, both_ok), 'kind': (kind, both_ok),
         'error': (ok_masked, errors), 'digest': (outcome, digests), 'comment': (value, comments)}

HERE = os.path.dirname(os.path.abspath(__file__))
PART = {errors: errors_part, comments: no_skip}
def unknown(P, skip):
    """trees with nodes the reference grammar does not have are not specified"""
    from obligations import rules
    ref = pestfile.parse(open(os.path.join(HERE, 'reference.grammar')).read(), declarative=True)
    known = {n for n, (m, e, l) in ref.items() if m != '_'} | set(ALSO)
    rs = rules(P)
    new = frozenset(i for n, i in rs.items() if n not in known)
    comment_rule['i'] = rs.get('comment')
    def f(kind, a, b, J, whole=True):
        if new and any(x[0] == 'rule' and d and d <= new for x, d in J.v.items()): return True
        return (skip if whole else PART.get(skip, skip))(kind, a, b, J)
    return f
ALSO = ['EOI', 'any_breakable', 'inner', 'escape', 'unicode', 'double_quoted_string', 'single_quoted_string', 'single_quoted_inner', 'label_single', 'label_single_name',
        'label_single_quoted_name', 'arg_quoted_value']
