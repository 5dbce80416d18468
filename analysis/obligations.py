"""Boundaries, aliases and masks shared by the equivalence obligations."""
from eqrun import *
from interp import *

TRYINS = '<dockerfile_parser::Instruction as std::convert::TryFrom<pest::iterators::Pair<'
def uninterpreted(name, ret):
    """a function replaced on both sides by the same unknown function of its arguments"""
    def h(I, st, args, c):
        vs = tuple(I.rd(st, a[1], a[2]) if a[0] == 'mref' else a for a in args)
        return ret(I, st, vs)
    return h

def b_try(I, st, args, c):
    if not (c.get('i') or '').startswith(TRYINS): return None
    return fork_res(I, st, 'ins', args)
def fork_res(I, st, tag, vs):
    return [(s, ok((tag, vs[0])) if b else err((tag + 'err', vs[0]))) for s, b in I.fork_bool(st, ('atom', (tag + 'ok', vs[0])))]
def b_stub_parse(I, st, args, c):
    r, s = ('adt', 'dockerfile_parser::Rule', -1, ()), args[0]
    key = [k for k in I.P.adts if k.endswith('Rule') and k.startswith('dockerfile_parser')][0]
    vs = I.P.adts[key]['variants']
    r = ('adt', key, [i for i, v in enumerate(vs) if v['n'] == 'dockerfile'][0], ())
    import models
    return models.M['pest::parser::Parser::parse'](I, st, [r, s], None)
B_PARSE = {'std::convert::TryFrom::try_from': b_try, 'probe::spec::stub_parse': b_stub_parse}
B_API = {'dockerfile_parser::Dockerfile::parse': uninterpreted('parse', lambda I, st, vs: fork_res(I, st, 'parse', vs))}
B_IMG = {'dockerfile_parser::ImageRef::parse': uninterpreted('img', lambda I, st, vs: [(st, ('imgparse', vs[0]))]),
         '<dockerfile_parser::ImageRef as std::fmt::Display>::fmt': None}

B_IMG1 = {'dockerfile_parser::ImageRef::parse': B_IMG['dockerfile_parser::ImageRef::parse']}
def b_digest(I, st, args, c): return [(st, ('atom', ('digestok', args[0])))]
B_VISIT = dict(B_IMG1, **{'probe::visitors::digest_ok': b_digest})
def any_error(P, inner=None):
    """which error is returned is not compared"""
    def f(t):
        if t[0] == 'adt' and t[1] == RES and t[2] == 1: return ('adt', RES, 1, (('masked',),))
        return inner(t) if inner else t
    return f

def b_splice(I, st, args, c):
    """Splicer::splice as an unknown function of the splicer, the span and the text"""
    sp, span, text = args
    v = I.rd(st, sp[1], sp[2])
    span = I.rd(st, span[1], span[2]) if span[0] == 'mref' else span
    text = I.rd(st, text[1], text[2]) if text[0] == 'mref' else text
    name = 'dockerfile_parser::Splicer'
    fs = tuple(('fld', v, name, 0, j) if v[0] != 'adt' else v[3][j] for j in range(len(I.P.adts[name]['variants'][0]['f'])))
    nv = ('adt', name, 0, tuple(('spliced', fs, span, text, j) for j in range(len(fs))))
    st.set(sp[1], sp[2], nv, I.P)
    return [(st, UNIT)]
B_SPLICE = {'dockerfile_parser::Splicer::splice': b_splice}

def b_subst(I, st, args, c, exact=False):
    s, m, used, depth = args
    rd = lambda a: I.rd(st, a[1], a[2]) if a[0] == 'mref' else a
    if depth[0] == 'int' and depth[1] >= 4 and not exact: depth = ('deep',)
    key = (rd(s), rd(m), rd(used), depth)
    v = ('subst',) + key
    if used[0] == 'mref': st.set(used[1], used[2], ('substused',) + key, I.P)
    return [(st, some(('unsome', v)) if b else NONE) for st, b in I.fork_bool(st, ('atom', ('substok',) + key))]
B_RESOLVE = {'dockerfile_parser::substitute': b_subst, 'dockerfile_parser::ImageRef::parse': B_IMG['dockerfile_parser::ImageRef::parse']}

# the two variants against each other: they must give up at the same depth, whatever it is
B_AGREE = dict(B_RESOLVE, **{'dockerfile_parser::substitute': lambda I, st, a, c: b_subst(I, st, a, c, True)})

def rules(P):
    key = [k for k in P.adts if k.endswith('Rule') and k.startswith('dockerfile_parser')][0]
    return {v['n']: i for i, v in enumerate(P.adts[key]['variants'])}
def pre_rule(P, name):
    i = rules(P)[name]
    def pre(st): st.conds.restrict(('rule', ('arg', 0)), {i})
    return pre

# ---------------------------------------------------------------------------------- registry
def adt_named(P, last):
    return next((k for k in P.adts if k.startswith('dockerfile_parser') and k.split('::')[-1] == last), None)
def field_mask(P, drop):
    """drop: {type: [field names]} whose values are not compared"""
    idx = {}
    for ty, names in drop.items():
        k = adt_named(P, ty)
        if k is None: continue
        idx[k] = [i for i, f in enumerate(P.adts[k]['variants'][0]['f']) if fname(f) in names]
    def f(t):
        if t[0] == 'adt' and t[1] in idx:
            return ('adt', t[1], t[2], tuple(('masked',) if i in idx[t[1]] else x for i, x in enumerate(t[3])))
        return t
    return f
def fname(f): return f['n'] if isinstance(f, dict) else f

def spec_key(P, n):
    return next((m + n for m in ('probe::spec::', 'probe::visitors::') if m + n in P.fns), 'probe::spec::' + n)

_tf = {}
def tree_facts(P, repo='/repo'):
    if id(P) not in _tf:
        from treefacts import TreeFacts
        _tf[id(P)] = TreeFacts(repo, rules(P))
    import strlang
    tf = _tf[id(P)]
    return lambda K: tf.facts(K) and strlang.possible(K, lambda b, cs: b[0] != 'pstr')

def registry(P):
    R = {}
    def o(name, root=None, specs=None, **kw):
        root = root or name; specs = specs or [root]
        R[name] = lambda: Oblig(P, 'probe::root_' + root, [spec_key(P, s) for s in specs], **kw)
    simple = '''stages iter_stages get_global_arg get_by_name stages_iter stages_index stages_into_iter arg_index
      stage_cmp stage_partial_cmp stage_eq stage_ne stage_lt stage_le stage_gt stage_ge stage_max stage_min
      image_parse image_roundtrip span_new span_from relative_span
      bs_new bs_new_span bs_add_component bs_add_string bs_add_comment bs_from bs_to_string bs_iter bsc_from_ss bsc_from_sc
      bsc_from_tuple ss_as_ref ss_to_string sa_as_str_vec se_into_shell se_as_shell se_into_exec se_as_exec
      envvar_new envvar_new_tuple label_new ins_span tryval_entrypoint'''.split()
    kinds = 'from arg label run entrypoint cmd copy env misc'.split()
    for k in kinds: simple += ['from_' + k, 'into_' + k, 'as_' + k, 'tryref_' + k]
    for k in ('run', 'cmd', 'entrypoint'): simple += [k + x for x in ('_into_shell', '_as_shell', '_into_exec', '_as_exec')]
    for n in simple: o(n)
    for n in ('image_display', 'stage_parent_display'): o(n, specs=[n, n + '_both', n + '_hash'])
    o('get', specs=['get', 'get_ci'])
    o('get_by_name', specs=['get_by_name', 'get_by_name_ci'])
    o('parse', boundary=B_PARSE)
    o('parse_text', 'parse', boundary=B_PARSE, mask=field_mask(P, {'Dockerfile': ['global_args', 'instructions']}))
    o('parse_globals', 'parse', boundary=B_PARSE, mask=field_mask(P, {'Dockerfile': ['content']}))
    o('parse_instrs', 'parse', boundary=B_PARSE, mask=field_mask(P, {'Dockerfile': ['content', 'global_args']}))
    o('from_str', boundary=B_PARSE); o('from_reader', boundary=B_PARSE)
    o('stages_parts', 'stages_new', mask=field_mask(P, {'Stage': ['parent', 'root']}))
    o('stages_parents', 'stages_new', mask=field_mask(P, {'Stage': ['instructions']}))
    o('stages_new')
    for T in PLAIN:
        for n in ['eq', 'ne'] + (['cmp', 'pcmp', 'lt', 'le', 'gt', 'ge'] if T in ORDERED else []): R['v_%s_%s' % (n, T)] = value(P, n, T)
        R['v_clone_' + T] = value(P, 'clone', T)
    off = adt_named(P, 'SpliceOffset')
    AL = {'probe::spec::Spl': 'dockerfile_parser::Splicer'}
    if off: AL['probe::spec::Off'] = off
    o('splice', alias=AL); o('splicer', specs=['splicer_new'], alias=AL)
    o('substitute', specs=['spec_substitute', 'spec_substitute_pieces'], boundary=B_SPLICE, nomem=lambda t: t.value == NONE,
      alias={'probe::spec::spec_substitute_pieces': 'dockerfile_parser::substitute', 'probe::spec::spec_substitute': 'dockerfile_parser::substitute'})
    o('resolve', boundary=B_RESOLVE); o('resolve_ctx', boundary=B_RESOLVE)
    o('resolve_agree', 'resolve', specs=['resolve_agree'], boundary=B_AGREE)
    try: rs = rules(P)
    except Exception: rs = {}
    import visits
    for k in KINDS:
        if k not in rs: continue
        for form, (mask, skip) in visits.FORMS.items():
            R['visit_%s%s' % (k, form and ':' + form)] = (lambda k, mask, skip: lambda: Oblig(
                P, 'probe::root_visit', [spec_key(P, 'visit_' + k)], boundary=B_VISIT, mask=mask(P), pre=pre_rule(P, k), facts=tree_facts(P),
                skip=visits.unknown(P, skip)))(k, mask, skip)
    def errs(P): return visits.ok_masked(P)
    o('parse_err', 'parse', boundary=B_PARSE, mask=errs(P)); o('from_str_err', 'from_str', boundary=B_PARSE, mask=errs(P)); o('from_reader_err', 'from_reader', boundary=B_PARSE, mask=errs(P))
    # no panics, no endless loops
    import total
    def t(name, root=None, **kw): R['total:' + name] = lambda: total.Total(P, 'probe::root_' + (root or name), [], holds=indexed(P), **kw)
    for n in 'parse from_str from_reader'.split(): t(n, boundary=B_PARSE, facts=root_facts(P), tf=tree_facts(P) and _tf[id(P)])
    for k in KINDS:
        if k in rs: R['total:visit_' + k] = (lambda k: lambda: total.Total(P, 'probe::root_visit', [], facts=tree_facts(P), tf=tree_facts(P) and _tf[id(P)], pre=pre_rule(P, k), boundary=B_IMG1))(k)
    for n in TOTAL2:
        if n == 'relative_span': t(n, pre=pre_spans(P), ints=True)
        elif n == 'substitute': t(n, boundary=B_SPLICE, pre=pre_calls(P, 'dockerfile_parser::substitute'))
        else: t(n, boundary=T_BOUND.get(n, {}))
    R['total:dispatch'] = lambda: total.Dispatch(P, R['total:parse'](), lambda i: total.Total(P, 'probe::root_visit', [], facts=tree_facts(P), tf=_tf[id(P)], pre=lambda st: st.conds.restrict(('rule', ('arg', 0)), {i}), boundary=B_IMG1), {rs[k] for k in KINDS if k in rs})
    t('stages_index', allow=lambda t: outside(t))
    o('image_hash', 'image_parse', mask=field_mask(P, {'ImageRef': ['registry', 'image', 'tag']}))
    return R

ORDERED = 'Span SpannedString SpannedComment StringArray BreakableStringComponent BreakableString'.split()
PLAIN = ORDERED + '''ShellOrExecExpr ImageRef FromFlag FromInstruction ArgInstruction Label LabelInstruction RunInstruction EntrypointInstruction
  CmdInstruction CopyFlag CopyInstruction EnvVar EnvInstruction MiscInstruction Instruction Dockerfile StageParent'''.split()

def value(P, n, T):
    root = 'probe::values::root_v_%s_%s' % (n, T)
    if n == 'clone':    # elsewhere a copy is taken to equal the original; here it is read
        ks = [k for k in P.fns if k.endswith('as std::clone::Clone>::clone') and k.startswith('<dockerfile_parser::' + T + ' ') or k.startswith('<dockerfile_parser::%s<\'a> ' % T) and k.endswith('std::clone::Clone>::clone')]
        if ks: root = ks[0]
    return lambda: Oblig(P, root, ['probe::values::spec_v_%s_%s' % (n, T)])

T_BOUND = {'resolve': B_RESOLVE, 'resolve_ctx': B_RESOLVE}
TOTAL2 = '''stages iter_stages stages_new get get_by_name stages_iter stages_into_iter arg_index get_global_arg image_parse image_roundtrip
  resolve resolve_ctx substitute relative_span bs_to_string ss_to_string sa_as_str_vec bs_iter ss_as_ref splicer stage_parent_display
  bs_new bs_new_span bs_add_component bs_add_string bs_add_comment bs_from bsc_from_ss bsc_from_sc bsc_from_tuple span_new span_from
  envvar_new envvar_new_tuple label_new ins_span se_into_shell se_as_shell se_into_exec se_as_exec tryval_entrypoint'''.split() + [p + k for k in 'from arg label run entrypoint cmd copy env misc'.split() for p in ('from_', 'into_', 'as_', 'tryref_')] + \
  [k + x for k in ('run', 'cmd', 'entrypoint') for x in ('_into_shell', '_as_shell', '_into_exec', '_as_exec')] + \
  ['stage_' + x for x in 'eq ne cmp partial_cmp lt le gt ge max min'.split()]

def root_facts(P):
    """the tree of a whole document"""
    tf = tree_facts(P)
    def f(K):
        for k in list(K.v):
            X = k[1] if k[0] == 'rule' else k
            r = contains(X, lambda y: y[0] == 'root')
            if r and not K.restrict(('rule', r), {r[1][2]}): return False
        return tf(K)
    return f

def indexed(P):
    """stages of a parsed document carry their own position"""
    k = adt_named(P, 'Stage')
    i = next((i for i, f in enumerate(P.adts[k]['variants'][0]['f']) if fname(f) == 'index'), None) if k else None
    return lambda v, name, variant, f: name == k and f == i and v[0] == 'fld' and v[1] == ('arg', 0)

def pre_calls(P, name):
    """numbers a private function is called with from outside: no more than the largest constant"""
    tops = {}
    def sites(x, out):
        if isinstance(x, list):
            if len(x) > 2 and x[0] == 'call' and isinstance(x[1], list) and x[1][0] == 'fn' and isinstance(x[1][1], dict) and x[1][1].get('n') == name: out.append(x[2])
            for y in x: sites(y, out)
        elif isinstance(x, dict):
            for y in x.values(): sites(y, out)
    calls = []
    for k, f in P.fns.items():
        if k.startswith('dockerfile_parser::') and k != name and not k.startswith(name + '::'): sites(f, calls)
    for args in calls:
        for i, a in enumerate(args):
            c = int(a[2][1]) if a[0] == 'k' and isinstance(a[2], list) and a[2][0] == 'int' else None
            tops.setdefault(i, []).append(c)
    def pre(st):
        for i, cs in tops.items():
            if None not in cs: st.conds.assume(b_le(('arg', i), ('int', max(cs))))
    return pre if calls else None

def pre_spans(P):
    """a span of the document it is asked about"""
    sp, df = adt_named(P, 'Span'), adt_named(P, 'Dockerfile')
    def at(a, ty, n): return ('fld', ('arg', a), ty, 0, [fname(f) for f in P.adts[ty]['variants'][0]['f']].index(n))
    def pre(st):
        s, e, n = at(0, sp, 'start'), at(0, sp, 'end'), slen(at(1, df, 'content'))
        NONNEG.add(s); NONNEG.add(e)
        st.conds.assume(b_le(s, e)); st.conds.assume(b_le(e, n))
    return pre

def outside(t):
    """indexing with a position the caller gave"""
    return t.value[1] == 'index out of bounds' and not any(contains(a, lambda y: y[0] == 'phi') for a, v in t.conds.log)

KINDS = 'from arg label run entrypoint cmd copy env misc'.split()
def V(form, kinds=None): return ['visit_%s%s' % (k, form and ':' + form) for k in kinds or KINDS]
PROPS = {
    'C01': ['total:parse', 'total:from_str', 'total:from_reader'] + ['total:visit_' + k for k in KINDS] + ['total:image_parse', 'total:dispatch'],
    'C02': ['total:' + n for n in TOTAL2 + ['stages_index']],
    'C03': ['parse_instrs'],
    'C05': V('kind'), 'C06': V('value', ['from']), 'C07': V('value', ['arg']), 'C08': V('value', ['label']), 'C09': V('value', ['env']),
    'C10': V('value', ['run', 'cmd', 'entrypoint']), 'C11': V('value', ['copy']), 'C12': V('value', ['misc']),
    'C13': V('spans') + ['ins_span', 'span_from'], 'C14': V('text'), 'C15': V('comment'), 'C33': V('text'),
    'C17': V('error') + ['parse_err', 'from_str_err', 'from_reader_err'] + ['tryref_' + k for k in KINDS] + ['tryval_entrypoint'],
    'C18': V('digest', ['from']) + ['image_hash'],
    'C16': V('', ['run', 'cmd', 'entrypoint', 'env', 'misc']) + ['bs_new', 'bs_new_span', 'bs_add_component', 'bs_add_string', 'bs_add_comment', 'bs_from', 'bs_to_string', 'bs_iter', 'bsc_from_ss', 'bsc_from_sc', 'bsc_from_tuple'],
    'C04': ['parse_globals', 'get_global_arg'],
    'C19': ['image_roundtrip'],
    'C20': ['image_parse'],
    'C21': ['substitute', 'splice'],
    'C22': ['resolve', 'resolve_ctx', 'resolve_agree', 'substitute', 'splice'],
    'C23': ['stages_parts', 'stages', 'iter_stages'],
    'C24': ['stages_parents', 'stages', 'iter_stages'],
    'C25': ['get', 'get_by_name', 'stages_iter', 'stages_index', 'stages_into_iter'],
    'C26': ['arg_index'],
    'C27': ['stage_' + x for x in 'eq ne cmp partial_cmp lt le gt ge max min'.split()],
    'C28': ['splice', 'splicer'],
    'C29': ['relative_span', 'span_new', 'span_from'],
    'C30': [p + k for k in KINDS for p in ('from_', 'into_', 'as_', 'tryref_')] + ['tryval_entrypoint', 'ins_span', 'se_into_shell', 'se_as_shell', 'se_into_exec', 'se_as_exec'] +
           [k + x for k in ('run', 'cmd', 'entrypoint') for x in ('_into_shell', '_as_shell', '_into_exec', '_as_exec')],
    'C34': ['v_%s_%s' % (n, T) for T in PLAIN for n in ['eq', 'ne', 'clone'] + (['cmp', 'pcmp', 'lt', 'le', 'gt', 'ge'] if T in ORDERED else [])],
    'C35': ['ss_as_ref', 'ss_to_string', 'sa_as_str_vec', 'envvar_new', 'envvar_new_tuple', 'label_new', 'image_display', 'stage_parent_display'],
    'C31': ['parse_text', 'from_str', 'from_reader'],
}
