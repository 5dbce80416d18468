"""Which obligations decide which property."""
import time, traceback
from obligations import *
import gramcheck

RULE = ('Each obligation takes one public entry point of the library: its MIR (with everything it calls inlined) is interpreted '
        'abstractly into a finite transition system whose loop heads are control points; the specification, a Rust function written '
        'from the property text, is treated the same way; the product of both systems is explored to a fixpoint and every jointly '
        'possible pair of paths must agree on control and on the returned value and on mutated arguments.')

TRULE = ('Each obligation takes one entry point: its MIR (with everything it calls inlined) is interpreted abstractly into a finite transition system. No panicking transition may be '
         'reachable (linear invariants and an exploration over variants and places among the children of a node, under what the grammar guarantees), every loop needs a ranking '
         'function and every recursive call an argument that gets smaller.')
GRAMMAR = 'C03 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C33'.split()
GRULE = ('The PEG of src/dockerfile_parser.pest is compiled to a finite automaton of annotated documents (text with token boundaries), '
         'and compared with the automaton of the reference grammar analysis/reference.grammar over all texts of the stated class.')

def decide(pid, mir, tier, features=None):
    if pid == 'C32': return decide_effects(mir, tier)
    P = Program(mir)
    R = registry(P)
    viol, und, obs = [], [], []
    fns = set(); tot = {'paths': 0, 'pairs': 0, 'joint': 0}
    t_end = time.time() + (300 if tier == 'quick' else 700)
    gram = []
    if pid in GRAMMAR:
        try: gv, gram, gu = gramcheck.run(pid, tier)
        except Exception as e: gv, gram, gu = [], [], [{'obligation': 'grammar', 'why': 'internal: ' + repr(e) + traceback.format_exc()[-300:]}]
        viol += gv; und += gu
    for n in PROPS.get(pid, []):
        t = time.time()
        Oblig.budget = 1 if viol else max(2, min(40 if tier == 'quick' else 200, t_end - t))
        try: v, ms, info = R[n]().run()
        except Undecided as e: v, ms, info = 'undecided', [], {'why': str(e)}
        except Exception as e: v, ms, info = 'undecided', [], {'why': 'internal: ' + repr(e) + traceback.format_exc()[-300:]}
        if v == 'differs':
            m = ms[0]
            txt = m.text() + '\npath: ' + ' & '.join(info.get('path', []))
            viol.append({'id': '%s/%s' % (pid, n), 'text': txt})
        elif v != 'equal': und.append({'obligation': n, 'why': str(info.get('why'))[:600]})
        fns |= set(info.get('fns', []))
        for k in tot: tot[k] += info.get(k) or 0
        obs.append({'entry': n, 'spec': (info.get('spec') or '').split('::')[-1], 'verdict': v, 'paths': info.get('paths'),
                    'panicking_paths': info.get('panic_paths'), 'loops': info.get('loops'), 'recursive_calls': info.get('recursive_calls'), 'abstract_states': info.get('nodes'),
                    'control_point_pairs': info.get('pairs'), 'joint_paths': info.get('joint'), 's': round(time.time() - t, 2)})
    gbad = len([v for v in viol if not any(v['id'] == '%s/%s' % (pid, x['entry']) for x in obs)])
    cov = {'explanation': ' '.join(([GRULE] if gram else []) + ([TRULE if pid in ('C01', 'C02') else RULE] if obs else [])), 'obligations': len(obs) + len(gram),
           'discharged': sum(1 for x in obs if x['verdict'] == 'equal') + max(0, len(gram) - gbad), 'undecided': und, 'grammar_comparisons': gram,
           'functions_analysed': len(fns), 'functions': sorted(fns)[:200], 'paths': tot['paths'], 'control_point_pairs': tot['pairs'], 'joint_paths': tot['joint'],
           'per_obligation': obs}
    return {'violations': viol, 'coverage': cov}

ERULE = ('Every call, function value, static, thread-local and pointer cast in the MIR of every function of the library (and the type of every static) is '
         'looked up in the effect table of analysis/effects.py; entries of hash tables must not reach an ordered result in their own order; '
         'the crate witness/ compiles only if every public type is Send and Sync.')

def decide_effects(mir, tier):
    import effects
    viol, und, cov = effects.run(mir, tier)
    n = cov['calls_and_function_values'] + cov['statics'] + cov['public_types']
    bad = len(viol) + len(und)
    return {'violations': viol, 'coverage': dict({'explanation': ERULE, 'obligations': n, 'discharged': n - bad, 'undecided': und}, **cov)}
