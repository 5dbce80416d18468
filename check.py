#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property of /repo's current source"""
import fcntl, json, os, sys, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'tools')); sys.path.insert(0, os.path.join(V, 'analysis'))
sys.setrecursionlimit(100000)

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time()
    import dump
    os.chdir(V)
    os.makedirs('evidence', exist_ok=True); os.makedirs('build', exist_ok=True)
    out = os.path.join(V, 'build', 'mir.%s.json' % pid)
    with open('build/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        features = dump.dump(out, os.path.join(V, 'analysis', 'cut.txt'))
    t1 = time.time()
    import properties
    res = properties.decide(pid, out, tier, features)
    os.unlink(out)
    known = load_known(pid)
    new, old = [], []
    for v in res['violations']:
        (old if any(k in v['id'] for k in known) else new).append(v)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other',
          'coverage': dict(res['coverage'], source_fingerprint=dump.fingerprint()), 'wall_s': round(time.time() - t0, 2)}
    ev['coverage']['build_s'] = round(t1 - t0, 2)
    ev['coverage']['violations'] = len(new); ev['coverage']['known_findings'] = len(old)
    json.dump(ev, open('evidence/%s.json' % pid, 'w'), indent=1)
    for v in old: print('KNOWN-FINDING: property=%s %s' % (pid, v['text'].splitlines()[0]))
    for u in res['coverage'].get('undecided', []): print('undecided: %s: %s' % (u['obligation'], u['why'][:300]))
    if new:
        path = os.path.join(V, 'evidence', '%s.violation.txt' % pid)
        with open(path, 'w') as f:
            for v in new: f.write('%s\n%s\n\n' % (v['id'], v['text']))
        for v in new[:5]: print(v['id'] + '\n   ' + v['text'][:1500].replace('\n', '\n   '))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s: %s obligations, %s decided, %.1fs' % (pid, res['coverage'].get('obligations'), res['coverage'].get('discharged'), time.time() - t0))
    return 0

def load_known(pid):
    """lines: known: property=<id> <violation id>   |   fixed: ... (suppresses nothing)"""
    ks = []
    for l in open(os.path.join(V, 'analysis', 'known-findings.txt')):
        l = l.strip()
        if l.startswith('known: property=%s ' % pid): ks.append(l.split(' ', 2)[2])
    return ks

if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit: raise
    except Exception:
        # no verdict: nothing is known to be wrong
        traceback.print_exc()
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump({'property': sys.argv[1], 'tier': (sys.argv + ['', 'quick'])[2] or 'quick', 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other', 'wall_s': 0,
                   'coverage': {'explanation': 'The check could not analyse the source.', 'obligations': 0, 'discharged': 0, 'undecided': [{'obligation': 'all', 'why': traceback.format_exc()[-800:]}]}},
                  open(os.path.join(V, 'evidence', sys.argv[1] + '.json'), 'w'), indent=1)
        print('undecided: the analysis failed')
        sys.exit(0)
