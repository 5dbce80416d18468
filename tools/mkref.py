"""mkref.py [-o DIR] DEFS.py [NAME...]: patches of behaviour-preserving edits, each checked to compile and to pass the tests"""
import os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]; out = '/tmp/refac'
if args[0] == '-o': out = args[1]; args = args[2:]
d = {}; exec(open(args[0]).read(), d); R = d['R']
os.makedirs(out, exist_ok=True)
def make(n):
    tmp = tempfile.mkdtemp(prefix='ref')
    try:
        subprocess.run(['cp', '-a', '/repo', tmp + '/repo'], check=True)
        for f, old, new in R[n]:
            p = tmp + '/repo/' + f; s = open(p).read()
            if s.count(old) != 1: return n, 'EDIT matches %d times in %s: %r' % (s.count(old), f, old[:60])
            open(p, 'w').write(s.replace(old, new))
        open('%s/%s.diff' % (out, n), 'w').write(subprocess.run(['git', '-C', tmp + '/repo', 'diff'], stdout=subprocess.PIPE, check=True, text=True).stdout)
        t = subprocess.run('cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E "^test |^error|^  -->" ', shell=True, cwd=tmp + '/repo', stdout=subprocess.PIPE, text=True, env=dict(os.environ, CARGO_NET_OFFLINE='true'))
        ok = sum(1 for l in t.stdout.splitlines() if l.endswith('... ok')); bad = [l for l in t.stdout.splitlines() if 'FAILED' in l or l.startswith('error') ]
        if ok < 59 or bad:
            os.remove('%s/%s.diff' % (out, n)); return n, 'BAD %d %s' % (ok, (bad or t.stdout.splitlines())[:4])
        return n, 'ok %d' % ok
    finally: shutil.rmtree(tmp)
with ThreadPoolExecutor(6) as ex:
    for n, r in ex.map(make, args[1:] or R): print(n, r, flush=True)
