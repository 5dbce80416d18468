"""par.py [-j N] [-a] PATCH[=ID,..]...: run checks with each patch applied, in parallel, in mount namespaces over copies.
PATCH: a directory with patch.diff and meta.json, or a .diff file followed by =C01,C02 (=all for every claimed check)."""
import json, os, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
CL = [c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']] if os.path.exists(V + '/MANIFEST.json') else []
args = sys.argv[1:]; J = 6; every = False
while args and args[0].startswith('-'):
    if args[0] == '-j': J = int(args[1]); args = args[2:]
    elif args[0] == '-a': every = True; args = args[1:]
jobs = []
for a in args:
    f, _, ids = a.partition('=')
    if os.path.isdir(f):
        m = json.load(open(f + '/meta.json')); jobs.append((os.path.basename(f.rstrip('/')), os.path.abspath(f) + '/patch.diff', ids.split(',') if ids and ids != 'all' else CL if ids == 'all' or every else [m['property']], m['property']))
    else: jobs.append((os.path.basename(f), os.path.abspath(f), CL if ids in ('', 'all') else ids.split(','), None))
def run(j):
    name, patch, ids, want = j
    tmp = tempfile.mkdtemp(prefix='par')
    try:
        subprocess.run(['cp', '-a', SNAP + '/repo', tmp + '/repo'], check=True)
        subprocess.run(['mkdir', tmp + '/verif'], check=True)
        subprocess.run('cd %s && cp -a analysis build check.py driver probe witness tools properties.jsonl MANIFEST.json %s/verif/' % (SNAP, tmp), shell=True, check=True)
        if subprocess.run(['git', '-C', tmp + '/repo', 'apply', '--whitespace=nowarn', patch]).returncode: return name, [('?', 'DOES NOT APPLY', 0, '')]
        out = []
        for i in ids:
            t = time.time()
            p = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec %s check.py %s' % (tmp, tmp, sys.executable, i)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            hit = p.returncode == 1 and 'VIOLATION property=' + i in p.stdout
            v = 'CAUGHT' if hit else 'quiet' if p.returncode == 0 else 'rc=%d' % p.returncode
            out.append((i, v, time.time() - t, p.stdout.replace('\n', ' | ')))
        return name, out
    finally: shutil.rmtree(tmp)
# one snapshot for the whole run
SNAP = tempfile.mkdtemp(prefix='parsnap')
subprocess.run('cd /verif && cp -a analysis build check.py driver probe witness tools properties.jsonl MANIFEST.json %s/ && cp -a /repo %s/repo' % (SNAP, SNAP), shell=True, check=True)
miss = []; noisy = []
with ThreadPoolExecutor(J) as ex:
    for name, out in ex.map(run, jobs):
        want = next(j[3] for j in jobs if j[0] == name)
        for i, v, t, s in out:
            und = ' undecided' if 'undecided' in s else ''
            if len(out) == 1 or v != 'quiet' or und: print('%-34s %s %s%s %.1fs %s' % (name, i, v, und, t, s[:240]), flush=True)
            if i == want and v != 'CAUGHT': miss.append(name)
        if len(out) > 1: print('%-34s caught by %s' % (name, ' '.join(i for i, v, t, s in out if v == 'CAUGHT') or '-'), flush=True)
shutil.rmtree(SNAP)
print('missed:', miss)
