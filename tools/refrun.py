"""refrun.py [-j N] PATCH...: every obligation of every property whose code a patch touches, with the patch applied (in mount namespaces over copies).
PATCH: a .diff file, or a directory with patch.diff. Prints obligations that are not decided equal (with REFRUN_FIRST=1 set: up to the first difference). Development only."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools'); sys.path.insert(0, V + '/analysis')
sys.setrecursionlimit(100000)

def norm(x):
    if isinstance(x, dict): return {k: norm(v) for k, v in x.items() if k not in ('ln', 'f', 'a')} if 'i' in x and 'k' in x else {k: norm(v) for k, v in x.items() if k not in ('ln', 'f')}
    if not isinstance(x, list): return x
    if x and x[0] == 'f' and len(x) == 3: return x[:2]
    if x and x[0] == 'k': return ['k'] + [norm(y) for y in x[2:]]
    if x and x[0] == 'discr': return [norm(y) for y in x[:2]]
    if x and x[0] == 'call': return [norm(y) for y in x[:5]]
    if x and x[0] in ('cast',): return [norm(y) for y in x if not isinstance(y, int)]
    return [norm(y) for y in x]

def hashes(mir):
    m = json.load(open(mir))
    fns = m['fns']; own = {}; refs = {}
    for k, f in fns.items():
        b = json.dumps(norm({x: f[x] for x in f if x in ('blocks', 'argc', 'a')}), sort_keys=True)
        own[k] = hashlib.sha256(b.encode()).hexdigest()
        refs[k] = {s for s in re.findall(r'"((?:[^"\\]|\\.)*)"', json.dumps(f)) if s in fns}
    return own, refs, hashlib.sha256(json.dumps({k: [[v['n'] if isinstance(v, dict) and 'n' in v else 0, [x['n'] if isinstance(x, dict) else x for x in v['f']] if isinstance(v, dict) and 'f' in v else 0] for v in a['variants']] for k, a in m['adts'].items() if k.startswith('dockerfile_parser')}, sort_keys=True).encode()).hexdigest()

INS = 'from arg label run entrypoint cmd copy env misc'.split()
def reach(root, refs, kind=None):
    seen, todo = set(), [root]
    while todo:
        k = todo.pop()
        if k in seen or k not in refs: continue
        if kind:
            mm = re.match(r'dockerfile_parser::(\w+)Instruction::from_record', k)
            if mm and mm.group(1).lower() != kind: continue
        seen.add(k); todo += refs[k]
    return seen

def inner(base, J):
    import dump, properties
    from obligations import Program, registry, PROPS, Oblig
    out = V + '/build/mir.refrun.json'
    feats = dump.dump(out, V + '/analysis/cut.txt')
    if base == '-':
        json.dump(hashes(out), open(V + '/build/base.json', 'w'), default=list); return
    every = base == '/dev/null'
    b = [{}, {}, ''] if every else json.load(open(base))
    same_gram = not every and hashlib.sha256(open('/repo/src/dockerfile_parser.pest', 'rb').read()).hexdigest() == open(base + '.gram').read()
    own, refs, adts = hashes(out)
    gram = open('/repo/src/dockerfile_parser.pest').read()
    jobs = []
    users = {}
    for pid, ns in PROPS.items():
        for n in ns: users.setdefault(n, []).append(pid)
    P = Program(out); R = registry(P)
    from obligations import KINDS
    for n in users:
        if n not in R: print('  no obligation', n); continue
        kind = next((k for k in KINDS if re.match(r'(total:)?visit_%s\b' % k, n)), None)
        try: o = R[n]()
        except Exception as e: print('  ', n, 'cannot make', repr(e)); continue
        root = getattr(o, 'root', None)
        if root is None: continue
        sig = lambda own, refs, adts: [adts] + sorted(own[k] for k in reach(root, refs, kind))
        if not every and sig(own, refs, adts) == sig(b[0], {k: set(v) for k, v in b[1].items()}, b[2]) and same_gram: continue
        jobs.append(n)
    def oblig(n):
        t = time.time(); Oblig.budget = 40
        try: v, ms, info = R[n]().run()
        except Exception as e: v, ms, info = 'undecided', [], {'why': repr(e)}
        txt = (ms[0].text() + ' path: ' + ' & '.join(info.get('path', []))) if v == 'differs' else str(info.get('why'))
        return v, '%s [%s] %.0fs %s' % (n, ','.join(users[n]), time.time() - t, txt[:700].replace('\n', ' '))
    def grun(pid):
        import gramcheck
        gv, g, gu = gramcheck.run(pid, 'quick')
        return 'differs' if gv else 'undecided' if gu else 'equal', 'grammar %s %s' % (pid, str(gv or gu)[:500])
    def eff(_):
        r = properties.decide_effects(out, 'quick')
        return 'differs' if r['violations'] else 'undecided' if r['coverage']['undecided'] else 'equal', 'effects %s' % str(r['violations'] or r['coverage']['undecided'])[:500]
    todo = ([(grun, p) for p in properties.GRAMMAR] if not same_gram else []) + [(oblig, n) for n in jobs] + [(eff, '')]
    if os.environ.get('REFRUN_FIRST') == 'grammar': todo = [x for x in todo if x[0] is grun]
    if any(n.startswith(('visit', 'total:visit')) for n in jobs):
        try: R['visit_arg']().facts({}) 
        except Exception: pass
    import select
    running = {}; nd = [0, 0]
    def reap(pid, fd):
        s = b''
        while True:
            c = os.read(fd, 65536)
            if not c: break
            s += c
        os.close(fd); os.waitpid(pid, 0)
        v, t = json.loads(s) if s else ('undecided', 'died')
        nd[0] += 1
        if v != 'equal': nd[1] += 1; print('  %s %s' % ({'differs': 'CAUGHT'}.get(v, v), t), flush=True)
        if v == 'differs' and os.environ.get('REFRUN_FIRST'):
            todo.clear()
            import signal
            for p in running.values(): os.kill(p, signal.SIGKILL)
    while todo or running:
        while todo and len(running) < J:
            f, n = todo.pop(0)
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r)
                try: x = f(n)
                except BaseException as e: x = ('undecided', n + ' ' + repr(e))
                os.write(w, json.dumps(x).encode()); os.close(w); os._exit(0)
            os.close(w); running[r] = pid
        rs, _, _ = select.select(list(running), [], [])
        for r in rs: reap(running.pop(r), r)
    print('  %d obligations run, %d not equal; probe features %s' % (nd[0], nd[1], feats))

def main():
    args = sys.argv[1:]; J = 4; K = 2; every = False
    while args and args[0][0] == '-':
        if args[0] == '-j': J = int(args[1]); args = args[2:]
        elif args[0] == '-k': K = int(args[1]); args = args[2:]
        elif args[0] == '-a': every = True; args = args[1:]
    from concurrent.futures import ThreadPoolExecutor
    SNAP = tempfile.mkdtemp(prefix='refsnap')
    subprocess.run('cd /verif && mkdir %s/verif && cp -a analysis build check.py driver probe witness tools properties.jsonl MANIFEST.json %s/verif/ && cp -a /repo %s/repo' % (SNAP, SNAP, SNAP), shell=True, check=True)
    def ns(t, cmd): return subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec %s tools/refrun.py %s' % (t, t, sys.executable, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
    if not args: print(ns(SNAP, '--inner /dev/null %d' % K)); shutil.rmtree(SNAP); return
    try:
        print(ns(SNAP, '--inner - 1'), end='')
        open(SNAP + '/verif/build/base.json.gram', 'w').write(hashlib.sha256(open('/repo/src/dockerfile_parser.pest').read().encode()).hexdigest())
        def run(a):
            f = a + '/patch.diff' if os.path.isdir(a) else a
            tmp = tempfile.mkdtemp(prefix='refrun')
            try:
                subprocess.run('cp -a %s/repo %s/verif %s/' % (SNAP, SNAP, tmp), shell=True, check=True)
                if subprocess.run(['git', '-C', tmp + '/repo', 'apply', '--whitespace=nowarn', os.path.abspath(f)]).returncode: return a, '  DOES NOT APPLY\n'
                return a, ns(tmp, '--inner %s %d' % ('/dev/null' if every else 'build/base.json', K))
            finally: shutil.rmtree(tmp)
        with ThreadPoolExecutor(J) as ex:
            for a, out in ex.map(run, args): print('== %s\n%s' % (os.path.basename(a.rstrip('/')), out), end='', flush=True)
    finally: shutil.rmtree(SNAP)

if __name__ == '__main__':
    if sys.argv[1] == '--inner': inner(sys.argv[2], int(sys.argv[3]))
    else: main()
