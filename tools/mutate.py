"""mutate.py [-j N] [-o DIR] [FILE..]: small mechanical changes of /repo/src that compile and pass the tests, as DIR/*.diff. Development only."""
import glob, os, re, shutil, subprocess, sys, tempfile, threading, queue, difflib
args = sys.argv[1:]; J = 5; OUT = '/tmp/mut'; seed = None
while args and args[0].startswith('-'):
    if args[0] == '-j': J = int(args[1])
    if args[0] == '-o': OUT = args[1]
    args = args[2:]
files = args or sorted(glob.glob('/repo/src/*.rs') + glob.glob('/repo/src/instructions/*.rs') + ['/repo/src/dockerfile_parser.pest'])
RS = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r'&&', '||'), (r'\|\|(?! \{)', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
      (r' \+ ', ' - '), (r' - ', ' + '), (r'\+= ', '-= '), (r'-= ', '+= '), (r'if !', 'if '), (r'\bcontinue\b', 'break'), (r'\bbreak\b', 'continue'), (r'\.rev\(\)', ''), (r'\.next\(\)', '.last()'),
      (r'\.rfind\(', '.find('), (r'\.find\((?=\')', '.rfind('), (r'\.splitn\(', '.rsplitn('), (r'\bstart\b', 'end'), (r'\bend\b', 'start'), (r'\.iter\(\)', '.iter().skip(1)'), (r'\.iter\(\)', '.iter().rev()'), (r'\.iter\(\)', '.iter().take(2)'),
      (r'to_lowercase\(\)', 'to_uppercase()'), (r'to_lowercase\(\)', 'to_string()'), (r'to_ascii_lowercase\(\)', 'to_string()'), (r'\.as_str\(\)', '.as_str().trim()'), (r'\.as_str\(\)', '.as_str().trim_end()'), (r'\.to_string\(\)', '.to_string().to_lowercase()'),
      (r'\.to_string\(\)', '.trim().to_string()'), (r'\.push\(', '.insert(0, '), (r'is_some\(\)', 'is_none()'), (r'is_none\(\)', 'is_some()'), (r'\.is_empty\(\)', '.len() <= 1'), (r'\beq_ignore_ascii_case\(', 'starts_with('),
      (r'\.into_inner\(\)', '.into_inner().rev()'), (r'\.into_inner\(\)', '.into_inner().skip(1)'), (r'\.into_inner\(\)', '.into_inner().take(3)'), (r'\.clone\(\)', '.clone().rev()'), (r'\.into_iter\(\)', '.into_iter().rev()'), (r'\.max\(', '.min('), (r'\.min\(', '.max('),
      (r'unwrap_or_else', 'unwrap_or_default'), (r'\.last\(\)', '.first()'), (r'\.pop\(\)', '.last().cloned()'), (r'\.split\(', '.rsplit('), (r'\.chars\(\)', '.chars().skip(1)'), (r'\.starts_with\(', '.contains('), (r'\.starts_with\(', '.ends_with('), (r'\.len\(\)', '.chars().count()'),
      (r'Some\(([a-z_.]+)\)(?! =>)(?! =)', 'None'), (r'\.filter\(', '.skip_while(|_| false).take_while('), (r'\.map\(', '.take(1).map('), (r'\.cmp\(', '.partial_cmp('), (r'other', 'self'), (r'\.insert\(([^,()]+), ([^()]+)\)', r'.entry(\1).or_insert(\2)'),
      (r'replace\(', 'replacen('), (r'\bfind_map\b', 'filter_map'), (r'Rule::\w+ \| (?=Rule)', ''), (r' \| Rule::\w+(?= =>)', ''), (r'break', 'return None')]
PEST = [(r'\*', '+'), (r'\*', '?'), (r'\*', ''), (r'\+', '*'), (r'\+', ''), (r'\?', ''), (r'\?', '*'), (r'\^(?=")', ''), (r'(?<!\^)(?=")', '^'), (r'@\{', '{'), (r'@\{', '${'), (r'\$\{', '@{'), (r'(?<= )_\{', '{'), (r'!\w+ ~ ?', ''), (r'!\([^()]*\) ~ ?', ''), (r' ~ ', ' | '), (r' \| ', ' ~ '),
        (r'(\w+) \| (\w+)', r'\2 | \1'), (r' \| \w+', ''), (r'\w+ \| ', ''), (r'~ \w+[*?]', ''), (r'\w+[*?] ~', ''), (r'arg_ws_maybe', 'ws*'), (r'arg_ws\b', 'ws+'), (r'arg_ws\b', 'arg_ws_maybe'), (r'arg_ws_maybe', 'arg_ws'), (r'NEWLINE', '"\\n"'), (r'any_whitespace', 'any_equals'), (r'any_equals', 'any_whitespace'), (r'2,', '1,'), (r'2,', '3,'),
        (r'\bws\b', '" "'), (r'"', '" '), (r'ASCII_ALPHANUMERIC', 'ASCII_ALPHA'), (r'ASCII_ALPHA\b', 'ASCII_ALPHANUMERIC'), (r'string', 'double_quoted_string'), (r'comment_line', 'comment'), (r'EOI', '"\\r"'), (r'empty_line', 'NEWLINE')]
def mutants(f):
    ls = open(f).read().split('\n'); out = []
    pest = f.endswith('.pest')
    for i, l in enumerate(ls):
        if re.match(r'\s*#\[cfg\(test\)\]', l): break
        s = l.strip()
        if not s or s.startswith(('//', 'use ', '#', 'pub use', 'mod ', 'pub mod')): continue
        for p, r in PEST if pest else RS:
            for m in re.finditer(p, l):
                n = l[:m.start()] + m.expand(r) + l[m.end():]
                if n != l: out.append((i, n))
        if not pest:
            for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', l):
                for d in (int(m.group(1)) + 1, max(0, int(m.group(1)) - 1)): out.append((i, l[:m.start()] + str(d) + l[m.end():]))
            for m in re.finditer(r"'(.)'", l): out.append((i, l[:m.start()] + "'~'" + l[m.end():]))
            if s.endswith(';') and not s.startswith(('let', 'return', 'pub', 'fn')) and s.count('(') == s.count(')'): out.append((i, ''))
            if re.match(r'\w.* => .*,$', s) and s.count('(') == s.count(')') and s.count('{') == s.count('}'): out.append((i, ''))
        else:
            for m in re.finditer(r'"((?:[^"\\]|\\.))"', l): out.append((i, l[:m.start()] + '"~"' + l[m.end():]))
    seen = set()
    for i, n in out:
        if (i, n) in seen: continue
        seen.add((i, n)); yield i, n, ls
os.makedirs(OUT, exist_ok=True)
q = queue.Queue(); lock = threading.Lock(); stat = {'all': 0, 'kept': 0}
for f in files:
    k = 0
    for i, n, ls in mutants(f): q.put((f, i, n, ls, k)); k += 1
print(q.qsize(), 'mutants', flush=True)
def work():
    tmp = tempfile.mkdtemp(prefix='mut')
    subprocess.run(['cp', '-a', '/repo', tmp + '/repo'], check=True)
    try:
        while True:
            try: f, i, n, ls, k = q.get_nowait()
            except queue.Empty: return
            p = tmp + f; new = ls[:i] + [n] + ls[i + 1:]
            open(p, 'w').write('\n'.join(new))
            try:
                t = subprocess.run('cargo check --offline -q 2>/dev/null && timeout 60 cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E "^test |^error"', shell=True, cwd=tmp + '/repo', stdout=subprocess.PIPE, text=True, timeout=120).stdout.splitlines()
            except subprocess.TimeoutExpired: t = []
            ok = sum(1 for x in t if x.endswith('... ok')) >= 59 and not any('FAILED' in x or x.startswith('error') for x in t)
            with lock:
                stat['all'] += 1
                if ok:
                    stat['kept'] += 1
                    nm = '%s-%d-%d.diff' % (os.path.basename(f).split('.')[0], i + 1, k)
                    rel = f[6:]
                    open(OUT + '/' + nm, 'w').write(''.join(difflib.unified_diff(['%s\n' % x for x in ls[:-1]] + ([ls[-1]] if ls[-1] else []), ['%s\n' % x for x in new[:-1]] + ([new[-1]] if new[-1] else []), 'a/' + rel, 'b/' + rel)))
            open(p, 'w').write('\n'.join(ls))
    finally: shutil.rmtree(tmp)
ts = [threading.Thread(target=work) for _ in range(J)]
for t in ts: t.start()
for t in ts: t.join()
print(stat)
