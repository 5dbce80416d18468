"""C32: effects of the library, over its MIR, and auto traits of its public types.

Every call, function value, static access, thread-local access and pointer cast in a function of the crate is looked up in
an effect table; nothing of the library may name a function that reads or changes anything but its arguments."""
import json, os, re, subprocess
from fnmatch import fnmatchcase

HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)

EFFECTS = [(r'std::(fs|net|process|os|env)::', 'reads or changes the environment of the process'),
           (r'std::io::(stdio::)?(stdin|stdout|stderr|_print|_eprint|print|read_to_string$|Stdin|Stdout|Stderr)', 'uses the standard streams'),
           (r'std::time::(Instant|SystemTime)', 'reads the clock'),
           (r'std::thread::(current|sleep|park|yield_now|available_parallelism|Thread|ThreadId|panicking)', 'depends on the running thread'),
           (r'(std::hash::(random::)?|std::collections::hash_map::)RandomState', 'uses random hash keys'),
           (r'std::panic::(set_hook|take_hook)', 'changes the panic hook'),
           (r'std::alloc::(set_|take_)', 'changes the allocation hooks'),
           (r'std::path::Path::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|canonicalize|read_link|read_dir)', 'reads the file system'),
           (r'(libc|rand|getrandom|rand_core|fastrand)::', 'calls outside the library'),
           (r'std::ptr::(const_ptr|mut_ptr).*::(addr|expose_provenance)$|(expose_provenance|expose_addr)', 'depends on an address'),
           (r'std::ptr::(read_volatile|write_volatile)', 'uses volatile memory'),
           (r'std::fmt::Pointer', 'prints an address'),
           (r'core::fmt::rt::Argument.*::new_pointer', 'prints an address'),
           (r'std::backtrace::|std::intrinsics::.*volatile', 'reads the state of the process')]
PURE = re.compile(r'^<?(&|\[|\()?(core|alloc|std::(prelude|any|array|ascii|borrow|boxed|cell|char|clone|cmp|collections|convert|default|error|fmt|hash|hint|intrinsics|io|iter|marker|mem|num|ops|option|path|pin|ptr|rc|result|slice|str|string|sync|vec|alloc|rt|panicking|panic|any|primitive|usize|u8|ffi|vec)|std::time::Duration|std::thread::local_impl|pest|regex|enquote|snafu|lazy_static|dockerfile_parser|probe|bool|char|str|u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|mut|\*)\b')
CELLS = re.compile(r'\b(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|Mutex|RwLock|ReentrantLock|Atomic\w+|Condvar|Barrier|Sender|Receiver|OnceLock|Once|LazyLock|Lazy)\b')
ONCE = re.compile(r'^(lazy_static::lazy::Lazy|std::sync::(lazy_lock::)?LazyLock|std::sync::(once_lock::)?OnceLock|std::sync::(once::)?Once|once_cell::\w+::(Lazy|OnceCell))\b(?:<(.*)>)?$')
HASHIT = re.compile(r'std::collections::hash_(map|set)::(\w+::)*(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Intersection|Union|Difference|SymmetricDifference)\b|hashbrown::\w+::(\w+::)*(Iter|IntoIter|Drain)\b')
ORDERED = re.compile(r'^(std::vec::Vec|std::string::String|std::collections::VecDeque|std::collections::LinkedList|std::boxed::Box<\[)')

def dicts(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict): yield y; st.extend(y.values())
        elif isinstance(y, list): st.extend(y)

def lists(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, list): yield y; st.extend(y)
        elif isinstance(y, dict): st.extend(y.values())

class Effects:
    def __init__(self, d):
        self.d, self.T = d, d['tys']
        self.viol, self.und = [], []
        self.calls = 0; self.names = set(); self.fns = []

    def ty(self, i): return self.T[i]['s'] if isinstance(i, int) and self.T[i] else ''

    def say(self, what, f, b, why):
        loc = '%s (%s:%s)' % (f['n'], (b or {}).get('f') or f['span'][0], (b or {}).get('ln') or f['span'][1])
        v = {'id': 'C32/%s' % what, 'text': '%s: %s' % (loc, why)}
        if v not in self.viol: self.viol.append(v)

    def name(self, n, f, b):
        """a function named in the code"""
        self.calls += 1; self.names.add(n)
        for p, why in EFFECTS:
            if re.search(r'(^|[<& ])' + p, n): self.say('effect', f, b, '%s: %s' % (n, why)); return
        if not PURE.match(n) and n not in self.und: self.und.append(n)

    def fndefs(self, i, seen=None):
        """function items among the parts of a type"""
        seen = set() if seen is None else seen
        if not isinstance(i, int) or i in seen or not self.T[i]: return
        seen.add(i); t = self.T[i]
        if t.get('k') == 'fndef': yield t['f']['n']
        for j in t.get('a', []) + t.get('ts', []):
            if isinstance(j, int): yield from self.fndefs(j, seen)
        if isinstance(t.get('t'), int): yield from self.fndefs(t['t'], seen)

    def mutable(self, s):
        """may a shared value of this type change (the pool inside a regex shows nowhere)"""
        return bool(CELLS.search(re.sub(r'\bregex::', '', s))) or 'dockerfile_parser::' in s

    def run(self):
        cell_ops = []
        for key, f in sorted(self.d['fns'].items()):
            if f.get('c') != 'dockerfile_parser' or not f.get('blocks'): continue
            if ' as pest::' in f['n'] and 'DockerfileParser' in f['n']: continue
            self.fns.append(f['n'])
            for b in f['blocks']:
                t = b['t']
                if t[0] == 'asm': self.say('effect', f, b, 'inline assembly')
                if t[0] == 'call' and t[1][0] == 'fn':
                    c = t[1][1]; n = c['n']
                    if 'thread::LocalKey' in n or 'thread::local_impl::' in n:
                        s = self.ty(c['a'][0]) if c.get('a') else '?'
                        if s == '?' or self.mutable(s): self.say('state', f, b, '%s keeps state in a thread-local variable of type %s' % (n, s))
                        self.calls += 1; continue
                    self.name(n, f, b)
                    if re.search(r'\b(Cell|RefCell|Mutex|RwLock|Atomic\w+|OnceLock|OnceCell)\b.*::', n) and not n.endswith('::new'): cell_ops.append((n, f, b))
                    for a in c.get('a', []):
                        for m in self.fndefs(a): self.name(m, f, b)
                    self.hash_order(f, b, c, t)
                for l in lists([b['s'], t[2] if t[0] == 'call' else []]):
                    if l[:1] == ['tls'] and len(l) == 2 and self.tls_state(l[1]): self.say('state', f, b, 'thread-local %s' % l[1])
                    if l[:1] == ['cast'] and len(l) == 5 and 'ExposeProvenance' in str(l[1]): self.say('effect', f, b, 'the address of a value is turned into a number')
                    if l[:1] == ['cast'] and len(l) == 5 and 'ExposeAddress' in str(l[1]): self.say('effect', f, b, 'the address of a value is turned into a number')
                    if l[:1] == ['k'] and len(l) == 3 and isinstance(l[1], int) and isinstance(l[2], list):
                        for m in self.fndefs(l[1]): self.name(m, f, b)
                        if l[2][:1] == ['static']:
                            ty = self.T[l[1]]
                            if ty.get('k') == 'ptr' and ty.get('mut'): self.say('state', f, b, 'mutable static %s' % l[2][1])
        self.statics(cell_ops)

    def tls_state(self, n):
        s = self.d['statics'].get(n)
        m = re.match(r'^std::thread::local_impl::(?:Lazy|Eager)Storage<(.*?)(?:, (?:!|\(\)))?>$', self.ty(s['ty'])) if s else None
        return not m or self.mutable(m.group(1))

    def statics(self, cell_ops):
        for n, s in sorted(self.d['statics'].items()):
            if not s or s.get('c') != 'dockerfile_parser': continue
            ty = self.ty(s['ty'])
            if 'thread::local_impl::' in ty:
                if self.tls_state(n): self.say('state', {'n': n, 'span': ['static', '']}, None, 'a thread-local variable of type %s is state' % ty)
                continue
            m = ONCE.match(ty); inner = (m.group(m.lastindex) if m and m.lastindex and '<' in ty else '') if m else ty
            f = {'n': n, 'span': ['static', '']}
            if m and 'Once' in ty.split('<')[0]:
                for o, g, b in cell_ops:
                    if o.split('::')[-1] in ('set', 'take', 'get_mut', 'get_mut_or_init'): self.say('state', g, b, '%s changes a static cell' % o)
                    if o.split('::')[-1] in ('get_or_init', 'get_or_try_init') and self.captures(b): self.say('state', g, b, 'the first call decides the value of a static')
            if 'regex::' in inner and not CELLS.search(inner.replace('regex::', '')): continue
            if CELLS.search(inner): self.say('state', f, None, 'a static of type %s is mutable global state' % ty); continue
            if 'dockerfile_parser::' in inner and inner != n and cell_ops and not m:
                o, g, b = cell_ops[0]
                self.say('state', g, b, '%s with the static %s of type %s' % (o, n, ty))

    def captures(self, b):
        t = b['t']
        for i in t[5] if len(t) > 5 else []:
            x = self.T[i] if isinstance(i, int) else None
            if x and x.get('k') == 'closure':
                last = self.T[x['a'][-1]] if x.get('a') and isinstance(x['a'][-1], int) else None
                if last and last.get('k') == 'tuple' and last.get('ts'): return True
        return False

    def hash_order(self, f, b, c, t):
        """an ordered result filled from a hash table in its own order"""
        n = c['n']
        args = [self.ty(i) for i in t[5] if isinstance(i, int)] if len(t) > 5 else []
        if not any(HASHIT.search(a) for a in args): return
        dest = self.ty(t[6]) if len(t) > 6 and isinstance(t[6], int) else ''
        last = n.split('::')[-1]
        sorts = any(x['t'][0] == 'call' and x['t'][1][0] == 'fn' and ('sort' in x['t'][1][1]['n'] or 'BTree' in x['t'][1][1]['n']) for x in f['blocks'])
        if sorts: return
        if last in ('collect', 'from_iter', 'extend', 'extend_from_slice', 'concat', 'join') and (ORDERED.match(dest) or any(ORDERED.match(a.lstrip('&').replace('mut ', '')) for a in args[:1])):
            self.say('order', f, b, '%s puts the entries of a hash table, whose order is random, into %s' % (n, dest or args[0]))
        if last in ('collect', 'from_iter', 'extend') and any(re.search(r'hash_(map|set)::(\w+::)*(Into)?Values\b', a) for a in args) and any(re.match(r"(&'?\w* ?(mut )?)?std::collections::(hash_map::)?HashMap\b", x) for x in (dest, args[0])):
            self.say('order', f, b, '%s: of values with the same key, the last in the random order of a hash table stays' % n)
        if last == 'next' and dest.startswith('std::option::Option'):
            item = t[3]
            if self.pushed(f, t): self.say('order', f, b, 'the entries of a hash table, whose order is random, are appended in that order')

    def pushed(self, f, t):
        """does a value of this call end up in a push (flow-insensitive)"""
        tainted = {t[3][0]}
        for _ in range(12):
            n0 = len(tainted)
            for b in f['blocks']:
                for s in b['s']:
                    if any(l[:1] in (['c'], ['m']) and len(l) == 2 and isinstance(l[1], list) and l[1] and l[1][0] in tainted for l in lists(s[1])) or \
                       any(l[:1] == ['ref'] and len(l) == 3 and l[2][0] in tainted for l in lists([s[1]])): tainted.add(s[0][0])
                u = b['t']
                if u[0] == 'call':
                    used = any(l[:1] in (['c'], ['m']) and len(l) == 2 and isinstance(l[1], list) and l[1] and l[1][0] in tainted for l in lists(u[2]))
                    if used:
                        n = u[1][1]['n'] if u[1][0] == 'fn' else ''
                        if n.split('::')[-1] in ('push', 'push_str', 'push_back', 'write_str', 'write_fmt', 'extend_from_slice'): return True
                        tainted.add(u[3][0])
            if len(tainted) == n0: break
        return False

def auto_traits(tier):
    """public types that are not Send or not Sync -> (violations, undecided, types)"""
    import sys; sys.path.insert(0, os.path.join(V, 'tools'))
    import dump
    p = subprocess.run(['cargo', 'check', '--offline', '-q', '--message-format=json'], cwd=os.path.join(V, 'witness'), env=dump.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    src = open(os.path.join(V, 'witness', 'src', 'lib.rs')).read().split('\n')
    types = [l for l in src if l.startswith('shared!')]
    viol, und = [], []
    for l in p.stdout.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get('reason') != 'compiler-message' or m['message'].get('level') != 'error': continue
        msg = m['message']; code = (msg.get('code') or {}).get('code')
        if m['target']['name'] != 'witness': und.append(msg['message']); continue
        sp = [s for s in msg['spans'] if s['is_primary']]
        def line(s):
            while s.get('expansion'): s = s['expansion']['span']
            return s['line_start']
        at = src[line(sp[0]) - 1] if sp else ''
        if code == 'E0277' and re.search(r'cannot be (sent|shared) between threads safely', msg['message']):
            viol.append({'id': 'C32/threads', 'text': 'public type %s: %s' % (at.strip(), msg['message'])})
        elif code: und.append('%s (%s)' % (msg['message'], at))
    if p.returncode and not viol and not und: und.append(p.stderr[-300:])
    return viol, und, len(types)

def run(mir, tier):
    E = Effects(json.load(open(mir)))
    E.run()
    v, u, n = auto_traits(tier)
    cov = {'functions': len(E.fns), 'calls_and_function_values': E.calls, 'distinct_callees': len(E.names), 'public_types': n,
           'statics': sum(1 for s in E.d['statics'].values() if s and s.get('c') == 'dockerfile_parser')}
    und = [{'obligation': 'effects', 'why': 'not in the effect table: ' + x} for x in E.und] + [{'obligation': 'auto traits', 'why': x} for x in u]
    seen = set()
    return [x for x in E.viol + v if not (x['text'] in seen or seen.add(x['text']))], und, cov

if __name__ == '__main__':
    v, u, c = run(os.path.join(V, 'build', 'mir.json'), 'quick')
    for x in v: print('VIOL', x['id'], x['text'][:300])
    for x in u: print('UND', x)
    print(c)
