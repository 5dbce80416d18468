"""Reader for pest grammars: -> {rule: (modifier, expression)}; expressions are tuples."""
import re, os

class GrammarError(Exception): pass

def grammar_text(repo='/repo'):
    """the grammar the derive macro is pointed at -> (path, text)"""
    src = os.path.join(repo, 'src')
    for d, _, fs in os.walk(src):
        for f in sorted(fs):
            if not f.endswith('.rs'): continue
            t = open(os.path.join(d, f), encoding='utf8').read()
            t = re.sub(r'//[^\n]*', '', t)
            m = re.findall(r'#\s*\[\s*grammar\s*=\s*"([^"]+)"\s*\]', t)
            inl = re.search(r'#\s*\[\s*grammar_inline', t)
            if inl or len(m) > 1: raise GrammarError('grammar given in a form that is not read')
            if m:
                p = os.path.join(src, m[0])
                if not os.path.exists(p): p = os.path.join(repo, m[0])
                return p, open(p, encoding='utf8').read()
    raise GrammarError('no grammar attribute found')

TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<str>\^?"(?:[^"\\]|\\.)*")|(?P<chr>'(?:[^'\\]|\\(?:[^ux]|u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}))')|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<num>[0-9]+)|(?P<dots>\.\.)|(?P<op>[={}()\[\]|~*+?!&@$_#,-])''', re.S)
def unescape(s):
    def f(m):
        x = m.group(1)
        if x[0] == 'u': return chr(int(x[2:-1], 16))
        if x[0] == 'x': return chr(int(x[1:], 16))
        return {'n': '\n', 'r': '\r', 't': '\t', '0': '\0'}.get(x, x)
    return re.sub(r'\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)', f, s, flags=re.S)

def parse(text, declarative=False):
    ALT, STAR = ('union', 'ustar') if declarative else ('alt', 'star')
    toks = []; i = 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m: raise GrammarError('unreadable grammar near %r' % text[i:i + 20])
        i = m.end()
        k = m.lastgroup
        if k: toks.append((k, m.group(k), text.count('\n', 0, m.start()) + 1))
    pos = [0]
    def peek(): return toks[pos[0]] if pos[0] < len(toks) else ('eof', '', 0)
    def nxt(): t = peek(); pos[0] += 1; return t
    def expect(v):
        t = nxt()
        if t[1] != v: raise GrammarError('expected %s, found %r in line %s' % (v, t[1], t[2]))
    def expr():
        if peek()[1] == '|': nxt()
        a = [seq()]
        while peek()[1] == '|': nxt(); a.append(seq())
        return a[0] if len(a) == 1 else (ALT, tuple(a))
    def seq():
        a = [term()]
        while peek()[1] == '~': nxt(); a.append(term())
        return a[0] if len(a) == 1 else ('seq', tuple(a))
    def term():
        k, v, l = peek()
        if v in ('!', '&') and k == 'op':
            nxt(); return ('not' if v == '!' else 'and', term())
        if v == '#' and k == 'op': raise GrammarError('node tags are not read')
        e = atom()
        while True:
            k, v, l = peek()
            if k != 'op': return e
            if v == '*': nxt(); e = (STAR, e)
            elif v == '+': nxt(); e = ('seq', (e, (STAR, e)))
            elif v == '?': nxt(); e = ('opt', e)
            elif v == '{':
                nxt(); lo = hi = None
                if peek()[0] == 'num': lo = int(nxt()[1])
                if peek()[1] == ',':
                    nxt()
                    if peek()[0] == 'num': hi = int(nxt()[1])
                else: hi = lo
                expect('}')
                xs = [e] * (lo or 0)
                if hi is None: xs.append((STAR, e))
                else:
                    o = None
                    for _ in range(hi - (lo or 0)): o = ('opt', e if o is None else ('seq', (e, o)))
                    if o: xs.append(o)
                e = xs[0] if len(xs) == 1 else ('seq', tuple(xs))
            else: return e
    def atom():
        k, v, l = nxt()
        if v == '(' and k == 'op':
            e = expr(); expect(')'); return e
        if k == 'str':
            if v[0] == '^': return ('ci', unescape(v[2:-1]))
            return ('lit', unescape(v[1:-1]))
        if k == 'chr':
            a = unescape(v[1:-1])
            if peek()[0] == 'dots':
                nxt(); t = nxt()
                return ('range', a, unescape(t[1][1:-1]))
            return ('lit', a)
        if k == 'id':
            if v in ('PUSH', 'PEEK', 'POP', 'DROP', 'PEEK_ALL', 'POP_ALL', 'PUSH_LITERAL'): raise GrammarError('stack operation ' + v)
            return ('ref', v)
        raise GrammarError('unexpected %r in line %s' % (v, l))
    rules = {}
    while peek()[0] != 'eof':
        k, name, l = nxt()
        if k != 'id': raise GrammarError('expected a rule name, found %r in line %s' % (name, l))
        expect('=')
        mod = ''
        if peek()[1] in ('_', '@', '$', '!'): mod = nxt()[1]
        expect('{'); e = expr(); expect('}')
        rules[name] = (mod, e, l)
    if 'WHITESPACE' in rules or 'COMMENT' in rules: raise GrammarError('implicit whitespace')
    return rules
