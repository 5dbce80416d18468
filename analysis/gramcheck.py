"""Properties decided by comparing the language of the grammar with the reference grammar."""
import time
from grammar import *
from peg import *

CANON = {'label_single_name': 'label_name', 'label_single_quoted_name': 'label_quoted_name', 'label_single': 'label_pair', 'arg_quoted_value': 'arg_value'}
# not observed by any part of a result
UNSEEN = {'dockerfile', 'EOI', 'env_pairs', 'args'}
LEAF = {'from_flag_name', 'from_flag_value', 'from_image', 'from_alias', 'arg_name', 'arg_value', 'label_name', 'label_quoted_name', 'label_value',
        'label_quoted_value', 'string', 'any_content', 'copy_flag_name', 'copy_flag_value', 'copy_pathspec', 'env_name', 'env_pair_value',
        'env_pair_quoted_value', 'env_single_quoted_value', 'misc_instruction', 'comment'}
KEYWORDS = ('from', 'arg', 'label', 'run', 'cmd', 'entrypoint', 'copy', 'env')

def is_mark(a): return isinstance(a, tuple)
def keep_marks(names, kinds_only_start=False):
    def f(a):
        if not is_mark(a): return a
        n = CANON.get(a[1], a[1])
        return (a[0], n) if n in names else None
    return f

def filtered(D, m0, step, accept=None):
    """words of D a monitor lets pass; step(m, a) -> m or None, accept(m)"""
    def st(s, a):
        r = D.trans[s[0]].get(a)
        if r is None: return None
        m = step(s[1], a)
        return None if m is None else (r, m)
    return minimize(explore((0, m0), st, lambda s: D.acc[s[0]] and (accept is None or accept(s[1])), D.syms))

def minus(A, B):
    """words of A that are not in B"""
    syms = list(dict.fromkeys(A.syms + B.syms))
    def step(s, a):
        p = A.trans[s[0]].get(a)
        if p is None: return None
        return (p, None if s[1] is None else B.trans[s[1]].get(a))
    return minimize(explore((0, 0), step, lambda s: A.acc[s[0]] and not (s[1] is not None and B.acc[s[1]]), syms))

def both(A, B):
    syms = list(dict.fromkeys(A.syms + B.syms))
    def step(s, a):
        p, q = A.trans[s[0]].get(a), B.trans[s[1]].get(a)
        return None if p is None or q is None else (p, q)
    return minimize(explore((0, 0), step, lambda s: A.acc[s[0]] and B.acc[s[1]], syms))

class Checks:
    def __init__(self, repo='/repo', tier='quick'):
        self.G = Grammars(repo); self.tier = tier; self.memo = {}; self.items = []; self.viol = []; self.und = []
        have = {CANON.get(n, n) for n in self.G.code}
        # nodes the grammar under test has no rule for: compared without them
        self.missing = {CANON.get(n, n) for n in self.G.known} - have
        self.unseen = UNSEEN | self.missing
        if self.missing & set(KINDS): raise GrammarError('no rule for ' + ', '.join(sorted(self.missing & set(KINDS))))
        A = self.G.alpha
        self.cls = lambda s: frozenset(A.mask(frozenset(s)))
        self.nl = A.of['\n']; self.cr = A.of['\r']; self.bs = A.of['\\']; self.blank = self.cls(' \t')

    def once(self, key, f):
        if key not in self.memo:
            try: self.memo[key] = f()
            except GrammarError as e: self.memo[key] = e
        r = self.memo[key]
        if isinstance(r, GrammarError): raise r
        return r

    # ---------------------------------------------------------------- languages
    def lang(self, w): return self.once(('lang', w), lambda: self.G.lang(w, emit=lambda n, c: n in self.G.known))
    def finish(self, D):
        D = inside_only(D, SHELLS, 'comment')
        D = project(D, lambda a: a if not is_mark(a) else None if a[1] in UNSEEN or CANON.get(a[1], a[1]) in self.missing else (a[0], CANON.get(a[1], a[1])))
        return self.no_keyword_misc(D)
    def no_keyword_misc(self, D):
        """leave out documents in which a modelled keyword is used as another instruction: ill-formed arguments"""
        A = self.G.alpha
        def step(m, a):
            if is_mark(a):
                if a == ('<', 'misc_instruction'): return ''
                if a == ('>', 'misc_instruction'): return None if m in KEYWORDS else 'off'
                return m
            if m == 'off': return m
            c = A.rep[a].lower()
            # the class of a letter may hold several letters: none of those in keywords
            t = m + c
            return t if any(k.startswith(t) for k in KEYWORDS) and len(set(x.lower() for x in A.classes[a])) == 1 else 'x' if m != 'off' else m
        return filtered(D, 'off', step)
    def one(self, w, n=1):
        """documents with at most n instructions"""
        def build():
            mon = (0, lambda m, a: (m + 1 if m < n else None) if is_mark(a) and a[0] == '<' and a[1] in KINDS else m)
            return self.finish(self.lang(w).dfa(('ref', 'dockerfile'), monitor=mon))
        return self.once(('one', w, n), build)
    def kind(self, w, k):
        """documents whose only instruction is of kind k"""
        return self.once(('kind', w, k), lambda: filtered(self.one(w), 0, lambda m, a: 1 if a == ('<', k) else m, lambda m: m == 1))
    def docs(self, w):
        """documents of any length without quotes; thorough: or with two instructions"""
        return self.once(('docs', w), lambda: self.finish(self.lang(w).dfa(('ref', 'dockerfile'), without='"\'')))
    def docsets(self):
        out = [('any number of instructions, no quotes', self.docs)]
        if self.tier == 'thorough': out.append(('up to two instructions', lambda w: self.one(w, 2)))
        return out

    # ---------------------------------------------------------------- reporting
    def item(self, what, t, **kw): self.items.append(dict({'comparison': what, 's': round(time.time() - t, 2)}, **kw))
    def show(self, w): return self.lang('code').show(w)
    def text(self, w): return self.lang('code').text(w)
    def report(self, vid, why, word, other=None):
        t = '%s\ngrammar: %s\ntext: %s\n' % (why, self.G.path, json_str(self.text(word)))
        t += 'reading: %s' % json_str(self.show(word))
        k = next((a[1] for a in word if is_mark(a) and a[0] == '<' and a[1] in KINDS), None)
        if k and k in self.G.code: t += '\nrule: %s, line %d' % (k, self.G.code[k][2])
        if other: t += '\n' + other
        self.viol.append({'id': vid, 'text': t})
    def readings(self, w, text_word, sets):
        """how a language reads the text of a word"""
        D = sets(w)
        T = DFA(list(D.syms)); xs = [a for a in text_word if not is_mark(a)]
        def step(s, a):
            q, i = s
            r = D.trans[q].get(a)
            if r is None: return None
            if is_mark(a): return (r, i)
            return (r, i + 1) if i < len(xs) and xs[i] == a else None
        p = shortest(trim(explore((0, 0), step, lambda s: D.acc[s[0]] and s[1] == len(xs), D.syms)))
        return 'rejected' if p is None else self.show(p)

    # ---------------------------------------------------------------- properties
    def same(self, pid, k, note=''):
        """rule language equality of one kind of instruction"""
        t = time.time()
        a, b = self.kind('code', k), self.kind('ref', k)
        self.item('annotated language of documents with one %s instruction, against the reference grammar' % k.upper(), t, states=[a.n(), b.n()])
        d = difference(a, b)
        if d is None: return True
        w, in_code = d
        self.report('%s/grammar/%s' % (pid, k), 'The grammar reads this text otherwise than the reference grammar.', w,
                    'read by %s like this; by %s: %s' % (('the grammar', 'the reference', json_str(self.readings('ref', w, self.one))) if in_code else ('the reference', 'the grammar', json_str(self.readings('code', w, self.one)))))
        return False

    def C05(self, pid='C05'):
        t = time.time()
        f = keep_marks(set(KINDS))
        g = lambda a: None if is_mark(a) and (a[0] == '>' or a[1] not in KINDS) else a
        A, B = (project(self.one(w), g) for w in ('code', 'ref'))
        self.item('kind of the instruction in documents with one instruction', t, states=[A.n(), B.n()])
        w = shortest(minus(B, A))
        if w is not None: self.report(pid + '/kind', 'The reference grammar reads this text as the instruction shown.', w, 'the grammar: ' + json_str(self.readings('code', w, self.one)))

    def differing(self, k, names):
        """a text both read as kind k but with different tokens"""
        f = keep_marks(set(names) | set(KINDS))
        A, B = (project(self.kind(w, k), f) for w in ('code', 'ref'))
        g = lambda a: None if is_mark(a) and not (a[0] == '<' and a[1] in KINDS) else a
        X = both(project(minus(A, B), g), project(B, g))
        return shortest(X), (A.n(), B.n())
    def C13(self, pid='C13', names=None):
        names = (names or {CANON.get(n, n) for n in self.G.known}) - self.unseen
        if self.missing: self.und.append({'obligation': 'tokens', 'why': 'no rule for ' + ', '.join(sorted(self.missing))})
        for k in KINDS:
            t = time.time()
            w, n = self.differing(k, names)
            self.item('token boundaries in %s instructions both grammars accept' % k.upper(), t, states=n)
            if w is not None: self.report('%s/tokens/%s' % (pid, k), 'The tokens of this text are not those of the reference grammar.', w,
                                          'the grammar: %s\nthe reference: %s' % (json_str(self.readings('code', w, self.one)), json_str(self.readings('ref', w, self.one))))
    def C14(self): self.C13('C14', LEAF)

    def with_break(self, D, outside_shell, inside_shell):
        """words with a line continuation between tokens, or within a shell text"""
        leaf = LEAF - {'comment'}
        def step(m, a):
            seen, depth, shell, bs = m
            if is_mark(a):
                if a[1] in SHELLS: shell = a[0] == '<'
                if a[1] in leaf: depth = depth + (1 if a[0] == '<' else -1)
                return (seen, depth, shell, False)
            if seen: return (True, 0, False, False)
            if a == self.bs: return (seen, depth, shell, depth == 0 and (inside_shell if shell else outside_shell))
            if bs and a in self.blank: return m
            if bs and a in (self.nl, self.cr): return (True, 0, False, False)
            return (seen, depth, shell, False)
        return filtered(D, (False, 0, False, False), step, lambda m: m[0])
    def without_break(self, D):
        def step(m, a):
            if is_mark(a): return m
            if a == self.bs: return 1
            if m and a in self.blank: return m
            if m and a in (self.nl, self.cr): return None
            return 0
        return filtered(D, 0, step)
    def alone(self, D, k):
        """documents that are an instruction and at most the end of its line"""
        def step(m, a):
            if is_mark(a) and a[1] == k: return m + 1
            if m == 1: return m
            return m + 1 if m >= 2 and not is_mark(a) and (a == self.nl and m in (2, 3) or a == self.cr and m == 2) else None
        return filtered(D, 0, step)
    def C15(self, pid='C15', outside=True, inside=False):
        for k in KINDS:
            if inside and k not in ('run', 'cmd', 'entrypoint', 'env', 'misc'): continue
            t = time.time()
            A, B = (self.with_break(self.alone(self.kind(w, k), k), outside, inside) for w in ('code', 'ref'))
            self.item('%s instructions with line continuations %s, against the reference grammar' % (k.upper(), 'between arguments' if outside else 'in shell text'), t, states=[A.n(), B.n()])
            d = difference(A, B)
            if d is None: continue
            if outside:
                P, Q = (self.without_break(self.alone(self.kind(w, k), k)) for w in ('code', 'ref'))
                if difference(P, Q) is not None:
                    self.und.append({'obligation': k, 'why': 'instructions without any continuation differ as well'}); continue
            w, in_code = d
            self.report('%s/%s/%s' % (pid, 'gap' if outside else 'shell', k), 'A line continuation changes how this text is read.', w,
                        'read by %s like this; by %s: %s' % (('the grammar', 'the reference', json_str(self.readings('ref', w, self.one))) if in_code else ('the reference', 'the grammar', json_str(self.readings('code', w, self.one)))))
    def C16(self): self.C15('C16', False, True)

    def C03(self, pid='C03'):
        g = lambda a: a if not is_mark(a) else a if a[1] in KINDS and a[0] == '<' else None
        h = lambda a: None if is_mark(a) else a
        single = None
        for what, sets in self.docsets():
            t = time.time()
            A, B = (project(sets(w), g) for w in ('code', 'ref'))
            self.item('sequence of instructions in documents: ' + what, t, states=[A.n(), B.n()])
            # accepted by both, but with other instructions
            w = shortest(both(project(minus(B, A), h), project(A, h)))
            if w is not None:
                self.report(pid + '/sequence', 'The instructions of this text are not those of the reference grammar.', w,
                            'the grammar: %s\nthe reference: %s' % (json_str(self.readings('code', w, sets)), json_str(self.readings('ref', w, sets)))); return
            # only accepted without its other lines
            w = shortest(minus(B, A))
            if w is not None:
                if single is None: single = shortest(minus(project(self.one('ref'), g), project(self.one('code'), g))) is None
                if single: self.report(pid + '/document', 'The reference grammar accepts this document.', w, 'the grammar: ' + json_str(self.readings('code', w, sets))); return

    def C33(self, pid='C33'):
        """what is outside of leaf tokens is layout, the keyword or fixed punctuation"""
        A = self.G.alpha
        t = time.time()
        if self.missing & LEAF: raise GrammarError('no rule for ' + ', '.join(sorted(self.missing & LEAF)))
        D = self.one('code')
        punct = self.cls('=-[],'); lay = self.cls(' \t\n\r\\'); space = self.cls(' \t\n\r')
        AS = [self.cls('aA'), self.cls('sS')]
        kws = {k: [self.cls(c + c.upper()) for c in k] for k in KEYWORDS}
        def step(m, a):
            k, i, depth = m
            if is_mark(a):
                if a[0] == '<' and a[1] in KINDS: return (a[1], 0, depth)
                if a[0] == '>' and a[1] in KINDS: return (None, 0, depth)
                if a[1] in LEAF: return (k, 'ok' if i != 0 or k == 'misc' else i, depth + (1 if a[0] == '<' else -1))
                return m
            if depth: return m
            if k is None or k == 'misc': return m if a in lay or k is None else 'bad'
            if isinstance(i, int):
                if i < len(kws[k]): return (k, i + 1, 0) if a in kws[k][i] else 'bad'
                return (k, 'ok', 0) if a in lay else 'bad'
            if i == 'as': return (k, 'as1', 0) if a in AS[1] else 'bad'
            if i == 'as1': return (k, 'ok', 0) if a in lay else 'bad'
            if a in lay: return (k, 'sp' if a in space else 'ok', 0)
            if k == 'from' and i == 'sp' and a in AS[0]: return (k, 'as', 0)
            return (k, 'ok', 0) if a in punct else 'bad'
        def st(m, a): return m if m == 'bad' else step(m, a)
        # comments outside of shell text are erased from the annotation: put them back by not erasing
        D = self.once(('c33',), lambda: project(self.lang('code').dfa(('ref', 'dockerfile'), monitor=(0, lambda m, a: (m + 1 if m < 1 else None) if is_mark(a) and a[0] == '<' and a[1] in KINDS else m)),
                                                lambda a: a if not is_mark(a) else None if a[1] in UNSEEN else (a[0], CANON.get(a[1], a[1]))))
        # a character outside of everything in the document itself
        def outer(m, a):
            if m == 'bad': return m
            if not is_mark(a) and m[0] is None and m[2] == 0: return m if a in lay and a != self.bs else 'bad'
            return step(m, a)
        B = filtered(D, (None, 0, 0), outer, lambda m: m == 'bad')
        self.item('characters outside of tokens in documents with one instruction', t, states=[D.n()])
        w = shortest(B)
        if w is not None: self.report(pid + '/skipped', 'A character of this text is in no token and neither keyword, punctuation nor layout.', w)

def json_str(s):
    import json
    return json.dumps(s, ensure_ascii=False)

KIND_PROPS = {'C06': ['from'], 'C07': ['arg'], 'C08': ['label'], 'C09': ['env'], 'C10': ['run', 'cmd', 'entrypoint'], 'C11': ['copy'], 'C12': ['misc']}
def run(pid, tier='quick', repo='/repo'):
    """-> (violations, items, undecided)"""
    C = None
    try:
        C = Checks(repo, tier)
        if pid in KIND_PROPS:
            for k in KIND_PROPS[pid]: C.same(pid, k)
        else: getattr(C, pid)()
    except (GrammarError, RecursionError, KeyError) as e:
        und = (C.und if C else []) + [{'obligation': 'grammar', 'why': repr(e)}]
        return (C.viol if C else []), (C.items if C else []), und
    return C.viol, C.items, C.und

if __name__ == '__main__':
    repo = '/repo'
    for p in sys.argv[1:]:
        t = time.time()
        v, i, u = run(p, 'quick', repo)
        print(p, round(time.time() - t, 1), 'items', len(i), 'und', u)
        for x in v: print(x['id']); print(x['text'])
