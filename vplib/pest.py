"""Reader for pest grammars: rules, child-token automata and character languages."""
import re


class Err(Exception):
    pass


TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<str>\^?"(?:\\.|[^"\\])*")|(?P<chr>'(?:\\.|\\u\{[^}]*\}|[^'\\])')|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<num>\d+)|(?P<dd>\.\.)|(?P<p>[=_@$!{}()~|?*+&,\[\]#-])''', re.S)


def unesc(s):
    out, i = '', 0
    while i < len(s):
        if s[i] == '\\':
            c = s[i + 1]
            if c == 'u':
                j = s.index('}', i)
                out += chr(int(s[i + 3:j], 16))
                i = j + 1
                continue
            if c == 'x':
                out += chr(int(s[i + 2:i + 4], 16))
                i += 4
                continue
            out += {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(c, c)
            i += 2
        else:
            out += s[i]
            i += 1
    return out


def lex(t):
    out, i = [], 0
    while i < len(t):
        m = TOK.match(t, i)
        if not m:
            raise Err('pest lex at %r' % t[i:i + 20])
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def pk(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def nx(self):
        x = self.pk()
        self.i += 1
        return x

    def want(self, v):
        x = self.nx()
        if x[1] != v:
            raise Err('pest: expected %s got %s' % (v, x))

    def rules(self):
        out = {}
        while self.pk()[0] != 'eof':
            n = self.nx()
            if n[0] != 'id':
                raise Err('pest rule %r' % (n,))
            name = n[1]
            self.want('=')
            mod = ''
            # "_{": the lexer may have swallowed '_' as an identifier
            if self.pk()[1] in ('_', '@', '$', '!'):
                mod = self.nx()[1]
            self.want('{')
            if self.pk()[1] == '|':
                self.nx()
            e = self.expr()
            self.want('}')
            out[name] = (mod, e)
        return out

    def expr(self):
        alts = [self.seq()]
        while self.pk()[1] == '|':
            self.nx()
            alts.append(self.seq())
        return alts[0] if len(alts) == 1 else ('choice', tuple(alts))

    def seq(self):
        xs = [self.term()]
        while self.pk()[1] == '~':
            self.nx()
            xs.append(self.term())
        return xs[0] if len(xs) == 1 else ('seq', tuple(xs))

    def term(self):
        x = self.pk()
        if x[1] == '!':
            self.nx()
            return ('neg', self.term())
        if x[1] == '&':
            self.nx()
            return ('pos', self.term())
        e = self.atom()
        while True:
            y = self.pk()
            if y[1] == '?':
                self.nx()
                e = ('opt', e)
            elif y[1] == '*':
                self.nx()
                e = ('rep', e, 0, None)
            elif y[1] == '+':
                self.nx()
                e = ('rep', e, 1, None)
            elif y[1] == '{':
                self.nx()
                lo, hi = 0, None
                if self.pk()[0] == 'num':
                    lo = int(self.nx()[1])
                    hi = lo
                if self.pk()[1] == ',':
                    self.nx()
                    hi = int(self.nx()[1]) if self.pk()[0] == 'num' else None
                self.want('}')
                e = ('rep', e, lo, hi)
            else:
                return e

    def atom(self):
        x = self.nx()
        if x[0] == 'str':
            if x[1][0] == '^':
                return ('istr', unesc(x[1][2:-1]))
            return ('str', unesc(x[1][1:-1]))
        if x[0] == 'chr':
            a = unesc(x[1][1:-1])
            if self.pk()[0] == 'dd':
                self.nx()
                b = unesc(self.nx()[1][1:-1])
                return ('range', a, b)
            return ('str', a)
        if x[1] == '(':
            if self.pk()[1] == '|':
                self.nx()
            e = self.expr()
            self.want(')')
            return e
        if x[0] == 'id':
            if x[1] in ('PUSH',) and self.pk()[1] == '(':
                self.nx()
                e = self.expr()
                self.want(')')
                return ('push', e)
            if x[1] == 'PEEK' and self.pk()[1] == '[':
                while self.nx()[1] != ']':
                    pass
                return ('id', 'PEEK')
            return ('id', x[1])
        raise Err('pest term %r' % (x,))


MAXC = 0x10ffff
BUILTIN = {
    'ANY': [(0, MAXC)], 'ASCII_DIGIT': [(48, 57)], 'ASCII_NONZERO_DIGIT': [(49, 57)], 'ASCII_BIN_DIGIT': [(48, 49)],
    'ASCII_OCT_DIGIT': [(48, 55)], 'ASCII_HEX_DIGIT': [(48, 57), (65, 70), (97, 102)], 'ASCII_ALPHA_LOWER': [(97, 122)],
    'ASCII_ALPHA_UPPER': [(65, 90)], 'ASCII_ALPHA': [(65, 90), (97, 122)],
    'ASCII_ALPHANUMERIC': [(48, 57), (65, 90), (97, 122)], 'ASCII': [(0, 127)],
    # unicode categories: over-approximated outside ASCII
    'LETTER': [(65, 90), (97, 122), (128, MAXC)], 'NUMBER': [(48, 57), (128, MAXC)], 'ALPHABETIC': [(65, 90), (97, 122), (128, MAXC)],
}
ZERO = {'SOI', 'PEEK', 'DROP', 'POP', 'PEEK_ALL', 'POP_ALL'}


class Grammar:
    def __init__(self, text, name=''):
        self.name = name
        # "_{" lexes '_' glued to nothing; make sure it is its own token
        self.rules = P(self._fix(lex(text))).rules()
        self._child = {}
        self._nfa = {}

    @staticmethod
    def _fix(toks):
        out = []
        for k, v in toks:
            out.append(('p', v) if k == 'id' and v == '_' else (k, v))
        return out

    def visible(self, r):
        return r == 'EOI' or (r in self.rules and self.rules[r][0] != '_')

    # ---- child token automaton (Glushkov positions) -------------------------------------------
    def child(self, rule):
        """-> (positions [(rule, occ, starred)], nullable, first, follow{pos:set}, last)"""
        c = self._child.get(rule)
        if c is None:
            mod, e = self.rules[rule] if rule != 'EOI' else ('@', None)
            pos = []
            follow = {}
            if mod == '@':
                res = (True, frozenset(), frozenset())
            else:
                res = self._gl(e, pos, follow, (rule,))
            occ = {}
            named = []
            for r in pos:
                occ[r] = occ.get(r, 0) + 1
                named.append((r, occ[r] - 1))
            # starred: position reachable from itself
            starred = []
            for i in range(len(pos)):
                seen, st = set(), list(follow.get(i, ()))
                while st:
                    j = st.pop()
                    if j in seen:
                        continue
                    seen.add(j)
                    st.extend(follow.get(j, ()))
                starred.append(i in seen)
            names = []
            cnt = {}
            for r in pos:
                cnt[r] = cnt.get(r, 0) + 1
            for i, (r, o) in enumerate(named):
                names.append(r if cnt[r] == 1 else '%s#%d' % (r, o))
            c = dict(pos=[p[0] for p in named], names=names, nullable=res[0], first=res[1], last=res[2],
                     follow={i: frozenset(s) for i, s in follow.items()}, starred=starred)
            self._child[rule] = c
        return c

    def _gl(self, e, pos, fol, stack):
        k = e[0]
        if k in ('str', 'istr', 'range'):
            return (True, frozenset(), frozenset())
        if k in ('neg', 'pos'):
            return (True, frozenset(), frozenset())
        if k == 'push':
            return self._gl(e[1], pos, fol, stack)
        if k == 'id':
            n = e[1]
            if n == 'EOI' or (n in self.rules and self.rules[n][0] != '_'):
                i = len(pos)
                pos.append(n)
                fol[i] = set()
                return (False, frozenset([i]), frozenset([i]))
            if n in self.rules:
                if n in stack:
                    raise Err('recursive silent rule ' + n)
                return self._gl(self.rules[n][1], pos, fol, stack + (n,))
            return (True, frozenset(), frozenset())
        if k == 'seq':
            nul, fi, la = True, frozenset(), frozenset()
            for x in e[1]:
                n2, f2, l2 = self._gl(x, pos, fol, stack)
                for a in la:
                    fol[a] |= f2
                if nul:
                    fi = fi | f2
                la = (la | l2) if n2 else l2
                nul = nul and n2
            return nul, fi, la
        if k == 'choice':
            nul, fi, la = False, frozenset(), frozenset()
            for x in e[1]:
                n2, f2, l2 = self._gl(x, pos, fol, stack)
                nul, fi, la = nul or n2, fi | f2, la | l2
            return nul, fi, la
        if k == 'opt':
            n2, f2, l2 = self._gl(e[1], pos, fol, stack)
            return True, f2, l2
        if k == 'rep':
            lo, hi = e[2], e[3]
            if hi is None:
                xs = [e[1]] * max(lo - 1, 0)
                nul, fi, la = True, frozenset(), frozenset()
                if lo >= 2:
                    nul, fi, la = self._gl(('seq', tuple(xs)) if len(xs) > 1 else xs[0], pos, fol, stack)
                n2, f2, l2 = self._gl(e[1], pos, fol, stack)
                for a in l2:
                    fol[a] |= f2
                if lo == 0:
                    n2 = True
                for a in la:
                    fol[a] |= f2
                fi = fi | f2 if nul else fi
                la = (la | l2) if n2 else l2
                return (nul and n2), fi, la
            xs = [e[1]] * lo + [('opt', e[1])] * (hi - lo)
            # optional tail must be nested, but first/follow sets of (a?a?) are the same
            if not xs:
                return True, frozenset(), frozenset()
            return self._gl(('seq', tuple(xs)), pos, fol, stack)
        raise Err(k)

    def child_of(self, rule):
        """child automaton; '^r' stands for the stream holding the single pair r"""
        if rule.startswith('^'):
            return dict(pos=[rule[1:]], names=[rule[1:]], nullable=False, first=frozenset([0]), last=frozenset([0]),
                        follow={0: frozenset()}, starred=[False])
        return self.child(rule)

    # ---- facts about a rule's text ---
    def _fact(self, kind, rule, fn):
        d = self.__dict__.setdefault('_facts', {})
        if (kind, rule) not in d:
            d[(kind, rule)] = fn()
        return d[(kind, rule)]

    def accepts_empty(self, rule):
        if rule == 'EOI':
            return True
        n = self.nfa(rule)
        return self._fact('e', rule, lambda: n.final in n.close({n.start}))

    def finite(self, rule, cap=60):
        """the finitely many texts of a rule, or None"""
        if rule == 'EOI':
            return ('',)

        def go():
            n = self.nfa(rule)
            us = n.useful()
            out = []
            work = [(frozenset(n.close({n.start}) & us), '')]
            steps = 0
            while work:
                s, w = work.pop()
                steps += 1
                if n.final in s:
                    out.append(w)
                if len(out) > cap or len(w) > 40 or steps > 4000:
                    return None
                cs = sorted(n.cuts(s))
                for a, b in zip(cs, cs[1:] + [cs[-1] + 1] if cs else []):
                    t = n.step(s, a) & us
                    if not t:
                        continue
                    if b - a > 40:
                        return None
                    for c in range(a, b):
                        work.append((frozenset(n.step(s, c) & us), w + chr(c)))
            return tuple(sorted(set(out)))
        return self._fact('f', rule, go)

    def maxdigits(self, rule):
        """longest run of digits when the text is an optionally signed run of digits"""
        def go():
            n = self.nfa(rule)
            okk, _ = included(n, from_pattern('("+" | "-")? ~ (\'0\'..\'9\')*'))
            if not okk:
                return None
            m = maxlen(n, 40)
            if m is None:
                return None
            if self.has_sign(rule):
                m2 = [k for k in range(1, m + 1) if False]
            return m
        return self._fact('d', rule, go)

    def has_sign(self, rule):
        return any(a <= 0x2d <= b or a <= 0x2b <= b for a, b in alphabet(self.nfa(rule)))

    def has_minus(self, rule):
        return any(a <= 0x2d <= b for a, b in alphabet(self.nfa(rule)))

    # ---- character language ------------------------------------------------------------------
    def nfa(self, rule, implicit=None):
        key = rule
        if key not in self._nfa:
            b = NFA()
            s = b.new()
            t = b.new()
            self._lang(('id', rule), b, s, t, False, ())
            b.start, b.final = s, t
            self._nfa[key] = b
        return self._nfa[key]

    def _skip(self, b, s):
        """implicit WHITESPACE/COMMENT skipping from s; returns the state after it"""
        ws, co = 'WHITESPACE' in self.rules, 'COMMENT' in self.rules
        if not ws and not co:
            return s
        h = b.new()
        b.eps(s, h)
        for n in ('WHITESPACE', 'COMMENT'):
            if n in self.rules:
                x = b.new()
                self._lang(self.rules[n][1], b, h, x, True, (n,))
                b.eps(x, h)
        return h

    def _lang(self, e, b, s, t, atomic, stack):
        k = e[0]
        if k == 'str':
            cur = s
            for c in e[1]:
                n = b.new()
                b.edge(cur, [(ord(c), ord(c))], n)
                cur = n
            b.eps(cur, t)
        elif k == 'istr':
            cur = s
            for c in e[1]:
                n = b.new()
                b.edge(cur, [(ord(x), ord(x)) for x in {c.lower(), c.upper()}], n)
                cur = n
            b.eps(cur, t)
        elif k == 'range':
            b.edge(s, [(ord(e[1]), ord(e[2]))], t)
        elif k in ('neg', 'pos'):
            b.eps(s, t)
        elif k == 'push':
            self._lang(e[1], b, s, t, atomic, stack)
        elif k == 'id':
            n = e[1]
            if n in self.rules:
                if n in stack:
                    b.edge(s, [(0, MAXC)], s)
                    b.eps(s, t)
                    return
                mod, x = self.rules[n]
                at = True if mod in '@$' and mod else (False if mod == '!' else atomic)
                self._lang(x, b, s, t, at, stack + (n,))
            elif n == 'NEWLINE':
                b.edge(s, [(10, 10), (13, 13)], t)
                m = b.new()
                b.edge(s, [(13, 13)], m)
                b.edge(m, [(10, 10)], t)
            elif n in ('POP', 'PEEK'):
                b.edge(s, [(0, MAXC)], s)
                b.eps(s, t)
            elif n in BUILTIN:
                b.edge(s, BUILTIN[n], t)
            elif n in ZERO or n == 'EOI':
                b.eps(s, t)
            else:
                b.edge(s, [(0, MAXC)], t)
        elif k == 'seq':
            xs = list(e[1])
            cur = s
            i = 0
            while i < len(xs):
                x = xs[i]
                if cur != s and not atomic:
                    cur = self._skip(b, cur)
                nx = b.new()
                # !A ~ ANY: exclude the characters that by themselves match A
                if x[0] == 'neg' and i + 1 < len(xs) and xs[i + 1] == ('id', 'ANY'):
                    ex = self._single(x[1], stack)
                    b.edge(cur, neg(ex), nx)
                    i += 2
                else:
                    self._lang(x, b, cur, nx, atomic, stack)
                    i += 1
                cur = nx
            b.eps(cur, t)
        elif k == 'choice':
            for x in e[1]:
                self._lang(x, b, s, t, atomic, stack)
        elif k == 'opt':
            b.eps(s, t)
            self._lang(e[1], b, s, t, atomic, stack)
        elif k == 'rep':
            lo, hi = e[2], e[3]
            cur = s
            for i in range(lo):
                if i and not atomic:
                    cur = self._skip(b, cur)
                n = b.new()
                self._lang(e[1], b, cur, n, atomic, stack)
                cur = n
            if hi is None:
                h = b.new()
                b.eps(cur, h)
                g = self._skip(b, h) if not atomic else h
                n = b.new()
                self._lang(e[1], b, g, n, atomic, stack)
                b.eps(n, h)
                b.eps(h, t)
            else:
                b.eps(cur, t)
                for i in range(hi - lo):
                    g = cur
                    if not atomic and (lo or i):
                        g = self._skip(b, cur)
                    n = b.new()
                    self._lang(e[1], b, g, n, atomic, stack)
                    b.eps(n, t)
                    cur = n
        else:
            raise Err(k)

    def _single(self, e, stack):
        """characters c such that e matches the one-character string c"""
        b = NFA()
        s, t = b.new(), b.new()
        self._lang(e, b, s, t, True, stack)
        b.start, b.final = s, t
        out = []
        st = b.close({s})
        for x in st:
            for rs, y in b.edges.get(x, ()):
                if t in b.close({y}):
                    out.extend(rs)
        return norm(out)


def norm(rs):
    rs = sorted(rs)
    out = []
    for a, c in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], c))
        else:
            out.append((a, c))
    return out


def neg(rs):
    out, p = [], 0
    for a, c in norm(rs):
        if a > p:
            out.append((p, a - 1))
        p = c + 1
    if p <= MAXC:
        out.append((p, MAXC))
    return out


class NFA:
    def __init__(self):
        self.n = 0
        self.e = {}
        self.edges = {}
        self.start = self.final = None
        self._cl = {}

    def new(self):
        self.n += 1
        return self.n - 1

    def eps(self, a, b):
        self.e.setdefault(a, set()).add(b)

    def edge(self, a, rs, b):
        self.edges.setdefault(a, []).append((tuple(rs), b))

    def close(self, ss):
        out, st = set(ss), list(ss)
        while st:
            x = st.pop()
            for y in self.e.get(x, ()):
                if y not in out:
                    out.add(y)
                    st.append(y)
        return frozenset(out)

    def step(self, ss, c):
        out = set()
        for x in ss:
            for rs, y in self.edges.get(x, ()):
                if any(a <= c <= b for a, b in rs):
                    out.add(y)
        return self.close(out) if out else frozenset()

    def cuts(self, ss):
        cs = set()
        for x in ss:
            for rs, _ in self.edges.get(x, ()):
                for a, b in rs:
                    cs.add(a)
                    cs.add(b + 1)
        return cs

    def useful(self):
        """states that can reach final"""
        rev = {}
        for a, bs in self.e.items():
            for b in bs:
                rev.setdefault(b, set()).add(a)
        for a, es in self.edges.items():
            for _, b in es:
                rev.setdefault(b, set()).add(a)
        out, st = {self.final}, [self.final]
        while st:
            x = st.pop()
            for y in rev.get(x, ()):
                if y not in out:
                    out.add(y)
                    st.append(y)
        return out


def literal(s):
    b = NFA()
    cur = b.new()
    b.start = cur
    for c in s:
        n = b.new()
        b.edge(cur, [(ord(c), ord(c))], n)
        cur = n
    b.final = cur
    return b


def included(a, b, limit=20000):
    """L(a) <= L(b)? -> (True, None) or (False, witness)"""
    s0 = (a.close({a.start}), b.close({b.start}))
    seen, work = {s0}, [(s0, '')]
    while work:
        (x, y), w = work.pop(0)
        if a.final in x and b.final not in y:
            return False, w
        cs = sorted(a.cuts(x) | b.cuts(y))
        for c in cs:
            if c > MAXC:
                continue
            nx = a.step(x, c)
            if not nx:
                continue
            ny = b.step(y, c)
            k = (nx, ny)
            if k not in seen:
                seen.add(k)
                if len(seen) > limit:
                    return False, '<too large>'
                work.append((k, w + (chr(c) if c < 0xd800 or c > 0xdfff else '?')))
    return True, None


def maxlen(a, cap=64):
    """length of the longest string, or None when unbounded / > cap"""
    cur = {a.close({a.start})}
    us = a.useful()
    best = -1
    for i in range(cap + 1):
        nxt = set()
        for s in cur:
            if a.final in s:
                best = i
            for c in a.cuts(s):
                if c <= MAXC:
                    t = a.step(s, c) & us
                    if t:
                        nxt.add(frozenset(t))
        cur = nxt
        if not cur:
            return best
    return None


def lengths(a, cap=16):
    """lengths of the strings of the language, or None when there is one longer than cap"""
    cur = {a.close({a.start})}
    us = a.useful()
    out = []
    for i in range(cap + 2):
        nxt = set()
        for s in cur:
            if a.final in s and i not in out:
                out.append(i)
            for c in a.cuts(s):
                if c <= MAXC:
                    t = a.step(s, c) & us
                    if t:
                        nxt.add(frozenset(t))
        cur = nxt
        if not cur:
            return out
    return None


def alphabet(a):
    us = a.useful()
    rs = []
    st, work = set(), [a.close({a.start})]
    seen = set(work)
    while work:
        s = work.pop()
        for x in s:
            for r, y in a.edges.get(x, ()):
                if a.close({y}) & us:
                    rs.extend(r)
                t = a.close({y})
                if t not in seen:
                    seen.add(t)
                    work.append(t)
    return norm(rs)


_G = {}


def from_pattern(pat):
    """pat: a pest expression; language of a stand-alone rule"""
    if pat not in _G:
        g = Grammar('r = @{ %s }' % pat)
        _G[pat] = g.nfa('r')
    return _G[pat]


def load(repo_src, files):
    return Grammar('\n'.join(open(repo_src + '/' + f, encoding='utf-8').read() for f in files), '+'.join(files))
