"""Normal forms of grammar rules: the same language and token structure give (as far as possible) the same text."""
import json
import os
import re

from . import pest
from .pest import BUILTIN, MAXC, norm, neg

NL = (('lit', '\n'), ('lit', '\r'))


class Norm:
    def __init__(self, g):
        self.g = g
        self.memo = {}

    # ---- normal form of one rule
    def rule(self, name):
        if name not in self.memo:
            mod, e = self.g.rules[name]
            at = mod in ('@', '$')
            self.memo[name] = (mod if mod in ('@', '$', '!') else '', self.ex(e, at, mod == '@', (name,)))
        return self.memo[name]

    def ws(self):
        return 'WHITESPACE' in self.g.rules or 'COMMENT' in self.g.rules

    def ex(self, e, at, silent, stack):
        """at: no implicit whitespace; silent: no tokens are made inside"""
        k = e[0]
        if k == 'str':
            return ('lit', e[1])
        if k == 'istr':
            if not any(c.isalpha() for c in e[1]):
                return ('lit', e[1])
            return self.seq([self.cls(norm([(ord(x), ord(x)) for x in {c.lower(), c.upper()}])) for c in e[1]], True)
        if k == 'range':
            return self.cls([(ord(e[1]), ord(e[2]))])
        if k == 'push':
            return ('push', self.ex(e[1], at, silent, stack))
        if k == 'id':
            n = e[1]
            if n in self.g.rules:
                mod, x = self.g.rules[n]
                if n in stack or (mod != '_' and not silent):
                    return ('ref', n)
                return self.ex(x, at or mod in ('@', '$') and mod != '', silent or mod == '@', stack + (n,))
            if n == 'NEWLINE':
                return self.choice([('lit', '\n'), ('lit', '\r\n'), ('lit', '\r')])
            if n in BUILTIN and n not in ('LETTER', 'NUMBER', 'ALPHABETIC'):
                return self.cls(BUILTIN[n])
            return ('id', n)
        if k == 'seq':
            return self.seq([self.ex(x, at, silent, stack) for x in e[1]], at or not self.ws())
        if k == 'choice':
            return self.choice([self.ex(x, at, silent, stack) for x in e[1]])
        if k == 'opt':
            return self.rep(self.ex(e[1], at, silent, stack), 0, 1, at or not self.ws())
        if k == 'rep':
            return self.rep(self.ex(e[1], at, silent, stack), e[2], e[3], at or not self.ws())
        if k == 'neg':
            return self.negs([self.ex(e[1], at, silent, stack)])
        if k == 'pos':
            return ('pos', self.ex(e[1], at, silent, stack))
        raise pest.Err(k)

    def cls(self, rs):
        rs = norm(rs)
        if len(rs) == 1 and rs[0][0] == rs[0][1]:
            return ('lit', chr(rs[0][0]))
        return ('cls', tuple(rs))

    @staticmethod
    def chars(x):
        """the characters of a one-character expression"""
        if x[0] == 'cls':
            return list(x[1])
        if x[0] == 'lit' and len(x[1]) == 1:
            return [(ord(x[1]), ord(x[1]))]
        return None

    def negs(self, xs):
        """none of xs may start here"""
        out = []
        for x in xs:
            ys = x[1] if x[0] in ('choice', 'neg') else (x,)
            for y in ys:
                # what comes after an optional or repeated part does not matter to a refusal of its beginning
                if y[0] == 'rep' and y[2] >= 1:
                    y = self.rep(y[1], y[2], y[2], y[4])
                out.append(y)
        cs, lits, rest = [], [], []
        for y in out:
            c = self.chars(y)
            if c is not None:
                cs += c
            elif y[0] == 'lit':
                lits.append(y)
            else:
                rest.append(y)
        cs = norm(cs)
        inc = lambda ch: any(a <= ord(ch) <= b for a, b in cs)
        lits = [l for l in lits if not (l[1] and inc(l[1][0]))]
        lits = [l for l in lits if not any(m is not l and m[1] != l[1] and l[1].startswith(m[1]) for m in lits)]
        items = sorted(set(([self.cls(cs)] if cs else []) + lits + rest), key=repr)
        return ('neg', tuple(items))

    def seq(self, xs, tight):
        out = []
        for x in xs:
            if x[0] == 'seq' and x[2] == tight:
                out += x[1]
            elif x == ('lit', ''):
                if not tight:
                    out.append(x)
            else:
                out.append(x)
        res = []
        for x in out:
            p = res[-1] if res else None
            if p is not None:
                if p[0] == 'lit' and x[0] == 'lit' and tight:
                    res[-1] = ('lit', p[1] + x[1])
                    continue
                if p[0] == 'neg' and x[0] == 'neg':
                    res[-1] = self.negs([p, x])
                    continue
                # x x* is x+
                pb, pl, ph = (p[1], p[2], p[3]) if p[0] == 'rep' and p[4] == tight else (p, 1, 1)
                xb, xl, xh = (x[1], x[2], x[3]) if x[0] == 'rep' and x[4] == tight else (x, 1, 1)
                if pb == xb and (p[0] == 'rep' or x[0] == 'rep') and (ph == pl or ph is None and xl == 0) and pb[0] != 'neg':
                    if ph == pl:
                        res[-1] = self.rep(pb, pl + xl, None if xh is None else ph + xh, tight)
                        continue
                c = self.chars(x)
                if p[0] == 'neg' and c is not None:
                    nc = [self.chars(y) for y in p[1]]
                    if all(y is not None for y in nc):
                        ex = norm([z for y in nc for z in y])
                        res[-1] = self.cls(norm(neg(norm(neg(c) + ex))))
                        continue
            res.append(x)
        if len(res) == 1:
            return res[0]
        return ('seq', tuple(res), tight)

    def rep(self, x, lo, hi, tight):
        if (lo, hi) == (1, 1):
            return x
        if x[0] == 'rep' and (lo, hi) == (0, 1) and x[2] in (0, 1):
            return ('rep', x[1], 0, x[3], x[4])
        if x[0] == 'rep' and hi is None and x[3] is None and x[2] in (0, 1) and x[4] == tight and lo in (0, 1):
            return ('rep', x[1], min(lo, x[2]), None, tight)
        if x[0] == 'lit' and hi == lo and tight:
            return ('lit', x[1] * lo)
        return ('rep', x, lo, hi, tight)

    # ---- first characters, for the order of alternatives
    def first(self, x, depth=0):
        """-> (ranges, may start with nothing); None ranges: anything"""
        k = x[0]
        if depth > 40:
            return None, True
        if k == 'lit':
            return ([(ord(x[1][0]), ord(x[1][0]))], False) if x[1] else ([], True)
        if k == 'cls':
            return list(x[1]), False
        if k == 'ref':
            return self.first(self.rule(x[1])[1], depth + 1)
        if k == 'push':
            return self.first(x[1], depth + 1)
        if k == 'seq':
            out = []
            for y in x[1]:
                f, e = self.first(y, depth + 1)
                if f is None:
                    return None, True
                out += f
                if not e:
                    return norm(out), False
                if not x[2]:
                    return None, True
            return norm(out), True
        if k == 'choice':
            out, em = [], False
            for y in x[1]:
                f, e = self.first(y, depth + 1)
                if f is None:
                    return None, True
                out += f
                em = em or e
            return norm(out), em
        if k == 'rep':
            f, e = self.first(x[1], depth + 1)
            return f, e or x[2] == 0
        if k in ('neg', 'pos'):
            return [], True
        return None, True

    def apart(self, x, y):
        a, ea = self.first(x)
        b, eb = self.first(y)
        if a is None or b is None or ea or eb:
            return False
        return not any(p <= s and r <= q for p, q in a for r, s in b)

    def choice(self, xs):
        out = []
        for x in xs:
            out += x[1] if x[0] == 'choice' else [x]
        res = []
        for x in out:
            if x in res:
                continue
            # an alternative that begins with an earlier literal alternative is never reached
            if x[0] == 'lit' and any(y[0] == 'lit' and x[1].startswith(y[1]) for y in res) :
                continue
            res.append(x)
        # neighbours that cannot both match may change places
        done = []
        rest = list(res)
        while rest:
            free = [i for i in range(len(rest)) if all(self.apart(rest[i], rest[j]) for j in range(i))]
            i = min(free, key=lambda i: (self.chars(rest[i]) is None, repr(rest[i])))
            done.append(rest.pop(i))
        res, cs = [], []
        for x in done:
            c = self.chars(x)
            if c is not None and (not res or self.chars(res[-1]) is not None):
                if res:
                    res[-1] = self.cls(norm(self.chars(res[-1]) + c))
                else:
                    res.append(x)
                continue
            res.append(x)
        return res[0] if len(res) == 1 else ('choice', tuple(res))


def show(x):
    k = x[0]
    if k == 'lit':
        return json.dumps(x[1])
    if k == 'cls':
        return '[' + ''.join(q(a) if a == b else q(a) + '-' + q(b) for a, b in x[1]) + ']'
    if k == 'ref':
        return '<' + x[1] + '>'
    if k == 'id':
        return x[1]
    if k == 'push':
        return 'push(' + show(x[1]) + ')'
    if k == 'seq':
        return '(' + (' ' if x[2] else ' _ ').join(map(show, x[1])) + ')'
    if k == 'choice':
        return '(' + ' | '.join(map(show, x[1])) + ')'
    if k == 'rep':
        m = {(0, 1): '?', (0, None): '*', (1, None): '+'}.get((x[2], x[3]), '{%s,%s}' % (x[2], '' if x[3] is None else x[3]))
        return show(x[1]) + m + ('' if x[4] or m == '?' else '_')
    if k == 'neg':
        return '!{' + ' | '.join(map(show, x[1])) + '}'
    if k == 'pos':
        return '&' + show(x[1])
    return repr(x)


def q(c):
    ch = chr(c)
    return ch if 33 <= c < 127 and ch not in '[]-\\' else '\\u{%x}' % c


def refs(t):
    return set(re.findall(r'<([A-Za-z_][A-Za-z0-9_]*)>', t))


def tables(facts, src):
    """{tag: {visible rule: normal form}}"""
    out = {}
    for a in facts['adts']:
        fs = [re.search(r'"([^"]+)"', s).group(1) for s in a.get('attrs', []) if 'grammar' in s]
        if not fs:
            continue
        g = pest.load(src, fs)
        tag = a['path'].split('::')[-2]
        n = Norm(g)
        t = {}
        for r, (mod, _) in g.rules.items():
            if mod == '_' and r not in ('WHITESPACE', 'COMMENT'):
                continue
            m, x = n.rule(r)
            # a rule without parts to separate is the same with and without implicit whitespace
            t[r] = (m + ' ' if m and ('ws' if n.ws() else '') or m == '@' else '') + show(x)
        out[tag] = t
    return out
