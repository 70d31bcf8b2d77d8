"""Canonical, order-independent rendering of abstract values: what a summary says, not how it was computed."""
import hashlib
from . import interp as I
from .interp import D, T, F, Val
from .mdd import MDD

SHORT = {'pairs': ''}


def shortp(p):
    return p.replace('crate::', '')


class Canon:
    def __init__(self, E, maxpaths=60):
        self.E = E
        self.memo = {}
        self.defs = {}
        self.kmemo = {}
        self.nmemo = {}
        self.maxpaths = maxpaths
        self.mus = {}
        self.wts = {}
        self.smemo = {}
        self.ememo = {}
        self.cmemo = {}
        self.omemo = {}
        self.fps = {T: 1, F: 0}
        self.sub = None
        self.level = 2

    # -------------------------------------------------------------- loop-carried values, named by how they evolve
    def mu(self, v):
        if self.level == 0:
            return 'loopvar'
        r = self.mus.get(v)
        if r is None:
            sub = self.sub
            if sub is None:
                sub = self.sub = Canon(self.E, self.maxpaths)
                sub.level = self.level - 1
            by = {}
            for lv, c, x in self.E.looplog:
                if lv is v:
                    for c2, y in I.alts(x):
                        if y is not v:
                            by[y] = D.or_(by.get(y, F), D.and_(c, c2))
            ds = sorted({'%s if %s' % (sub.val(x), sub.node(c)) for x, c in by.items() if c != F})
            r = self.mus[v] = 'loop(%s)' % ' ; '.join(ds)
        return r

    # -------------------------------------------------------------- conditions
    def key(self, k):
        r = self.kmemo.get(k)
        if r is None:
            r = self.kmemo[k] = self._key(k)
        return r

    def _key(self, k):
        if isinstance(k, Val):
            return self.val(k)
        if isinstance(k, tuple):
            if k and k[0] == 'parse':
                return 'parse[%s](%s)' % (shortp(k[1]).split('::')[0] + ':' + str(k[2]), ', '.join(self.key(x) for x in k[3:]))
            if k and k[0] == 'any' and len(k) == 3:
                return 'any(%s: %s)' % (self.over(k[1]), self.node(k[2], T) if isinstance(k[2], int) else self.key(k[2]))
            if k and k[0] == 'phi':
                return 'phi(%s)' % ','.join(sorted(self.E.__dict__.get('phis', {}).get(k, ())))
            if k and k[0] == 'next':
                return 'next(%s)' % ', '.join(shortp(self.key(x)) for x in k[1:])
            if k and isinstance(k[0], str):
                return '%s(%s)' % (k[0], ', '.join(self.key(x) for x in k[1:]))
            return '(' + ', '.join(self.key(x) for x in k) + ')'
        return shortp(str(k))

    def over(self, ov):
        if isinstance(ov, Val):
            return self.val(ov)
        return ' > '.join(self.val(o) if isinstance(o, Val) else str(o) for o in ov)

    def node(self, n, care=T):
        if n == T or n == F:
            return 'T' if n == T else 'F'
        k = (n, care)
        r = self.nmemo.get(k)
        if r is None:
            r = self.nmemo[k] = self.short(self._node(n, care))
        return r

    PRIME = (1 << 127) - 1

    def weight(self, v, val):
        """weight of value val of variable v: random, adding up to one over a finite domain"""
        k = (v, val)
        r = self.wts.get(k)
        if r is None:
            dom = D.dom[v]
            nm = self.key(D.keys[v])
            h = lambda x: int.from_bytes(hashlib.sha256(('%s=%s' % (nm, x)).encode()).digest()[:15], 'big')
            if dom is not None and val == max(dom, key=str):
                r = (1 - sum(h(x) for x in dom if x != val)) % self.PRIME
            else:
                r = h(val)
            self.wts[k] = r
        return r

    def fingerprint(self, n):
        """value of the diagram's arithmetic form at a random point: the same for equal functions whatever
        the variable order, different for different ones (up to a probability of about 2^-100)"""
        memo = self.fps
        stack = [n]
        while stack:
            x = stack[-1]
            if x in memo:
                stack.pop()
                continue
            v, e, d = D.info[x]
            ch = list(e.values()) + ([] if d is None else [d])
            todo = [y for y in ch if y not in memo]
            if todo:
                stack.extend(todo)
                continue
            r, rest = 0, 1
            for val, y in e.items():
                w = self.weight(v, val)
                rest -= w
                r += w * memo[y]
            if d is not None:
                r += rest * memo[d]
            memo[x] = r % self.PRIME
            stack.pop()
        return memo[n]

    def _node(self, n, care):
        sup = D.support(n)
        for v in sup:
            # leaving a loop early with an element means that this element satisfied the exit condition
            k = D.keys[v]
            if isinstance(k, tuple) and k and k[0] == 'any' and len(k) == 3 and isinstance(k[2], int) and (D.support(k[2]) & sup):
                imp = D.or_(D.eq(k, 0, (0, 1)), k[2])
                if D.and_(D.and_(n, care), D.not_(imp)) == F:
                    care = D.and_(care, imp)
        # care variables unrelated to n cannot influence the simplification
        c = care
        if c != T:
            ks = {D.keys[v] for v in sup}
            if not (D.support(c) <= sup):
                c = D.forget(c, lambda k: k not in ks)
        if len(sup) > 20:
            m = D.and_(n, c)
            if m == F:
                return 'F'
            if m == c:
                return 'T'
            return '<%s; %d: %s>' % (hashlib.sha1(str(self.fingerprint(m)).encode()).hexdigest()[:12], len(sup), hashlib.sha1(', '.join(sorted(self.key(D.keys[v]) for v in sup)).encode()).hexdigest()[:8])
        names = {}
        for v in sup | D.support(c):
            names[v] = self.key(D.keys[v])
        order = sorted(names, key=lambda v: (names[v], str(D.dom[v])))
        M2 = MDD()
        mp = {}
        for v in order:
            dom = D.dom[v]
            mp[v] = M2.var(names[v] + ('' if names[v] not in M2.vars else '~%d' % v), dom)
        memo = {}

        def conv(x):
            if x < 2:
                return x
            if x in memo:
                return memo[x]
            v, e, d = D.info[x]
            r = M2.ite_var(mp[v], {val: conv(y) for val, y in e.items()}, None if d is None else conv(d))
            memo[x] = r
            return r
        a, cc = conv(n), conv(c)
        a = M2.restrict(a, cc)
        if a < 2:
            return 'T' if a == T else 'F'
        ps = M2.paths(a, self.maxpaths + 1)
        if len(ps) > self.maxpaths:
            h = hashlib.sha1()
            for p in M2.paths(a, 20000):
                h.update(repr(p).encode())
            return '<%s; %s>' % (h.hexdigest()[:12], ', '.join(sorted(M2.keys[v] for v in M2.support(a))))
        out = []
        for p in ps:
            out.append(' & '.join(self.lit(k, o, vs, M2) for k, o, vs in p))
        return ' | '.join(sorted(out))

    def lit(self, k, o, vs, M2):
        dom = M2.dom[M2.vars[k]]
        if dom is not None and set(map(str, dom)) == {'0', '1'}:
            return k if vs == ('1',) else '!' + k
        return '%s%s%s' % (k, '=' if o == '=' else '!=', '/'.join(sorted(vs)))

    # -------------------------------------------------------------- values
    def origin(self, gk, org):
        return shortp(gk).rsplit('::', 1)[0] + ':' + '/'.join(str(x) for x in org)

    def val(self, v, care=T):
        if not isinstance(v, Val):
            if isinstance(v, tuple):
                return '(' + ', '.join(self.val(x, care) for x in v) + ')'
            return shortp(str(v))
        if care != T:
            g = self.gvars(v)
            if not g:
                care = T
            elif not (D.support(care) <= g):
                care = D.forget(care, lambda q: D.vars[q] not in g)
        k = (v, care)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.short(self._val(v, care))
        return r

    def short(self, s):
        """long renderings are replaced by a name derived from their content"""
        if len(s) <= 240:
            return s
        n = '$' + hashlib.sha1(s.encode()).hexdigest()[:10]
        self.defs[n] = s
        return n

    def gvars(self, v):
        """the variables that occur in the conditions v's printed form contains"""
        r = v.m.get('gvars')
        if r is None:
            r = set()

            def go(x):
                if isinstance(x, Val):
                    r.update(self.gvars(x))
                elif isinstance(x, tuple):
                    for y in x:
                        go(y)
            if v.tag == 'g':
                for c, x in v.a[0]:
                    r.update(D.support(c))
                    go(x)
            elif v.tag == 'b':
                r.update(D.support(v.a[0]))
            elif v.tag == 'seg':
                r.update(D.support(v.a[1]))
                go(v.a[2])
                go(v.a[3])
            elif v.tag == 't' and v.a[0] in ('loopvar', 'sofar', 'arg'):
                pass
            elif v.tag == 'pair':
                pass
            else:
                for x in v.a:
                    go(x)
            v.m['gvars'] = r = frozenset(r)
        return r

    def guards(self, v):
        """does the printed form of v contain conditions?"""
        r = v.m.get('guarded')
        if r is None:
            r = False
            if v.tag in ('g', 'b', 'coll', 'seg'):
                r = True
            else:
                for x in v.a:
                    if isinstance(x, Val):
                        r = r or self.guards(x)
                    elif isinstance(x, tuple):
                        r = r or any(isinstance(y, Val) and self.guards(y) for y in x)
            v.m['guarded'] = r
        return r

    def aname(self, v):
        n = v.a[0].split('::')[-1]
        f = self.E.variant_name(v.a[0], v.a[1])
        return n if f == n or n in ('Option', 'Result') and False else (f if n in ('Option', 'Result') else n + '::' + f if f != '0' else n)

    def _val(self, v, care):
        t = v.tag
        if t == 'c':
            return repr(v.a[0])
        if t == 'b':
            return '[' + self.node(v.a[0], care) + ']'
        if t == 'adt':
            if not v.a[2]:
                return self.aname(v)
            fs = self.E.field_names(v.a[0], v.a[1])
            body = ', '.join('%s: %s' % (fs[i] if fs and i < len(fs) else i, self.val(x, care)) for i, x in enumerate(v.a[2]))
            return '%s{%s}' % (self.aname(v), body)
        if t in ('tup', 'arr'):
            o, c = ('(', ')') if t == 'tup' else ('[', ']')
            return o + ', '.join(self.val(x, care) for x in v.a[0]) + c
        if t == 'g':
            v2 = self.covers(v)
            if v2 is v:
                v2 = self.E.fm.factored(self.E, v)
            if v2 is not v:
                return self.val(v2, care)
            xs = sorted((self.val(x, D.and_(care, c)), self.node(c, care)) for c, x in v.a[0] if D.and_(care, c) != F)
            if len(xs) == 1:
                return xs[0][0]
            return '{' + ' ; '.join('%s if %s' % (b, a) for b, a in xs) + '}'
        if t == 't':
            op, args = v.a[0], v.a[1]
            if op == 'text':
                return self.val(args[0], care)
            if op == 'len' and args[0].tag == 'coll' and args[0].a[0] == 'vec' and all(g.a[3] == 'push' for g in args[0].a[1]):
                # how many there are does not depend on what they are
                args = (I.coll('vec', tuple(I.seg(g.a[0], g.a[1], I.UNIT) for g in args[0].a[1])),)
                return 'len(%s)' % self.val(args[0], care)
            if op in ('+', '*', '==', '&', '|', '^') and len(args) == 2:
                return '%s(%s)' % (op, ', '.join(sorted(self.val(x, care) for x in args)))
            if op == 'loopvar':
                return self.mu(v)
            if op == 'sofar':
                return 'sofar(%s)' % ', '.join(sorted({'%s %s' % (self.over(g.a[0][-1:]), g.a[2].tag if g.a[2].tag != 'adt' else self.aname(g.a[2])) for g in args[0].a[1]}))
            if op == 'arg':
                return 'arg%s' % args[0]
            if op == '.':
                return '%s.%s' % (self.val(args[0], care), '.'.join(str(x) for x in args[1:]))
            return '%s(%s)' % (shortp(op), ', '.join(self.val(x, care) for x in args))
        if t == 'coll' and self.plain(v, care) is not v:
            return self.val(self.plain(v, care), care)
        if t == 'coll':
            return '%s<%s>' % (v.a[0], ' | '.join(self.segstr(s, care) for s in self.segs(v, care)))
        if t == 'seg':
            return self.segstr(v, care)
        if t == 'pair':
            return '`%s`' % self.origin(v.a[0], v.a[2])
        if t == 'pairs':
            return 'pairs(%s)' % ', '.join(self.val(x, care) for x in v.a)
        if t == 'over':
            if v.a[0] == 'pairs':
                return self.origin(v.a[1], v.a[2])
            return 'each(%s)' % ', '.join(self.val(x, care) for x in v.a)
        if t == 'fn':
            k = v.a[0]
            return 'fn ' + shortp(str(k[1] or k[0]))
        if t == 'clo':
            return 'closure(%s)' % ', '.join(self.val(x, care) for x in v.a[1]) if v.a[1] else 'closure'
        if t == 'undef':
            return 'undef'
        return t + '(' + ', '.join(self.val(x, care) for x in v.a) + ')'

    def plain(self, v, care):
        """a list made of all the elements of another one is that list"""
        if v.a[0] == 'vec' and len(v.a[1]) == 1:
            s = v.a[1][0]
            if s.a[3] == 'push' and (s.a[1] == T or D.restrict(s.a[1], self.outside(care, s.a[0])) == T):
                x = self.E.fm.plain(self.E, I.coll('vec', (I.seg(s.a[0], T, s.a[2]),), v.a[2]))
                if x.tag == 't':
                    return x
        return v

    def when_none(self, x):
        """condition under which a collection made in loops is left empty for lack of elements (F: not known)"""
        if x.tag == 't' and x.a[0] == 'join':
            x = x.a[1][0]
        if x.tag == 't' and x.a[0] == 'cat':
            r = T
            for y in x.a[1]:
                r = D.and_(r, self.when_none(y))
            return r
        if x.tag != 'coll' or not x.a[1] or x.a[0] not in ('vec', 'str', 'hmap', 'hset', 'bmap', 'bset', 'mmap'):
            return F
        r = T
        for s in x.a[1]:
            m = next((m for m in s.a[0] if m.tag == 'over' and m.a[0] == 'item'), None)
            if m is None or not isinstance(m.a[1], Val) or m.a[1].tag != 't' or s.a[0][0] is not m:
                return F
            r = D.and_(r, self.E.fm.is_empty(self.E, m.a[1]))
        return r

    def covers(self, v):
        """alternatives of which one, made by a loop, already is nothing when the other, nothing, applies"""
        r = self.cmemo.get(v)
        if r is None:
            r = v
            zero = [(c, x) for c, x in v.a[0] if x.tag == 'coll' and not x.a[1] or x.tag == 'c' and x.a[0] == '']
            for c0, z in zero:
                for c, x in v.a[0]:
                    if x is not z and (x.tag == 'coll' and x.a[0] == z.a[0] if z.tag == 'coll' and z.a[0] != 'str' else x.tag == 't') and D.and_(c0, D.not_(self.when_none(x))) == F:
                        r = I.gamma([(D.or_(c, c0) if y is x else k, y) for k, y in v.a[0] if y is not z])
                        break
                if r is not v:
                    break
            self.cmemo[v] = r
        return r

    def how(self, h, care):
        return h if isinstance(h, str) else self.val(h, care)

    def outside(self, care, ov):
        """what is known about one element of a loop says nothing about the elements a collection is made from, but
        that there is one means what the loop runs over is not empty"""
        if not ov:
            return care
        k = (care, ov)
        r = self.omemo.get(k)
        if r is None:
            ms = {m for m in ov if m.tag == 'over' and m.a[0] != 'pairs'}

            def bound(key):
                m = I.markers(key)
                return m is not None and bool(m & ms)
            r = D.forget(care, bound) if care != T else T
            for m in ov:
                if m.tag == 'over' and m.a[0] == 'item' and isinstance(m.a[1], Val) and m.a[1].tag == 't':
                    r = D.and_(r, D.not_(self.E.fm.is_empty(self.E, m.a[1])))
            self.omemo[k] = r
        return r

    def segstr(self, s, care):
        care = self.outside(care, s.a[0])
        c2 = D.and_(care, s.a[1])
        g = self.node(s.a[1], care)
        return '%s%s%s%s' % ('for %s: ' % self.over(s.a[0]) if s.a[0] else '', '' if g == 'T' else 'if %s: ' % g,
                             '' if s.a[3] == 'push' else self.how(s.a[3], care) + ' ', self.val(s.a[2], c2))

    def segs(self, v, care):
        """the contributions of a collection in an order that depends on what they are: two of the same loop that
        exclude each other may be written in either order"""
        xs = list(v.a[1])
        if v.a[0] in ('hmap', 'bmap') and xs and len(xs) <= 80:
            xs = self.entries(v)
        if len(xs) < 2 or len(xs) > 80:
            return xs
        k = (v, care)
        r = self.smemo.get(k)
        if r is not None:
            return r
        if v.a[0] not in ('str',):
            xs = self.fuse(xs, care)
        txt = [self.segstr(s, care) for s in xs]
        n = len(xs)

        def free(a, b):
            return a.a[0] == b.a[0] and D.and_(D.and_(a.a[1], care), b.a[1]) == F
        if v.a[0] in ('str',):
            return xs
        pre = [{j for j in range(i) if not free(xs[j], xs[i])} for i in range(n)]
        done, out = set(), []
        while len(out) < n:
            i = min((i for i in range(n) if i not in done and pre[i] <= done), key=lambda i: (txt[i], i))
            done.add(i)
            out.append(xs[i])
        self.smemo[k] = out
        return out

    def entries(self, v):
        """an entry put in only where the map has none for its key so far is an `or insert`; a container put in with
        the very things that are otherwise added to the one already there is an empty one to which they are added"""
        r = self.ememo.get(v)
        if r is not None:
            return r
        out = list(v.a[1])
        mine = {self.E.fm.strip_cond(s.a[2]) for s in out}

        def has(s, k):
            for x in D.support(s.a[1]):
                q = D.keys[x]
                if isinstance(q, tuple) and len(q) == 3 and q[0] == 'has' and q[2] is k and q[1].tag == 't' and q[1].a[0] == 'sofar':
                    if q[1].a[1][0].tag == 'coll' and mine & {g.a[2] for g in q[1].a[1][0].a[1]}:
                        return D.eq(q, 1, D.dom[x])
        for i, s in enumerate(out):
            if s.a[3] not in ('ins', 'orins') or s.a[2].tag != 'tup' or not s.a[0]:
                continue
            key, val = s.a[2].a[0]
            h = has(s, key)
            if h is None or D.and_(s.a[1], h) != F:
                continue
            g = D.restrict(s.a[1], D.not_(h))
            out[i] = I.seg(s.a[0], g, s.a[2], 'orins')
            if val.tag != 'coll' or not val.a[1]:
                continue
            for j, u in enumerate(out):
                if u.a[0] == s.a[0] and isinstance(u.a[3], tuple) and u.a[3][:2] == ('upd', 'key') and u.a[3][2] is key:
                    w = u.a[2]
                    if w.tag != 'coll' or len(w.a[1]) != len(val.a[1]) + 1 or w.a[1][0].a[3] != 'ext' or D.and_(u.a[1], D.not_(h)) != F or D.restrict(u.a[1], h) != g:
                        continue
                    if all(x.a[0] == y.a[0] and x.a[2:] == y.a[2:] and D.restrict(x.a[1], u.a[1]) == D.restrict(y.a[1], s.a[1])
                           for x, y in zip(w.a[1][1:], val.a[1])):
                        more = tuple(I.seg(x.a[0], D.restrict(x.a[1], u.a[1]), x.a[2], x.a[3]) for x in w.a[1])
                        out[i] = I.seg(u.a[0], g, I.coll(w.a[0], more, w.a[2]), u.a[3])
                        out[j] = out[i]
                        out[min(i, j)] = I.seg(s.a[0], g, I.mk('tup', (key, I.coll(val.a[0], (), val.a[2]))), 'orins')
        self.ememo[v] = out
        return out

    def fuse(self, xs, care):
        """contributions of the same loop that exclude each other are one contribution with alternatives"""
        out = []

        def excl(a, b):
            return a.a[0] == b.a[0] and D.and_(D.and_(a.a[1], care), b.a[1]) == F
        for s in xs:
            at = None
            if isinstance(s.a[3], str):
                for j in range(len(out) - 1, -1, -1):
                    if not excl(out[j], s):
                        break
                    if out[j].a[3] == s.a[3]:
                        at = j
            if at is None:
                out.append(s)
            else:
                o = out[at]
                out[at] = I.seg(o.a[0], D.or_(o.a[1], s.a[1]), I.gamma([(o.a[1], o.a[2]), (s.a[1], s.a[2])]), o.a[3])
        return out

    # -------------------------------------------------------------- flat rows
    def rows(self, v, care=T, path='result', out=None, depth=0):
        """[(path, text)]: one line per leaf, condition and collection contribution"""
        if v.tag == 'coll':
            v = self.plain(v, care)
        if out is None:
            out = []
        t = v.tag
        sv = self.val(v, care)
        if depth > 40 or (len(sv) < 60 and '$' not in sv):
            out.append((path, self.val(v, care)))
            return out
        if t == 'adt' and v.a[2]:
            fs = self.E.field_names(v.a[0], v.a[1])
            nm = self.aname(v)
            p2 = path + '.' + nm if nm in ('Some', 'Ok', 'Err') or '::' in nm else path
            for i, x in enumerate(v.a[2]):
                self.rows(x, care, p2 if len(v.a[2]) == 1 and nm in ('Some', 'Ok', 'Err') else p2 + '.' + str(fs[i] if fs and i < len(fs) else i), out, depth + 1)
            return out
        if t in ('tup', 'arr') and v.a[0]:
            for i, x in enumerate(v.a[0]):
                self.rows(x, care, '%s.%d' % (path, i), out, depth + 1)
            return out
        if t == 'g' and self.covers(v) is not v:
            return self.rows(self.covers(v), care, path, out, depth)
        if t == 'g' and self.E.fm.factored(self.E, v) is not v:
            return self.rows(self.E.fm.factored(self.E, v), care, path, out, depth)
        if t == 'g':
            xs = []
            for c, x in v.a[0]:
                c2 = D.and_(care, c)
                if c2 != F:
                    xs.append((self.val(x, c2), self.node(c, care), x, c2))
            xs.sort(key=lambda e: (e[0], e[1]))
            for i, (sv, sc, x, c2) in enumerate(xs):
                lab = self.aname(x) if x.tag == 'adt' else '#%d' % i
                p2 = path if len(xs) == 1 else '%s?%s' % (path, lab)
                if len(xs) > 1:
                    out.append((p2, 'when ' + sc))
                self.rows(x, c2, p2, out, depth + 1)
            return out
        if t == 'coll':
            if not v.a[1]:
                out.append((path, v.a[0] + '<>'))
            care0 = care
            for i, s in enumerate(self.segs(v, care)):
                care = self.outside(care0, s.a[0])
                c2 = D.and_(care, s.a[1])
                p2 = '%s[%d]' % (path, i)
                out.append((p2, '%s %s%s when %s' % (v.a[0], self.how(s.a[3], care), ' for ' + self.over(s.a[0]) if s.a[0] else '', self.node(s.a[1], care))))
                self.rows(s.a[2], c2, p2, out, depth + 1)
            return out
        if t == 't' and v.a[0] == 'lastof':
            return self.rows(v.a[1][0], care, path + '!last', out, depth + 1)
        out.append((path, self.val(v, care)))
        return out
