"""Multi-valued decision diagrams: canonical conditions for gated values.

A variable has a key (hashable, its canonical name) and, if its domain is closed, the full list of
values; otherwise it is open and a default edge stands for every value not listed."""

T, F = 1, 0


def srt(x):
    return (str(type(x)), str(x))


class MDD:
    def __init__(self):
        self.vars = {}      # key -> index
        self.keys = []      # index -> key
        self.dom = []       # index -> tuple | None
        self.nodes = {}     # (var, edges, default) -> id
        self.info = [None, None]
        self.memo = {}

    def var(self, key, dom=None):
        i = self.vars.get(key)
        if i is None:
            i = len(self.keys)
            self.vars[key] = i
            self.keys.append(key)
            self.dom.append(tuple(dom) if dom is not None else None)
        elif dom is not None and self.dom[i] is not None and set(dom) != set(self.dom[i]):
            # domains of one variable must agree: use the union, by registering a wider alias
            extra = [d for d in dom if d not in self.dom[i]]
            if extra:
                return self.var((key, 'dom', tuple(sorted(map(str, dom)))), dom)
        return i

    def mk(self, v, edges, default):
        """edges: dict value->node; default: node or None (closed domains)."""
        if default is not None:
            edges = {k: n for k, n in edges.items() if n != default}
            if not edges:
                return default
        else:
            ns = set(edges.values())
            if len(ns) == 1:
                return next(iter(ns))
        key = (v, tuple(sorted(edges.items(), key=lambda e: srt(e[0]))), default)
        i = self.nodes.get(key)
        if i is None:
            i = len(self.info)
            self.nodes[key] = i
            self.info.append((v, dict(key[1]), default))
        return i

    def eq(self, key, val, dom=None):
        v = self.var(key, dom)
        d = self.dom[v]
        if d is not None:
            if val not in d:
                return F
            return self.mk(v, {x: (T if x == val else F) for x in d}, None)
        return self.mk(v, {val: T}, F)

    def isin(self, key, vals, dom):
        v = self.var(key, dom)
        d = self.dom[v]
        if d is not None:
            return self.mk(v, {x: (T if x in vals else F) for x in d}, None)
        return self.mk(v, {x: T for x in vals}, F)

    def apply(self, op, a, b):
        if op == '&':
            if a == F or b == F:
                return F
            if a == T:
                return b
            if b == T or a == b:
                return a
        else:
            if a == T or b == T:
                return T
            if a == F:
                return b
            if b == F or a == b:
                return a
        if a > b:
            a, b = b, a
        k = (op, a, b)
        r = self.memo.get(k)
        if r is not None:
            return r
        ia, ib = self.info[a], self.info[b]
        v = min(ia[0], ib[0])
        if self.dom[v] is not None:
            edges = {}
            for x in self.dom[v]:
                ca = ia[1][x] if ia[0] == v else a
                cb = ib[1][x] if ib[0] == v else b
                edges[x] = self.apply(op, ca, cb)
            r = self.mk(v, edges, None)
        else:
            keys = set()
            if ia[0] == v:
                keys |= set(ia[1])
            if ib[0] == v:
                keys |= set(ib[1])
            edges = {}
            for x in sorted(keys, key=srt):
                ca = ia[1].get(x, ia[2]) if ia[0] == v else a
                cb = ib[1].get(x, ib[2]) if ib[0] == v else b
                edges[x] = self.apply(op, ca, cb)
            da = ia[2] if ia[0] == v else a
            db = ib[2] if ib[0] == v else b
            r = self.mk(v, edges, self.apply(op, da, db))
        self.memo[k] = r
        return r

    def and_(self, *xs):
        r = T
        for x in xs:
            r = self.apply('&', r, x)
        return r

    def or_(self, *xs):
        r = F
        for x in xs:
            r = self.apply('|', r, x)
        return r

    def not_(self, a):
        if a < 2:
            return 1 - a
        k = ('!', a)
        r = self.memo.get(k)
        if r is None:
            v, e, d = self.info[a]
            r = self.mk(v, {x: self.not_(n) for x, n in e.items()}, None if d is None else self.not_(d))
            self.memo[k] = r
        return r

    def implies(self, a, b):
        return self.and_(a, self.not_(b)) == F

    def forget(self, a, pred):
        """existentially quantify all variables whose key satisfies pred"""
        memo = {}

        def go(n):
            if n < 2:
                return n
            if n in memo:
                return memo[n]
            v, e, d = self.info[n]
            kids = {x: go(m) for x, m in e.items()}
            dd = None if d is None else go(d)
            if pred(self.keys[v]):
                r = self.or_(*(list(kids.values()) + ([] if dd is None else [dd])))
            else:
                r = self.ite_var(v, kids, dd)
            memo[n] = r
            return r
        return go(a)

    def ite_var(self, v, kids, dd):
        """rebuild var node when kids may contain vars ordered before v"""
        r = F
        dom = self.dom[v]
        if dom is not None:
            for x, n in kids.items():
                r = self.or_(r, self.and_(self.mk(v, {y: (T if y == x else F) for y in dom}, None), n))
        else:
            for x, n in kids.items():
                r = self.or_(r, self.and_(self.mk(v, {x: T}, F), n))
            rest = self.mk(v, {x: F for x in kids}, T)
            r = self.or_(r, self.and_(rest, dd))
        return r

    def support(self, a):
        out, seen, st = set(), set(), [a]
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            v, e, d = self.info[n]
            out.add(v)
            st.extend(e.values())
            if d is not None:
                st.append(d)
        return out

    def supkeys(self, a):
        return [self.keys[v] for v in self.support(a)]

    def restrict(self, a, c):
        """simplify a under care set c (generalised cofactor, Coudert-Madre restrict)."""
        if c == F:
            return F
        if c == T or a < 2:
            return a
        k = ('r', a, c)
        r = self.memo.get(k)
        if r is not None:
            return r
        ia, ic = self.info[a], self.info[c]
        if ic[0] < ia[0]:
            kids = list(ic[1].values()) + ([] if ic[2] is None else [ic[2]])
            r = self.restrict(a, self.or_(*kids))
        else:
            v = ia[0]
            dom = self.dom[v]
            vals = list(dom) if dom is not None else sorted(set(ia[1]) | (set(ic[1]) if ic[0] == v else set()), key=srt)

            def ch(i, x):
                return i[1].get(x, i[2]) if i[0] == v else None
            kids, live = {}, []
            for x in vals:
                cx = ch(ic, x) if ic[0] == v else c
                ax = ch(ia, x)
                if cx == F:
                    kids[x] = None
                else:
                    kids[x] = self.restrict(ax, cx)
                    live.append(kids[x])
            dd = None
            if dom is None:
                cx = ic[2] if ic[0] == v else c
                if cx == F:
                    dd = None
                else:
                    dd = self.restrict(ia[2], cx)
                    live.append(dd)
            if not live:
                r = F
            elif all(x == live[0] for x in live):
                r = live[0]
            else:
                # dead edges take a canonical sibling value
                fill = dd if dd is not None else live[0]
                kids = {x: (fill if n is None else n) for x, n in kids.items()}
                r = self.mk(v, kids, None if dom is not None else fill if dd is None else dd)
        self.memo[k] = r
        return r

    def paths(self, a, limit=200):
        """list of cubes [(key, op, value)] for a"""
        out = []

        def go(n, acc):
            if len(out) >= limit or n == F:
                return
            if n == T:
                out.append(tuple(acc))
                return
            v, e, d = self.info[n]
            groups = {}
            for x, m in e.items():
                groups.setdefault(m, []).append(x)
            for m, xs in groups.items():
                go(m, acc + [(self.keys[v], '=', tuple(sorted(map(str, xs))))])
            if d is not None:
                go(d, acc + [(self.keys[v], '!', tuple(sorted(map(str, e))))])
        go(a, [])
        return out
