"""Closed forms of what a loop leaves behind: once the rounds of a loop have reached their fixpoint, the values its last
round starts from and ends with say what every round does to a cell; where that is one of the patterns below, the value
of the cell after the loop is stated without the loop

    flag       x = x or C              -> x0 or some element satisfies C          (also: and)
    text       x = x + T               -> x0 followed by the joined T of the elements
    sum        x = x + N               -> x0 plus the sum over the elements
    last one   x = V if C              -> V of the last element satisfying C, x0 if there is none
    first one  x = V if x not set, C   -> V of the first element satisfying C, x0 if there is none
"""
from .m_opt import *
from . import models as MM
from . import interp as I
from .interp import Val
from . import m_str as MS


def scan(x, hit, seen):
    """does the value, condition or key x mention anything hit() accepts?"""
    if isinstance(x, Val):
        if x in seen:
            return False
        seen.add(x)
        if hit(x):
            return True
        if x.tag == 'g':
            return any(cscan(c, hit, seen) or scan(y, hit, seen) for c, y in x.a[0])
        if x.tag == 'b':
            return cscan(x.a[0], hit, seen)
        if x.tag == 'seg':
            return cscan(x.a[1], hit, seen) or any(scan(y, hit, seen) for i, y in enumerate(x.a) if i != 1)
        return any(scan(y, hit, seen) for y in x.a)
    if isinstance(x, tuple):
        if hit(x):
            return True
        if x and x[0] == 'any':
            return scan(x[1], hit, seen) or cscan(x[2], hit, seen)
        return any(scan(y, hit, seen) for y in x)
    return False


def cscan(n, hit, seen):
    return any(scan(k, hit, seen) for k in D.supkeys(n))


class Own:
    """what stands for the value of one cell at the start of a round"""

    def __init__(self, E, lk, c):
        self.n, self.c = E.lname(lk), E.lcell(c)

    def __call__(self, x):
        if isinstance(x, Val):
            return x.tag == 't' and x.a[0] == 'loopvar' and x.a[1][0] == self.n and x.a[1][1] == self.c
        return len(x) == 4 and x[0] == 'phi' and x[1] == self.n and x[2] == self.c

    def of(self, *xs):
        return any(scan(x, self, set()) for x in xs)

    def inc(self, *ns):
        return any(cscan(n, self, set()) for n in ns)


def varying(x):
    if isinstance(x, Val):
        return x.tag == 't' and x.a[0] in I.VARYOPS
    return bool(x) and x[0] in I.VARYING


def varies(*xs):
    return any(scan(x, varying, set()) for x in xs)


def cvaries(*ns):
    return any(cscan(n, varying, set()) for n in ns)


def cof(n, lit):
    return D.restrict(D.and_(n, lit), lit)


def closed(E, lk, h0, h, backs):
    """cells of the loop head h (entered with h0) that have a closed form -> {cell: value after the loop}"""
    res = {}
    todo = [c for c, hv in h.mem.items() if h0.mem.get(c) is not None and h0.mem[c] is not hv and hv.tag in ('t', 'b', 'g', 'adt', 'tup')]
    if not todo:
        return res
    rel = []
    for b in backs:
        elems = b.ctx[len(h.ctx):]
        if not elems:
            return res
        rel.append((tuple(elems), D.restrict(b.pc, h.pc), b))
    for c in todo:
        own = Own(E, lk, c)
        if not own.of(h.mem[c]) or any(c not in b.mem for _, _, b in rel):
            continue
        r = form(E, own, h0.mem[c], h.mem[c], [(e, p, b.mem[c]) for e, p, b in rel])
        if r is not None and r is not h.mem[c]:
            res[c] = r
    return res


def leaves(tr):
    return [(e, D.and_(p, c), x) for e, p, w in tr for c, x in alts(w) if D.and_(p, c) != F]


def form(E, own, v0, hv, tr):
    if not own.of(hv):
        return None
    if hv.tag in ('adt', 'tup'):
        sh = I.shape(hv)
        ls = leaves(tr)
        if I.shape(v0) != sh or any(I.shape(x) != sh for _, _, x in ls):
            return None
        k = 2 if hv.tag == 'adt' else 0
        fs = []
        for j, x in enumerate(hv.a[k]):
            y = None
            if v0.a[k][j] is not x:
                y = form(E, own, v0.a[k][j], x, [(e, p, z.a[k][j]) for e, p, z in ls])
            fs.append(x if y is None else y)
        return adt(hv.a[0], hv.a[1], fs) if k else mk('tup', tuple(fs))
    ls = leaves(tr)
    return flag(E, own, v0, hv, ls) or text(E, own, v0, hv, ls) or total(E, own, v0, hv, ls) or chosen(E, own, v0, hv, ls)


def isbool(x):
    return x.tag == 'b' or x.tag == 'c' and x.a[1] == 'bool'


def flag(E, own, v0, hv, ls):
    if hv.tag != 'b' or not all(isbool(x) for _, _, x in ls) or not all(isbool(x) for _, x in alts(v0)):
        return None
    lit = hv.a[0]
    if len(D.support(lit)) != 1:
        return None
    by = {}
    for e, p, x in ls:
        n, u = by.get(e, (F, F))
        by[e] = (D.or_(n, D.and_(p, E.tobool(x))), D.or_(u, p))
    r = a0 = E.tobool(v0)
    parts = []
    for e, (n, u) in by.items():
        n0, n1, u1 = cof(n, D.not_(lit)), cof(n, lit), cof(u, lit)
        if own.inc(n0, n1, u1) or cvaries(n0, n1, u1):
            return None
        parts.append((e, n0, n1, u1))
    if all(D.and_(u1, D.not_(n1)) == F for _, _, n1, u1 in parts):
        return bval(D.or_(a0, *[I.any_node(e, n0) for e, n0, _, _ in parts]))
    if all(n0 == F for _, n0, _, _ in parts):
        return bval(D.and_(a0, *[D.not_(I.any_node(e, D.and_(u1, D.not_(n1)))) for e, _, n1, u1 in parts]))
    return None


def segments(E, own, hv, ls, rest, join):
    """what each round adds, as contributions; rest(x) -> what leaf x adds to hv, None when it is none of that kind"""
    by = {}
    for e, p, x in ls:
        y = () if x is hv else rest(x)
        if y is None or own.inc(p):
            return None
        by.setdefault(e, []).append((p, y))
    segs = []
    for e, xs in by.items():
        xs = [(p, y) for p, y in xs if y != ()]
        if not xs:
            continue
        if own.of(*[y for _, y in xs]):
            return None
        segs.append(I.seg(e, D.or_(*[p for p, _ in xs]), join(xs)))
    return tuple(segs)


def text(E, own, v0, hv, ls):
    if hv.tag != 't' or hv.a[0] != 'loopvar' or not own(hv):
        return None

    def rest(x):
        if x.tag == 't' and x.a[0] == 'cat' and x.a[1][0] is hv:
            return MS.concat(E, list(x.a[1][1:]))
        return None
    segs = segments(E, own, hv, ls, rest, lambda xs: MS.concat(E, [gamma(xs)]))
    if not segs:
        return None
    if len(segs) == 1 and segs[0].a[2].tag == 't' and segs[0].a[2].a[0] == 'join' and segs[0].a[1] == T:
        x, sep = segs[0].a[2].a[1]
        if sep.tag == 'c' and sep.a[0] == '' and x.tag == 'coll' and x.a[1] and all(g.a[3] == 'push' for g in x.a[1]):
            segs = tuple(I.seg(segs[0].a[0] + g.a[0], g.a[1], g.a[2]) for g in x.a[1])
    j = term('join', (MM.plain(E, coll('vec', segs)), sval('')), E.find_ty('std::string::String'))
    return MS.concat(E, [v0, j])


def total(E, own, v0, hv, ls):
    if hv.tag != 't' or hv.a[0] != 'loopvar' or not own(hv):
        return None
    ty = next((y for y in [hv.a[2]] + [x.a[2] for _, _, x in ls if x.tag == 't'] if y >= 0), -1)
    t = E.ty(ty) if ty >= 0 else {}
    if t.get('k') not in ('int', 'uint'):
        return None

    def rest(x):
        if x.tag == 't' and x.a[0] == '+' and len(x.a[1]) == 2 and hv in x.a[1]:
            return x.a[1][1 - x.a[1].index(hv)]
        return None
    segs = segments(E, own, hv, ls, rest, gamma)
    if not segs:
        return None
    if all(s.a[2].tag == 'c' and s.a[2].a[0] == 1 for s in segs):
        r = MM.length(E, E.cur, coll('vec', segs))
    else:
        r = term('sum', (MM.plain(E, coll('vec', segs)),), ty)
    if v0.tag == 'c' and v0.a[0] == 0:
        return r
    return MM.arith(E, '+', v0, r, ty)


def split(p, x, left=16):
    """alternatives inside the fields of a leaf become alternatives of the leaf"""
    if x.tag in ('adt', 'tup'):
        k = 2 if x.tag == 'adt' else 0
        for j, y in enumerate(x.a[k]):
            if y.tag == 'g' and left > len(y.a[0]):
                out = []
                for c, z in y.a[0]:
                    if D.and_(p, c) != F:
                        fs = x.a[k][:j] + (z,) + x.a[k][j + 1:]
                        out += split(D.and_(p, c), adt(x.a[0], x.a[1], fs) if k else mk('tup', fs), left // len(y.a[0]))
                return out
    return [(p, x)]


def chosen(E, own, v0, hv, ls):
    hs = [q for c, x in alts(hv) for q in split(c, x)]
    ls = [(e, q, y) for e, p, x in ls for q, y in split(p, x)]
    new = []
    for e, p, x in ls:
        was = [x0 for c0, x0 in hs if D.and_(p, c0) != F]
        if all(x0 is x for x0 in was):
            continue
        new.append((e, p, x))
    if not new or any(own.of(x) or varies(x) for _, _, x in new):
        return None
    if any(own.inc(p) for _, p, _ in new):
        # set only while not set yet?
        s0 = I.shape(v0)
        c0 = D.or_(*[c for c, x in hs if x is v0])
        if s0 is None or s0[0] != 'adt' or v0.a[2] or c0 == F or not own.inc(c0) or any(I.shape(x) == s0 or I.shape(x) is None for _, _, x in new):
            return None
        u = D.or_(*[c for c, _ in hs])
        if any(D.and_(p, u, D.not_(c0)) != F for _, p, _ in new):
            return None
        new = [(e, cof(p, c0), x) for e, p, x in new]
        if any(own.inc(p) or cvaries(p) for _, p, _ in new):
            return None
        out, none = [], T
        for e, p, x in new:
            a = I.any_node(e, p)
            out.append((D.and_(p, a), x))
            none = D.and_(none, D.not_(a))
        return gamma(out + [(none, v0)])
    if any(cvaries(p) for _, p, _ in new):
        return None
    by = {}
    for e, p, x in new:
        by.setdefault(e, []).append((p, x))
    if len(by) != 1 or sum(m.tag == 'over' and m.a[0] != 'rev' for m in new[0][0]) != len(new[0][0]):
        return None
    (e, xs), = by.items()
    pc = D.or_(*[p for p, _ in xs])
    a = I.any_node(e, pc)
    x = gamma(xs)
    sh = {I.shape(y) for _, y in alts(x)}

    def last(y):
        if y.tag == 'c' or not scan(y, lambda z: isinstance(z, Val) and z.tag == 'over' and z in e, set()):
            return y
        return MM.last_of(E, E.cur, coll('vec', (I.seg(e, pc, y),)))
    if len(sh) == 1 and None not in sh and next(iter(sh))[0] in ('adt', 'tup'):
        x0 = alts(x)[0][1]
        k = 2 if x0.tag == 'adt' else 0
        fs = [last(gamma([(p, y.a[k][j]) for p, y in alts(x)])) for j in range(len(x0.a[k]))]
        r = adt(x0.a[0], x0.a[1], fs) if k else mk('tup', tuple(fs))
    else:
        r = last(x)
    return gamma([(a, r), (D.not_(a), v0)])


MM.closed = closed
