"""Semantics of the library functions the analysed crate calls, as abstract transformers.

core part: equality, ordering, arithmetic, casts, indexing, element access."""
import re
from . import mdd as M
from . import pest
from . import interp as I
from .interp import (D, T, F, mk, const, sval, term, adt, some, ok, err, NONE, UNDEF, UNIT, TRUE, FALSE, OPT, RES,
                     bval, gamma, alts, seg, coll, skey, show, UNKNOWN_TY, Unsupported)

MODELS = {}


def model(*names):
    def deco(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return deco


def rd(E, st, v):
    """value behind references"""
    n = 0
    while v.tag == 'ref' and n < 20:
        v = E.load(st, v.a[0], v.a[1])
        n += 1
    if v.tag == 'g' and any(x.tag == 'ref' for _, x in v.a[0]):
        return gamma([(c, rd(E, st, x)) for c, x in v.a[0] if D.and_(c, st.pc) != F])
    return v


def dp(E, st, v):
    return E.deep(st, v)


def wr(E, st, r, val):
    """write through a mutable reference value"""
    if r.tag == 'ref':
        E.store(st, r.a[0], r.a[1], val)
    elif r.tag == 'g':
        for c, x in r.a[0]:
            if x.tag == 'ref' and D.and_(c, st.pc) != F:
                old = E.load(st, x.a[0], x.a[1])
                E.store(st, x.a[0], x.a[1], gamma([(c, val), (D.not_(c), old)]))
    else:
        E.event('store_unknown', st, (r,))


def dist(st, v, fn):
    """apply fn to every feasible alternative, rejoin"""
    if v.tag == 'g':
        return gamma([(c, fn(x)) for c, x in v.a[0] if D.and_(c, st.pc) != F])
    return fn(v)


# ------------------------------------------------------------------ collections read while being filled
def growing(E, v):
    """is v filled by a loop that is still running at this point?"""
    if v.tag != 'coll' or not E.cur.ctx:
        return False
    cur = set(E.cur.ctx)
    ms = {m for s in v.a[1] for m in s.a[0]} & cur
    return bool(ms) and not complete(E, v, ms)


_occ = {}


def occurs(v, x):
    """is v part of the value x?"""
    if x is v:
        return True
    if not isinstance(x, I.Val) or x.tag in ('c', 'over', 'b', 'ref', 'undef', 'fn', 'pair', 'pairs'):
        return isinstance(x, tuple) and any(occurs(v, y) for y in x)
    k = (v, x)
    r = _occ.get(k)
    if r is None:
        if len(_occ) > 2000000:
            _occ.clear()
        _occ[k] = False
        r = _occ[k] = any(occurs(v, y[1] if x.tag == 'g' and isinstance(y, tuple) else y) for y in (x.a[0] if x.tag == 'g' else x.a))
    return r


def complete(E, v, ms):
    """the loops over these elements began with v as it is now: another loop over the same elements filled it"""
    ctx = E.cur.ctx
    for m in ms:
        own = [mem for base, mem in E.loops if base <= ctx.index(m)]
        if not own:
            return False
        own = own[-1]
        if not any(occurs(v, x) for x in own.values()):
            return False
        for c, x in E.cur.mem.items():
            if c in own and x is not own[c] and occurs(v, x) and not occurs(v, own[c]):
                return False
    return True


_men, _str = {}, {}


def mentions(k):
    if isinstance(k, I.Val):
        r = _men.get(k)
        if r is None:
            _men[k] = False
            if k.tag == 't' and k.a[0] in ('sofar', 'cur'):
                r = True
            elif k.tag == 'b':
                r = any(mentions(D.keys[x]) for x in D.support(k.a[0]))
            elif k.tag == 'g':
                r = any(mentions(x) or any(mentions(D.keys[y]) for y in D.support(c)) for c, x in k.a[0])
            elif k.tag == 'seg':
                r = mentions(k.a[2]) or mentions(k.a[3]) or any(mentions(D.keys[y]) for y in D.support(k.a[1]))
            else:
                r = any(mentions(x) for x in flatvals(k))
            _men[k] = r
        return r
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == 'any' and isinstance(k[2], int):
            return mentions(k[1]) or any(mentions(D.keys[y]) for y in D.support(k[2]))
        return any(mentions(x) for x in k)
    return False


def fcond(c):
    return D.forget(c, mentions) if c > 1 else c


def strip_cond(v):
    """v without the conditions that depend on what a growing collection holds so far"""
    if not isinstance(v, I.Val):
        return tuple(strip_cond(x) for x in v) if isinstance(v, tuple) else v
    r = _str.get(v)
    if r is None:
        t = v.tag
        if t == 'g':
            r = mk('alts', tuple(sorted({(fcond(c), strip_cond(x)) for c, x in v.a[0]}, key=lambda e: (I.skey(e[1]), e[0]))))
        elif t == 'b':
            r = bval(fcond(v.a[0]))
        elif t == 'seg':
            r = I.seg(v.a[0], fcond(v.a[1]), strip_cond(v.a[2]), strip_cond(v.a[3]))
        elif t == 'coll':
            r = I.coll(v.a[0], I.dedupe(sorted((strip_cond(x) for x in v.a[1]), key=lambda g: I.show(g))), v.a[2])
        elif t == 't' and v.a[0] == 'sofar':
            r = mk('t', 'sofar', (), v.a[2])
        else:
            r = mk(t, *[strip_cond(x) for x in v.a])
        _str[v] = r
    return r


def map_colls(v, fn, memo):
    if not isinstance(v, I.Val) or v.tag in ('c', 'pair', 'over', 't', 'b', 'ref', 'undef', 'fn'):
        return v
    r = memo.get(v)
    if r is None:
        go = lambda x: map_colls(x, fn, memo)
        t = v.tag
        if t == 'coll':
            r = fn(v)
        elif t == 'g':
            r = gamma([(c, go(x)) for c, x in v.a[0]])
        elif t == 'adt':
            r = adt(v.a[0], v.a[1], [go(x) for x in v.a[2]])
        elif t in ('tup', 'arr'):
            r = mk(t, tuple(go(x) for x in v.a[0]))
        elif t == 'clo':
            r = mk('clo', v.a[0], tuple(go(x) for x in v.a[1]))
        else:
            r = v
        memo[v] = r
    return r


def map_mem(st, fn):
    memo = {}
    return I.St({c: map_colls(v, fn, memo) for c, v in st.mem.items()}, st.pc, st.ctx)


def wrap_old(E, st, marks, before):
    """collections the loop has filled stand for themselves; those that are as they were before it stay"""
    def fn(v):
        if v in same:
            return v
        gr = [s for s in v.a[1] if not marks.isdisjoint(s.a[0])]
        if not gr:
            return v
        keep = tuple(s for s in v.a[1] if marks.isdisjoint(s.a[0]))
        old = I.seg(tuple(m for s in gr for m in s.a[0] if m in marks)[:1], T, strip_cond(v), 'old')
        return coll(v.a[0], keep + (old,), v.a[2])

    def note(v):
        same.add(v)
        return v
    mem = {}
    for c, v in st.mem.items():
        old = before.mem.get(c)
        if old is v:
            mem[c] = v
            continue
        same = set()
        map_colls(old, note, {})
        mem[c] = map_colls(v, fn, {})
    return I.St(mem, st.pc, st.ctx)


def drop_old(st, marks):
    def mine(s):
        return s.a[3] == 'old' and not marks.isdisjoint(s.a[0])

    def fn(v):
        if any(mine(s) for s in v.a[1]):
            return coll(v.a[0], tuple(s for s in v.a[1] if not mine(s)), v.a[2])
        return v
    return map_mem(st, fn)


def note_reset(E, st, v):
    """a collection that outlives the current iteration is emptied: an observation of its own, because
    what later reads see is only described by what was ever put in"""
    for c, x in I.alts(v):
        if x.tag == 'coll' and st.ctx[x.a[2]:]:
            s = st.fork()
            s.pc = D.and_(s.pc, c)
            if s.pc != F:
                E.event('reset', s, (x.a[0],))


def sofar(E, v):
    E.sofar_marks |= {m for s in v.a[1] for m in s.a[0]} & set(E.cur.ctx)
    old = [s for s in v.a[1] if s.a[3] == 'old']
    if old:
        c = strip_cond(coll(v.a[0], tuple(s for s in v.a[1] if s.a[3] != 'old'), v.a[2]))
        o = old[0].a[2]
        c = coll(v.a[0], I.dedupe(sorted(set(o.a[1]) | set(c.a[1]), key=lambda g: I.show(g))), v.a[2])
        return term('sofar', (c,), type_of(E, v))
    return term('sofar', (strip_cond(v),), type_of(E, v))


# ------------------------------------------------------------------ dependence on loop elements
def deps(v):
    r = v.m.get('dep')
    if r is None:
        s = set()
        t = v.tag
        if t == 'pair' or t == 'pairs':
            o = v.a[2] if t == 'pair' else v.a[1]
            for i, x in enumerate(o):
                if x.endswith('*'):
                    s.add((v.a[0],) + o[:i + 1])
        elif t == 'over':
            s.add(v)
            for x in v.a:
                if isinstance(x, I.Val):
                    s |= deps(x)
        else:
            for x in flatvals(v):
                s |= deps(x)
        r = v.m['dep'] = frozenset(s)
    return r


def flatvals(v):
    def go(x):
        if isinstance(x, I.Val):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                for z in go(y):
                    yield z
    for x in v.a:
        for z in go(x):
            yield z


def marker_keys(elems):
    s = set()
    for m in elems:
        if m.tag == 'over' and m.a[0] == 'pairs':
            s.add((m.a[1],) + m.a[2])
        else:
            s.add(m)
    return s


def prev_val(E, v, elems):
    ks = marker_keys(elems)

    def go(v):
        if not (deps(v) & ks):
            return v
        t = v.tag
        if t == 'adt':
            return adt(v.a[0], v.a[1], [go(x) for x in v.a[2]])
        if t in ('tup', 'arr'):
            return mk(t, tuple(go(x) for x in v.a[0]))
        if t == 'g':
            return gamma([(c, go(x)) for c, x in v.a[0]])
        if t == 't' and v.a[0] == 'prev':
            return v
        if t in ('t', 'pair'):
            return term('prev', (v,), v.a[2] if t == 't' else UNKNOWN_TY)
        return v
    return go(v)


# ------------------------------------------------------------------ equality and ordering
def text_dom(E, v):
    """finite language of a text term, or None"""
    if v.tag == 't' and v.a[0] == 'text' and v.a[1][0].tag == 'pair':
        p = v.a[1][0]
        return E.gram(p.a[0]).finite(p.a[1])
    return None


def fin(E, v, fn):
    """fn applied to every string a text value can be, when its language is finite; else None"""
    dom = text_dom(E, v)
    if dom is None:
        return None
    if len(dom) == 1:
        return fn(dom[0])
    return gamma([(D.eq(('val', v), s, tuple(dom)), fn(s)) for s in dom])


def val_eq(E, a, b):
    if a is b:
        return T
    if a.tag == 'undef' or b.tag == 'undef':
        return F
    if (a.tag == 'g' or b.tag == 'g') and all(x.tag == 't' for _, x in alts(a)) and all(x.tag == 't' for _, x in alts(b)):
        x, y = sorted((a, b), key=skey)
        return D.eq(('eq', x, y), 1, (0, 1))
    if a.tag == 'g':
        return D.or_(*[D.and_(c, val_eq(E, x, b)) for c, x in a.a[0]])
    if b.tag == 'g':
        return D.or_(*[D.and_(c, val_eq(E, a, x)) for c, x in b.a[0]])
    ta, tb = a.tag, b.tag
    if ta == 'c' and tb == 'c':
        if a.a[0] == b.a[0]:
            return T
        return F
    if ta == 'b' and tb == 'b':
        x, y = a.a[0], b.a[0]
        return D.or_(D.and_(x, y), D.and_(D.not_(x), D.not_(y)))
    if ta == 'adt' and tb == 'adt' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return F
        return D.and_(*[val_eq(E, x, y) for x, y in zip(a.a[2], b.a[2])]) if a.a[2] else T
    if ta == tb and ta in ('tup', 'arr'):
        if len(a.a[0]) != len(b.a[0]):
            return F
        return D.and_(*[val_eq(E, x, y) for x, y in zip(a.a[0], b.a[0])]) if a.a[0] else T
    if ta == 'adt' and tb == 't':
        a, b, ta, tb = b, a, tb, ta
    if ta == 't' and tb == 'adt':
        path = b.a[0]
        names = variant_names(E, path)
        if names and len(names) > 1:
            c = D.eq(('var', a), names[b.a[1]], names)
        else:
            c = T
        if b.a[2]:
            e = E.expand_enum(a, b.a[1]) if names and len(names) > 1 else E.expand(a)
            if e is None or e.tag != 'adt':
                return D.eq(('eq', a, b), 1, (0, 1))
            c = D.and_(c, *[val_eq(E, x, y) for x, y in zip(e.a[2], b.a[2])])
        return c
    if ta == 'c':
        a, b, ta, tb = b, a, tb, ta
    if tb == 'c':
        if ta == 't' and a.a[0] == 'len' and b.a[0] == 0:
            return is_empty(E, a.a[1][0])
        if ta == 't' and a.a[0] == 'text':
            dom = text_dom(E, a)
            if dom is not None:
                if b.a[0] not in dom:
                    return F
                return D.eq(('val', a), b.a[0], tuple(dom)) if len(dom) > 1 else T
        if ta in ('t', 'disc'):
            if b.a[0] == '' and b.a[1] == 'str':
                return is_empty(E, a)
            return D.eq(('val', a), b.a[0])
        if ta == 'coll' and b.a[1] == 'str':
            if b.a[0] == '':
                return is_empty(E, a)
            return D.eq(('val', a), b.a[0])
        if ta == 'b':
            return a.a[0] if b.a[0] else D.not_(a.a[0])
    if ta == 'tup' and tb == 't':
        a, b, ta, tb = b, a, tb, ta
    if ta == 't' and tb == 'tup':
        e = E.expand(a)
        if e is not None and e.tag == 'tup':
            return val_eq(E, e, b)
    if ta == 'coll' and not a.a[1] and tb in ('t', 'coll'):
        return is_empty(E, b)
    if tb == 'coll' and not b.a[1] and ta in ('t', 'coll'):
        return is_empty(E, a)
    x, y = sorted((a, b), key=skey)
    return D.eq(('eq', x, y), 1, (0, 1))


def variant_names(E, path):
    a = E.adts.get(path)
    if a is None or a['kind'] != 'enum':
        return {OPT: ('None', 'Some'), RES: ('Ok', 'Err')}.get(path)
    return tuple(x['name'] for x in a['variants'])


def is_empty(E, v):
    t = v.tag
    if t == 't' and I.never_empty(v):
        return F
    if t == 'g':
        return D.or_(*[D.and_(c, is_empty(E, x)) for c, x in v.a[0]])
    if t == 'c':
        return T if v.a[0] == '' else F
    if t == 'arr':
        return F if v.a[0] else T
    if t == 'coll':
        ne = F
        if growing(E, v):
            if any(not s.a[0] and s.a[1] == T and s.a[3] in ('push', 'ins') for s in v.a[1]):
                return F
            return D.eq(('empty', sofar(E, v)), 1, (0, 1))
        for s in v.a[1]:
            if s.a[3] != 'push' and isinstance(s.a[3], tuple) and s.a[3][0] in ('upd', 'del', 'retain'):
                if s.a[3][0] != 'upd':
                    return D.eq(('empty', v), 1, (0, 1))
                continue
            c = s.a[1]
            if s.a[3] == 'ext':
                c = D.and_(c, D.not_(is_empty(E, s.a[2])))
            if s.a[0]:
                c = I.any_node(s.a[0], c)
            ne = D.or_(ne, c)
        return D.not_(ne)
    if t == 't' and v.a[0] in ('skip', 'take') and len(v.a[1]) == 2 and v.a[1][1].tag == 'c' and v.a[1][0].tag == 't' and isinstance(v.a[1][1].a[0], int):
        x, k = v.a[1][0], v.a[1][1].a[0]
        if v.a[0] == 'skip':
            return cmp_cond(E, 'lt', term('len', (x,), E.find_ty('usize')), const(k + 1, 'usize'))
        return T if k == 0 else is_empty(E, x)
    if t == 't' and v.a[0] == 'text' and v.a[1][0].tag == 'pair':
        p = v.a[1][0]
        if not E.gram(p.a[0]).accepts_empty(p.a[1]):
            return F
    return D.eq(('empty', v), 1, (0, 1))


def is_float(E, v):
    if v.tag == 'c':
        return isinstance(v.a[0], float)
    if v.tag == 't':
        s = E.ty(v.a[2])['k']
        return s == 'float' or v.a[0].startswith('num:f')
    return False


def cmp_cond(E, op, a, b):
    """condition node for a <op> b, op in lt le gt ge"""
    if a.tag == 'g':
        return D.or_(*[D.and_(c, cmp_cond(E, op, x, b)) for c, x in a.a[0]])
    if b.tag == 'g':
        return D.or_(*[D.and_(c, cmp_cond(E, op, a, x)) for c, x in b.a[0]])
    if a.tag == 'c' and b.tag == 'c':
        x, y = a.a[0], b.a[0]
        return T if {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op] else F
    for x, y, o in ((a, b, op), (b, a, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[op])):
        if y.tag == 't' and y.a[0] == 'len' and pos_in(E, y.a[1][0], x):
            return T if o in ('lt', 'le') else F
    for x, y, o in ((a, b, op), (b, a, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[op])):
        if y.tag == 'c' and x.tag == 't':
            if x.a[0] == 'len' and (o, y.a[0]) in (('gt', 0), ('ge', 1)):
                return D.not_(is_empty(E, x.a[1][0]))
            if x.a[0] == 'len' and (o, y.a[0]) in (('le', 0), ('lt', 1)):
                return is_empty(E, x.a[1][0])
            if isinstance(y.a[0], int) and not isinstance(y.a[0], bool):
                r = rng(E, x)
                if r:
                    lo, hi = r
                    k = y.a[0]
                    if {'lt': hi < k, 'le': hi <= k, 'gt': lo > k, 'ge': lo >= k}[o]:
                        return T
                    if {'lt': lo >= k, 'le': lo > k, 'gt': hi <= k, 'ge': hi < k}[o]:
                        return F
                    # canonical: strict less-than against an integer bound
                    n = {'lt': k, 'ge': k, 'le': k + 1, 'gt': k + 1}[o]
                    c = D.eq(('lt', x, n), 1, (0, 1))
                    return c if o in ('lt', 'le') else D.not_(c)
    fl = is_float(E, a) or is_float(E, b)
    dom = ('lt', 'eq', 'gt', 'un') if fl else ('lt', 'eq', 'gt')
    if a is b and not fl:
        return T if op in ('le', 'ge') else F
    if skey(a) > skey(b):
        a, b = b, a
        op = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[op]
    vals = {'lt': ('lt',), 'le': ('lt', 'eq'), 'gt': ('gt',), 'ge': ('gt', 'eq')}[op]
    return D.isin(('cmp', a, b), vals, dom)


# ------------------------------------------------------------------ arithmetic
INT = {'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1),
       'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1),
       'isize': (-2**63, 2**63 - 1), 'u128': (0, 2**128 - 1), 'i128': (-2**127, 2**127 - 1)}


def rng(E, v):
    r = v.m.get('rng')
    return r if r is not None else rng0(E, v)


def widened(E, x, src):
    """x: the value src of a narrower type; it keeps src's range"""
    r = rng(E, src)
    if r is not None and x is not src and x.tag == 't':
        x.m['rng'] = r
    return x


def rng0(E, v):
    """integer interval of a value, or None"""
    if v.tag == 'c':
        x = v.a[0]
        return (x, x) if isinstance(x, int) else None
    if v.tag == 'b':
        return (0, 1)
    if v.tag == 'g':
        rs = [rng(E, x) for _, x in v.a[0]]
        if any(r is None for r in rs):
            return None
        return (min(r[0] for r in rs), max(r[1] for r in rs))
    if v.tag == 't':
        op, args = v.a[0], v.a[1]
        tr = INT.get(E.tystr(v.a[2]))
        r = None
        if op in ('+', '-', '*', '/', '%') and len(args) == 2:
            x, y = rng(E, args[0]), rng(E, args[1])
            if x and y:
                if op == '+':
                    r = (x[0] + y[0], x[1] + y[1])
                elif op == '-':
                    r = (x[0] - y[1], x[1] - y[0])
                elif op == '*':
                    ps = [i * j for i in x for j in y]
                    r = (min(ps), max(ps))
                elif op == '%' and y[0] == y[1] and y[0] > 0:
                    k = y[0] - 1
                    r = (0 if x[0] >= 0 else -min(k, -x[0]), min(k, max(x[1], 0)))
                elif op == '/' and y[0] == y[1] and y[0] > 0:
                    q = [int(i / y[0]) if abs(i) < 2**50 else i // y[0] for i in x]
                    r = (min(q), max(q))
        elif op == 'num:int' and args[0].tag == 't' and args[0].a[0] == 'text' and args[0].a[1][0].tag == 'pair':
            p = args[0].a[1][0]
            g = E.gram(p.a[0])
            n = g.maxdigits(p.a[1])
            if n:
                r = (-(10**n - 1) if g.has_minus(p.a[1]) else 0, 10**n - 1)
        if r and tr:
            return (max(r[0], tr[0]), min(r[1], tr[1])) if r[0] <= tr[1] and r[1] >= tr[0] else tr
        return r or tr
    return None


OPS = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '/', 'Rem': '%', 'BitAnd': '&', 'BitOr': '|', 'BitXor': '^', 'Shl': '<<', 'Shr': '>>'}


def value_ty(E, a, b):
    for x in (a, b):
        if x.tag == 't' and x.a[2] >= 0:
            return x.a[2]
        if x.tag == 'c' and isinstance(x.a[1], str):
            t = E.find_ty(x.a[1])
            if t >= 0:
                return t
    return UNKNOWN_TY


def arith(E, op, a, b, ty=UNKNOWN_TY):
    if a.tag == 'g':
        return gamma([(c, arith(E, op, x, b, ty)) for c, x in a.a[0]])
    if b.tag == 'g':
        return gamma([(c, arith(E, op, a, x, ty)) for c, x in b.a[0]])
    if a.tag == 'c' and b.tag == 'c' and not isinstance(a.a[0], str):
        x, y = a.a[0], b.a[0]
        try:
            r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                 '/': lambda: (x / y if isinstance(x, float) else int(x / y) if abs(x) < 2**50 else x // y),
                 '%': lambda: (x - y * int(x / y)), '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                 '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
            return const(r, a.a[1])
        except Exception:
            pass
    if ty < 0:
        ty = value_ty(E, a, b)
    if op == '*':
        for x, y in ((a, b), (b, a)):
            if x.tag == 'c' and x.a[0] in (1, 1.0):
                return y
    if op == '+':
        for x, y in ((a, b), (b, a)):
            if x.tag == 'c' and x.a[0] == 0 and not isinstance(x.a[0], float):
                return y
    if op in ('+', '*', '&', '|', '^') and skey(a) > skey(b):
        a, b = b, a
    return term(op, (a, b), ty)


def binop(E, st, op, a, b, dty=UNKNOWN_TY):
    a, b = rd(E, st, a), rd(E, st, b)
    if op in ('Eq', 'Ne'):
        n = val_eq(E, a, b)
        return bval(n if op == 'Eq' else D.not_(n))
    if op in ('Lt', 'Le', 'Gt', 'Ge'):
        return bval(cmp_cond(E, op.lower(), a, b))
    if op == 'Cmp':
        return ordering(E, st, a, b)
    if op in ('BitAnd', 'BitOr', 'BitXor') and (a.tag == 'b' or b.tag == 'b'):
        x, y = E.tobool(a), E.tobool(b)
        if op == 'BitAnd':
            return bval(D.and_(x, y))
        if op == 'BitOr':
            return bval(D.or_(x, y))
        return bval(D.or_(D.and_(x, D.not_(y)), D.and_(D.not_(x), y)))
    if op.endswith('WithOverflow'):
        o = OPS[op[:-12]]
        if o in ('<<', '>>') or dty < 0:
            dty = value_ty(E, a, b)
        v = arith(E, o, a, b, dty)
        ty = E.tystr(dty)
        tr = INT.get(ty)
        ovf = F
        if ty != 'usize' or o != '+':
            x, y = rng(E, a), rng(E, b)
            r = None
            if x and y:
                if o == '+':
                    r = (x[0] + y[0], x[1] + y[1])
                elif o == '-':
                    r = (x[0] - y[1], x[1] - y[0])
                elif o == '*':
                    ps = [i * j for i in x for j in y]
                    r = (min(ps), max(ps))
            if o == '+' and b.tag == 'c' and b.a[0] == 1 and counter(a):
                r = tr = None
            elif r is None or tr is None or r[0] < tr[0] or r[1] > tr[1]:
                ovf = D.eq(('ovf', o, a, b), 1, (0, 1))
        return mk('tup', (v, bval(ovf)))
    op = op.replace('Unchecked', '')
    if op in OPS:
        return arith(E, OPS[op], a, b, dty)
    return term(op, (dp(E, st, a), dp(E, st, b)))


def counter(v):
    """a number that starts at a constant and only ever grows by one per round: it cannot outgrow memory"""
    for _, x in alts(v):
        if x.tag == 't' and x.a[0] == '+' and x.a[1][1].tag == 'c':
            x = x.a[1][0]
        if x.tag == 't' and x.a[0] == '+' and x.a[1][0].tag == 'c':
            x = x.a[1][1]
        if not (x.tag == 'c' or x.tag == 't' and x.a[0] == 'loopvar'):
            return False
    return True


ORD = 'std::cmp::Ordering'


def ordering(E, st, a, b):
    lt = cmp_cond(E, 'lt', a, b)
    gt = cmp_cond(E, 'gt', a, b)
    eq = D.not_(D.or_(lt, gt))
    # variants Less(-1)=0 Equal(0)=1 Greater(1)=2
    return gamma([(lt, adt(ORD, 0, ())), (eq, adt(ORD, 1, ())), (gt, adt(ORD, 2, ()))])


def unop(E, st, op, a):
    a = rd(E, st, a)
    if op == 'Not':
        if a.tag in ('b', 'g') or (a.tag == 't' and E.ty(a.a[2])['k'] == 'bool') or (a.tag == 't' and a.a[2] < 0):
            return bval(D.not_(E.tobool(a)))
        return term('!', (a,), a.a[2] if a.tag == 't' else UNKNOWN_TY)
    if op == 'Neg':
        if a.tag == 'c':
            return const(-a.a[0], a.a[1])
        return dist(st, a, lambda x: const(-x.a[0], x.a[1]) if x.tag == 'c' else term('neg', (x,), x.a[2] if x.tag == 't' else UNKNOWN_TY))
    if op == 'PtrMetadata':
        return length(E, st, a)
    return term(op, (dp(E, st, a),))


def ascii_text(E, v):
    if v.tag == 'c':
        return isinstance(v.a[0], str) and v.a[0].isascii()
    if v.tag == 'g':
        return all(ascii_text(E, x) for _, x in v.a[0])
    if v.tag == 't' and v.a[0] == 'cat':
        return all(ascii_text(E, x) for x in v.a[1])
    if v.tag == 't' and v.a[0] in ('cap', 'text'):
        from . import m_str, pest
        n = m_str.text_nfa(E, v)
        return n is not None and all(hi < 128 for _, hi in pest.alphabet(n))
    return False


def cap_lengths(E, v):
    from . import m_str, pest
    c = E.__dict__.setdefault('_caplen', {})
    if v not in c:
        n = m_str.text_nfa(E, v)
        c[v] = pest.lengths(n) if n is not None and ascii_text(E, v) else None
    return c[v]


def length(E, st, v):
    v = rd(E, st, v)
    if v.tag == 'arr':
        return const(len(v.a[0]), 'usize')
    if v.tag == 'c':
        return const(len(v.a[0].encode()), 'usize')
    if v.tag == 'coll':
        if not v.a[1]:
            return const(0, 'usize')
        if all(not s.a[0] and s.a[1] == T and s.a[3] == 'push' for s in v.a[1]) and v.a[0] == 'vec':
            return const(len(v.a[1]), 'usize')
    if v.tag == 'g':
        return gamma([(c, length(E, st, x)) for c, x in v.a[0]])
    if I.known_len(v):
        return const(I.known_len(v), 'usize')
    r = fin(E, v, lambda s: const(len(s.encode()), 'usize'))
    if r is not None:
        return r
    if v.tag == 't' and v.a[0] == 'cap':
        ls = cap_lengths(E, v)
        if ls:
            return gamma([(D.eq(('val', term('len', (v,), E.find_ty('usize'))), n, tuple(ls)), const(n, 'usize')) for n in ls])
    if v.tag == 't' and v.a[0] == 'cat':
        r = const(0, 'usize')
        for x in v.a[1]:
            n = length(E, st, x) if x.tag in ('c', 't') else None
            if n is None or not all(y.tag == 'c' for _, y in alts(n)):
                r = None
                break
            r = arith(E, '+', r, n)
        if r is not None:
            return r
    return term('len', (v,), E.find_ty('usize'))


def cast(E, st, kind, a, to, frm):
    if not kind.startswith(('Int', 'Float')):
        return a
    a = rd(E, st, a)
    return dist(st, a, lambda x: cast1(E, kind, x, to, frm))


def cast1(E, kind, a, to, frm):
    t = E.tystr(to)
    if kind == 'IntToInt':
        if a.tag == 'b':
            return gamma([(a.a[0], const(1, t)), (D.not_(a.a[0]), const(0, t))])
        if a.tag == 'c':
            x = a.a[0]
            if isinstance(x, str):
                x = ord(x)
            lo, hi = INT.get(t, (None, None))
            if t == 'char':
                return const(chr(x), 'char')
            if lo is not None and not lo <= x <= hi:
                m = hi - lo + 1
                x = (x - lo) % m + lo
            return const(x, t)
        if a.tag == 'disc':
            return a
        r = rng(E, a)
        tr = INT.get(t)
        if r and tr and r[0] >= tr[0] and r[1] <= tr[1]:
            return term(a.a[0], a.a[1], to) if a.tag == 't' and a.a[0] in ('num:int',) else retype(a, to)
        return term('wrap:' + t, (a,), to)
    if kind == 'IntToFloat':
        if a.tag == 'c':
            return const(float(a.a[0]), t)
        return term('float', (a,), to)
    if kind == 'FloatToInt':
        if a.tag == 'c':
            return const(int(a.a[0]), t)
        return term('trunc:' + t, (a,), to)
    if kind == 'FloatToFloat':
        if a.tag == 'c':
            return const(a.a[0], t)
        return term('fcast:' + t, (a,), to)
    return term('cast:' + t, (a,), to)


def retype(a, to):
    return a


# ------------------------------------------------------------------ indexing / elements
def index_val(E, st, v, idx):
    v = rd(E, st, v)
    idx = rd(E, st, idx)
    if v.tag == 'g':
        return gamma([(c, index_val(E, st, x, idx)) for c, x in v.a[0] if D.and_(c, st.pc) != F])
    if idx.tag == 'c':
        if v.tag == 'arr' and idx.a[0] < len(v.a[0]):
            return v.a[0][idx.a[0]]
        if v.tag == 'coll' and v.a[0] == 'vec' and all(not s.a[0] and s.a[1] == T and s.a[3] == 'push' for s in v.a[1][:idx.a[0] + 1]) and idx.a[0] < len(v.a[1]):
            return v.a[1][idx.a[0]].a[2]
        r = fin(E, v, lambda s: const(s.encode()[idx.a[0]], 'u8') if idx.a[0] < len(s.encode()) else UNDEF)
        if r is not None:
            return r
        if idx.a[0] == 0:
            return first_of(E, st, v)
    if pos_in(E, dp(E, st, v), idx):
        from .m_iter import elem_of
        return elem_of(E, st, v, idx.a[1][0][0])
    return term('idx', (dp(E, st, v), idx), elem_ty(E, v))


def pos_in(E, v, idx):
    """is idx the running position of a plain traversal of v?"""
    if idx.tag != 't' or idx.a[0] != 'pos' or v.tag != 't' or not isinstance(idx.a[1][0], tuple) or len(idx.a[1][0]) != 1:
        return False
    m = idx.a[1][0][0]
    return m.tag == 'over' and m.a[0] == 'item' and m.a[1] is v


def elem_ty(E, v):
    """element type of a collection-typed term"""
    return elem_ty_of(E, v.a[2]) if v.tag == 't' else UNKNOWN_TY


def elem_ty_of(E, ty):
    if ty is not None and ty >= 0:
        t = E.ty(E.stripbox(ty))
        if t['k'] in ('slice', 'array'):
            return t['t']
        if t['k'] == 'adt' and t.get('args'):
            p = t['path']
            if p.endswith(('HashMap', 'BTreeMap', 'MultiMap', 'phf::Map')):
                return t['args'][1]
            return t['args'][0]
    return UNKNOWN_TY


def key_ty(E, v):
    if v.tag == 't':
        t = E.ty(E.stripbox(v.a[2]))
        if t['k'] == 'adt' and t.get('args'):
            return t['args'][0]
    return UNKNOWN_TY


def first_of(E, st, v):
    if v.tag == 'coll' and v.a[1]:
        s = v.a[1][0]
        if not s.a[0] and s.a[1] == T and s.a[3] == 'push':
            return s.a[2]
    if v.tag == 'arr' and v.a[0]:
        return v.a[0][0]
    return term('first', (dp(E, st, v),), elem_ty(E, v))


def const_index(E, st, v, off, from_end):
    v = rd(E, st, v)
    if v.tag == 'g':
        return gamma([(c, const_index(E, st, x, off, from_end)) for c, x in v.a[0]])
    if v.tag == 'arr':
        i = len(v.a[0]) - off if from_end else off
        return v.a[0][i] if 0 <= i < len(v.a[0]) else UNDEF
    if not from_end:
        return index_val(E, st, v, const(off, 'usize'))
    if off == 1:
        return last_of(E, st, v)
    return term('fromend', (dp(E, st, v), off), elem_ty(E, v))


def plain(E, v):
    """a list made of all the elements of another one, in order, is that list"""
    if v.tag == 'coll' and v.a[0] == 'vec' and len(v.a[1]) == 1:
        s = v.a[1][0]
        if s.a[1] == T and s.a[3] == 'push' and len(s.a[0]) == 1 and s.a[0][0].tag == 'over' and s.a[0][0].a[0] == 'item' and s.a[2].tag == 't' and s.a[2].a[0] == 'el' and s.a[2].a[1][0] is s.a[0][0]:
            x = s.a[0][0].a[1]
            if isinstance(x, I.Val) and x.tag == 't' and x.a[2] >= 0:
                t = E.ty(E.stripbox(x.a[2]))
                if t['k'] in ('slice', 'array') or t.get('path') == 'std::vec::Vec':
                    return x
    return v


def last_of(E, st, v):
    v = plain(E, v)
    if growing(E, v):
        s = v.a[1][-1]
        if s.a[3] == 'push' and D.implies(st.pc, s.a[1]) and not s.a[0]:
            return s.a[2]
        return term('last', (sofar(E, v),), elem_ty(E, v))
    if v.tag == 'coll' and v.a[1]:
        s = v.a[1][-1]
        if not s.a[0] and s.a[1] == T and s.a[3] == 'push':
            return s.a[2]
    if v.tag == 'arr' and v.a[0]:
        return v.a[0][-1]
    return term('last', (dp(E, st, v),), elem_ty(E, v))


def subslice(E, st, v, frm, to, from_end):
    v = rd(E, st, v)
    if v.tag == 'arr':
        n = len(v.a[0])
        return mk('arr', v.a[0][frm:(n - to if from_end else to)])
    return term('sub', (dp(E, st, v), frm, to, from_end), v.a[2] if v.tag == 't' else UNKNOWN_TY)


def load_elem(E, st, v, key):
    """key: ('last',) | ('key', k) | ('each', marker) ; each with a trailing element type"""
    v = rd(E, st, v)
    kind = key[0]
    for s in reversed(v.a[1] if v.tag == 'coll' else ()):
        if isinstance(s.a[3], tuple) and s.a[3] == ('upd',) + key[:2] and s.a[1] == T and not s.a[0]:
            return s.a[2]
        if kind == 'key' and s.a[3] in ('ins',) and s.a[2].tag == 'tup' and s.a[2].a[0][0] is key[1] and not s.a[0] and D.implies(st.pc, s.a[1]):
            return s.a[2].a[0][1]
        if kind == 'last' and s.a[3] == 'push' and not s.a[0] and D.implies(st.pc, s.a[1]):
            return s.a[2]
        if kind == 'each':
            continue
        break
    if v.tag == 't':
        if kind == 'last':
            return last_of(E, st, v)
        if kind == 'key':
            return lookup_term(E, v, key[1])
    if kind == 'key':
        return term('cur', (key[1],), key[2])
    if kind == 'each':
        return term('el', (key[1],), key[2])
    return term('cur', ('last',), key[2])


def store_elem(E, st, v, key, rest, val):
    if v.tag == 'arr' and isinstance(key, I.Val) and key.tag == 'c' and isinstance(key.a[0], int) and key.a[0] < len(v.a[0]):
        xs = list(v.a[0])
        xs[key.a[0]] = E.upd(st, xs[key.a[0]], rest, val)
        return mk('arr', tuple(xs))
    if not isinstance(key, tuple):
        key = ('idx', key, elem_ty(E, v))
    if v.tag == 'g':
        return gamma([(c, store_elem(E, st, x, key, rest, val) if D.and_(c, st.pc) != F else x) for c, x in v.a[0]])
    c = ascoll(E, v)
    last = c.a[1][-1] if c.a[1] else None
    if last is not None and last.a[3] == ('upd',) + key[:2] and last.a[1] == st.pc and last.a[0] == st.ctx[c.a[2]:]:
        # further writes into the entry just written
        nv = E.upd(st, last.a[2], rest, val) if rest else val
        return coll(c.a[0], c.a[1][:-1] + (seg(last.a[0], last.a[1], nv, last.a[3]),), c.a[2])
    base = load_elem(E, st, v, key)
    nv = E.upd(st, base, rest, val) if rest else val
    return addseg(E, st, c, nv, ('upd',) + key[:2])


def ascoll(E, v, kind=None):
    """term collection -> coll with one 'ext' contribution"""
    if v.tag == 'coll':
        return v
    if v.tag == 'undef':
        return coll(kind or 'vec')
    if v.tag == 'arr':
        return coll('vec', [seg((), T, x) for x in v.a[0]])
    if v.tag == 'c' and v.a[1] == 'str':
        return coll('str', [seg((), T, v)] if v.a[0] else [])
    return coll(kind or ckind(E, v), [seg((), T, v, 'ext')], len(E.cur.ctx))


def ckind(E, v):
    if v.tag == 't':
        s = E.ty(E.stripbox(v.a[2])).get('path', '')
        for a, b in (('HashMap', 'hmap'), ('HashSet', 'hset'), ('MultiMap', 'mmap'), ('BTreeMap', 'bmap'), ('BTreeSet', 'bset'), ('String', 'str')):
            if s.endswith(a):
                return b
    return 'vec'


def addseg(E, st, c, val, how='push'):
    if c.tag != "coll": raise AssertionError("addseg on "+I.show(c)[:200])
    over = st.ctx[c.a[2]:]
    g = seg(over, st.pc, val, how)
    segs = c.a[1]
    for i, s in enumerate(segs):
        if s.a[0] == g.a[0] and s.a[2] is g.a[2] and s.a[3] == g.a[3] and (i == len(segs) - 1 or over):
            n = seg(over, D.or_(s.a[1], st.pc), val, how)
            return coll(c.a[0], segs[:i] + (n,) + segs[i + 1:], c.a[2])
    return coll(c.a[0], segs + (g,), c.a[2])


def within(E, care, v):
    """a collection filled where care holds: its contributions do not repeat that"""
    if v.tag != 'coll' or care == T or not v.a[1]:
        return v
    out = []
    for s in v.a[1]:
        c = I.outside(care, s.a[0])
        g = D.restrict(s.a[1], c)
        out.append(s if g == s.a[1] or g == F else I.seg(s.a[0], g, s.a[2], s.a[3]))
    return coll(v.a[0], tuple(out), v.a[2])


def lookup_term(E, m, k):
    """value term for 'entry k of map term m' (assumed present)"""
    return term('at', (m, k), elem_ty(E, m))


NUMERIC = ('parses', 'fits', 'ovf')


def after_panic(pc, good):
    """path condition once a possible panic was passed: numeric-range facts learnt that way are not kept,
    so that they do not leak into the guards of everything computed afterwards (over-approximation)"""
    g = D.restrict(good, pc)
    g = D.forget(g, lambda k: isinstance(k, tuple) and k and k[0] in NUMERIC)
    return D.and_(pc, g)


def check_assert(E, st, fid, t, n):
    m = t['m'][0]
    if m in ('other',):
        return
    E.oblige(st, 'assert:' + m)
    bad = D.and_(st.pc, D.not_(n))
    if bad != F:
        s2 = st.fork(bad)
        E.panic(s2, m, t['m'][1] if m == 'overflow' else '', st.pc)


def widen_iter(E, v):
    t = v.tag
    if t == 'pairs':
        return pairs_widen(E, v)
    if t == 'it':
        return it_widen(E, v)
    if t == 'adt':
        return adt(v.a[0], v.a[1], [widen_iter(E, x) for x in v.a[2]])
    if t in ('tup', 'arr'):
        return mk(t, tuple(widen_iter(E, x) for x in v.a[0]))
    if t == 'clo':
        return mk('clo', v.a[0], tuple(widen_iter(E, x) for x in v.a[1]))
    if t == 'g':
        return gamma([(c, widen_iter(E, x)) for c, x in v.a[0]])
    return v


def havoc(E, st, name, args):
    """an unmodelled callee: whatever it can reach through mutable references becomes unknown"""
    for a in args:
        for c, r in alts(a):
            if r.tag == 'ref':
                old = E.load(st, r.a[0], r.a[1])
                if old.tag not in ('undef',):
                    wr(E, st, r, term('mut:' + name, (dp(E, st, old),), old.a[2] if old.tag == 't' else UNKNOWN_TY))


def ret_arg(E, t, i):
    """i-th generic argument of the (adt) return type of call terminator t"""
    if not t:
        return UNKNOWN_TY
    ty = E.ty(t['dty'])
    if ty['k'] == 'adt' and i < len(ty.get('args', ())):
        return ty['args'][i]
    return UNKNOWN_TY


def rename(v, ren):
    """substitute over-markers inside a value"""
    if not ren:
        return v
    pren = {(m.a[1],) + m.a[2]: n.a[2] for m, n in ren.items() if m.a[0] == 'pairs'}
    iren = {m: n for m, n in ren.items() if m.a[0] == 'item'}
    memo = {}
    cmemo = {}

    def origin(gk, o):
        for i in range(len(o), 0, -1):
            n = pren.get((gk,) + o[:i])
            if n:
                return n + o[i:]
        return o

    def go(v):
        if v in memo:
            return memo[v]
        t = v.tag
        if v in iren:
            r = iren[v]
        elif t == 'pair':
            r = mk('pair', v.a[0], v.a[1], origin(v.a[0], v.a[2]))
        elif t == 'pairs':
            r = mk('pairs', v.a[0], origin(v.a[0], v.a[1]), v.a[2], v.a[3])
        elif t in ('c', 'fn', 'undef', 'ref'):
            r = v
        elif t == 'b':
            r = bval(cond(v.a[0]))
        elif t == 'g':
            r = gamma([(cond(c), go(x)) for c, x in v.a[0]])
        elif t == 'seg':
            r = I.seg(sub(v.a[0]), cond(v.a[1]), go(v.a[2]), sub(v.a[3]))
        else:
            r = mk(t, *[sub(x) for x in v.a])
        memo[v] = r
        return r

    def cond(n):
        if n < 2:
            return n
        r = cmemo.get(n)
        if r is None:
            v, e, d = D.info[n]
            k = D.keys[v]
            if isinstance(k, tuple) and len(k) == 3 and k[0] == 'any' and isinstance(k[2], int):
                k2 = k if any(m in ren for m in k[1]) else ('any', sub(k[1]), cond(k[2]))
            else:
                k2 = sub(k) if isinstance(k, tuple) else k
            w = v if k2 == k else D.var(k2, D.dom[v])
            r = cmemo[n] = D.ite_var(w, {x: cond(m) for x, m in e.items()}, None if d is None else cond(d))
        return r

    def sub(x):
        if isinstance(x, I.Val):
            return go(x)
        if isinstance(x, tuple):
            return tuple(sub(y) for y in x)
        return x
    return cond(v) if isinstance(v, int) else go(v)


def generic_elem(E, c, m):
    """element of a collection too complex to enumerate"""
    tys = None
    for s in c.a[1]:
        if s.a[2].tag == 'tup' and c.a[0] in ('hmap', 'mmap', 'bmap'):
            tys = 1
    if c.a[0] in ('hmap', 'mmap', 'bmap'):
        return mk('tup', (term('key', (m,)), term('el', (m,), sample_ty(E, c))))
    return term('el', (m,), sample_ty(E, c))


def sample_ty(E, c):
    """type of the elements of a coll, from any contribution that shows it"""
    for s in c.a[1]:
        v = s.a[2]
        if s.a[3] == 'ext':
            r = elem_ty(E, v)
            if r >= 0:
                return r
            continue
        if c.a[0] in ('hmap', 'mmap', 'bmap') and v.tag == 'tup' and len(v.a[0]) == 2:
            v = v.a[0][1]
        r = type_of(E, v)
        if r >= 0:
            return r
    return UNKNOWN_TY


def type_of(E, v):
    if v.tag == 't':
        return v.a[2]
    if v.tag == 'adt':
        for i, t in enumerate(E.T):
            if t['k'] == 'adt' and t['path'] == v.a[0] and not t.get('args'):
                return i
    if v.tag == 'c' and isinstance(v.a[1], str):
        return E.find_ty(v.a[1])
    if v.tag == 'g':
        return type_of(E, v.a[0][0][1])
    return UNKNOWN_TY
