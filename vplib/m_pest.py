"""pest pairs: the children of a pair are described by the rule's Glushkov automaton."""
from .models import *
from .models import model, rd, wr, dp
from .interp import D, T, F, mk, term, adt, some, ok, err, NONE, UNDEF, St
from . import models as MM
from . import pest as G


def mkpairs(gk, origin, rule, q=('S',)):
    return mk('pairs', gk, origin, rule, q)


def child(E, v):
    return E.gram(v.a[0]).child_of(v.a[2])


def q_opts(E, v):
    """(option positions, may end)"""
    c = child(E, v)
    q = v.a[3]
    if q[0] == 'S':
        return c['first'], c['nullable']
    if q[0] == 'P':
        o = frozenset()
        for p in q[1]:
            o |= c['follow'][p]
        return o, any(p in c['last'] for p in q[1])
    return frozenset(q[1]), q[2]


def closure(c, ps):
    """positions reachable while staying inside repetitions (the first one after them included)"""
    seen, st = set(ps), list(ps)
    while st:
        x = st.pop()
        if not c['starred'][x]:
            continue
        for y in c['follow'][x]:
            if y not in seen:
                seen.add(y)
                st.append(y)
    return frozenset(seen)


def needs_widen(E, v):
    if v.tag == 'pairs':
        if v.a[3][0] == 'L':
            return False
        o, _ = q_opts(E, v)
        c = child(E, v)
        return any(c['starred'][p] for p in o)
    if v.tag == 'it':
        from .m_iter2 import it_needs_widen
        return it_needs_widen(E, v)
    for x in MM.flatvals(v):
        if I.has_iter(x) and needs_widen(E, x):
            return True
    return False


def pairs_widen(E, v):
    if needs_widen(E, v):
        o, end = q_opts(E, v)
        c = child(E, v)
        cl = closure(c, o)
        end = end or any(c['starred'][p] and p in c['last'] for p in cl)
        return mkpairs(v.a[0], v.a[1], v.a[2], ('L', tuple(sorted(cl)), end))
    return v


MM.pairs_widen = pairs_widen
MM.needs_widen = needs_widen


def by_name(c, opts):
    d = {}
    for p in sorted(opts):
        d.setdefault(c['pos'][p], []).append(p)
    return d


def qlabel(c, q):
    if q[0] == 'S':
        return 'start'
    return 'after ' + c['names'][min(q[1])] + ('+%d' % q[2] if len(q) > 2 and q[2] else '')


def choice_cond(E, v, what):
    """condition that the next child is named `what` (or 'END')"""
    c = child(E, v)
    o, end = q_opts(E, v)
    dom = sorted(by_name(c, o)) + (['END'] if end else [])
    if len(dom) == 1:
        return T
    return D.eq(('next', v.a[0], v.a[1], qlabel(c, v.a[3])), what, tuple(dom))


def over_pairs(gk, origin):
    return mk('over', 'pairs', gk, origin)


def pair_children(E, v):
    """one step from state v: list of (cond, over markers, pair, next pairs state) and end condition"""
    gk, origin, rule, q = v.a
    c = child(E, v)
    o, end = q_opts(E, v)
    outs = []
    for r, ps in by_name(c, o).items():
        star = any(c['starred'][p] for p in ps)
        nm = c['names'][ps[0]] if len(ps) == 1 or not star else r
        if q[0] == 'L':
            if star:
                org = origin + (r + '*',)
                outs.append((T, (over_pairs(gk, org),), mk('pair', gk, r, org), v))
            else:
                org = origin + (nm,)
                cond = T if mandatory(c, q[1], ps) else D.eq(('has', gk, org), 1, (0, 1))
                outs.append((cond, (), mk('pair', gk, r, org), mkpairs(gk, origin, rule, ('P', tuple(ps)))))
        else:
            n = (q[2] if len(q) > 2 else 0)
            if star:
                org = origin + ('%s[%d]' % (r, n),)
                nq = ('P', tuple(ps), n + 1)
            else:
                org = origin + (nm,)
                nq = ('P', tuple(ps))
            outs.append((choice_cond(E, v, r), (), mk('pair', gk, r, org), mkpairs(gk, origin, rule, nq)))
    if q[0] == 'L':
        return outs, (T if end else F)
    return outs, (choice_cond(E, v, 'END') if end else F)


def mandatory(c, frm, ps):
    """does every accepting path from the option set frm pass through ps?"""
    seen, st = set(), [p for p in frm if p not in ps]
    if not any(p in frm for p in ps):
        return False
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in c['last']:
            return False
        st.extend(y for y in c['follow'][x] if y not in ps)
    return True


def enum_pairs(E, v):
    """all children from state v as (over, cond, pair), for total consumption"""
    out = []
    work = [(T, v)]
    seen = 0
    while work:
        cond, s = work.pop(0)
        seen += 1
        if seen > 200:
            raise Unsupported('too many child paths')
        s = pairs_widen(E, s)
        if s.a[3][0] == 'L':
            outs, _ = pair_children(E, s)
            for c2, ov, p, ns in outs:
                n = D.and_(cond, c2)
                out.append((ov, n, p))
                if not ov and n != F:
                    work.append((n, ns))
            continue
        outs, _ = pair_children(E, s)
        for c2, ov, p, ns in outs:
            n = D.and_(cond, c2)
            if n != F:
                out.append((ov, n, p))
                work.append((n, ns))
    res, idx = [], {}
    for ov, c, p in out:
        k = (ov, p)
        if k in idx:
            i = idx[k]
            res[i] = (ov, D.or_(res[i][1], c), p)
        else:
            idx[k] = len(res)
            res.append((ov, c, p))
    return res


def pairs_next(E, st, r, v):
    """-> [(state, Option<Pair>)]"""
    outs, end = pair_children(E, v)
    res = []
    for cond, ov, p, ns in outs:
        pc = D.and_(st.pc, cond)
        if pc == F:
            continue
        s = st.fork(pc)
        if ov:
            m = ov[0]
            k = 0
            while m in s.ctx:
                k += 1
                base = p.a[2][-1].rstrip('*').split('+')[0]
                org = p.a[2][:-1] + ('%s+%d*' % (base, k),)
                p = mk('pair', p.a[0], p.a[1], org)
                m = over_pairs(p.a[0], org)
            s.ctx = s.ctx + (m,)
        wr(E, s, r, ns)
        res.append((s, some(p)))
    pc = D.and_(st.pc, end)
    if pc != F:
        res.append((st.fork(pc), NONE))
    return res


def rule_enum(E, gk):
    mod = gk.rsplit('::', 1)[0]
    return mod + '::Rule'


def rule_adt(E, gk, rule):
    path = rule_enum(E, gk)
    a = E.adts[path]
    for i, v in enumerate(a['variants']):
        if v['name'].replace('r#', '') == rule:
            return adt(path, i, ())
    raise Unsupported('rule %s of %s' % (rule, gk))


@model('pest::iterators::Pair::as_rule')
def _(E, st, f, a, site, t):
    return MM.dist(st, rd(E, st, a[0]), lambda p: rule_adt(E, p.a[0], p.a[1]) if p.tag == 'pair' else term('rule', (p,)))


@model('pest::iterators::Pair::as_str', 'pest::iterators::Pair::as_span', 'pest::Span::as_str', 'pest::Span::get_input')
def _(E, st, f, a, site, t):
    def go(p):
        if p.tag == 't' and p.a[0] == 'text':
            return p
        if p.tag == 'pair':
            if p.a[1] == 'EOI':
                return MM.sval('')
            dom = E.gram(p.a[0]).finite(p.a[1])
            if dom is not None and len(dom) == 1:
                return MM.sval(dom[0])
        return term('text', (p,), E.find_ty('str'))
    return MM.dist(st, rd(E, st, a[0]), go)


@model('pest::iterators::Pairs::as_str')
def _(E, st, f, a, site, t):
    v = rd(E, st, a[0])
    return term('text', (v,), E.find_ty('str'))


@model('pest::iterators::Pair::into_inner')
def _(E, st, f, a, site, t):
    def go(p):
        if p.tag == 'pair':
            return mkpairs(p.a[0], p.a[2], p.a[1])
        return term('inner', (p,), t['dty'] if t else -1)
    return MM.dist(st, rd(E, st, a[0]), go)


@model('pest::Parser::parse')
def _(E, st, f, a, site, t):
    gk = 'crate::' + E.tystr(f['targs'][0]) if not E.tystr(f['targs'][0]).startswith('crate') else E.tystr(f['targs'][0])
    ty = E.ty(f['targs'][0])
    gk = ty['path']
    r = rd(E, st, a[0])
    content = dp(E, st, a[1])
    if r.tag != 'adt':
        return term('parse', (r, content), t['dty'])
    rule = E.adts[r.a[0]]['variants'][r.a[1]]['name']
    c = D.eq(('parse', gk, rule, content), 'Ok', ('Ok', 'Err'))
    E.event('parse', st, (gk, rule, content))
    e = term('parse_error', (gk, rule, content), MM.ret_arg(E, t, 1))
    return gamma([(c, ok(mkpairs(gk, (), '^' + rule))), (D.not_(c), err(e))])


@model('pest::iterators::Pairs::peek')
def _(E, st, f, a, site, t):
    v = rd(E, st, a[0])
    if v.tag != 'pairs':
        return None
    outs, end = pair_children(E, v)
    return gamma([(c, some(p)) for c, ov, p, ns in outs] + [(end, NONE)])


@model('from_pest::FromPest::from_pest')
def _(E, st, f, a, site, t):
    """the Vec implementation: converts leading pairs for as long as the element type matches"""
    ty = E.ty(f['targs'][0]) if f.get('targs') else {}
    if not ty.get('path', '').endswith('vec::Vec') or not f.get('rpath', '').startswith('<std::vec::Vec'):
        raise Unsupported('from_pest for ' + ty.get('s', '?'))
    el = E.ty(ty['args'][0])
    sname = el.get('path', '').replace('crate::', '')
    fid = None
    for im in E.facts['impls']:
        if im['trait'] and 'FromPest' in im['trait'] and im['self'].replace('crate::', '') == sname:
            fid = [m for m in im['methods'] if m[0] == 'from_pest'][0][1]
    if fid is None:
        raise Unsupported('no FromPest impl for ' + el.get('s', '?'))
    from .m_iter import mkit
    v = pairs_widen(E, rd(E, st, a[0]))
    st = st.fork()
    if v.tag != 'pairs' or v.a[3][0] != 'L':
        raise Unsupported('from_pest on ' + v.tag)
    outs, end = pair_children(E, v)
    acc = I.coll('vec', (), len(st.ctx))
    done = set()
    for cond, ov, p, ns in outs:
        s = st.fork(D.and_(st.pc, cond))
        s.ctx = s.ctx + tuple(ov)
        cell = ('fp', E.stack[-1][0], site, p)
        s.mem[cell] = mkit(mk('arr', (p,)))
        rs = E.call_fn(fid, [mk('ref', cell, ())], s, (site, p.a[1])) or []
        oks, errs = [], []
        for s2, r in rs:
            for c, x in I.alts(r):
                pc = D.and_(s2.pc, c)
                if pc != F:
                    (oks if x.tag == 'adt' and x.a[1] == 0 else errs).append((pc, x, s2))
        if oks and not errs and ov:
            done.add(p.a[1])
            for pc, x, s2 in oks:
                s3 = s2.fork(pc)
                acc = MM.addseg(E, s3, acc, E.deep(s2, x.a[2][0]))
        elif oks:
            raise Unsupported('conditional from_pest of ' + p.a[1])
    c = child(E, v)
    rest = tuple(x for x in v.a[3][1] if c['rule'][x] not in done) if 'rule' in c else tuple(x for r, ps in by_name(c, v.a[3][1]).items() if r not in done for x in ps)
    wr(E, st, a[0], mkpairs(v.a[0], v.a[1], v.a[2], ('L', rest, v.a[3][2])))
    return [(st, ok(acc))]
