"""iterators: a source, a chain of per-item stages, and consumers."""
from .models import *
from .models import model, rd, wr, dp
from .interp import D, T, F, mk, term, adt, some, ok, err, NONE, UNDEF, UNIT, St, bval, gamma, seg, coll, const, alts
from . import models as MM
from . import m_pest as MP
from . import interp as I

HASHY = ('hmap', 'hset', 'mmap')


def mkit(src, stages=(), pos='S'):
    return mk('it', src, tuple(stages), pos)


def over_item(st, src):
    """fresh marker for iterating src in the current context"""
    k = 0
    while True:
        m = mk('over', 'item', src, k)
        if m not in st.ctx:
            return m
        k += 1


def el(E, m, ty):
    return term('el', (m,), ty)


def is_hash_ty(E, ty):
    s = E.ty(E.stripbox(ty)).get('path', '') if ty >= 0 else ''
    return s.endswith(('HashMap', 'HashSet', 'MultiMap'))


def elem_of(E, st, src, m):
    """generic element of a collection-typed term"""
    ty = E.ty(E.stripbox(src.a[2])) if src.tag == 't' else {'k': '?'}
    p = ty.get('path', '')
    if p.endswith(('HashMap', 'BTreeMap', 'MultiMap')):
        return mk('tup', (term('key', (m,), ty['args'][0]), term('el', (m,), ty['args'][1])))
    if p.endswith(('Str', 'String')):
        return term('el', (m,), E.find_ty('char'))
    return term('el', (m,), MM.elem_ty(E, src))


def as_it(E, st, v, keepref=False):
    """anything iterable -> iterator value"""
    v0 = v
    if v.tag == 'ref':
        x = E.load(st, v.a[0], v.a[1])
        if x.tag in ('it', 'pairs') or (x.tag == 'ref'):
            return as_it(E, st, x) if not keepref else v
        if x.tag == 'g' or x.tag in ('coll', 't', 'arr', 'adt'):
            return mkit(v, (('mut',),))
    if v.tag in ('it', 'pairs'):
        return v
    v = rd(E, st, v)
    b = None
    if v.tag == 'adt' and v.a[0].endswith('ops::Range') and len(v.a[2]) == 2:
        b = v.a[2][0], v.a[2][1], 0
    if v.tag == 't' and v.a[0] == 'range_incl':
        b = v.a[1][0], v.a[1][1], 1
    if b and b[0].tag == 'c' and b[1].tag == 'c' and isinstance(b[0].a[0], int) and 0 <= b[1].a[0] - b[0].a[0] <= 16:
        v = mk('arr', tuple(const(i, b[0].a[1]) for i in range(b[0].a[0], b[1].a[0] + b[2])))
    return mkit(v)


def src_flows(E, st, src, mut=False):
    """list of (over, cond, val) that make up one traversal of src; over=() entries are single items"""
    if src.tag == 'g':
        out = []
        for c, x in src.a[0]:
            if D.and_(c, st.pc) != F:
                out.extend((o, D.and_(c, k), v) for o, k, v in src_flows(E, st, x))
        return out
    if src.tag == 'pairs':
        return MP.enum_pairs(E, src)
    if src.tag == 'flows':
        return list(src.a[0])
    if src.tag == 'arr':
        return [((), T, x) for x in src.a[0]]
    if src.tag == 'adt':
        if src.a[0] == I.OPT:
            return [((), T, src.a[2][0])] if src.a[1] == 1 else []
        if src.a[0] == I.RES:
            return [((), T, src.a[2][0])] if src.a[1] == 0 else []
        if 'Range' in src.a[0]:
            b = src.a[2]
            if src.a[0].endswith('ops::Range') and len(b) == 2 and b[0].tag == 'c' and b[0].a[0] == 0 and b[1].tag == 't' and b[1].a[0] == 'len':
                # 0..x.len(): the positions of x
                x = b[1].a[1][0]
                return [(o, c, term('pos', (o,), E.find_ty('usize'))) for o, c, v in src_flows(E, st, x) if o]
            m = over_item(st, src)
            return [((m,), T, el(E, m, MM.value_ty(E, src.a[2][0], src.a[2][-1])))]
    if src.tag == 'coll':
        if src.a[0] == 'str' or any(isinstance(s.a[3], tuple) or s.a[3] in ('multi', 'orins') for s in src.a[1]):
            m = over_item(st, src)
            hm = (mk('over', 'hash', src.a[0]),) if src.a[0] in HASHY else ()
            if hm:
                E.__dict__.setdefault('hashitems', set()).add(m)
            return [(hm + (m,), T, E.fm.generic_elem(E, src, m))]
        out = []
        hm = (mk('over', 'hash', src.a[0]),) if src.a[0] in HASHY else ()
        for s in src.a[1]:
            if hm and s.a[2].tag == 'tup' and s.a[2].a[0]:
                E.__dict__.setdefault('hashkeys', {}).setdefault(s.a[0], set()).add(s.a[2].a[0][0])
            if s.a[3] == 'ext':
                for o, c, v in src_flows(E, st, s.a[2]):
                    out.append((hm + s.a[0] + o, D.and_(s.a[1], c), v))
            else:
                o, v, c = fresh_over(st, s.a[0], s.a[2], s.a[1])
                out.append((hm + o, c, v))
        return out
    if src.tag == 't':
        ty = E.ty(E.stripbox(src.a[2]))
        if ty.get('path') == I.OPT:
            c = D.eq(('var', src), 'Some', ('None', 'Some'))
            return [((), c, E.expand_enum(src, 1).a[2][0])]
        m = over_item(st, src)
        hm = (mk('over', 'hash', 'term'),) if is_hash_ty(E, src.a[2]) else ()
        if hm:
            E.__dict__.setdefault('hashitems', set()).add(m)
        return [(hm + (m,), T, elem_of(E, st, src, m))]
    if src.tag == 'wsrc':
        return [((src.a[0],), T, src.a[1])]
    if src.tag == 'undef':
        return []
    m = over_item(st, src)
    return [((m,), T, el(E, m, I.UNKNOWN_TY))]


def fresh_over(st, over, val, cond=T):
    """rename markers already bound in the context (nested traversal of the same thing)"""
    ren = {}
    for m in over:
        if m in st.ctx and m.tag == 'over' and m.a[0] in ('item', 'pairs'):
            k = 1
            while True:
                if m.a[0] == 'item':
                    n = mk('over', 'item', m.a[1], m.a[2] + k)
                else:
                    last = m.a[2][-1].rstrip('*').split('+')[0]
                    n = mk('over', 'pairs', m.a[1], m.a[2][:-1] + ('%s+%d*' % (last, k),))
                if n not in st.ctx:
                    break
                k += 1
            ren[m] = n
    if not ren:
        return over, val, cond
    return tuple(ren.get(m, m) for m in over), MM.rename(val, ren), MM.rename(cond, ren)


def it_flows(E, st, it, site):
    """one traversal: list of (state, val).  States carry the extended context and condition."""
    if it.tag == 'ref':
        it = E.load(st, it.a[0], it.a[1])
    if it.tag == 'g':
        out = []
        for c, x in it.a[0]:
            pc = D.and_(c, st.pc)
            if pc != F:
                out.extend(it_flows(E, st.fork(pc), x, site))
        return out
    if it.tag == 'pairs':
        it = mkit(it)
    if it.tag != 'it':
        it = as_it(E, st, it)
        if it.tag != 'it':
            return it_flows(E, st, it, site)
    src, stages, pos = it.a
    if src.tag == 'chain':
        flows = []
        for x in src.a:
            flows.extend(it_flows(E, st, x, site))
    elif src.tag == 'it':
        flows = it_flows(E, st, src, site)
    elif stages and stages[0] == ('mut',):
        stages = stages[1:]
        tgt = rd(E, st, src)
        ty = MM.elem_ty(E, tgt) if tgt.tag == 't' else MM.elem_ty_of(E, E.place_ty(src.a[0], src.a[1])) if src.tag == 'ref' else I.UNKNOWN_TY
        m = over_item(st, mk('place', src.a[0][1] if isinstance(src.a[0][1], int) else 0))
        s = st.fork()
        s.ctx = s.ctx + (m,)
        if tgt.tag == 'arr':
            flows = [(st, mk('ref', src.a[0], src.a[1] + (('f', i, -1),))) for i in range(len(tgt.a[0]))]
        else:
            flows = [(s, mk('ref', src.a[0], src.a[1] + (('el', ('each', m, ty)),)))]
    else:
        flows = []
        for over, c, v in src_flows(E, st, src):
            pc = D.and_(st.pc, c)
            if pc == F:
                continue
            s = st.fork(pc)
            over, v, _ = fresh_over(s, over, v)
            s.ctx = s.ctx + over
            flows.append((s, v))
    for n, sg in enumerate(stages):
        flows = apply_stage(E, st, flows, sg, (site, n))
    return flows


def dropped(E, s, hit):
    """a stage kept the element only under `hit`: what it did to the state stays done otherwise"""
    if E.drops is not None:
        miss = D.and_(s.pc, D.not_(hit))
        if miss != F:
            E.drops.append((s.fork(miss), hit == F))


def with_drops(E, f):
    old, E.drops = E.drops, []
    try:
        return f(), E.drops
    finally:
        E.drops = old


def apply_stage(E, st0, flows, sg, site):
    k = sg[0]
    out = []
    if k == 'rev':
        for s, v in reversed(flows):
            s = s.fork()
            s.ctx = s.ctx + (mk('over', 'rev'),)
            out.append((s, v))
        return out
    for s, v in flows:
        if k == 'map':
            out.extend(E.call_val(s, sg[1], [v], site))
        elif k == 'filter':
            for s2, b in E.call_val(s, sg[1], [v], site):
                pc = D.and_(s2.pc, E.tobool(b))
                dropped(E, s2, pc)
                if pc != F:
                    out.append((s2.fork(pc), v))
        elif k in ('filter_map', 'flatten_opt'):
            rs = E.call_val(s, sg[1], [v], site) if k == 'filter_map' else [(s, v)]
            for s2, o in rs:
                hit = F
                for pc, x in opt_some(E, s2, o):
                    hit = D.or_(hit, pc)
                    out.append((s2.fork(pc), x))
                dropped(E, s2, hit)
        elif k in ('flat_map', 'flatten'):
            rs = E.call_val(s, sg[1], [v], site) if k == 'flat_map' else [(s, v)]
            for s2, o in rs:
                out.extend(it_flows(E, s2, o, (site, 'f')))
        elif k == 'enumerate':
            out.append((s, mk('tup', (term('pos', (s.ctx[len(st0.ctx):],), E.find_ty('usize')), v))))
        elif k == 'inspect':
            for s2, _ in E.call_val(s, sg[1], [v], site):
                out.append((s2, v))
        elif k in ('take_while', 'skip_while', 'map_while'):
            for s2, b in E.call_val(s, sg[1], [v], site):
                if k == 'map_while':
                    for pc, x in opt_some(E, s2, b):
                        s3 = s2.fork(pc)
                        s3.ctx = s3.ctx + (mk('over', k, I.bval(D.restrict(pc, s2.pc))),)
                        out.append((s3, x))
                else:
                    n = E.tobool(b)
                    s3 = s2.fork()
                    s3.ctx = s3.ctx + (mk('over', k, I.bval(n)),)
                    if k == 'take_while':
                        s3.pc = D.and_(s3.pc, n)
                    if s3.pc != F:
                        out.append((s3, v))
        elif k == 'mark':
            s3 = s.fork()
            s3.ctx = s3.ctx + (mk('over', *sg[1:]),)
            out.append((s3, v))
        elif k == 'sortkey':
            for s2, kv in E.call_val(s, sg[1], [v], site):
                s3 = s2.fork()
                s3.ctx = s3.ctx + (mk('over', sg[2], dp(E, s2, kv)),)
                out.append((s3, v))
        elif k == 'sortself':
            s3 = s.fork()
            s3.ctx = s3.ctx + (mk('over', sg[1], dp(E, s, v)),)
            out.append((s3, v))
        elif k == 'sortcmp':
            # the comparator, applied to an element and a rival element
            riv = MM.rename(dp(E, s, v), {m: mk('over', 'item', m.a[1], m.a[2] + 50) for m in s.ctx[len(st0.ctx):] if m.tag == 'over' and m.a[0] == 'item'})
            for s2, kv in E.call_val(s, sg[1], [v, riv], site):
                s3 = s2.fork()
                s3.ctx = s3.ctx + (mk('over', sg[2], dp(E, s2, kv)),)
                out.append((s3, v))
        elif k == 'sorted':
            s3 = s.fork()
            s3.ctx = s3.ctx + (mk('over', 'sorted', dp(E, s, v)),)
            out.append((s3, v))
        elif k == 'keys':
            out.append((s, v.a[0][0] if v.tag == 'tup' else term('key', (v,))))
        elif k == 'values':
            out.append((s, v.a[0][1] if v.tag == 'tup' else term('val', (v,))))
        else:
            raise Unsupported('stage ' + k)
    return out


def opt_some(E, st, o):
    """[(pc, payload)] for the Some alternatives of an Option value"""
    o = rd(E, st, o)
    out = []
    for c, x in alts(o):
        pc = D.and_(st.pc, c)
        if pc == F:
            continue
        if x.tag == 'adt':
            if x.a[1] == 1:
                out.append((pc, x.a[2][0]))
        elif x.tag == 't':
            pc = D.and_(pc, D.eq(('var', x), 'Some', ('None', 'Some')))
            if pc != F:
                out.append((pc, E.expand_enum(x, 1).a[2][0]))
        elif x.tag != 'undef':
            out.append((pc, term('some?', (x,))))
    return out


def split_result(E, st, o):
    """[(pc, is_ok, payload)]"""
    o = rd(E, st, o)
    out = []
    for c, x in alts(o):
        pc = D.and_(st.pc, c)
        if pc == F:
            continue
        if x.tag == 'adt':
            pay = x.a[2][0] if x.a[2] else UNIT
            okv = x.a[1] == (0 if x.a[0] == I.RES else 1)
            out.append((pc, okv, pay))
        elif x.tag == 't':
            path = E.ty(E.stripbox(x.a[2])).get('path')
            if path == I.RES:
                n = D.eq(('var', x), 'Ok', ('Ok', 'Err'))
                out.append((D.and_(pc, n), True, E.field_term(mk('as', x, 0, 'Ok'), 0, E.ty(E.stripbox(x.a[2]))['args'][0])))
                out.append((D.and_(pc, D.not_(n)), False, E.field_term(mk('as', x, 1, 'Err'), 0, E.ty(E.stripbox(x.a[2]))['args'][1])))
            elif path == I.OPT:
                n = D.eq(('var', x), 'Some', ('None', 'Some'))
                out.append((D.and_(pc, n), True, E.expand_enum(x, 1).a[2][0]))
                out.append((D.and_(pc, D.not_(n)), False, UNIT))
    return [x for x in out if x[0] != F]


def loop_key(E, site):
    fid = E.stack[-1][0]
    return (fid, ('it', site))


def consume(E, st, it, body, site):
    """run body(state, value) for every item; returns the state after the traversal.
    body -> list of states (same context as given)."""
    E.loops.append((len(st.ctx), dict(st.mem)))
    try:
        st, it = consume_prefix(E, st, it, body, site)
        return consume_(E, st, it, body, site)
    finally:
        E.loops.pop()


PLAIN = ('map', 'filter', 'filter_map', 'flatten_opt', 'flat_map', 'flatten', 'inspect')


def consume_prefix(E, st, it, body, site):
    """children that come before the repeated ones are taken one after the other"""
    while it.tag == 'ref':
        it = E.load(st, it.a[0], it.a[1])
    src, stages, pos = it.a if it.tag == 'it' else (it, (), 'L')
    if src.tag == 'ref':
        src = E.load(st, src.a[0], src.a[1])
    if src.tag != 'pairs' or any(sg[0] not in PLAIN for sg in stages):
        return st, it
    fl = src_flows(E, st, src)
    k = 0
    while k < len(fl) and not fl[k][0]:
        k += 1
    if k in (0, len(fl)):
        return st, it
    for o, c, v in fl[:k]:
        pc = D.and_(st.pc, c)
        if pc == F:
            continue
        rest = D.and_(st.pc, D.not_(c))
        sts = [st.fork(rest)] if rest != F else []

        def staged(flows):
            for n, sg in enumerate(stages):
                flows = apply_stage(E, st, flows, sg, (site, n))
            return flows
        flows, drops = with_drops(E, lambda: staged([(st.fork(pc), v)]))
        for s, x in flows:
            sts += body(s, x)
        sts += [s for s, _ in drops]
        for y in sts:
            y.ctx = st.ctx
        if not sts:
            return st.fork(F), mk('flows', ())
        st = sts[0] if len(sts) == 1 else E.join(sts)
    f = mk('flows', tuple((tuple(o), c, v) for o, c, v in fl[k:]))
    return st, mk('it', f, stages, pos)


def leave(E, lk, st, h, backs, r):
    """state r after the consumption of an iterator, whose rounds start from h"""
    out = MM.closed(E, lk, st, h, [b for _, b in backs])
    if out:
        r = r.fork()
        for c, v in out.items():
            if r.mem.get(c) is h.mem[c]:
                r.mem[c] = v
    return r


def consume_(E, st, it, body, site):
    lk = loop_key(E, site)
    H = st
    counts = {}
    em = E.ev_mark()
    for rnd in range(40):
        E.ev_reset(em)
        flows, drops = with_drops(E, lambda: it_flows(E, H, it, site))
        single = [x for x in flows if len(x[0].ctx) == len(H.ctx)]
        if len(single) == len(flows):
            break
        backs = [(H, s) for s, whole in drops if whole and len(s.ctx) >= len(H.ctx)]
        for s, v in flows:
            for s2 in body(s, v):
                backs.append((H, s2))
        H2 = E.join_heads(lk, None, None, [H], backs, counts)
        if len(H2) != 1:
            H2 = [E.join([St(x.mem, x.pc, H.ctx) for x in H2])]
        if E.same_states([H], H2):
            marks = {m for s, _ in flows for m in s.ctx[len(H.ctx):]}
            if not marks & E.sofar_marks:
                return leave(E, lk, st, H, backs, H)
            # narrowing: only the contributions of the steady state remain
            Hn = MM.wrap_old(E, H, marks, st)
            flows, drops = with_drops(E, lambda: it_flows(E, Hn, it, site))
            backs = [(Hn, s) for s, whole in drops if whole] + [(Hn, s2) for s, v in flows for s2 in body(s, v)]
            H3 = E.join_heads(lk, None, None, [Hn], backs, {})
            if len(H3) != 1:
                H3 = [E.join([St(x.mem, x.pc, H.ctx) for x in H3])]
            H4 = MM.drop_old(H3[0], marks)
            flows, drops = with_drops(E, lambda: it_flows(E, H4, it, site))
            backs = [(H4, s) for s, whole in drops if whole] + [(H4, s2) for s, v in flows for s2 in body(s, v)]
            return leave(E, lk, st, H4, backs, H4)
        H = H2[0]
    else:
        raise Unsupported('iterator fixpoint')
    # finite list of single items: thread the state through them in order
    cur = st
    n = len(flows)
    for i in range(n):
        flows, drops = with_drops(E, lambda: it_flows(E, cur, it, site))
        if i >= len(flows):
            break
        s, v = flows[i]
        outs = body(s, v)
        rest = D.and_(cur.pc, D.not_(s.pc))
        sts = [x for x in outs]
        for q, _ in drops:
            if D.and_(q.pc, rest) != F:
                sts.append(q.fork(D.and_(q.pc, rest)))
                rest = D.and_(rest, D.not_(q.pc))
        if rest != F:
            sts.append(cur.fork(rest))
        if not sts:
            return cur.fork(F)
        for x in sts:
            x.ctx = cur.ctx
        # partition keys may differ; force a single state
        cur = sts[0] if len(sts) == 1 else E.join(sts)
    return cur


def rel_over(st, s):
    return s.ctx[len(st.ctx):]


def any_cond(st, s, pc):
    """condition (in st's context) that some item satisfies pc"""
    ov = rel_over(st, s)
    rel = D.restrict(pc, st.pc)
    if not ov:
        return pc
    if rel == F:
        return F
    return I.any_node(ov, rel)
