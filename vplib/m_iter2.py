"""iterator adapters and consumers"""
from .m_iter import *
from .m_iter import rel_over, any_cond
from . import models as MM
from . import m_pest as MP
from . import interp as I


def stage_model(name, mkstage):
    def fn(E, st, f, a, site, t):
        it = as_it(E, st, a[0])
        if it.tag != 'it':
            it = mkit(it)
        return mkit(it.a[0], it.a[1] + (mkstage(a),), it.a[2])
    MM.MODELS['std::iter::Iterator::' + name] = fn
    return fn


for n in ('map', 'filter', 'filter_map', 'flat_map', 'inspect', 'take_while', 'skip_while', 'map_while'):
    stage_model(n, lambda a, n=n: (n, a[1]))
for n in ('enumerate', 'rev', 'flatten'):
    stage_model(n, lambda a, n=n: (n,))


@model('std::iter::Iterator::cloned', 'std::iter::Iterator::copied', 'std::iter::Iterator::by_ref', 'std::iter::Iterator::peekable',
       'std::iter::Iterator::fuse')
def _(E, st, f, a, site, t):
    return a[0] if a[0].tag in ('it', 'pairs', 'ref') else as_it(E, st, a[0])


@model('std::iter::IntoIterator::into_iter', 'slice::iter', 'std::collections::HashMap::iter', 'std::collections::HashSet::iter',
       'std::collections::BTreeMap::iter', 'std::option::Option::iter', 'std::collections::HashMap::into_iter', 'std::vec::Vec::iter',
       'std::collections::BTreeSet::iter', 'str::chars', 'std::vec::Vec::into_iter')
def _(E, st, f, a, site, t):
    if a[0].tag == 'ref':
        x = E.load(st, a[0].a[0], a[0].a[1])
        if x.tag in ('it', 'pairs'):
            return a[0]
        ty = E.ty(f['targs'][0]) if f.get('targs') and f['path'].endswith('into_iter') else {}
        if not (ty.get('k') == 'ref' and ty.get('mut')):
            return as_it(E, st, rd(E, st, a[0]))
    return as_it(E, st, a[0])


@model('slice::iter_mut', 'std::collections::HashMap::iter_mut', 'std::vec::Vec::iter_mut')
def _(E, st, f, a, site, t):
    return mkit(a[0], (('mut',),))


@model('std::vec::Vec::drain', 'std::collections::HashMap::drain')
def _(E, st, f, a, site, t):
    v = rd(E, st, a[0])
    wr(E, st, a[0], coll(v.a[0] if v.tag == 'coll' else 'vec'))
    return as_it(E, st, v)


@model('std::collections::HashMap::values', 'std::collections::HashMap::into_values', 'std::collections::BTreeMap::values')
def _(E, st, f, a, site, t):
    it = as_it(E, st, rd(E, st, a[0]))
    return mkit(it.a[0], it.a[1] + (('values',),))


@model('std::collections::HashMap::values_mut')
def _(E, st, f, a, site, t):
    return mkit(a[0], (('mut',),))


@model('std::collections::HashMap::keys', 'std::collections::HashMap::into_keys', 'std::collections::BTreeMap::keys')
def _(E, st, f, a, site, t):
    it = as_it(E, st, rd(E, st, a[0]))
    return mkit(it.a[0], it.a[1] + (('keys',),))


@model('multimap::MultiMap::flat_iter')
def _(E, st, f, a, site, t):
    v = rd(E, st, a[0])
    return as_it(E, st, v)


@model('std::iter::Iterator::chain')
def _(E, st, f, a, site, t):
    return mkit(mk('chain', as_it(E, st, a[0]), as_it(E, st, a[1])))


@model('std::iter::Iterator::zip', 'std::iter::zip')
def _(E, st, f, a, site, t):
    x, y = as_it(E, st, a[0]), as_it(E, st, a[1])
    src = term('zip', (x, y))
    return mkit(src)


@model('std::iter::Iterator::skip', 'std::iter::Iterator::take', 'std::iter::Iterator::step_by')
def _(E, st, f, a, site, t):
    it = as_it(E, st, a[0])
    n = rd(E, st, a[1])
    op = f['path'].rsplit('::', 1)[-1]
    if it.tag == 'pairs':
        it = mkit(it)
    src, stages, pos = it.a
    if op == 'skip' and n.tag == 'c' and src.tag == 'pairs' and not stages:
        # advance the children stream
        vs = [(T, src)]
        for _ in range(n.a[0]):
            nv = []
            for c, s in vs:
                s2 = MP.pairs_widen(E, s) if False else s
                outs, end = MP.pair_children(E, s2)
                for c2, ov, p, ns in outs:
                    k = D.and_(c, c2)
                    if k != F:
                        nv.append((k, ns))
                k = D.and_(c, end)
                if k != F:
                    nv.append((k, s2))
            vs = nv
        return gamma([(c, mkit(s)) for c, s in vs])
    if op == 'skip' and n.tag == 'c' and src.tag == 'arr' and not stages:
        return mkit(mk('arr', src.a[0][n.a[0]:]))
    if src.tag in ('t', 'coll') and all(s[0] in ('map',) for s in stages):
        ty = src.a[2] if src.tag == 't' else I.UNKNOWN_TY
        if src.tag == 'coll':
            return mkit(src, (('mark', op, n),) + stages)
        return mkit(term(op, (src, n), ty), stages)
    return mkit(src, stages + (('mark', op, n),), pos)


@model('itertools::Itertools::sorted', 'itertools::Itertools::sorted_unstable')
def _(E, st, f, a, site, t):
    it = as_it(E, st, a[0])
    if it.tag == 'pairs':
        it = mkit(it)
    return mkit(it.a[0], it.a[1] + (('sorted',),), it.a[2])


@model('itertools::Itertools::sorted_by_key', 'itertools::Itertools::sorted_unstable_by_key', 'itertools::Itertools::sorted_by_cached_key')
def _(E, st, f, a, site, t):
    it = as_it(E, st, a[0])
    if it.tag == 'pairs':
        it = mkit(it)
    return mkit(it.a[0], it.a[1] + (('sortkey', a[1], 'sorted'),), it.a[2])


@model('itertools::Itertools::dedup', 'itertools::Itertools::unique')
def _(E, st, f, a, site, t):
    it = as_it(E, st, a[0])
    if it.tag == 'pairs':
        it = mkit(it)
    return mkit(it.a[0], it.a[1] + (('mark', f['path'].rsplit('::', 1)[-1]),), it.a[2])


@model('itertools::Itertools::tuple_windows')
def _(E, st, f, a, site, t):
    it = as_it(E, st, a[0])
    lst = collect(E, st, it, 'vec', site)
    n = 2
    ty = E.ty(t['dty']) if t else {}
    v = lst[1]
    src = term('windows', (v,), I.UNKNOWN_TY)
    m = over_item(st, src)
    e = MM.sample_ty(E, v)
    x = mk('tup', tuple(term('el', (m, i) if i else (m,), e) for i in range(n)))
    return [(lst[0], mkit(mk('wsrc', m, x)))]


@model('slice::chunks_exact', 'slice::chunks', 'slice::windows')
def _(E, st, f, a, site, t):
    v = dp(E, st, a[0])
    op = f['path'].rsplit('::', 1)[-1]
    src = term(op, (v, rd(E, st, a[1])))
    m = over_item(st, src)
    return mkit(mk('wsrc', m, term('el', (m,), v.a[2] if v.tag == 't' else I.UNKNOWN_TY)))


_sf = MM_src = None


# ------------------------------------------------------------------------------ collect
def coll_kind(E, ty):
    t = E.ty(ty)
    p = t.get('path', '')
    for a, b in (('HashMap', 'hmap'), ('HashSet', 'hset'), ('MultiMap', 'mmap'), ('BTreeMap', 'bmap'), ('BTreeSet', 'bset'),
                 ('::String', 'str'), ('::Vec', 'vec'), ('VecDeque', 'vec')):
        if p.endswith(a):
            return b
    if p.endswith('Box') and t.get('args'):
        return 'vec'
    return None


HOW = {'hmap': 'ins', 'bmap': 'ins', 'mmap': 'multi', 'hset': 'ins', 'bset': 'ins', 'vec': 'push', 'str': 'push'}


def collect(E, st, it, kind, site, base=None, unwrap=None):
    cell = ('acc', E.stack[-1][0], site)
    s0 = st.fork()
    s0.mem[cell] = base if base is not None else coll(kind, (), len(st.ctx))
    how = HOW[kind]

    def body(s, v):
        s = s.fork()
        if kind == 'str':
            E.fm.str_push(E, s, cell, dp(E, s, v))
        elif how == 'ins' and kind in ('hmap', 'bmap') or kind == 'mmap':
            E.fm.map_insert(E, s, mk('ref', cell, ()), v, how)
        else:
            s.mem[cell] = MM.addseg(E, s, s.mem[cell], dp(E, s, v), how)
        return [s]
    s1 = consume(E, s0, it, body, site)
    v = s1.mem.pop(cell)
    return s1, v if base is not None else MM.within(E, st.pc, v)


def collect_result(E, st, it, kind, site, path):
    """collect into Result<C, _> / Option<C>"""
    cell = ('acc', E.stack[-1][0], site)
    s0 = st.fork()
    s0.mem[cell] = coll(kind, (), len(st.ctx))
    errs = []

    def body(s, v):
        outs = []
        for pc, isok, pay in split_result(E, s, v):
            s2 = s.fork(pc)
            if isok:
                if kind in ('hmap', 'bmap', 'mmap'):
                    E.fm.map_insert(E, s2, mk('ref', cell, ()), pay, HOW[kind])
                else:
                    s2.mem[cell] = MM.addseg(E, s2, s2.mem[cell], dp(E, s2, pay), HOW[kind])
                outs.append(s2)
            else:
                errs.append((any_cond(st, s2, pc), dp(E, s2, pay)))
        return outs
    s1 = consume(E, s0, it, body, site)
    v = s1.mem.pop(cell)
    bad = D.or_(*[c for c, _ in errs]) if errs else F
    good = D.not_(bad)
    rest, ealts = T, []
    for c, e in errs:
        k = D.and_(rest, c)
        if k != F:
            ealts.append((k, e))
        rest = D.and_(rest, D.not_(c))
    # within the collection the success guards are implied: drop them
    okv = ok(v) if path == I.RES else some(v)
    s1.pc = st.pc
    alt = [(good, okv)]
    for c, e in ealts:
        alt.append((c, err(e) if path == I.RES else NONE))
    return [(s1, gamma(alt))]


@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter', 'itertools::Itertools::try_collect', 'itertools::Itertools::collect_vec')
def _(E, st, f, a, site, t):
    dty = E.stripbox(t['dty']) if t else -1
    ty = E.ty(dty)
    p = ty.get('path', '')
    if p in (I.RES, I.OPT):
        k = coll_kind(E, E.stripbox(ty['args'][0]))
        if k is None:
            return None
        return collect_result(E, st, a[0], k, site, p)
    k = coll_kind(E, dty)
    if k is None:
        if p.endswith('LineString'):
            k = 'vec'
        else:
            return None
    return [collect(E, st, a[0], k, site)]


@model('std::iter::Extend::extend', 'std::vec::Vec::extend_from_slice', 'std::vec::Vec::append', 'multimap::MultiMap::extend')
def _(E, st, f, a, site, t):
    base = rd(E, st, a[0])
    k = coll_kind(E, f['targs'][0]) if f.get('targs') and f['path'].endswith('Extend::extend') else None
    c = MM.ascoll(E, base, k) if k else MM.ascoll(E, base)
    s, v = collect(E, st, a[1], c.a[0], site, base=c)
    wr(E, s, a[0], v)
    if f['path'].endswith('append'):
        wr(E, s, a[1], coll('vec', (), len(s.ctx)))
    return [(s, UNIT)]


@model('std::iter::Iterator::for_each')
def _(E, st, f, a, site, t):
    fn = a[1]

    def body(s, v):
        return [x for x, _ in E.call_val(s, fn, [v], (site, 'fe'))]
    return [(consume(E, st, a[0], body, site), UNIT)]


@model('std::iter::Iterator::fold')
def _(E, st, f, a, site, t):
    cell = ('acc', E.stack[-1][0], site)
    s0 = st.fork()
    s0.mem[cell] = a[1]

    def body(s, v):
        outs = []
        acc = s.mem[cell]
        for s2, r in E.call_val(s, a[2], [acc, v], (site, 'fo')):
            s2 = s2.fork()
            s2.mem[cell] = r
            outs.append(s2)
        return outs
    s1 = consume(E, s0, a[0], body, site)
    r = s1.mem.pop(cell)
    return [(s1, r)]


def exists(E, st, it, test, site):
    """condition that some item satisfies test; test(s, v) -> [(state, node)]"""
    acc = [F]

    def body(s, v):
        outs = []
        for s2, n in test(s, v):
            pc = D.and_(s2.pc, n)
            if pc != F:
                acc[0] = D.or_(acc[0], any_cond(st, s2, pc))
            outs.append(s2)
        return outs
    s1 = consume(E, st, it, body, site)
    s1.pc = st.pc
    return s1, acc[0]


@model('std::iter::Iterator::any', 'std::iter::Iterator::all')
def _(E, st, f, a, site, t):
    neg = f['path'].endswith('all')

    def test(s, v):
        return [(s2, D.not_(E.tobool(b)) if neg else E.tobool(b)) for s2, b in E.call_val(s, a[1], [v], (site, 'an'))]
    s, n = exists(E, st, rd_it(E, st, a[0]), test, site)
    return [(s, bval(D.not_(n) if neg else n))]


def rd_it(E, st, v):
    if v.tag == 'ref':
        x = E.load(st, v.a[0], v.a[1])
        if x.tag in ('it', 'pairs', 'g'):
            return x
    return v


def first_match(E, st, it, pick, site):
    """pick(s, v) -> [(state, pc, payload)]; Option of the first item picked"""
    found = []
    inplace = it.tag == 'it' and ('mut',) in it.a[1]

    def body(s, v):
        outs = []
        for s2, pc, x in pick(s, v):
            if pc != F:
                # an element found for writing stays the place it is
                found.append((any_cond(st, s2, pc), x if inplace and x.tag == 'ref' else dp(E, s2, x)))
            outs.append(s2)
        if not outs:
            outs.append(s)
        return outs
    s1 = consume(E, st, it, body, site)
    s1.pc = st.pc
    rest, al = T, []
    seen = set()
    for c, x in found:
        if (c, x) in seen:
            continue
        seen.add((c, x))
        k = D.and_(rest, c)
        if k != F:
            al.append((k, some(x)))
        rest = D.and_(rest, D.not_(c))
    al.append((rest, NONE))
    return s1, gamma(al)


@model('std::iter::Iterator::find')
def _(E, st, f, a, site, t):
    def pick(s, v):
        return [(s2, D.and_(s2.pc, E.tobool(b)), v) for s2, b in E.call_val(s, a[1], [v], (site, 'fi'))]
    return [first_match(E, st, rd_it(E, st, a[0]), pick, site)]


@model('std::iter::Iterator::find_map')
def _(E, st, f, a, site, t):
    def pick(s, v):
        outs = []
        for s2, o in E.call_val(s, a[1], [v], (site, 'fm')):
            xs = opt_some(E, s2, o)
            outs.extend((s2, pc, x) for pc, x in xs)
            if not xs:
                outs.append((s2, F, UNIT))
        return outs
    return [first_match(E, st, rd_it(E, st, a[0]), pick, site)]


@model('std::iter::Iterator::position')
def _(E, st, f, a, site, t):
    def pick(s, v):
        return [(s2, D.and_(s2.pc, E.tobool(b)), term('pos', (s2.ctx[len(st.ctx):],), E.find_ty('usize'))) for s2, b in E.call_val(s, a[1], [v], (site, 'po'))]
    return [first_match(E, st, rd_it(E, st, a[0]), pick, site)]


@model('std::iter::Iterator::unzip')
def _(E, st, f, a, site, t):
    s, v = collect(E, st, a[0], 'vec', site)

    def part(i):
        return coll('vec', MM.I.dedupe([seg(g.a[0], g.a[1], E.proj(s, g.a[2], ('f', i, -1)), g.a[3]) for g in v.a[1]]), v.a[2])
    ty = E.ty(t['dty'])
    k = [coll_kind(E, x) or 'vec' for x in ty['args']]
    xs = []
    for i in (0, 1):
        c = part(i)
        if k[i] != 'vec':
            c = coll(k[i], [seg(g.a[0], g.a[1], g.a[2], HOW[k[i]]) for g in c.a[1]], c.a[2])
        xs.append(c)
    return [(s, mk('tup', tuple(xs)))]


@model('std::iter::Iterator::partition')
def _(E, st, f, a, site, t):
    cells = [('acc', E.stack[-1][0], site, i) for i in (0, 1)]
    s0 = st.fork()
    for c in cells:
        s0.mem[c] = coll('vec', (), len(st.ctx))

    def body(s, v):
        outs = []
        for s2, b in E.call_val(s, a[1], [v], (site, 'pa')):
            n = E.tobool(b)
            for c, k in ((cells[0], n), (cells[1], D.not_(n))):
                pc = D.and_(s2.pc, k)
                if pc != F:
                    s3 = s2.fork(pc)
                    s3.mem[c] = MM.addseg(E, s3, s3.mem[c], dp(E, s3, v))
                    outs.append(s3)
        return outs
    s1 = consume(E, s0, a[0], body, site)
    s1.pc = st.pc
    return [(s1, mk('tup', tuple(s1.mem.pop(c) for c in cells)))]


@model('std::iter::Iterator::min_by_key', 'std::iter::Iterator::max_by_key', 'std::iter::Iterator::min_by', 'std::iter::Iterator::max_by', 'std::iter::Iterator::min', 'std::iter::Iterator::max')
def _(E, st, f, a, site, t):
    op = f['path'].rsplit('::', 1)[-1]
    it = as_it(E, st, rd_it(E, st, a[0]))
    if it.tag == 'pairs':
        it = mkit(it)
    it = mkit(it.a[0], it.a[1] + (('sortself', op),) if op in ('min', 'max') else it.a[1] + (('sortkey' if op.endswith('key') else 'sortcmp', a[1], op.replace('_by_key', '').replace('_by', '')),), it.a[2])
    found = []

    def body(s, v):
        found.append((any_cond(st, s, s.pc), dp(E, s, v), s.ctx[len(st.ctx):]))
        return [s]
    s1 = consume(E, st, it, body, site)
    s1.pc = st.pc
    al, rest = [], T
    for c, x, ov in found:
        k = D.and_(rest, c)
        if k != F:
            al.append((k, some(x)))
        rest = D.and_(rest, D.not_(c))
    al.append((rest, NONE))
    return [(s1, gamma(al))]


@model('std::iter::Iterator::count', 'std::iter::Iterator::sum', 'std::iter::Iterator::product')
def _(E, st, f, a, site, t):
    s, v = collect(E, st, rd_it(E, st, a[0]), 'vec', site)
    op = f['path'].rsplit('::', 1)[-1]
    if op == 'count':
        return [(s, MM.length(E, s, v))]
    v = MM.plain(E, v)
    return [(s, term(op, (v,), t['dty']))]


@model('std::iter::Iterator::last')
def _(E, st, f, a, site, t):
    s, v = collect(E, st, rd_it(E, st, a[0]), 'vec', site)
    e = MM.is_empty(E, v)
    return [(s, gamma([(e, NONE), (D.not_(e), some(MM.last_of(E, s, v)))]))]


@model('itertools::Itertools::join')
def _(E, st, f, a, site, t):
    s, v = collect(E, st, rd_it(E, st, a[0]), 'vec', site)
    return [(s, join_str(E, s, v, rd(E, s, a[1]), t['dty'] if t else -1))]


@model('slice::concat')
def _(E, st, f, a, site, t):
    ty = E.ty(t['dty']) if t else {}
    v = dp(E, st, a[0])
    if ty.get('path', '').endswith('Vec'):
        it = as_it(E, st, v)
        s, r = collect(E, st, mkit(it.a[0], it.a[1] + (('flatten',),), it.a[2]), 'vec', site)
        return [(s, r)]
    return join_str(E, st, v, MM.sval(''), t['dty'] if t else -1)


@model('slice::join')
def _(E, st, f, a, site, t):
    return join_str(E, st, dp(E, st, a[0]), rd(E, st, a[1]) if len(a) > 1 else MM.sval(''), t['dty'] if t else -1)


def join_str(E, st, v, sep, ty):
    if v.tag == 'coll' and all(not g.a[0] and g.a[1] == T and g.a[3] == 'push' for g in v.a[1]):
        v = mk('arr', tuple(g.a[2] for g in v.a[1]))
    if v.tag == 'arr' and len(v.a[0]) <= 12:
        # so many parts: their concatenation
        parts = []
        for n, x in enumerate(v.a[0]):
            parts += ([sep] if n else []) + [x]
        from . import m_str
        return m_str.concat(E, parts)
    if v.tag == 'arr':
        v = MM.ascoll(E, v)
    v = MM.plain(E, v)
    return term('join', (v, sep), E.find_ty('std::string::String') if ty < 0 else ty)


# ------------------------------------------------------------------------------ next
def it_widen(E, v):
    if v.a[2] == 'L':
        return v
    if v.a[0].tag == 'arr' and v.a[2] != 'X':
        return v
    return mk('it', v.a[0], v.a[1], 'L')


MM.it_widen = it_widen


def it_needs_widen(E, v):
    return v.a[2] != 'L' and v.a[0].tag != 'arr'


@model('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')
def _(E, st, f, a, site, t):
    r = a[0]
    v = rd_it(E, st, r)
    if v.tag == 'g':
        out = []
        for c, x in v.a[0]:
            pc = D.and_(st.pc, c)
            if pc != F:
                s = st.fork(pc)
                wr(E, s, r, x)
                out.extend(next_one(E, s, r, x, site))
        return out
    return next_one(E, st, r, v, site)


def next_one(E, st, r, v, site):
    if v.tag == 'pairs':
        return MP.pairs_next(E, st, r, v)
    if v.tag != 'it':
        E.note_unknown('next on ' + v.tag)
        return [(st, term('next', (dp(E, st, v),)))]
    src, stages, pos = v.a
    if src.tag == 'pairs' and (not stages or pos != 'L' and all(sg[0] == 'map' for sg in stages)):
        cell = ('nx', E.stack[-1][0], site)
        s = st.fork()
        s.mem[cell] = src
        out = []
        for s2, o in MP.pairs_next(E, s, mk('ref', cell, ()), src):
            n = s2.mem.pop(cell)
            wr(E, s2, r, mkit(n, stages, pos))
            if not stages:
                out.append((s2, o))
                continue
            for c, x in I.alts(o):
                pc = D.and_(c, s2.pc)
                if pc == F:
                    continue
                if not (x.tag == 'adt' and x.a[1] == 1):
                    out.append((s2.fork(pc), x))
                    continue
                fl = [(s2.fork(pc), x.a[2][0])]
                for n, sg in enumerate(stages):
                    fl = apply_stage(E, s2, fl, sg, (site, n))
                out.extend((s3, some(y)) for s3, y in fl)
        return out
    if pos == 'L':
        out = []
        for s, x in it_flows(E, st, v, site):
            out.append((s, some(x)))
        out.append((st.fork(), NONE))
        return out
    if src.tag == 'arr':
        k = int(pos[1:]) if pos[0] == 'N' else 0
        out = []
        cur = [st]
        while True:
            if k >= len(src.a[0]):
                for s in cur:
                    s = s.fork()
                    wr(E, s, r, mk('it', src, stages, 'N%d' % k))
                    out.append((s, NONE))
                return E.join_rets(out)
            nxt = []
            for s in cur:
                fl = [(s, src.a[0][k])]
                for n, sg in enumerate(stages):
                    fl = apply_stage(E, s, fl, sg, (site, n))
                got = F
                for s2, x in fl:
                    s3 = s2.fork()
                    wr(E, s3, r, mk('it', src, stages, 'N%d' % (k + 1)))
                    out.append((s3, some(x)))
                    got = D.or_(got, s2.pc)
                rest = D.and_(s.pc, D.not_(got))
                if rest != F:
                    nxt.append(s.fork(rest))
            if not nxt:
                return E.join_rets(out)
            cur = nxt
            k += 1
    # sequential read of an open-ended source
    k = int(pos[1:]) if pos[0] == 'N' else 0

    def pick(s, x):
        return [(s, s.pc, x)]
    if k == 0:
        if src.tag == 'adt' and src.a[0] == I.OPT and not stages:
            s = st.fork()
            wr(E, s, r, mk('it', NONE, stages, 'N1'))
            return [(s, src)]
        if not stages and src.tag in ('t', 'coll'):
            e = MM.is_empty(E, src)
            x = elem_first(E, st, src)
            s = st.fork()
            wr(E, s, r, mk('it', src, stages, 'N1'))
            return [(s, gamma([(e, NONE), (D.not_(e), some(x))]))]
        s, o = first_match(E, st, v, pick, site)
    else:
        s, c = collect(E, st, mk('it', src, stages, 'S'), 'vec', site)
        o = gamma([(D.eq(('has', c, k), 1, (0, 1)), some(term('idx', (c, const(k)), MM.sample_ty(E, c)))), (D.eq(('has', c, k), 0, (0, 1)), NONE)])
    s = s.fork()
    wr(E, s, r, mk('it', src, stages, 'N%d' % (k + 1)))
    return [(s, o)]


def elem_first(E, st, src):
    k = MM.ckind(E, src) if src.tag == 't' else src.a[0]
    if k in ('hmap', 'hset', 'mmap'):
        E.event('hash_order', st, ('first', src))
    return MM.first_of(E, st, src)


def iter_next(E, st, r, site):
    return MM.MODELS['std::iter::Iterator::next'](E, st, None, [r], site, None)


@model('std::iter::Peekable::peek', 'itertools::PeekNth::peek')
def _(E, st, f, a, site, t):
    v = rd_it(E, st, a[0])
    out = []
    for s, o in iter_next(E, st, a[0], (site, 'pk')):
        s = s.fork()
        wr(E, s, a[0], v)
        s.ctx = st.ctx
        out.append((s, o))
    return out


@model('std::iter::Peekable::next_if', 'std::iter::Peekable::next_if_eq')
def _(E, st, f, a, site, t):
    v = rd_it(E, st, a[0])
    eq = f['path'].endswith('_eq')
    out = []
    for s, o in iter_next(E, st, a[0], (site, 'ni')):
        for c, x in I.alts(o):
            pc = D.and_(s.pc, c)
            if pc == F:
                continue
            s2 = s.fork(pc)
            if x.tag != 'adt' or x.a[1] != 1:
                out.append((s2, x))
                continue
            item = x.a[2][0]
            rs = [(s2, bval(MM.val_eq(E, dp(E, s2, item), dp(E, s2, a[1]))))] if eq else E.call_val(s2, a[1], [item], (site, 'nc'))
            for s3, b in rs:
                b = E.tobool(b)
                yes, no = D.and_(s3.pc, b), D.and_(s3.pc, D.not_(b))
                if yes != F:
                    out.append((s3.fork(yes), x))
                if no != F:
                    s4 = s3.fork(no)
                    wr(E, s4, a[0], v)
                    s4.ctx = st.ctx
                    out.append((s4, NONE))
    return E.join_rets(out)


@model('std::iter::Iterator::nth')
def _(E, st, f, a, site, t):
    v = rd_it(E, st, a[0])
    s, c = collect(E, st, v, 'vec', site)
    return [(s, MM.get_idx(E, s, c, rd(E, st, a[1])))]


@model('std::iter::ExactSizeIterator::len', 'std::iter::Iterator::size_hint')
def _(E, st, f, a, site, t):
    s, c = collect(E, st, rd_it(E, st, a[0]), 'vec', site)
    return [(s, MM.length(E, s, c))]


@model('std::iter::Iterator::eq')
def _(E, st, f, a, site, t):
    s, c = collect(E, st, a[0], 'vec', site)
    s, d = collect(E, s, a[1], 'vec', (site, 2))
    return [(s, bval(MM.val_eq(E, c, d)))]
