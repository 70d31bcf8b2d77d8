"""collections: vectors, maps, sets, multimaps, entries"""
from .m_iter2 import *
from .m_iter2 import coll_kind, HOW
from . import models as MM
from . import interp as I

ENTRY = 'std::collections::hash_map::Entry'
CAP = 3


def new(kind):
    def fn(E, st, f, a, site, t):
        return coll(kind, (), len(st.ctx))
    return fn


for p, k in (('std::vec::Vec', 'vec'), ('std::collections::HashMap', 'hmap'), ('std::collections::HashSet', 'hset'), ('multimap::MultiMap', 'mmap'),
             ('std::collections::BTreeMap', 'bmap'), ('std::collections::BTreeSet', 'bset'), ('std::string::String', 'str')):
    for n in ('new', 'with_capacity'):
        MM.MODELS['%s::%s' % (p, n)] = new(k)


def map_get(E, st, m, k):
    """-> (condition present, value) of key k in map value m"""
    m = rd(E, st, m)
    if m.tag == 'g':
        cs, vs = [], []
        for c, x in m.a[0]:
            if D.and_(c, st.pc) == F:
                continue
            h, v = map_get(E, st, x, k)
            cs.append(D.and_(c, h))
            vs.append((D.and_(c, h), v))
        return D.or_(*cs) if cs else F, gamma(vs)
    if m.tag == 'coll':
        if not m.a[1]:
            return F, UNDEF
        simple = all(not s.a[0] and (s.a[3] in ('ins', 'orins', 'ext') or (isinstance(s.a[3], tuple) and s.a[3][0] in ('upd', 'del') and (s.a[3][0] == 'del' or s.a[3][1] == 'key')))
                     for s in m.a[1]) and m.a[0] in ('hmap', 'bmap')
        if not simple:
            for s in reversed(m.a[1]):
                # the very last write decides when it certainly concerns this key
                if s.a[3] == 'ins' and not s.a[0] and s.a[2].tag == 'tup' and s.a[2].a[0][0] is k and D.implies(st.pc, s.a[1]):
                    return T, s.a[2].a[0][1]
                break
            if MM.growing(E, m):
                m2 = MM.sofar(E, m)
                return D.eq(('has', m2, k), 1, (0, 1)), term('at', (m2, k), MM.sample_ty(E, m))
            r = map_filter(E, m, k)
            if r:
                return r
            return D.eq(('has', m, k), 1, (0, 1)), term('at', (m, k), MM.sample_ty(E, m))
        has, val = F, UNDEF
        for s in m.a[1]:
            h = s.a[3]
            if h == 'ext':
                h2, v2 = map_get(E, st, s.a[2], k)
                n = D.and_(s.a[1], h2)
                val = gamma([(n, v2), (D.and_(D.not_(n), has), val)])
                has = D.or_(has, n)
                continue
            if isinstance(h, tuple) and h[0] == 'del':
                n = D.and_(s.a[1], MM.val_eq(E, h[1], k))
                has = D.and_(has, D.not_(n))
                val = gamma([(has, val)])
                continue
            if isinstance(h, tuple):
                key, v = h[2], s.a[2]
            else:
                key, v = s.a[2].a[0]
            n = D.and_(s.a[1], MM.val_eq(E, key, k))
            if h == 'orins':
                n = D.and_(n, D.not_(has))
            val = gamma([(n, v), (D.and_(D.not_(n), has), val)])
            has = D.or_(has, n)
        return has, val
    if m.tag == 'undef':
        return F, UNDEF
    return D.eq(('has', m, k), 1, (0, 1)), MM.lookup_term(E, m, k)


def ground(v):
    return v.tag == 'c' or (v.tag == 'adt' and all(ground(x) for x in v.a[2])) or (v.tag == 'tup' and all(ground(x) for x in v.a[0]))


def map_filter(E, m, k):
    """lookup of a constant key in a map filled inside loops: the last contribution whose key equals it"""
    if m.a[0] not in ('hmap', 'bmap') or not ground(k):
        return None
    out = []
    for s in m.a[1]:
        h = s.a[3]
        if isinstance(h, tuple) and h[0] == 'del' and ground(h[1]) and not s.a[0]:
            if h[1] is k:
                if s.a[1] != T:
                    return None
                out = []
            continue
        if h != 'ins' or s.a[2].tag != 'tup':
            return None
        key, v = s.a[2].a[0]
        g = D.and_(s.a[1], MM.val_eq(E, key, k))
        if g == F:
            continue
        if v.tag == 'g':
            v = gamma([(D.and_(c, g), x) for c, x in v.a[0]])
        out.append(seg(s.a[0], g, v))
    c = coll('sel', out)
    return D.not_(MM.is_empty(E, c)), lastof(E, c)


def lastof(E, c):
    segs = c.a[1]
    if not segs:
        return UNDEF
    if len(segs) == 1 and not segs[0].a[0]:
        return segs[0].a[2]
    sh = {I.shape(s.a[2]) for s in segs}
    x0 = segs[0].a[2]
    if len(sh) == 1 and x0.tag in ('adt', 'tup'):
        j = 2 if x0.tag == 'adt' else 0
        fs = tuple(lastof(E, coll('sel', [seg(s.a[0], s.a[1], s.a[2].a[j][i]) for s in segs])) for i in range(len(x0.a[j])))
        return adt(x0.a[0], x0.a[1], fs) if j else mk('tup', fs)
    if x0.tag == 'c' and all(s.a[2] is x0 for s in segs):
        return x0
    return term('lastof', (c,), MM.type_of(E, x0) if len(segs) == 1 else MM.sample_ty(E, c))


def key_of(E, st, k):
    return dp(E, st, k)


def opt(c, v):
    return gamma([(c, some(v)), (D.not_(c), NONE)])


@model('std::collections::HashMap::get', 'std::collections::BTreeMap::get', 'phf::Map::get')
def _(E, st, f, a, site, t):
    c, v = map_get(E, st, a[0], key_of(E, st, a[1]))
    return opt(c, v)


@model('std::collections::HashMap::get_key_value')
def _(E, st, f, a, site, t):
    k = key_of(E, st, a[1])
    c, v = map_get(E, st, a[0], k)
    return opt(c, mk('tup', (k, v)))


@model('std::collections::HashMap::contains_key', 'std::collections::BTreeMap::contains_key', 'multimap::MultiMap::contains_key', 'phf::Map::contains_key')
def _(E, st, f, a, site, t):
    c, v = map_get(E, st, a[0], key_of(E, st, a[1]))
    return bval(c)


def vty(E, f, m, i=1):
    """value type of the map a method is called on (type arguments of the callee)"""
    if f.get('targs') and i < len(f['targs']):
        return f['targs'][i]
    return MM.elem_ty(E, m)


def elref(E, r, key):
    """mutable reference to an element of the collection behind r"""
    return dist_ref(r, lambda x: mk('ref', x.a[0], x.a[1] + (('el', key),)))


def dist_ref(r, fn):
    if r.tag == 'g':
        return gamma([(c, fn(x)) for c, x in r.a[0] if x.tag == 'ref'])
    if r.tag != 'ref':
        return UNDEF
    return fn(r)


@model('std::collections::HashMap::get_mut', 'std::collections::BTreeMap::get_mut')
def _(E, st, f, a, site, t):
    k = key_of(E, st, a[1])
    c, v = map_get(E, st, a[0], k)
    return opt(c, elref(E, a[0], ('key', k, vty(E, f, a[0]))))


def map_insert(E, st, r, kv, how='ins'):
    kv = dp(E, st, kv)
    if kv.tag == 't':
        e = E.expand(kv)
        kv = e if e is not None else mk('tup', (term('.', (kv, '', '0')), term('.', (kv, '', '1'))))
    m = MM.ascoll(E, rd(E, st, r), 'hmap')
    if m.tag == 'g':
        m = gamma([(c, MM.ascoll(E, x)) for c, x in m.a[0]])
    wr(E, st, r, MM.dist(st, m, lambda c: MM.addseg(E, st, c, kv, how)))


MM.map_insert = map_insert


@model('std::collections::HashMap::insert', 'std::collections::BTreeMap::insert')
def _(E, st, f, a, site, t):
    k, v = key_of(E, st, a[1]), dp(E, st, a[2])
    c, old = map_get(E, st, a[0], k)
    s = st.fork()
    map_insert(E, s, a[0], mk('tup', (k, v)))
    return [(s, opt(c, old))]


@model('multimap::MultiMap::insert')
def _(E, st, f, a, site, t):
    s = st.fork()
    map_insert(E, s, a[0], mk('tup', (key_of(E, st, a[1]), dp(E, st, a[2]))), 'multi')
    return [(s, UNIT)]


@model('std::collections::HashMap::remove', 'std::collections::HashMap::remove_entry', 'std::collections::BTreeMap::remove')
def _(E, st, f, a, site, t):
    k = key_of(E, st, a[1])
    c, v = map_get(E, st, a[0], k)
    s = st.fork()
    m = rd(E, st, a[0])
    wr(E, s, a[0], MM.dist(s, m, lambda x: MM.addseg(E, s, MM.ascoll(E, x), UNIT, ('del', k))))
    return [(s, opt(c, mk('tup', (k, v)) if f['path'].endswith('remove_entry') else v))]


@model('multimap::MultiMap::get', 'multimap::MultiMap::get_vec')
def _(E, st, f, a, site, t):
    k = key_of(E, st, a[1])
    m = dp(E, st, a[0])
    if m.tag == 'coll' and not m.a[1]:
        return NONE
    c = D.eq(('has', m, k), 1, (0, 1))
    V = E.ty(t['dty'])['args'][0] if t else I.UNKNOWN_TY
    if f['path'].endswith('get_vec'):
        return opt(c, term('all_at', (m, k), V))
    return opt(c, term('first_at', (m, k), V))


# ---- entries
@model('std::collections::HashMap::entry', 'std::collections::BTreeMap::entry')
def _(E, st, f, a, site, t):
    k = key_of(E, st, a[1])
    c, _v = map_get(E, st, a[0], k)
    V = vty(E, f, a[0])
    e = lambda w: adt(ENTRY, w, (mk('ent', a[0], k, V),))
    return gamma([(c, e(0)), (D.not_(c), e(1))])


def ent(v):
    for _, x in alts(v):
        if x.tag == 'adt':
            return x.a[2][0]
        if x.tag == 'ent':
            return x
    raise Unsupported('entry')


def or_ins(E, st, e, val):
    r, k, V = e.a
    s = st.fork()
    map_insert(E, s, r, mk('tup', (k, val)), 'orins')
    return [(s, elref(E, r, ('key', k, V)))]


@model('std::collections::hash_map::Entry::or_insert')
def _(E, st, f, a, site, t):
    return or_ins(E, st, ent(a[0]), dp(E, st, a[1]))


@model('std::collections::hash_map::Entry::or_default')
def _(E, st, f, a, site, t):
    e = ent(a[0])
    rs = default_call(E, st, f, site, f['targs'][1])
    out = []
    for s, v in rs:
        out.extend(or_ins(E, s, e, dp(E, s, v)))
    return out


@model('std::collections::hash_map::Entry::or_insert_with', 'std::collections::hash_map::Entry::or_insert_with_key')
def _(E, st, f, a, site, t):
    e = ent(a[0])
    r, k, V = e.a
    has, _v = map_get(E, st, r, k)
    out = []
    pc = D.and_(st.pc, D.not_(has))
    sts = []
    if pc != F:
        for s, v in E.call_val(st.fork(pc), a[1], [] if f['path'].endswith('with') else [k], site):
            sts.extend(x for x, _ in or_ins(E, s, e, dp(E, s, v)))
    pc = D.and_(st.pc, has)
    if pc != F:
        sts.append(st.fork(pc))
    return [(s, elref(E, r, ('key', k, V))) for s in E.join_list(sts)]


@model('std::collections::hash_map::Entry::and_modify')
def _(E, st, f, a, site, t):
    e = ent(a[0])
    r, k, V = e.a
    has, _v = map_get(E, st, r, k)
    sts = []
    pc = D.and_(st.pc, has)
    if pc != F:
        sts.extend(s for s, _ in E.call_val(st.fork(pc), a[1], [elref(E, r, ('key', k, V))], site))
    pc = D.and_(st.pc, D.not_(has))
    if pc != F:
        sts.append(st.fork(pc))
    return [(s, a[0]) for s in E.join_list(sts)]


@model('std::collections::hash_map::OccupiedEntry::get_mut', 'std::collections::hash_map::OccupiedEntry::into_mut')
def _(E, st, f, a, site, t):
    r, k, V = ent(rd(E, st, a[0])).a
    return elref(E, r, ('key', k, V))


@model('std::collections::hash_map::OccupiedEntry::get')
def _(E, st, f, a, site, t):
    r, k, V = ent(rd(E, st, a[0])).a
    return map_get(E, st, r, k)[1]


@model('std::collections::hash_map::VacantEntry::insert', 'std::collections::hash_map::OccupiedEntry::insert')
def _(E, st, f, a, site, t):
    r, k, V = ent(rd(E, st, a[0])).a
    s = st.fork()
    map_insert(E, s, r, mk('tup', (k, dp(E, st, a[1]))), 'ins')
    if f['path'].find('Vacant') < 0:
        return [(s, term('old', (k,)))]
    return [(s, elref(E, r, ('key', k, V)))]


@model('std::collections::hash_map::VacantEntry::key', 'std::collections::hash_map::OccupiedEntry::key', 'std::collections::hash_map::Entry::key')
def _(E, st, f, a, site, t):
    return ent(rd(E, st, a[0])).a[1]


# ---- index
def slice_bad(E, st, m, k):
    """when a range of constants does not fit: too short, or (text) not made of one-byte characters"""
    ks = [x for x in k.a[2]] if k.tag == 'adt' else []
    if not ks or not all(x.tag == 'c' for x in ks):
        return st.pc
    ns = [x.a[0] for x in ks]
    if ns != sorted(ns) or k.a[0].endswith(('Inclusive',)):
        return st.pc
    isstr = not (m.tag in ('arr', 'coll') and m.tag != 'g')
    if isstr and not MM.ascii_text(E, m):
        return st.pc
    n = MM.length(E, st, m)
    bad = F
    for c, x in MM.alts(n):
        bad = D.or_(bad, D.and_(D.and_(st.pc, c), MM.cmp_cond(E, 'lt', x, const(ns[-1], 'usize'))))
    return bad


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def _(E, st, f, a, site, t):
    m = rd(E, st, a[0])
    mut = f['path'].endswith('index_mut')
    ty = E.ty(E.stripbox(f['targs'][0])) if f.get('targs') else {}
    p = ty.get('path', '')
    k = dp(E, st, a[1])
    E.oblige(st, 'index')
    if p.endswith(('HashMap', 'BTreeMap')):
        c, v = map_get(E, st, m, k)
        bad = D.and_(st.pc, D.not_(c))
        if bad != F:
            E.panic(st.fork(bad), 'index', k, st.pc)
        s = st.fork(D.and_(st.pc, c))
        if s.pc == F:
            return []
        return [(s, elref(E, a[0], ('key', k, ty['args'][1])) if mut else v)]
    kt = E.ty(E.strip(f['targs'][1])) if len(f.get('targs', ())) > 1 else {}
    if 'Range' in kt.get('path', '') or kt.get('s', '').startswith(('std::ops::Range', 'std::range')):
        if k.tag == 'adt' and not k.a[2]:
            return m
        bad = slice_bad(E, st, dp(E, st, m), k)
        if bad == F:
            return term('slice', (dp(E, st, m), k), t['dty'] if t else -1)
        E.panic(st.fork(bad), 'slice-index', (dp(E, st, m), k), st.pc)
        st = st.fork(D.and_(st.pc, D.not_(bad))) if bad != st.pc else st
        return term('slice', (dp(E, st, m), k), t['dty'] if t else -1)
    if mut:
        ety = MM.elem_ty(E, m)
        if ety < 0 and f.get('targs'):
            ety = MM.elem_ty_of(E, E.strip(f['targs'][0]))
        return mk('ref', a[0].a[0], a[0].a[1] + (('el', ('idx', k, ety)),)) if a[0].tag == 'ref' else UNDEF
    if m.tag == 'coll' and not (m.a[0] == 'vec' and k.tag == 'c' and len([s for s in m.a[1] if not s.a[0] and s.a[1] == T and s.a[3] == 'push']) > k.a[0]) or m.tag == 't':
        c = idx_present(E, st, m, k)
        bad = D.and_(st.pc, D.not_(c))
        if bad != F:
            E.panic(st.fork(bad), 'index', k, st.pc)
        st = st.fork(D.and_(st.pc, c))
    return [(st, MM.index_val(E, st, m, k))]


def idx_present(E, st, v, k):
    if MM.pos_in(E, dp(E, st, v), k):
        return T
    if v.tag == 'arr' and k.tag == 'c':
        return T if k.a[0] < len(v.a[0]) else F
    if k.tag == 'c' and k.a[0] == 0:
        return D.not_(MM.is_empty(E, v))
    return D.eq(('has', dp(E, st, v), k), 1, (0, 1))


# ---- vectors and slices
@model('std::vec::Vec::push', 'std::collections::VecDeque::push_back')
def _(E, st, f, a, site, t):
    s = st.fork()
    v = dp(E, s, a[1])
    for r in ([a[0]] if a[0].tag == 'ref' else []):
        m = rd(E, s, r)
        wr(E, s, r, MM.dist(s, m, lambda x: MM.addseg(E, s, MM.ascoll(E, x, 'vec'), v)))
    if a[0].tag == 'g':
        for c, r in a[0].a[0]:
            pc = D.and_(s.pc, c)
            if pc == F:
                continue
            s2 = s.fork(pc)
            m = rd(E, s2, r)
            nm = MM.dist(s2, m, lambda x: MM.addseg(E, s2, MM.ascoll(E, x, 'vec'), v))
            E.store(s, r.a[0], r.a[1], gamma([(pc, nm), (D.not_(pc), m)]) if nm.tag != 'coll' else nm)
    if a[0].tag not in ('ref', 'g'):
        E.event('store_unknown', st, ('push',))
    return [(s, UNIT)]


@model('std::vec::Vec::insert')
def _(E, st, f, a, site, t):
    s = st.fork()
    m = MM.ascoll(E, rd(E, s, a[0]))
    i = rd(E, s, a[1])
    v = dp(E, s, a[2])
    if i.tag == 'c' and i.a[0] == 0 and not st.ctx[m.a[2]:]:
        wr(E, s, a[0], coll(m.a[0], (seg((), s.pc, v),) + m.a[1], m.a[2]))
    else:
        wr(E, s, a[0], MM.addseg(E, s, m, v, ('insat', i)))
    return [(s, UNIT)]


@model('std::vec::Vec::clear', 'std::string::String::clear', 'std::collections::HashMap::clear')
def _(E, st, f, a, site, t):
    s = st.fork()
    m = rd(E, s, a[0])
    MM.note_reset(E, s, m)
    wr(E, s, a[0], coll(m.a[0] if m.tag == 'coll' else 'vec', (), m.a[2] if m.tag == 'coll' else 0))
    return [(s, UNIT)]


@model('std::vec::Vec::pop')
def _(E, st, f, a, site, t):
    s = st.fork()
    m = MM.ascoll(E, rd(E, s, a[0]))
    if m.tag != 'coll':
        return None
    e = MM.is_empty(E, m)
    x = MM.last_of(E, s, m)
    if m.a[1] and not m.a[1][-1].a[0] and m.a[1][-1].a[1] == T and m.a[1][-1].a[3] == 'push':
        n = coll(m.a[0], m.a[1][:-1], m.a[2])
    else:
        n = MM.addseg(E, s, m, UNIT, ('del', 'last'))
    wr(E, s, a[0], n)
    return [(s, opt(D.not_(e), x))]


@model('std::vec::Vec::remove', 'std::vec::Vec::swap_remove')
def _(E, st, f, a, site, t):
    s = st.fork()
    m = MM.ascoll(E, rd(E, s, a[0]))
    i = dp(E, s, a[1])
    x = MM.index_val(E, s, m, i)
    op = f['path'].rsplit('::', 1)[-1]
    c = idx_present(E, s, m, i)
    E.oblige(st, op)
    bad = D.and_(st.pc, D.not_(c))
    if bad != F and not (i.tag == 't' and i.a[0] == 'pos'):
        E.panic(st.fork(bad), op, i, s.pc)
    wr(E, s, a[0], MM.addseg(E, s, m, UNIT, ('del', op, i)))
    return [(s, x)]


@model('std::vec::Vec::truncate', 'std::vec::Vec::retain', 'std::collections::HashMap::retain', 'std::vec::Vec::dedup', 'slice::reverse', 'slice::sort',
       'slice::sort_unstable', 'slice::sort_by_key', 'slice::sort_by', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key', 'slice::swap', 'slice::rotate_left', 'slice::fill')
def _(E, st, f, a, site, t):
    op = f['path'].rsplit('::', 1)[-1]
    s = st.fork()
    m = rd(E, s, a[0])
    args = tuple(dp(E, s, x) for x in a[1:])
    if op in ('sort', 'sort_unstable'):
        it = mkit(dp(E, s, m), (('sorted',),))
    elif op in ('sort_by_key', 'sort_unstable_by_key'):
        it = mkit(dp(E, s, m), (('sortkey', a[1], 'sorted'),))
    elif op in ('sort_by', 'sort_unstable_by'):
        it = mkit(dp(E, s, m), (('sortcmp', a[1], 'sorted'),))
    elif op == 'dedup':
        it = mkit(dp(E, s, m), (('mark', 'dedup'),))
    elif op == 'reverse':
        it = mkit(dp(E, s, m), (('rev',),))
    elif op == 'retain':
        kind = m.a[0] if m.tag == 'coll' else MM.ckind(E, m)
        if kind in ('hmap',):
            it = mkit(dp(E, s, m), (('filter2', a[1]),))
            return None
        it = mkit(dp(E, s, m), (('filter', a[1]),))
    else:
        wr(E, s, a[0], term(op, (dp(E, s, m),) + args, m.a[2] if m.tag == 't' else I.UNKNOWN_TY))
        return [(s, UNIT)]
    s2, v = collect(E, s, it, m.a[0] if m.tag == 'coll' else 'vec', site)
    wr(E, s2, a[0], v)
    return [(s2, UNIT)]


@model('slice::first', 'slice::last', 'std::vec::Vec::first', 'std::vec::Vec::last')
def _(E, st, f, a, site, t):
    fn = MM.first_of if f['path'].endswith('first') else MM.last_of

    def go(v):
        e = MM.is_empty(E, v)
        return gamma([(e, NONE), (D.not_(e), some(fn(E, st, v)))])
    return MM.dist(st, rd(E, st, a[0]), go)


@model('slice::last_mut', 'slice::first_mut', 'std::vec::Vec::last_mut', 'std::vec::Vec::first_mut')
def _(E, st, f, a, site, t):
    which = 'last' if 'last' in f['path'] else 'first'
    v = rd(E, st, a[0])
    e = MM.dist(st, v, lambda x: bval(MM.is_empty(E, x)))
    e = E.tobool(e)
    ty = f['targs'][0] if f.get('targs') else I.UNKNOWN_TY
    return gamma([(e, NONE), (D.not_(e), some(elref(E, a[0], (which, None, ty))))])


def get_idx(E, st, v, i):
    v = rd(E, st, v)
    if v.tag == 'g':
        return gamma([(c, get_idx(E, st, x, i)) for c, x in v.a[0] if D.and_(c, st.pc) != F])
    c = idx_present(E, st, v, i)
    if c == F:
        return NONE
    return opt(c, MM.index_val(E, st, v, i))


MM.get_idx = get_idx


@model('slice::get', 'std::vec::Vec::get', 'str::get')
def _(E, st, f, a, site, t):
    i = dp(E, st, a[1])
    if i.tag == 'adt':
        return opt(D.eq(('has', dp(E, st, a[0]), i), 1, (0, 1)), term('slice', (dp(E, st, a[0]), i), I.UNKNOWN_TY))
    return get_idx(E, st, a[0], i)


@model('slice::get_mut')
def _(E, st, f, a, site, t):
    i = dp(E, st, a[1])
    c = idx_present(E, st, rd(E, st, a[0]), i)
    ty = f['targs'][0] if f.get('targs') else I.UNKNOWN_TY
    return opt(c, elref(E, a[0], ('idx', i, ty)))


@model('std::vec::Vec::len', 'std::string::String::len', 'str::len', 'slice::len', 'std::collections::HashMap::len', 'std::collections::HashSet::len')
def _(E, st, f, a, site, t):
    return MM.length(E, st, dp(E, st, a[0]))


@model('std::vec::Vec::is_empty', 'std::string::String::is_empty', 'str::is_empty', 'slice::is_empty', 'std::collections::HashMap::is_empty',
       'std::collections::HashSet::is_empty', 'multimap::MultiMap::is_empty')
def _(E, st, f, a, site, t):
    return bval(MM.is_empty(E, dp(E, st, a[0])))


@model('slice::contains', 'std::vec::Vec::contains', 'std::collections::HashSet::contains', 'std::collections::BTreeSet::contains')
def _(E, st, f, a, site, t):
    x = dp(E, st, a[1])
    v = dp(E, st, a[0])
    return bval(contains(E, st, v, x))


def contains(E, st, v, x):
    if v.tag == 'g':
        return D.or_(*[D.and_(c, contains(E, st, y, x)) for c, y in v.a[0]])
    if v.tag == 'arr':
        return D.or_(*[MM.val_eq(E, y, x) for y in v.a[0]]) if v.a[0] else F
    if v.tag == 'coll':
        if not v.a[1]:
            return F
        if all(not s.a[0] and s.a[3] in ('push', 'ins') for s in v.a[1]):
            return D.or_(*[D.and_(s.a[1], MM.val_eq(E, s.a[2], x)) for s in v.a[1]])
    if MM.growing(E, v):
        v = MM.sofar(E, v)
    elif is_seq(E, v) and not any(isinstance(s.a[3], tuple) for s in (v.a[1] if v.tag == 'coll' else ())):
        from .m_iter import src_flows
        r = F
        for o, c, y in src_flows(E, I.St({}, T, ()), v):
            r = D.or_(r, I.any_node(o, D.and_(c, MM.val_eq(E, y, x))))
        return r
    return D.eq(('has', v, x), 1, (0, 1))


def is_seq(E, v):
    if v.tag == 'coll':
        return v.a[0] == 'vec'
    t = E.ty(E.stripbox(v.a[2])) if v.tag == 't' else {}
    return t.get('k') in ('slice', 'array') or t.get('path', '').endswith('Vec')


@model('std::collections::HashSet::insert', 'std::collections::BTreeSet::insert')
def _(E, st, f, a, site, t):
    x = dp(E, st, a[1])
    s = st.fork()
    m = rd(E, s, a[0])
    c = contains(E, st, dp(E, st, m), x)
    wr(E, s, a[0], MM.dist(s, m, lambda y: MM.addseg(E, s, MM.ascoll(E, y, 'hset'), x, 'ins')))
    return [(s, bval(D.not_(c)))]


@model('std::collections::HashSet::remove')
def _(E, st, f, a, site, t):
    x = dp(E, st, a[1])
    s = st.fork()
    m = rd(E, s, a[0])
    c = contains(E, st, dp(E, st, m), x)
    wr(E, s, a[0], MM.dist(s, m, lambda y: MM.addseg(E, s, MM.ascoll(E, y, 'hset'), UNIT, ('del', x))))
    return [(s, bval(c))]


# ---- defaults
def default_of(E, st, ty, site):
    t = E.ty(ty)
    k = t['k']
    if k == 'bool':
        return FALSE
    if k in ('int',):
        return const(0, t['s'])
    if k == 'float':
        return const(0.0, t['s'])
    if k == 'str':
        return MM.sval('')
    if k == 'ref':
        return default_of(E, st, t['t'], site)
    if k == 'tuple':
        xs = [default_of(E, st, x, site) for x in t['args']]
        return None if any(x is None for x in xs) else mk('tup', tuple(xs))
    if k == 'adt':
        if t['path'] == I.OPT:
            return NONE
        c = coll_kind(E, ty)
        if c:
            return coll(c, (), len(st.ctx))
        if t['path'].endswith('OnceLock'):
            return term('oncelock', ())
    return None


def default_call(E, st, f, site, ty):
    fw = f.get('fwd')
    if fw and fw.get('id') is not None:
        r = E.call_fn(fw['id'], [], st, (site, 'dflt'))
        if r is not None:
            return r
    v = default_of(E, st, ty, site)
    if v is None:
        # derived Default of a local struct: field-wise
        t = E.ty(E.stripbox(ty))
        if t['k'] == 'adt' and 'ftys' in t and len(t['ftys']) == 1:
            xs = [default_of(E, st, x, site) for x in t['ftys'][0]]
            if all(x is not None for x in xs):
                return [(st, adt(t['path'], 0, xs))]
        v = term('default', (E.tystr(ty),), ty)
    return [(st, v)]


@model('std::default::Default::default')
def _(E, st, f, a, site, t):
    if f.get('local') and f.get('id') is not None:
        return E.call_fn(f['id'], [], st, site)
    return default_call(E, st, {}, site, f['targs'][0] if f.get('targs') else t['dty'])


@model('std::option::Option::unwrap_or_default', 'std::result::Result::unwrap_or_default')
def _(E, st, f, a, site, t):
    out = []
    bad = F
    for pc, isok, pay in split_result(E, st, a[0]):
        if isok:
            out.append((st.fork(pc), pay))
        else:
            bad = D.or_(bad, pc)
    if bad != F:
        out.extend(default_call(E, st.fork(bad), f, site, t['dty']))
    return E.join_rets(out)
