"""Cells, logging, geometry, file system and other library surfaces"""
from .m_str import *
from . import m_str
from . import m_loop
from . import models as MM
from . import interp as I

GEO = {'geo::Point', 'geo::Coord', 'geo::LineString', 'geo::MultiLineString', 'geo::Polygon', 'geo::Line', 'geo::Rect'}


def pure(*names):
    for n in names:
        def fn(E, st, f, a, site, t, op=n.rsplit('::', 1)[-1]):
            return term(op, tuple(dp(E, st, x) for x in a), t['dty'] if t else -1)
        MM.MODELS[n] = fn


def effect(*names):
    for n in names:
        def fn(E, st, f, a, site, t, n=n, op='::'.join(n.split('::')[-2:])):
            xs = tuple(dp(E, st, x) for x in a)
            E.event('effect', st, (n,) + xs)
            return term(op, xs, t['dty'] if t else -1)
        MM.MODELS[n] = fn


# ------------------------------------------------------------------ geometry
def xy(E, v):
    """(x, y) of a coordinate-like value"""
    if v.tag == 'adt' and v.a[0].endswith('Coord'):
        return v.a[2][0], v.a[2][1]
    if v.tag == 'adt' and v.a[0].endswith('Point'):
        return xy(E, v.a[2][0])
    if v.tag == 'tup':
        return v.a[0]
    if v.tag == 't' and v.a[2] >= 0:
        p = E.ty(E.stripbox(v.a[2])).get('path', '')
        if p.endswith('Point'):
            return xy(E, E.field_term(v, 0, coord_ty(E)))
        return E.field_term(v, 0, E.find_ty('f64')), E.field_term(v, 1, E.find_ty('f64'))
    return term('x', (v,), E.find_ty('f64')), term('y', (v,), E.find_ty('f64'))


def coord_ty(E):
    for i, t in enumerate(E.T):
        if t.get('path', '').endswith('Coord') and t['k'] == 'adt':
            return i
    return -1


def gadt(E, name, fields):
    for p in E.adts:
        if p.startswith('geo') and p.endswith('::' + name):
            return adt(p, 0, fields)
    return adt('geo::' + name, 0, fields)


def mkcoord(E, x, y):
    return gadt(E, 'Coord', (x, y))


@model('geo::Point::new')
def _(E, st, f, a, site, t):
    return gadt(E, 'Point', (mkcoord(E, dp(E, st, a[0]), dp(E, st, a[1])),))


@model('geo::Point::x', 'geo::Point::y')
def _(E, st, f, a, site, t):
    i = 0 if f['path'].endswith('x') else 1
    return MM.dist(st, dp(E, st, a[0]), lambda v: xy(E, v)[i])


@model('geo::LineString::new')
def _(E, st, f, a, site, t):
    return gadt(E, 'LineString', (dp(E, st, a[0]),))


@model('geo::MultiLineString::new')
def _(E, st, f, a, site, t):
    return gadt(E, 'MultiLineString', (dp(E, st, a[0]),))


@model('geo::Polygon::new')
def _(E, st, f, a, site, t):
    return gadt(E, 'Polygon', (dp(E, st, a[0]), dp(E, st, a[1])))


@model('geo::Line::new')
def _(E, st, f, a, site, t):
    return gadt(E, 'Line', (dp(E, st, a[0]), dp(E, st, a[1])))


@model('geo::Winding::make_ccw_winding')
def _(E, st, f, a, site, t):
    s = st.fork()
    v = dp(E, s, a[0])
    MM.wr(E, s, a[0], term('ccw', (v,), E.find_ty('geo::LineString')))
    return [(s, UNIT)]


pure('geo::BoundingRect::bounding_rect', 'geo::Destination::destination', 'geo::Rect::max', 'geo::Rect::min', 'geo::LineString::lines',
     'rstar::AABB::from_corners', 'rstar::RTree::bulk_load', 'rstar::RTree::locate_all_at_point', 'rstar::RTree::locate_in_envelope_intersecting',
     'rstar::primitives::GeomWithData::new', 'rstar::primitives::Rectangle::from_corners')


@model('geo::Contains::contains', 'geo::HasDimensions::is_empty', 'geo::Intersects::intersects')
def _(E, st, f, a, site, t):
    xs = tuple(dp(E, st, x) for x in a)
    op = f['path'].rsplit('::', 1)[-1]
    if op == 'is_empty':
        v = xs[0]
        while v.tag == 'adt' and v.a[0].startswith('geo') and len(v.a[2]) == 1:
            v = v.a[2][0]
        return bval(MM.is_empty(E, v)) if v.tag == 'coll' else bval(D.eq(('geo_empty', xs[0]), 1, (0, 1)))
    return bval(D.eq(('geo::' + op,) + xs, 1, (0, 1)))


@model('uom::si::length::new', 'uom::si::time::new', 'uom::si::length::get')
def _(E, st, f, a, site, t):
    unit = [E.tystr(x) for x in f.get('targs', ())]
    unit = [u for u in unit if re.search(r'::(length|time)::', u)]
    return term(f['path'].rsplit('::', 1)[-1] + ':' + ','.join(u.rsplit('::', 1)[-1] for u in unit), (dp(E, st, a[0]),), t['dty'] if t else -1)


_into = MM.MODELS['std::convert::Into::into']


@model('std::convert::Into::into', 'std::convert::From::from')
def _(E, st, f, a, site, t):
    fw = f.get('fwd')
    if not (fw and fw.get('id') is not None) and t:
        p = E.ty(t['dty']).get('path', '')
        if p in GEO or p.startswith('geo') and p.rsplit('::', 1)[-1] in ('Point', 'Coord', 'LineString', 'MultiLineString', 'Line'):
            nm = p.rsplit('::', 1)[-1]

            def go(v):
                if v.tag == 'adt' and v.a[0].endswith('::' + nm):
                    return v
                if v.tag == 't' and v.a[2] >= 0 and E.ty(E.stripbox(v.a[2])).get('path', '').endswith('::' + nm):
                    return v
                if nm == 'Coord':
                    return mkcoord(E, *xy(E, v))
                if nm == 'Point':
                    return gadt(E, 'Point', (mkcoord(E, *xy(E, v)),))
                return gadt(E, nm, (v,)) if nm != 'Line' else gadt(E, nm, v.a[0] if v.tag in ('tup', 'arr') else (v,))
            return MM.dist(st, dp(E, st, a[0]), go)
    return _into(E, st, f, a, site, t)


# ------------------------------------------------------------------ once cells
@model('std::sync::OnceLock::new')
def _(E, st, f, a, site, t):
    return adt('std::sync::OnceLock', 0, (NONE,))


@model('std::sync::OnceLock::get')
def _(E, st, f, a, site, t):
    return MM.dist(st, rd(E, st, a[0]), lambda v: v.a[2][0] if v.tag == 'adt' else term('once', (v,), t['dty']))


@model('std::sync::OnceLock::set')
def _(E, st, f, a, site, t):
    v = rd(E, st, a[0])
    s = st.fork()
    if v.tag == 'adt':
        MM.wr(E, s, a[0], adt(v.a[0], 0, (some(dp(E, st, a[1])),)))
        return [(s, ok(UNIT))]
    return [(s, term('once_set', (dp(E, st, v), dp(E, st, a[1])), t['dty']))]


@model('std::sync::OnceLock::get_or_init')
def _(E, st, f, a, site, t):
    """the initialiser is a pure function: the value is its result (a filled cell keeps what it holds)"""
    v = rd(E, st, a[0])
    if v.tag == 'adt' and v.a[0] == 'std::sync::OnceLock' and v.a[2][0].tag == 'adt' and v.a[2][0].a[1] == 1:
        return v.a[2][0].a[2][0]
    if v.tag == 'adt' or v.tag == 't' and v.a[0] == 'static':
        return E.call_val(st, a[1], [], site, t['dty'] if t else -1)
    out = []
    filled = D.eq(('filled', v), 1, (0, 1))
    pc = D.and_(st.pc, filled)
    if pc != F:
        out.append((st.fork(pc), term('once', (v,), t['dty'])))
    pc = D.and_(st.pc, D.not_(filled))
    if pc != F:
        out.extend(E.call_val(st.fork(pc), a[1], [], site, t['dty']))
    return E.join_rets(out)


# ------------------------------------------------------------------ logging
@model('tracing::__macro_support::__is_enabled')
def _(E, st, f, a, site, t):
    return TRUE


@model('tracing::subscriber::Interest::is_never')
def _(E, st, f, a, site, t):
    return FALSE


@model('tracing::level_filters::LevelFilter::current', 'tracing::callsite::DefaultCallsite::interest', 'tracing::callsite::Callsite::metadata',
       'tracing::Metadata::fields', 'tracing::Metadata::new', 'tracing::field::FieldSet::new', 'tracing::callsite::DefaultCallsite::new',
       'tracing::callsite::DefaultCallsite::register', 'from_pest::log::__private_api::loc')
def _(E, st, f, a, site, t):
    return term('trace', (), t['dty'] if t else -1)


@model('tracing::field::FieldSet::value_set_all', 'tracing::field::FieldSet::value_set')
def _(E, st, f, a, site, t):
    return term('traceval', (dp(E, st, a[1]),), t['dty'] if t else -1)


@model('tracing::Event::dispatch', 'from_pest::log::__private_api::log')
def _(E, st, f, a, site, t):
    E.event('log', st, (t.get('mac') if t else None,) + tuple(dp(E, st, x) for x in a[1:]))
    return UNIT


@model('from_pest::log::max_level')
def _(E, st, f, a, site, t):
    return term('loglevel', (), t['dty'] if t else -1)


_pord = {k: MM.MODELS[k] for k in MM.MODELS if k.startswith('std::cmp::PartialOrd::')}
for _k, _old in _pord.items():
    def _f(E, st, f, a, site, t, old=_old):
        tys = ' '.join(E.tystr(x) for x in f.get('targs', ()))
        if 'tracing' in tys or 'log::Level' in tys:
            return TRUE
        return old(E, st, f, a, site, t)
    MM.MODELS[_k] = _f

# ------------------------------------------------------------------ file system, environment
effect('fs_err::read', 'std::env::current_dir', 'std::path::Path::canonicalize', 'std::fs::read', 'fs_err::read_to_string')
pure('std::path::Path::file_name', 'std::path::Path::parent', 'std::path::Path::with_extension', 'std::path::Path::with_file_name',
     'serde_json::from_slice', 'toml::from_slice')


@model('std::ops::RangeInclusive::new')
def _(E, st, f, a, site, t):
    return term('range_incl', (dp(E, st, a[0]), dp(E, st, a[1])), t['dty'] if t else -1)


@model('std::path::Path::join')
def _(E, st, f, a, site, t):
    return term('path_join', (dp(E, st, a[0]), dp(E, st, a[1])), t['dty'] if t else -1)


def _in_place(name, op):
    @model(name)
    def _(E, st, f, a, site, t):
        """the in-place form of a path edit leaves what the copying form returns"""
        s = st.fork()
        cur, x = dp(E, s, a[0]), dp(E, s, a[1])
        MM.wr(E, s, a[0], term(op, (cur, x), E.find_ty('std::path::PathBuf')))
        if op == 'path_join':
            return [(s, UNIT)]
        return [(s, term(name.rsplit('::', 1)[-1], (cur, x), t['dty'] if t else -1))]


for _n, _o in (('push', 'path_join'), ('set_extension', 'with_extension'), ('set_file_name', 'with_file_name')):
    _in_place('std::path::PathBuf::' + _n, _o)
