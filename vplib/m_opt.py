"""Option / Result combinators, closures calls, panics, conversions, clones"""
from .m_coll import *
from .m_coll import opt
from . import models as MM
from . import interp as I

O, R = 'std::option::Option::', 'std::result::Result::'


def wrap_ok(path, x):
    return ok(x) if path == I.RES else some(x)


def kind_of(E, f, v):
    return I.RES if f['path'].startswith(('std::result', 'core::result')) or '::result::Result' in f['path'] else I.OPT


def split(E, st, v):
    """[(pc, good?, payload)] merged per side: -> (pc_ok, payload_ok, pc_bad, payload_bad)"""
    g, b = [], []
    for pc, isok, pay in split_result(E, st, v):
        (g if isok else b).append((pc, pay))
    pg = D.or_(*[c for c, _ in g]) if g else F
    pb = D.or_(*[c for c, _ in b]) if b else F
    return pg, gamma(g) if g else UNDEF, pb, gamma(b) if b else UNIT


def ref_split(E, st, v):
    """like split, but payload of a mutable reference is a reference into it"""
    if v.tag == 'ref':
        x = E.load(st, v.a[0], v.a[1])
        if x.tag == 'ref':
            return ref_split(E, st, x)
        pg, pay, pb, pb2 = split(E, st, x)
        okv = 1 if any(y.tag == 'adt' and y.a[0] == I.OPT for _, y in alts(x)) or (x.tag == 't' and E.ty(E.stripbox(x.a[2])).get('path') == I.OPT) else 0
        return pg, mk('ref', v.a[0], v.a[1] + (('v', okv, ''), ('f', 0, -1))), pb, pb2
    return split(E, st, v)


def om(*names):
    """register for both Option and Result under the given method names (prefix o:/r: restricts)"""
    def deco(fn):
        for n in names:
            if n.startswith('o:'):
                MM.MODELS[O + n[2:]] = fn
            elif n.startswith('r:'):
                MM.MODELS[R + n[2:]] = fn
            else:
                MM.MODELS[O + n] = fn
                MM.MODELS[R + n] = fn
        return fn
    return deco


@om('unwrap', 'expect', 'r:unwrap_err', 'r:expect_err')
def _(E, st, f, a, site, t):
    pg, x, pb, y = split(E, st, a[0])
    if f['path'].endswith('_err'):
        pg, x, pb, y = pb, y, pg, x
    E.oblige(st, 'unwrap')
    if pb != F:
        E.panic(st.fork(pb), 'unwrap' if 'unwrap' in f['path'] else 'expect', why(E, a[0]), st.pc)
    if pg == F:
        return []
    if pb != F:
        pg = MM.after_panic(st.pc, pg)
    return [(st.fork(pg), x)]


def why(E, v):
    """where the unwrapped value comes from (stable text, for reports and finding keys)"""
    s = set()
    for _, x in alts(v):
        if x.tag == 'adt' and not x.a[2]:
            continue
        if x.tag == 'adt' and x.a[0] == I.RES and x.a[1] == 1:
            e = x.a[2][0]
            s.add(e.a[0] if e.tag == 't' else e.tag)
        elif x.tag == 't':
            s.add(x.a[0])
    return ','.join(sorted(s))[:80]


@om('unwrap_or')
def _(E, st, f, a, site, t):
    pg, x, pb, y = split(E, st, a[0])
    return gamma([(pg, x), (pb, a[1])])


@om('unwrap_or_else')
def _(E, st, f, a, site, t):
    pg, x, pb, y = split(E, st, a[0])
    out = []
    if pg != F:
        out.append((st.fork(pg), x))
    if pb != F:
        out.extend(E.call_val(st.fork(pb), a[1], [y] if kind_of(E, f, a[0]) == I.RES else [], site))
    return E.join_rets(out)


@om('o:is_some', 'r:is_ok', 'o:is_none', 'r:is_err')
def _(E, st, f, a, site, t):
    pg, x, pb, y = split(E, st, a[0])
    n = D.restrict(pg, D.or_(pg, pb))
    return bval(D.not_(n) if f['path'].endswith(('is_none', 'is_err')) else n)


@om('o:is_some_and', 'r:is_ok_and', 'o:is_none_or')
def _(E, st, f, a, site, t):
    pg, x, pb, y = split(E, st, a[0])
    out = []
    if pg != F:
        out.extend((s, bval(E.tobool(b))) for s, b in E.call_val(st.fork(pg), a[1], [x], site))
    if pb != F:
        out.append((st.fork(pb), TRUE if f['path'].endswith('or') else FALSE))
    return E.join_rets(out)


@om('map', 'and_then', 'o:filter', 'o:inspect', 'r:inspect', 'r:map_err', 'r:inspect_err', 'r:or_else', 'o:or_else', 'map_or', 'map_or_else', 'o:ok_or_else',
    'o:xor', 'o:get_or_insert_with')
def _(E, st, f, a, site, t):
    op = f['path'].rsplit('::', 1)[-1]
    K = kind_of(E, f, a[0])
    if op == 'get_or_insert_with':
        pg, x, pb, y = split(E, st, rd(E, st, a[0]))
        out = []
        if pg != F:
            out.append(st.fork(pg))
        if pb != F:
            for s, v in E.call_val(st.fork(pb), a[1], [], site):
                wr(E, s, a[0], some(v))
                out.append(s)
        return [(s, mk('ref', a[0].a[0], a[0].a[1] + (('v', 1, ''), ('f', 0, -1)))) for s in E.join_list(out)]
    pg, x, pb, y = split(E, st, a[0])
    out = []
    bad = (lambda z: err(z)) if K == I.RES else (lambda z: NONE)
    if pg != F:
        s = st.fork(pg)
        if op in ('map', 'and_then', 'map_or', 'map_or_else'):
            fn = a[1] if op in ('map', 'and_then') else a[2]
            for s2, v in E.call_val(s, fn, [x], (site, 'g')):
                out.append((s2, wrap_ok(K, v) if op == 'map' else v))
        elif op == 'filter':
            for s2, b in E.call_val(s, a[1], [x], (site, 'g')):
                n = E.tobool(b)
                out.append((s2, gamma([(n, some(x)), (D.not_(n), NONE)])))
        elif op == 'inspect':
            for s2, _v in E.call_val(s, a[1], [x], (site, 'g')):
                out.append((s2, wrap_ok(K, x)))
        else:
            out.append((s, ok(x) if op == 'ok_or_else' else wrap_ok(K, x)))
    if pb != F:
        s = st.fork(pb)
        if op in ('map', 'and_then', 'filter', 'inspect'):
            out.append((s, bad(y)))
        elif op == 'map_err':
            out.extend((s2, err(v)) for s2, v in E.call_val(s, a[1], [y], (site, 'b')))
        elif op == 'inspect_err':
            out.extend((s2, err(y)) for s2, v in E.call_val(s, a[1], [y], (site, 'b')))
        elif op == 'or_else':
            out.extend(E.call_val(s, a[1], [y] if K == I.RES else [], (site, 'b')))
        elif op == 'ok_or_else':
            out.extend((s2, err(v)) for s2, v in E.call_val(s, a[1], [], (site, 'b')))
        elif op == 'map_or':
            out.append((s, a[1]))
        elif op == 'map_or_else':
            out.extend(E.call_val(s, a[1], [y] if K == I.RES else [], (site, 'b')))
    return E.join_rets(out)


@om('o:ok_or', 'r:ok', 'r:err', 'or', 'and', 'o:zip', 'flatten')
def _(E, st, f, a, site, t):
    op = f['path'].rsplit('::', 1)[-1]
    K = kind_of(E, f, a[0])
    pg, x, pb, y = split(E, st, a[0])
    w = D.or_(pg, pb)
    bad = err(y) if K == I.RES else NONE
    if op == 'ok_or':
        return gamma([(pg, ok(x)), (pb, err(a[1]))])
    if op == 'ok':
        return gamma([(pg, some(x)), (pb, NONE)])
    if op == 'err':
        return gamma([(pg, NONE), (pb, some(y))])
    if op == 'or':
        return gamma([(pg, wrap_ok(K, x)), (pb, a[1])])
    if op == 'and':
        return gamma([(pg, a[1]), (pb, bad)])
    if op == 'flatten':
        return gamma([(pg, x), (pb, bad)])
    s = st.fork(pg) if pg != F else None
    al = [(pb, NONE)]
    if s:
        pg2, x2, pb2, y2 = split(E, s, a[1])
        al += [(pg2, some(mk('tup', (x, x2)))), (pb2, NONE)]
    return gamma(al)


@om('as_ref', 'o:as_deref', 'cloned', 'copied', 'o:as_slice', 'r:as_deref')
def _(E, st, f, a, site, t):
    return rd(E, st, a[0])


@om('as_mut', 'o:as_deref_mut')
def _(E, st, f, a, site, t):
    pg, x, pb, y = ref_split(E, st, a[0])
    K = kind_of(E, f, a[0])
    return gamma([(pg, wrap_ok(K, x)), (pb, NONE if K == I.OPT else err(y))])


@om('o:take', 'o:replace', 'o:insert', 'o:get_or_insert')
def _(E, st, f, a, site, t):
    op = f['path'].rsplit('::', 1)[-1]
    s = st.fork()
    old = rd(E, s, a[0])
    inner = lambda: mk('ref', a[0].a[0], a[0].a[1] + (('v', 1, ''), ('f', 0, -1)))
    if op == 'take':
        wr(E, s, a[0], NONE)
        return [(s, old)]
    if op == 'replace':
        wr(E, s, a[0], some(a[1]))
        return [(s, old)]
    if op == 'insert':
        wr(E, s, a[0], some(a[1]))
        return [(s, inner())]
    pg, x, pb, y = split(E, s, old)
    wr(E, s, a[0], some(gamma([(pg, x), (pb, a[1])])))
    return [(s, inner())]


@om('transpose')
def _(E, st, f, a, site, t):
    K = kind_of(E, f, a[0])
    pg, x, pb, y = split(E, st, a[0])
    al = []
    if K == I.OPT:
        al.append((pb, ok(NONE)))
        if pg != F:
            g2, x2, b2, y2 = split(E, st.fork(pg), x)
            al += [(g2, ok(some(x2))), (b2, err(y2))]
    else:
        al.append((pb, some(err(y))))
        if pg != F:
            g2, x2, b2, y2 = split(E, st.fork(pg), x)
            al += [(g2, some(ok(x2))), (b2, NONE)]
    return gamma(al)


CF = 'std::ops::ControlFlow'


@model('std::ops::Try::branch')
def _(E, st, f, a, site, t):
    pg, x, pb, y = split(E, st, a[0])
    isres = any(z.tag == 'adt' and z.a[0] == I.RES for _, z in alts(a[0])) or (a[0].tag == 't' and E.ty(E.stripbox(a[0].a[2])).get('path') == I.RES)
    return gamma([(pg, adt(CF, 0, (x,))), (pb, adt(CF, 1, (err(y) if isres else NONE,)))])


@model('std::ops::FromResidual::from_residual')
def _(E, st, f, a, site, t):
    pg, x, pb, y = split(E, st, a[0])
    v = rd(E, st, a[0])
    if all(z.tag == 'adt' and z.a[0] == I.OPT for _, z in alts(v)):
        return NONE
    out = []
    fw = f.get('fwd')
    if fw and fw.get('id') is not None:
        return [(s, err(v)) for s, v in E.call_fn(fw['id'], [y], st, (site, 'fr'))]
    et = MM.ret_arg(E, t, 1)
    return err(conv_err(E, f, y, et))


def conv_err(E, f, y, et):
    if y.tag == 't' and et >= 0 and y.a[2] >= 0 and E.strip(y.a[2]) != E.strip(et):
        return term('into', (y, E.tystr(et)), et)
    return y


@model('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
def _(E, st, f, a, site, t):
    args = list(a[1].a[0]) if len(a) > 1 and a[1].tag == 'tup' else list(a[1:])
    return E.call_val(st, a[0], args, site, t['dty'] if t else -1)


# ---- panics
PANICS = ('core::panicking::panic_fmt', 'core::panicking::panic', 'core::panicking::panic_display', 'core::panicking::panic_explicit',
          'core::panicking::unreachable_default_msg', 'std::rt::begin_panic', 'std::rt::panic_fmt', 'core::panicking::panic_nounwind',
          'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'core::panicking::panic_const::panic_const_div_by_zero',
          'core::panicking::assert_failed', 'std::process::exit', 'std::process::abort', 'core::panicking::unreachable_display', 'core::panicking::panic_str_2015',
          'std::option::unwrap_failed', 'std::option::expect_failed', 'std::result::unwrap_failed')


@model(*PANICS)
def _(E, st, f, a, site, t):
    msg = ''
    if a:
        m = rd(E, st, a[0])
        msg = str(m.a[0]) if m.tag == 'c' else (m.a[1][0].a[0] if m.tag == 't' and m.a[1] and isinstance(m.a[1][0], I.Val) and m.a[1][0].tag == 'c' else '')
    E.oblige(st, 'panic')
    kind = (t or {}).get('mac') or f['path'].rsplit('::', 1)[-1]
    E.panic(st, kind, str(msg)[:60])
    return []


# ---- transparent conversions
IDENT = ('std::clone::Clone::clone', 'std::ops::Deref::deref', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::string::String::as_str',
         'std::borrow::ToOwned::to_owned', 'std::vec::Vec::as_slice', 'slice::to_vec', 'std::borrow::Cow::into_owned', 'str::to_owned', 'std::string::String::into_boxed_str',
         'std::boxed::Box::new', 'std::sync::Arc::new', 'std::rc::Rc::new', 'std::hint::must_use', 'std::path::PathBuf::as_path', 'std::convert::identity',
         'std::cell::UnsafeCell::new', 'std::string::String::as_bytes', 'str::as_bytes', 'str::as_str', 'std::string::String::into_bytes', 'std::ffi::OsStr::new', 'std::path::Path::new',
         'std::path::Path::to_path_buf', 'std::string::String::from', 'std::borrow::Cow::to_mut', 'std::hint::black_box', 'std::vec::Vec::into_boxed_slice',
         'std::vec::Vec::shrink_to_fit', 'std::path::Path::as_os_str', 'std::array::iter::IntoIter::new', 'slice::into_vec', 'std::any::Any::type_id', 'std::iter::once',
         'thiserror::__private19::AsDisplay::as_display', 'thiserror::__private19::AsDynError::as_dyn_error', 'std::mem::ManuallyDrop::new', 'std::sync::Arc::clone', 'std::str::from_utf8_unchecked',
         'std::cell::Cell::new', 'std::cell::RefCell::new', 'std::cmp::Reverse', 'str::to_string')


@model(*IDENT)
def _(E, st, f, a, site, t):
    if f.get('local') and f.get('id') is not None and 'Clone' not in f['path']:
        return None
    v = rd(E, st, a[0])
    if 'iter::once' in f['path']:
        return mkit(mk('arr', (v,)))
    return v


@model('local:std::clone::Clone::clone')
def _(E, st, f, a, site, t):
    # derived clones are structural; a hand-written one is interpreted
    if f.get('derive') or is_derived(E, f):
        return rd(E, st, a[0])
    return None


def is_derived(E, f):
    s = E.__dict__.setdefault('_derived', None)
    if s is None:
        s = E._derived = {i['path'] for i in E.f['items'] if i.get('derive')}
    return f.get('rpath') in s


@model('std::ops::DerefMut::deref_mut', 'std::borrow::BorrowMut::borrow_mut', 'std::convert::AsMut::as_mut', 'std::vec::Vec::as_mut_slice', 'std::cell::RefCell::borrow_mut')
def _(E, st, f, a, site, t):
    return a[0]


@model('std::clone::Clone::clone_from')
def _(E, st, f, a, site, t):
    s = st.fork()
    wr(E, s, a[0], dp(E, s, a[1]))
    return [(s, UNIT)]


@model('std::mem::take', 'std::mem::replace')
def _(E, st, f, a, site, t):
    s = st.fork()
    old = rd(E, s, a[0])
    if f['path'].endswith('take'):
        out = []
        for s2, v in default_call(E, s, f, site, t['dty']):
            wr(E, s2, a[0], v)
            out.append((s2, old))
        return out
    wr(E, s, a[0], a[1])
    return [(s, old)]


@model('std::mem::swap')
def _(E, st, f, a, site, t):
    s = st.fork()
    x, y = rd(E, s, a[0]), rd(E, s, a[1])
    wr(E, s, a[0], y)
    wr(E, s, a[1], x)
    return [(s, UNIT)]


@model('std::mem::drop', 'std::mem::forget')
def _(E, st, f, a, site, t):
    return UNIT


@model('std::convert::Into::into', 'std::convert::From::from')
def _(E, st, f, a, site, t):
    fw = f.get('fwd')
    if fw and fw.get('id') is not None:
        return E.call_fn(fw['id'], [a[0]], st, (site, 'into'))
    v = rd(E, st, a[0])
    if 'id' in f and not f.get('local') and v.tag not in ('coll', 'arr') and 'num' in f.get('rpath', ''):
        return None
    ty = t['dty'] if t else -1
    k = E.ty(ty)['k']
    src = E.ty(E.strip(f['targs'][0])) if f.get('targs') else {}
    if k == 'float':
        return MM.cast(E, st, 'IntToFloat', v, ty, -1) if not MM.is_float(E, v) else v
    if k == 'int':
        return MM.cast(E, st, 'IntToInt', v, ty, -1)
    p = E.ty(ty).get('path', '')
    ck = coll_kind(E, ty)
    if ck in ('hmap', 'hset', 'bmap', 'bset'):
        return [collect(E, st, v, ck, site)]
    if p == I.OPT:
        return some(v)
    if p in ('std::sync::OnceLock', 'std::cell::OnceCell'):
        return adt(p, 0, (some(dp(E, st, v)),))
    return v


@model('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def _(E, st, f, a, site, t):
    fw = f.get('fwd')
    if fw and fw.get('id') is not None:
        return E.call_fn(fw['id'], [a[0]], st, (site, 'tf'))
    v = rd(E, st, a[0])
    okty = MM.ret_arg(E, t, 0)
    tr = MM.INT.get(E.tystr(okty))
    if tr is None:
        return None

    def go(x):
        r = MM.rng(E, x)
        if r and r[0] >= tr[0] and r[1] <= tr[1]:
            return ok(x)
        c = D.eq(('fits', E.tystr(okty), x), 1, (0, 1))
        return gamma([(c, ok(x)), (D.not_(c), err(term('int_error', (x,), MM.ret_arg(E, t, 1))))])
    return MM.dist(st, v, go)


@model('std::boxed::Box::new_uninit')
def _(E, st, f, a, site, t):
    s = st.fork()
    cell = ('box', E.stack[-1][0], site)
    s.mem[cell] = UNDEF
    return [(s, mk('ref', cell, ()))]


@model('std::boxed::box_assume_init_into_vec_unsafe')
def _(E, st, f, a, site, t):
    v = rd(E, st, a[0])

    def dig(v):
        while v.tag in ('tup', 'adt'):
            fs = [x for x in (v.a[0] if v.tag == 'tup' else v.a[2]) if x.tag != 'undef']
            if len(fs) != 1:
                break
            v = fs[0]
        return v
    v = dig(v)
    if v.tag == 'arr':
        return coll('vec', [seg((), T, dp(E, st, x)) for x in v.a[0]], len(st.ctx)) if not st.ctx else coll('vec', [seg((), T, dp(E, st, x)) for x in v.a[0]], len(st.ctx))
    return v


@model('std::vec::from_elem')
def _(E, st, f, a, site, t):
    return term('repeat', (dp(E, st, a[0]), rd(E, st, a[1])), t['dty'])


@model('bool::then', 'bool::then_some')
def _(E, st, f, a, site, t):
    n = E.tobool(rd(E, st, a[0]))
    if f['path'].endswith('then_some'):
        return opt(n, a[1])
    out = []
    pc = D.and_(st.pc, n)
    if pc != F:
        out.extend((s, some(v)) for s, v in E.call_val(st.fork(pc), a[1], [], site))
    pc = D.and_(st.pc, D.not_(n))
    if pc != F:
        out.append((st.fork(pc), NONE))
    return E.join_rets(out)


# ---- comparisons
@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def _(E, st, f, a, site, t):
    n = MM.val_eq(E, dp(E, st, a[0]), dp(E, st, a[1]))
    return bval(D.not_(n) if f['path'].endswith('ne') else n)


@model('local:std::cmp::PartialEq::eq', 'local:std::cmp::PartialEq::ne')
def _(E, st, f, a, site, t):
    if is_derived(E, f):
        n = MM.val_eq(E, dp(E, st, a[0]), dp(E, st, a[1]))
        return bval(D.not_(n) if f['path'].endswith('ne') else n)
    return None


@model('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge')
def _(E, st, f, a, site, t):
    return bval(MM.cmp_cond(E, f['path'].rsplit('::', 1)[-1], dp(E, st, a[0]), dp(E, st, a[1])))


@model('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp', 'f64::total_cmp')
def _(E, st, f, a, site, t):
    o = MM.ordering(E, st, dp(E, st, a[0]), dp(E, st, a[1]))
    return some(o) if 'partial' in f['path'] else o


@model('std::cmp::Ord::max', 'std::cmp::Ord::min', 'f64::max', 'f64::min', 'std::cmp::max', 'std::cmp::min', 'f32::max', 'f32::min')
def _(E, st, f, a, site, t):
    op = f['path'].rsplit('::', 1)[-1]
    x, y = sorted((dp(E, st, a[0]), dp(E, st, a[1])), key=MM.skey)
    if x.tag == 'c' and y.tag == 'c':
        return x if (x.a[0] >= y.a[0]) == (op == 'max') else y
    return term(op, (x, y), t['dty'] if t else -1)


@model('std::ops::Add::add', 'std::ops::Sub::sub', 'std::ops::Mul::mul', 'std::ops::Div::div', 'std::ops::Rem::rem', 'std::ops::Neg::neg', 'std::ops::Not::not')
def _(E, st, f, a, site, t):
    op = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'rem': '%', 'neg': 'neg', 'not': '!'}[f['path'].rsplit('::', 1)[-1]]
    xs = [dp(E, st, x) for x in a]
    ty = t['dty'] if t else -1
    if E.ty(E.stripbox(ty)).get('path', '').endswith('String') and op == '+':
        return E.fm.concat(E, xs)
    if op == '!':
        return MM.unop(E, st, 'Not', xs[0])
    if len(xs) == 2 and E.ty(ty)['k'] in ('int', 'float'):
        return MM.arith(E, op, xs[0], xs[1], ty)
    return term(op, xs, ty)


@model('std::ops::AddAssign::add_assign')
def _(E, st, f, a, site, t):
    s = st.fork()
    x, y = dp(E, st, a[0]), dp(E, st, a[1])
    ty = E.ty(E.stripbox(f['targs'][0])) if f.get('targs') else {}
    wr(E, s, a[0], E.fm.concat(E, [x, y]) if ty.get('path', '').endswith('String') else MM.arith(E, '+', x, y))
    return [(s, UNIT)]
