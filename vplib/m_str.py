"""Strings: concatenation, formatting, parsing, case, regular expressions, decoding"""
from .m_opt import *
from . import models as MM
from . import interp as I
from . import pest as PG


def STR(E):
    return E.find_ty('std::string::String')


# ------------------------------------------------------------------ concatenation
def sparts(p):
    """the pieces a string value is put together from"""
    if p.tag == 't' and p.a[0] == 'cat':
        return list(p.a[1])
    if p.tag == 'c' and p.a[0] == '' or p.tag == 'coll' and not p.a[1]:
        return []
    return [p]


def text_const(p):
    return p.tag == 'c' and isinstance(p.a[0], str)


def common(a, b):
    """longest common beginning of two piece lists -> (common, rest of a, rest of b)"""
    a, b, out = list(a), list(b), []
    while a and b:
        x, y = a[0], b[0]
        if x is y:
            out.append(x)
            a.pop(0)
            b.pop(0)
            continue
        if text_const(x) and text_const(y):
            n = 0
            while n < min(len(x.a[0]), len(y.a[0])) and x.a[0][n] == y.a[0][n]:
                n += 1
            if n:
                out.append(sval(x.a[0][:n]))
                for l, z in ((a, x), (b, y)):
                    l[0] = sval(z.a[0][n:])
                    if not z.a[0][n:]:
                        l.pop(0)
        break
    return out, a, b


def mirror(ps):
    return [sval(p.a[0][::-1]) if text_const(p) else p for p in reversed(ps)]


def factor(E, p, alone=True):
    """alternatives that begin or end alike: [common beginning, alternatives of the middle, common end]"""
    xs = alts(p)
    if len(xs) < 2 or not all(x.tag == 'c' and isinstance(x.a[0], str) or x.tag == 't' and x.a[0] == 'cat' or x.tag == 'coll' and not x.a[1] or strterm(E, x) for _, x in xs):
        return [p]
    if alone and not any(x.tag == 't' and x.a[0] == 'cat' for _, x in xs):
        return [p]
    ls = [sparts(x) for _, x in xs]
    pre = ls[0]
    for l in ls[1:]:
        pre = common(pre, l)[0]
    ls = [common(pre, l)[2] for l in ls]
    rs = [mirror(l) for l in ls]
    suf = rs[0]
    for l in rs[1:]:
        suf = common(suf, l)[0]
    if not pre and not suf:
        return [p]
    rs = [mirror(common(suf, l)[2]) for l in rs]
    mid = gamma([(c, concat(E, l)) for (c, _), l in zip(xs, rs)])
    return pre + [mid] + mirror(suf)


def strterm(E, x):
    return x.tag == 't' and (x.a[0] in ('text', 'fmt', 'join', 'cap') or x.a[2] >= 0 and is_strty(E, E.stripbox(x.a[2])))


def concat(E, parts, ty=None):
    out = []
    parts = [y for p in parts for y in (factor(E, p, len(parts) < 2) if p.tag == 'g' else [p])]
    for p in parts:
        if p.tag == 't' and p.a[0] == 'cat':
            out.extend(p.a[1])
        elif p.tag == 'c' and p.a[0] == '':
            continue
        elif p.tag == 'coll' and not p.a[1]:
            continue
        else:
            out.append(p)
    res = []
    for p in out:
        if p.tag == 'c' and res and res[-1].tag == 'c':
            res[-1] = sval(str(res[-1].a[0]) + str(p.a[0]))
        else:
            res.append(sval(str(p.a[0])) if p.tag == 'c' else p)
    if not res:
        return sval('')
    if len(res) == 1:
        return res[0]
    return term('cat', res, STR(E))


def str_push(E, st, cell, val):
    old = E.load(st, cell, ()) if not (hasattr(cell, 'tag')) else rd(E, st, cell)
    nv = concat(E, [old, val])
    if hasattr(cell, 'tag'):
        MM.wr(E, st, cell, nv)
    else:
        E.store(st, cell, (), nv)


def factored(E, v):
    """alternatives of a text that begin or end alike, as one text with alternatives in it"""
    r = v.m.get('factored')
    if r is None:
        r = factor(E, v)
        r = v.m['factored'] = v if len(r) == 1 else concat(E, r)
    return r


MM.factored = factored
MM.concat = concat
MM.str_push = str_push


@model('std::string::String::push_str', 'std::string::String::push', 'std::fmt::Write::write_str')
def _(E, st, f, a, site, t):
    s = st.fork()
    MM.wr(E, s, a[0], concat(E, [dp(E, s, a[0]), dp(E, s, a[1])]))
    return [(s, UNIT)]


# ------------------------------------------------------------------ formatting
@model('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_octal',
       'core::fmt::rt::Argument::new_lower_hex', 'core::fmt::rt::Argument::new_upper_hex')
def _(E, st, f, a, site, t):
    kind = f['path'].rsplit('new_', 1)[-1]
    ty = E.stripbox(f['targs'][-1]) if f.get('targs') else -1
    v = rd(E, st, a[0])
    return term('fa', (kind, dp(E, st, v) if v.tag != 'dynfn' else v, ty), -1)


def decode_template(bs):
    """-> list of str | (argindex, flags, width, precision)  (width/precision: None | int | ('arg', n))"""
    i, out, nxt = 0, [], 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode('utf-8'))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + n]).decode('utf-8'))
            i += n
        else:
            fl = w = p = None
            if b & 1:
                fl = int.from_bytes(bytes(bs[i:i + 4]), 'little')
                i += 4
            if b & 2:
                w = int.from_bytes(bytes(bs[i:i + 2]), 'little')
                i += 2
                if b & 16:
                    w = ('arg', w)
            if b & 4:
                p = int.from_bytes(bytes(bs[i:i + 2]), 'little')
                i += 2
                if b & 32:
                    p = ('arg', p)
            if b & 8:
                nxt = int.from_bytes(bytes(bs[i:i + 2]), 'little')
                i += 2
            out.append((nxt, fl, w, p))
            nxt += 1
    return out


def display_impl(E, ty):
    s = E.ty(ty).get('path')
    if s is None:
        return None
    if not hasattr(E, '_disp'):
        E._disp = {}
        for im in E.f['impls']:
            if im['trait'] == 'std::fmt::Display':
                for m in im['methods']:
                    if m[0] == 'fmt' and m[1] is not None:
                        E._disp['crate::' + im['self']] = m[1]
    return E._disp.get(s)


def run_display(E, st, fid, v, site):
    """inline a local Display::fmt -> [(state, string value)]"""
    s = st.fork()
    E.uniq = getattr(E, 'uniq', 0)
    c1, c2 = ('fmtself', len(E.stack), site), ('fmtbuf', len(E.stack), site)
    s.mem[c1] = v
    s.mem[c2] = sval('')
    r = E.call_fn(fid, [mk('ref', c1, ()), mk('ref', c2, ())], s, site)
    if r is None:
        return None
    out = []
    for s2, _ in r:
        b = s2.mem.pop(c2, sval(''))
        s2.mem.pop(c1, None)
        out.append((s2, b))
    return out


def spec_str(kind, fl, w, p):
    """canonical format spec; '' when it changes nothing for Display"""
    fl = fl or 0
    s = '' if kind == 'display' else {'debug': '?', 'octal': 'o', 'lower_hex': 'x', 'upper_hex': 'X'}.get(kind, kind)
    zero, plus, alt = fl >> 24 & 1, fl >> 21 & 1, fl >> 23 & 1
    al = fl >> 29 & 3
    fill = chr(fl & 0x1fffff)
    r = ''
    if w is not None:
        al_s = {0: '<', 1: '>', 2: '^', 3: ''}[al]
        r += (fill if fill != ' ' else '') + al_s
    r += ('+' if plus else '') + ('#' if alt else '') + ('0' if zero else '')
    if w is not None:
        r += str(w)
    if p is not None:
        r += '.' + str(p)
    return r + s


def is_strty(E, ty):
    t = E.ty(ty)
    return t['k'] == 'str' or t.get('path') == 'std::string::String'


def fmt_value(E, st, kind, v, ty, sp, site):
    """-> [(state, string value)]"""
    if kind == 'display':
        if sp == '':
            if v.tag == 'g':
                vs = [(c, x) for c, x in v.a[0] if D.and_(c, st.pc) != F]
                if all(x.tag != 'adt' for _, x in vs):
                    return [(st, gamma([(c, fmt_value(E, st, kind, x, ty, sp, site)[0][1]) for c, x in vs]))]
            if is_strty(E, ty) or (v.tag == 'c' and v.a[1] in ('str', 'char')):
                return [(st, v)]
            if v.tag == 'c' and isinstance(v.a[0], int):
                return [(st, sval(str(v.a[0])))]
            if v.tag == 't' and v.a[0] == 'fargs':
                return render(E, st, v, site)
            if v.tag == 't' and v.a[0] in ('text', 'cat', 'fmt'):
                return [(st, v)]
        fid = display_impl(E, ty)
        if fid is not None and sp == '':
            r = run_display(E, st, fid, v, site)
            if r is not None:
                return r
    if v.tag == 'c' and isinstance(v.a[0], int) and kind == 'octal' and sp == 'o':
        return [(st, sval('%o' % v.a[0]))]
    return [(st, term('fmt', (sp, v), STR(E)))]


def render(E, st, v, site):
    """string value of a fmt::Arguments value -> [(state, value)]"""
    if v.tag == 'g':
        out = []
        for c, x in v.a[0]:
            pc = D.and_(st.pc, c)
            if pc != F:
                out.extend(render(E, st.fork(pc), x, site))
        return E.join_rets(out)
    if v.tag != 't' or v.a[0] != 'fargs':
        return [(st, v if v.tag == 'c' else term('fmt', ('', v), STR(E)))]
    cur = [(st, ())]
    for n, p in enumerate(v.a[1]):
        nxt = []
        for s, acc in cur:
            if p.tag == 'c':
                nxt.append((s, acc + (p,)))
            else:
                kind, val, ty, sp = p.a[1]
                for s2, x in fmt_value(E, s, kind, val, ty, sp, (site, n)):
                    nxt.append((s2, acc + (x,)))
        cur = nxt
    return E.join_rets([(s, concat(E, acc)) for s, acc in cur])


@model('std::fmt::Arguments::new', 'std::fmt::Arguments::from_str', 'std::fmt::Arguments::from_str_nonconst', 'std::fmt::Arguments::new_const')
def _(E, st, f, a, site, t):
    tpl = dp(E, st, a[0])
    if tpl.tag == 'c':
        return term('fargs', (sval(tpl.a[0]),), -1)
    args = dp(E, st, a[1])
    if tpl.tag != 'arr' or args.tag != 'arr':
        return term('fargs', (term('fp', ('display', tpl, -1, '?'), -1),), -1)
    out = []
    for x in decode_template([c.a[0] for c in tpl.a[0]]):
        if isinstance(x, str):
            out.append(sval(x))
            continue
        n, fl, w, p = x
        g = args.a[0][n]
        kind, val, ty = g.a[1] if g.tag == 't' and g.a[0] == 'fa' else ('display', g, -1)
        sp = spec_str(kind, fl, w, p)
        if isinstance(w, tuple) or isinstance(p, tuple):
            sp = 'dyn:' + sp
        out.append(term('fp', (kind, val, ty, sp), -1))
    return term('fargs', tuple(out), -1)


@model('std::fmt::format', 'alloc::fmt::format', 'std::fmt::Arguments::to_string')
def _(E, st, f, a, site, t):
    return render(E, st, dp(E, st, a[0]), site)


@model('std::fmt::Formatter::write_fmt', 'std::fmt::Write::write_fmt', 'std::io::Write::write_fmt')
def _(E, st, f, a, site, t):
    out = []
    for s, x in render(E, st, dp(E, st, a[1]), site):
        s = s.fork()
        MM.wr(E, s, a[0], concat(E, [rd(E, s, a[0]), x]))
        out.append((s, ok(UNIT)))
    return out


@model('std::fmt::Formatter::write_str', 'std::fmt::Formatter::write_char')
def _(E, st, f, a, site, t):
    s = st.fork()
    MM.wr(E, s, a[0], concat(E, [rd(E, s, a[0]), dp(E, s, a[1])]))
    return [(s, ok(UNIT))]


@model('std::string::ToString::to_string')
def _(E, st, f, a, site, t):
    ty = E.stripbox(f['targs'][0]) if f.get('targs') else -1
    return fmt_value(E, st, 'display', dp(E, st, a[0]), ty, '', site)


# ------------------------------------------------------------------ regular expressions (the simple ones)
def regex_groups(pat):
    """group index -> (kind, pest pattern) for a regex made of classes, alternations of letters and {m,n}"""
    out, stack = {}, []
    n = 0
    i = 0
    while i < len(pat):
        c = pat[i]
        if c == '\\':
            i += 2
            continue
        if c == '(':
            n += 1
            stack.append((n, i + 1))
        elif c == ')':
            k, s = stack.pop()
            out[k] = pat[s:i]
        i += 1
    return {k: to_pest(v) for k, v in out.items()}


def to_pest(p):
    m = re.fullmatch(r'(\\d|\[[^\]]+\])(?:\{(\d+)(?:,(\d+))?\})?', p)
    if m:
        cls = m.group(1)
        if cls == '\\d':
            alts_ = ["'0'..'9'", "'\\u{660}'..'\\u{669}'"]
        else:
            alts_ = []
            body = cls[1:-1]
            j = 0
            while j < len(body):
                if j + 2 < len(body) and body[j + 1] == '-':
                    alts_.append("'%s'..'%s'" % (body[j], body[j + 2]))
                    j += 3
                else:
                    alts_.append('"%s"' % body[j])
                    j += 1
        e = '(%s)' % ' | '.join(alts_)
        if m.group(2):
            lo, hi = m.group(2), m.group(3) or m.group(2)
            e += '{%s,%s}' % (lo, hi)
        return e
    if re.fullmatch(r'\w+(\|\w+)*', p):
        return '(%s)' % ' | '.join('"%s"' % x for x in p.split('|'))
    return None


def approx_nfa(E, vs, lens):
    """texts of the given lengths over the letters that occur in vs"""
    rs = []
    for x in vs:
        n = text_nfa(E, x)
        if n is None:
            return None
        rs += PG.alphabet(n)
    if not rs or not lens:
        return None
    cls = ' | '.join("'\\u{%x}'..'\\u{%x}'" % r for r in sorted(set(rs)))
    return PG.from_pattern('(%s){%d,%d}' % (cls, min(lens), max(lens)))


def text_nfa(E, v):
    """language of a text value (or of a superset), or None"""
    if v.tag == 't' and v.a[0] == 'slice' and len(v.a[1]) == 2:
        k = v.a[1][1]
        ks = [x.a[0] for x in k.a[2] if x.tag == 'c'] if k.tag == 'adt' else []
        if len(ks) == 2 and k.a[0].endswith('Range') and ks[1] > ks[0]:
            return approx_nfa(E, [x for _, x in MM.alts(v.a[1][0])], [ks[1] - ks[0]])
        return None
    if v.tag == 't' and v.a[0] == 'cat':
        lo = hi = 0
        for x in v.a[1]:
            n = text_nfa(E, x)
            ls = PG.lengths(n) if n is not None else None
            if not ls:
                return None
            lo, hi = lo + min(ls), hi + max(ls)
        return approx_nfa(E, v.a[1], [lo, hi])
    if v.tag == 'c':
        return PG.literal(str(v.a[0]))
    if v.tag != 't':
        return None
    if v.a[0] == 'text' and v.a[1][0].tag == 'pair':
        p = v.a[1][0]
        return E.gram(p.a[0]).nfa(p.a[1])
    if v.a[0] == 'cap':
        rx, n = v.a[1][0], v.a[1][1]
        if rx.tag == 'c':
            g = regex_groups(rx.a[0]).get(n)
            if g:
                return PG.from_pattern(g)
    return None


def included(E, v, pat):
    c = E.__dict__.setdefault('_incl', {})
    k = (v if v.tag != 't' or v.a[0] != 'text' or v.a[1][0].tag != 'pair' else v.a[1][0].a[:2], pat)
    if k not in c:
        a = text_nfa(E, v)
        c[k] = a is not None and PG.included(a, PG.from_pattern(pat))[0]
    return c[k]


def excluded(E, v, pat):
    return False


INT = {'u8': 2, 'u16': 4, 'u32': 9, 'u64': 19, 'usize': 19, 'u128': 38, 'i8': 2, 'i16': 4, 'i32': 9, 'i64': 18, 'isize': 18, 'i128': 38}
FLOATPAT = '("-" | "+")? ~ (("0".."9")+ ~ ("." ~ ("0".."9")*)? | "." ~ ("0".."9")+)'.replace('"0".."9"', "'0'..'9'")


def int_pat(ty):
    s = '("-" | "+")?' if ty[0] == 'i' else '("+")?'
    return s + " ~ '0'..'9'{1,%d}" % INT[ty]


@model('regex::Regex::new')
def _(E, st, f, a, site, t):
    p = dp(E, st, a[0])
    return ok(term('regex', (p,), MM.ret_arg(E, t, 0)))


@model('regex::Regex::captures')
def _(E, st, f, a, site, t):
    rx, s = dp(E, st, a[0]), dp(E, st, a[1])
    pat = rx.a[1][0] if rx.tag == 't' and rx.a[0] == 'regex' else rx
    c = D.eq(('match', pat, s), 1, (0, 1))
    return gamma([(c, some(term('caps', (pat, s), MM.ret_arg(E, t, 0)))), (D.not_(c), NONE)])


# ------------------------------------------------------------------ parsing
@model('str::parse', 'core::str::parse')
def _(E, st, f, a, site, t):
    fw = f.get('fwd')
    if fw and fw.get('id') is not None:
        return E.do_call(st, fw, [a[0]], site, t)
    ty = E.ty(f['targs'][0]) if f.get('targs') else {'s': '?'}
    v = dp(E, st, a[0])
    return MM.dist(st, v, lambda x: parse1(E, x, ty['s'], f['targs'][0] if f.get('targs') else -1, t, 10))


def parse1(E, x, T_, tyi, t, radix):
    if T_ in INT or T_ in ('f64', 'f32'):
        r = MM.fin(E, x, lambda s: parse1(E, sval(s), T_, tyi, t, radix))
        if r is not None:
            return r
    ety = MM.ret_arg(E, t, 1)
    if x.tag == 'c':
        try:
            if T_ in INT:
                s = x.a[0]
                if not re.fullmatch(r'[+-]?[0-9a-zA-Z]+', s):
                    raise ValueError
                n = int(s, radix)
                b = INTRANGE(T_)
                if b[0] <= n <= b[1] and not (s[0] == '-' and T_[0] == 'u'):
                    return ok(const(n, T_))
                raise ValueError
            if T_ in ('f64', 'f32'):
                return ok(const(float(x.a[0]), T_))
        except ValueError:
            return err(term('parse_num_error', (T_, x), ety))
    if T_ in ('std::string::String',):
        return ok(x)
    if T_ in INT:
        val = term('num:int' if radix == 10 else 'num:int%d' % radix, (x,), tyi)
        if radix == 10:
            good = included(E, x, int_pat(T_))
        elif radix == 16:
            good = included(E, x, "('0'..'9' | 'a'..'f' | 'A'..'F'){1,%d}" % ({'u8': 2, 'u16': 4, 'u32': 8}.get(T_, 2)))
        else:
            good = included(E, x, "'0'..'7'{1,%d}" % ({'u8': 2, 'u16': 5, 'u32': 10}.get(T_, 2)))
    elif T_ in ('f64', 'f32'):
        val = term('num:f64', (x,), tyi)
        good = included(E, x, FLOATPAT)
    else:
        val = term('parsed:' + T_, (x,), tyi)
        good = False
    E.oblige(None, 'parse ' + T_)
    if good:
        return ok(val)
    c = D.eq(('parses', T_ if radix == 10 else '%s/%d' % (T_, radix), x), 1, (0, 1))
    return gamma([(c, ok(val)), (D.not_(c), err(term('parse_num_error', (T_, x), ety)))])


def INTRANGE(T_):
    bits = 64 if T_.endswith('size') else int(T_[1:])
    return (0, 2**bits - 1) if T_[0] == 'u' else (-2**(bits - 1), 2**(bits - 1) - 1)


@model(*['%s::from_str_radix' % x for x in INT])
def _(E, st, f, a, site, t):
    T_ = f['path'].split('::')[0].lstrip('<').split('>')[0]
    T_ = next(x for x in sorted(INT, key=len, reverse=True) if f['path'].find(x + '>') >= 0 or f['path'].startswith(x + '::') or f['path'].find('impl ' + x) >= 0)
    r = dp(E, st, a[1])
    return MM.dist(st, dp(E, st, a[0]), lambda x: parse1(E, x, T_, E.find_ty(T_), t, r.a[0] if r.tag == 'c' else 0))


@model('num_traits::FromPrimitive::from_u32', 'num_traits::FromPrimitive::from_i32', 'num_traits::FromPrimitive::from_u8')
def _(E, st, f, a, site, t):
    """derived FromPrimitive of a fieldless enum: the variant with that discriminant"""
    if 'id' in f:
        return None
    x = dp(E, st, a[0])
    p = E.ty(f['targs'][0]).get('path') if f.get('targs') else None
    A = E.adts.get(p)
    if not A:
        return term('from_num', (x,), t['dty'])
    out, rest = [], T
    for i, v in enumerate(A['variants']):
        d = int(v.get('disc', i)) if v.get('disc') is not None else i
        c = MM.val_eq(E, x, const(d, 'u32'))
        out.append((c, some(adt(p, i, ()))))
        rest = D.and_(rest, D.not_(c))
    out.append((rest, NONE))
    return gamma(out)


# ------------------------------------------------------------------ other string functions
def strfn(names, fold, ret='str'):
    @model(*names)
    def _(E, st, f, a, site, t):
        vs = [dp(E, st, x) for x in a]
        op = names[0].rsplit('::', 1)[-1]

        def go(x):
            xs = [x] + vs[1:]
            if fold and all(y.tag == 'c' for y in vs[1:]):
                r = MM.fin(E, x, lambda s: go(sval(s)))
                if r is not None:
                    return r
            if fold and all(y.tag == 'c' for y in xs):
                r = fold(*[y.a[0] for y in xs])
                return r if isinstance(r, I.Val) else (const(r) if isinstance(r, bool) else sval(r))
            if ret == 'bool':
                return bval(D.eq((op, xs[0]) + tuple(xs[1:]), 1, (0, 1)))
            if ret == 'opt':
                c = D.eq((op + '?', xs[0]) + tuple(xs[1:]), 1, (0, 1))
                return gamma([(c, some(term(op, xs, MM.ret_arg(E, t, 0)))), (D.not_(c), NONE)])
            if op == 'to_uppercase' and upper_closed(E, xs[0]):
                return xs[0]
            return term(op, xs, t['dty'] if t else -1)
        return MM.dist(st, vs[0], go)


def upper_closed(E, v):
    return v.tag == 't' and v.a[0] == 'to_uppercase'


strfn(['str::to_uppercase', 'str::to_ascii_uppercase'], lambda s: s.upper())
strfn(['str::to_lowercase', 'str::to_ascii_lowercase'], lambda s: s.lower())
strfn(['str::trim_end'], lambda s: s.rstrip())
strfn(['str::trim_start'], lambda s: s.lstrip())
strfn(['str::trim'], lambda s: s.strip())
strfn(['str::starts_with'], lambda s, p: s.startswith(p), 'bool')
strfn(['str::ends_with'], lambda s, p: s.endswith(p), 'bool')
strfn(['str::contains'], lambda s, p: p in s, 'bool')
strfn(['str::replace'], lambda s, p, q: s.replace(p, q))
strfn(['str::strip_prefix'], lambda s, p: some(sval(s[len(p):])) if s.startswith(p) else NONE, 'opt')
strfn(['str::strip_suffix'], lambda s, p: some(sval(s[:-len(p)])) if s.endswith(p) else NONE, 'opt')
strfn(['str::split_once'], None, 'opt')
strfn(['str::split_at_checked'], None, 'opt')
strfn(['str::eq_ignore_ascii_case'], lambda s, p: s.lower() == p.lower(), 'bool')


# ------------------------------------------------------------------ decoding
@model('std::string::String::from_utf8', 'std::str::from_utf8')
def _(E, st, f, a, site, t):
    v = dp(E, st, a[0])
    c = D.eq(('utf8', v), 1, (0, 1))
    return gamma([(c, ok(term('utf8', (v,), MM.ret_arg(E, t, 0)))), (D.not_(c), err(term('utf8_error', (v,), MM.ret_arg(E, t, 1))))])


@model('encoding_rs::Encoding::decode')
def _(E, st, f, a, site, t):
    enc, v = dp(E, st, a[0]), dp(E, st, a[1])
    name = show(enc)
    m = re.search(r'WINDOWS_1252|[A-Z][A-Z0-9_]{3,}', name)
    nm = m.group(0) if m else name
    bad = bval(D.eq(('undecodable', nm, v), 1, (0, 1)))
    return mk('tup', (term('decode', (nm, v), STR(E)), term('decoded_as', (nm, v)), bad))


# ------------------------------------------------------------------ numbers
def numfn(names, fold):
    @model(*names)
    def _(E, st, f, a, site, t):
        xs = [dp(E, st, x) for x in a]
        if all(x.tag == 'c' for x in xs) and fold:
            return const(fold(*[x.a[0] for x in xs]), xs[0].a[1])
        return MM.dist(st, xs[0], lambda x: term(names[0].rsplit('::', 1)[-1], [x] + xs[1:], t['dty'] if t else -1))


import math
numfn(['f64::abs'], abs)
numfn(['f64::floor'], math.floor)
numfn(['f64::ceil'], math.ceil)
numfn(['f64::trunc'], math.trunc)
numfn(['f64::round'], None)
numfn(['f64::fract'], None)
for _t in INT:
    numfn(['%s::saturating_sub' % _t], None)
    numfn(['%s::saturating_add' % _t], None)
    numfn(['%s::wrapping_add' % _t], None)
    numfn(['%s::wrapping_sub' % _t], None)
    numfn(['%s::wrapping_abs' % _t], None)
    numfn(['%s::pow' % _t], None)


def nonneg(E, st, x):
    r = MM.rng(E, x)
    return r is not None and r[0] >= 0 or any(D.and_(st.pc, MM.cmp_cond(E, 'lt', x, const(k, 'int'))) == F for k in (0, 1))


for _t in INT:
    @model('%s::unsigned_abs' % _t, '%s::abs' % _t)
    def _(E, st, f, a, site, t):
        """of a value known not to be negative: the value itself"""
        op = f['path'].rsplit('::', 1)[-1]
        dty = t['dty'] if t else -1

        def go(x):
            if x.tag == 'c':
                return const(abs(x.a[0]), x.a[1])
            if nonneg(E, st, x):
                return MM.cast1(E, 'IntToInt', x, dty, -1) if op == 'unsigned_abs' else x
            if op == 'abs':
                return term(op, (x,), dty)
            neg = MM.cmp_cond(E, 'lt', x, const(1, 'int'))
            return gamma([(neg, term(op, (x,), dty)), (D.not_(neg), MM.cast1(E, 'IntToInt', x, dty, -1))])
        return MM.dist(st, dp(E, st, a[0]), go)


@model('f64::is_sign_negative', 'f64::is_nan', 'f64::is_finite', 'f64::is_sign_positive')
def _(E, st, f, a, site, t):
    x = dp(E, st, a[0])
    op = f['path'].rsplit('::', 1)[-1]
    if op == 'is_sign_positive':
        return bval(D.not_(D.eq(('is_sign_negative', x), 1, (0, 1))))
    return bval(D.eq((op, x), 1, (0, 1)))

_index = MM.MODELS['std::ops::Index::index']


@model('std::ops::Index::index')
def _(E, st, f, a, site, t):
    v = rd(E, st, a[0])
    if v.tag == 't' and v.a[0] == 'caps':
        n = dp(E, st, a[1])
        g = regex_groups(v.a[1][0].a[0]) if v.a[1][0].tag == 'c' else {}
        if n.tag == 'c' and n.a[0] in g:
            return term('cap', (v.a[1][0], n.a[0], v.a[1][1]), E.find_ty('str'))
    return _index(E, st, f, a, site, t)
