"""Gated value-flow abstract interpreter over the MIR facts.

Every local function and closure of the analysed crate is interpreted abstractly with full
inlining.  Values are hash-consed; joins build gated values ('g') whose conditions are canonical
decision diagrams; loops are brought to a fixpoint where iterators are summarised to one generic
element, collections to a set of guarded contributions ('seg') and carried scalars to phi values.
Nothing of the analysed program is executed and no solver is involved."""
import hashlib
import re
import sys
from . import mdd as M
from . import pest

sys.setrecursionlimit(20000)
T, F = M.T, M.F
_I = {}


class Val:
    __slots__ = ('tag', 'a', 'm')

    def __repr__(self):
        return show(self)


def mk(tag, *a):
    k = (tag, a)
    v = _I.get(k)
    if v is None:
        v = Val()
        v.tag, v.a, v.m = tag, a, {}
        _I[k] = v
    return v


UNDEF = mk('undef')
UNIT = mk('tup', ())
UNKNOWN_TY = -1
D = M.MDD()


def const(v, ty='int'):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    return mk('c', v, ty)


def bval(n):
    return mk('b', n)


TRUE, FALSE = mk('b', T), mk('b', F)


def sval(s):
    return mk('c', s, 'str')


def term(op, args, ty=UNKNOWN_TY):
    return mk('t', op, tuple(args), ty)


def adt(path, var, fields):
    return mk('adt', path, var, tuple(fields))


OPT = 'std::option::Option'
RES = 'std::result::Result'
NONE = adt(OPT, 0, ())


def some(x):
    return adt(OPT, 1, (x,))


def ok(x):
    return adt(RES, 0, (x,))


def err(x):
    return adt(RES, 1, (x,))


def alts(v):
    return v.a[0] if v.tag == 'g' else ((T, v),)


def seg(over, guard, val, how='push'):
    return mk('seg', tuple(over), guard, val, how)


def coll(kind, segs=(), depth=0):
    return mk('coll', kind, tuple(segs), depth)


def merge_same(xs):
    """xs: list of (cond, val) all with the same tag and shape; returns merged val or None"""
    v0 = xs[0][1]
    t = v0.tag
    if t == 'adt':
        if not v0.a[2]:
            return v0
        n = len(v0.a[2])
        return adt(v0.a[0], v0.a[1], [gamma([(c, v.a[2][i]) for c, v in xs]) for i in range(n)])
    if t == 'tup':
        return mk('tup', tuple(gamma([(c, v.a[0][i]) for c, v in xs]) for i in range(len(v0.a[0]))))
    if t == 'clo':
        return mk('clo', v0.a[0], tuple(gamma([(c, v.a[1][i]) for c, v in xs]) for i in range(len(v0.a[1]))))
    if t == 'b':
        return bval(D.or_(*[D.and_(c, v.a[0]) for c, v in xs]))
    if t == 'coll':
        pre = 0
        segs = [v.a[1] for _, v in xs]
        while all(len(s) > pre for s in segs) and len({s[pre] for s in segs}) == 1:
            pre += 1
        out = list(segs[0][:pre])
        for (c, v), s in zip(xs, segs):
            for g in s[pre:]:
                out.append(seg(g.a[0], D.and_(g.a[1], c), g.a[2], g.a[3]))
        return coll(v0.a[0], dedupe(out), min(v.a[2] for _, v in xs))
    return None


def dedupe(segs):
    pos, out = {}, []
    for g in segs:
        k = (g.a[0], g.a[2], g.a[3])
        if k in pos:
            i = pos[k]
            out[i] = seg(g.a[0], D.or_(out[i].a[1], g.a[1]), g.a[2], g.a[3])
        else:
            pos[k] = len(out)
            out.append(g)
    return out


def shape(v):
    t = v.tag
    if t == 'adt':
        return ('adt', v.a[0], v.a[1])
    if t == 'tup':
        return ('tup', len(v.a[0]))
    if t == 'clo':
        return ('clo', v.a[0])
    if t == 'b':
        return ('b',)
    if t == 'coll':
        return ('coll', v.a[0])
    return None


def gamma(xs):
    flat = []
    for c, v in xs:
        if c == F:
            continue
        if v.tag == 'g':
            for c2, v2 in v.a[0]:
                n = D.and_(c, c2)
                if n != F:
                    flat.append((n, v2))
        elif v.tag == 'undef':
            continue
        else:
            flat.append((c, v))
    if not flat:
        return UNDEF
    by = {}
    for c, v in flat:
        by[v] = D.or_(by[v], c) if v in by else c
    groups = {}
    for v, c in by.items():
        k = shape(v) or ('id', id(v))
        groups.setdefault(k, []).append((c, v))
    out = []
    for k, g in groups.items():
        if len(g) == 1:
            out.append(g[0])
        else:
            m = merge_same(g)
            out.append((D.or_(*[c for c, _ in g]), m))
    if len(out) == 1:
        return out[0][1]
    out.sort(key=lambda cv: skey(cv[1]))
    return mk('g', tuple(out))


def skey(v):
    k = v.m.get('k')
    if k is None:
        k = v.m['k'] = _skey(v)
    return k


def _skey(v):
    """cheap, deterministic sort key"""
    if v.tag == 'adt':
        return 'adt %s %d' % (v.a[0], v.a[1])
    if v.tag == 'c':
        return 'c %s' % (v.a,)
    return v.tag + show(v)[:300]


# ---------------------------------------------------------------------------------- quantifiers
_mk = {}
VARYING = ('phi', 'next')
VARYOPS = ('loopvar', 'sofar', 'cur', 'prev')


def markers(k):
    """the traversals a value or condition key speaks about; None when it may vary per iteration otherwise"""
    if isinstance(k, Val):
        if k in _mk:
            return _mk[k]
        _mk[k] = frozenset()
        r = set()
        bad = False
        if k.tag == 'over':
            r.add(k)
        if k.tag == 'pair' or k.tag == 'pairs' or (k.tag == 't' and k.a[0] in VARYOPS):
            bad = True
        cs = []
        if k.tag == 'g':
            cs = [c for c, _ in k.a[0]]
        elif k.tag == 'b':
            cs = [k.a[0]]
        elif k.tag == 'seg':
            cs = [k.a[1]]
        for c in cs:
            for y in D.support(c):
                m = markers(D.keys[y])
                if m is None:
                    bad = True
                else:
                    r |= m
        for x in k.a:
            m = markers(x) if isinstance(x, (Val, tuple)) else ()
            if m is None:
                bad = True
            else:
                r |= set(m)
        _mk[k] = None if bad else frozenset(r)
        return _mk[k]
    if isinstance(k, tuple):
        if k and k[0] in VARYING:
            return None
        r = set()
        xs = list(k)
        if len(k) == 3 and k[0] == 'any' and isinstance(k[2], int):
            xs = [k[1]] + [D.keys[y] for y in D.support(k[2])]
        for x in xs:
            if isinstance(x, (Val, tuple)):
                m = markers(x)
                if m is None:
                    return None
                r |= m
        return frozenset(r)
    return frozenset()


def elem_of(v):
    """the collection a value is an element of in a loop over whole items"""
    if v.tag == 't' and v.a[0] == 'el' and len(v.a[1]) == 1 and v.a[1][0].tag == 'over' and v.a[1][0].a[0] == 'item':
        return v.a[1][0].a[1]
    return None


def known_len(v):
    s = elem_of(v)
    if s is not None and s.tag == 't' and s.a[0] in ('windows', 'chunks_exact') and s.a[1][1].tag == 'c':
        return s.a[1][1].a[0]
    return None


def never_empty(v):
    """groups of a multi-map filled by insertion, and chunks"""
    s = elem_of(v)
    return s is not None and s.tag == 'coll' and s.a[0] == 'mmap' and bool(s.a[1]) and all(g.a[3] == 'multi' for g in s.a[1]) or bool(known_len(v))


_out = {}


def outside(care, ov):
    """what is known about one element of a loop says nothing about the elements a collection is made from"""
    if care == T or not ov:
        return care
    k = (care, ov)
    r = _out.get(k)
    if r is None:
        ms = {m for m in ov if m.tag == 'over' and m.a[0] != 'pairs'}

        def bound(key):
            m = markers(key)
            return m is not None and bool(m & ms)
        r = _out[k] = D.forget(care, bound)
    return r


def any_node(ov, rel):
    """some element of ov satisfies rel; what does not depend on the element is stated outside"""
    if rel == F:
        return F
    if not ov:
        return rel
    if all(m.tag == 'over' and m.a[0] != 'pairs' for m in ov):
        ms = {m for m in ov if m.a[0] == 'item'}
        free = []
        for v in D.support(rel):
            m = markers(D.keys[v])
            if m is not None and not (m & ms):
                free.append(v)
        if 0 < len(free) <= 8:
            fs = set(free)

            def go(n, vs):
                if not vs or not (D.support(n) & fs):
                    return any_node(ov, n)
                v = vs[0]
                if v not in D.support(n):
                    return go(n, vs[1:])
                dom = D.dom[v]
                key = D.keys[v]
                if dom is not None:
                    return D.ite_var(v, {x: go(cof(n, v, x), vs[1:]) for x in dom}, None)
                vals = {x for m in reach(n) if D.info[m][0] == v for x in D.info[m][1]}
                return D.ite_var(v, {x: go(cof(n, v, x), vs[1:]) for x in sorted(vals, key=str)}, go(cof(n, v, ('other',)), vs[1:]))

            def reach(n):
                seen, st = set(), [n]
                while st:
                    x = st.pop()
                    if x > 1 and x not in seen:
                        seen.add(x)
                        st += list(D.info[x][1].values()) + ([] if D.info[x][2] is None else [D.info[x][2]])
                return seen

            def cof(n, v, val, memo=None):
                memo = {} if memo is None else memo
                if n < 2:
                    return n
                if n in memo:
                    return memo[n]
                w, e, d = D.info[n]
                if w == v:
                    r = e[val] if val in e else d
                else:
                    r = D.ite_var(w, {x: cof(y, v, val, memo) for x, y in e.items()}, None if d is None else cof(d, v, val, memo))
                memo[n] = r
                return r
            return go(rel, sorted(free))
        if rel == T and len(ov) == 1 and ov[0].a[0] == 'item' and isinstance(ov[0].a[1], Val) and ov[0].a[1].tag == 't' and ov[0].a[1].a[0] not in VARYOPS:
            return T if never_empty(ov[0].a[1]) else D.eq(('empty', ov[0].a[1]), 0, (0, 1))
    return base_any(ov, rel)


def base_any(ov, n):
    return F if n == F else D.eq(('any', ov, n), 1, (0, 1))


# ---------------------------------------------------------------------------------- printing
def node_str(n, depth=0):
    if n == T:
        return 'T'
    if n == F:
        return 'F'
    ps = D.paths(n, 24)
    out = []
    for p in ps:
        out.append(' & '.join('%s%s%s' % (keystr(k), '=' if o == '=' else '!=', '|'.join(vs)) for k, o, vs in p))
    return ' || '.join(sorted(out))


def keystr(k):
    if isinstance(k, Val):
        return show(k)
    if isinstance(k, tuple):
        return '(' + ' '.join(keystr(x) for x in k) + ')'
    return str(k)


def show(v, d=0):
    s = v.m.get('s')
    if s is None:
        s = _show(v, d)
        if len(s) > 1500:
            s = s[:160] + '#' + hashlib.sha1(s.encode()).hexdigest()
        v.m['s'] = s
    return s


def show_proj(p):
    # without type numbers
    return '%s(%s)' % (p[0], ', '.join(show(x) if isinstance(x, Val) else show_proj(x) if isinstance(x, tuple) and x else '' if j and isinstance(x, int) and not (p[0] in ('f', 'v', 'ci') and j == 1) else str(x) for j, x in enumerate(p[1:], 1)))


def _show(v, d):
    t = v.tag
    if t == 'c':
        return repr(v.a[0])
    if t == 'b':
        return '[' + node_str(v.a[0]) + ']'
    if t == 'adt':
        n = v.a[0].split('::')[-1]
        f = ENG.variant_name(v.a[0], v.a[1]) if ENG else str(v.a[1])
        fs = ENG.field_names(v.a[0], v.a[1]) if ENG else None
        body = ', '.join('%s: %s' % (fs[i] if fs and i < len(fs) else i, show(x)) for i, x in enumerate(v.a[2]))
        return '%s%s{%s}' % (n, '' if f == n else '::' + f, body) if v.a[2] else (n if f == n else n + '::' + f)
    if t == 'tup':
        return '(' + ', '.join(map(show, v.a[0])) + ')'
    if t == 'arr':
        return '[' + ', '.join(map(show, v.a[0])) + ']'
    if t == 'g':
        return 'γ{' + ' ; '.join('%s => %s' % (node_str(c), show(x)) for c, x in v.a[0]) + '}'
    if t == 't':
        return '%s(%s)' % (v.a[0], ', '.join(show(x) if isinstance(x, Val) else str(x) for x in v.a[1]))
    if t == 'coll':
        return '%s<%s>' % (v.a[0], ' | '.join(map(show, v.a[1])))
    if t == 'seg':
        return '%s%s %s%s' % ('for %s: ' % ', '.join(show(o) if isinstance(o, Val) else str(o) for o in v.a[0]) if v.a[0] else '',
                              '' if v.a[1] == T else 'if [%s]' % node_str(v.a[1]), '' if v.a[3] == 'push' else str(v.a[3]) + ' ', show(v.a[2]))
    if t == 'pair':
        return 'pair' + '/'.join(v.a[2])
    if t == 'pairs':
        return 'pairs(%s,%s)' % ('/'.join(v.a[1]), v.a[2:])
    if t == 'ref':
        return '&%s%s' % (ENG.lcell(v.a[0]) if ENG else v.a[0], ''.join(show_proj(p) for p in v.a[1]))
    if t == 'clo':
        return 'clo %s(%s)' % (ENG.ty(v.a[0]).get('path', '?') if ENG else v.a[0], ', '.join(show(x) if isinstance(x, Val) else str(x) for x in v.a[1]))
    return t + str(v.a)


ENG = None


# ---------------------------------------------------------------------------------- state
class St:
    __slots__ = ('mem', 'pc', 'ctx')

    def __init__(self, mem, pc, ctx):
        self.mem, self.pc, self.ctx = mem, pc, ctx

    def fork(self, pc=None):
        return St(dict(self.mem), self.pc if pc is None else pc, self.ctx)


def has_iter(v):
    r = v.m.get('it')
    if r is None:
        t = v.tag
        if t in ('pairs', 'it'):
            r = True
        elif t == 'adt':
            r = any(has_iter(x) for x in v.a[2])
        elif t in ('tup', 'arr'):
            r = any(has_iter(x) for x in v.a[0])
        elif t == 'clo':
            r = any(has_iter(x) for x in v.a[1])
        elif t == 'g':
            r = any(has_iter(x) for _, x in v.a[0])
        elif t == 'ref':
            r = False
        else:
            r = False
        v.m['it'] = r
    return r


def itkey(v):
    """the typestate part of a value"""
    t = v.tag
    if t == 'pairs':
        return ('P', v.a[0], v.a[1], v.a[2], v.a[3])
    if t == 'it':
        return ('I',) + tuple(itkey(x) if isinstance(x, Val) else (x if isinstance(x, (str, int)) else None) for x in v.a)
    if not has_iter(v):
        return None
    if t == 'adt':
        return (v.a[1],) + tuple(itkey(x) for x in v.a[2])
    if t in ('tup', 'arr'):
        return tuple(itkey(x) for x in v.a[0])
    if t == 'clo':
        return tuple(itkey(x) for x in v.a[1])
    if t == 'g':
        return tuple(itkey(x) for _, x in v.a[0])


class Unsupported(Exception):
    pass


FNCALL = ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')


def strip_generics(p):
    """drop ::<...> and <...> segments of a path, keeping <impl X> and <A as B> prefixes readable"""
    out, d, i = [], 0, 0
    if p.startswith('<') and not p.startswith('<impl'):
        # <A as B>::m  -> keep "B::m"
        d = 0
        for j, c in enumerate(p):
            if c == '<':
                d += 1
            elif c == '>' and p[j - 1] != '-':
                d -= 1
                if d == 0:
                    inner, rest = p[1:j], p[j + 1:]
                    break
        else:
            return p
        k = split_as(inner)
        return strip_generics(k[1] if k else inner) + rest
    m = re.search(r'<impl ([^<>]*?)>', p)
    if m:
        x = m.group(1).strip()
        x = {'[T]': 'slice'}.get(x, x)
        p = x + p[m.end():]
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<':
            d += 1
        elif c == '>' and p[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s.rstrip(':')


def split_as(s):
    d = 0
    for i in range(len(s)):
        c = s[i]
        if c in '<([':
            d += 1
        elif c in '>)]' and s[i - 1] != '-':
            d -= 1
        elif d == 0 and s.startswith(' as ', i):
            return s[:i], s[i + 4:]
    return None


class Engine:
    def __init__(self, facts, grammar_loader, cuts=(), opts=None):
        self.facts = facts
        self.cur = St({}, T, ())
        self.sofar_marks = set()
        self.loops = []
        global ENG
        ENG = self
        self.f = facts
        self.fns = facts['fns']
        self.T = facts['types']
        self.adts = {a['path']: a for a in facts['adts']}
        self.by_path = {}
        for i, x in enumerate(self.fns):
            if x['local'] and x['kind'] == 'fn':
                self.by_path.setdefault(x['path'], i)
        self.grammar_loader = grammar_loader
        self.grams = {}
        self.cuts = dict(cuts) if isinstance(cuts, dict) else {c: 1 for c in cuts}
        self.opts = opts or {}
        self.events = {}
        self.evlog = []
        self.looplog = []
        self.drops = None
        self.evlist = []
        self.unknown = {}
        self.cfg = {}
        self.stack = []
        self.frames = {}
        self.constcache = {}
        self.callcount = {}
        self.visited = set()
        self.visited_blocks = set()
        self.panic_sites = {}
        self.obl = {}
        from . import models, m_misc
        self.models = models.MODELS
        self.cutmodels = {}
        self.fm = models
        self.depth = 0
        self.steps = 0

    # ---- types -------------------------------------------------------------------------
    def ty(self, i):
        return self.T[i] if i is not None and i >= 0 else {'k': '?', 's': '?'}

    def strip(self, i):
        t = self.ty(i)
        while t['k'] in ('ref', 'ptr'):
            i = t['t']
            t = self.ty(i)
        return i

    def stripbox(self, i):
        i = self.strip(i)
        t = self.ty(i)
        while t['k'] == 'adt' and t['path'] in ('std::boxed::Box', 'std::sync::Arc', 'std::rc::Rc', 'std::borrow::Cow'):
            i = self.strip(t['args'][0])
            t = self.ty(i)
        return i

    def tystr(self, i):
        return self.ty(i)['s']

    def variant_name(self, path, v):
        a = self.adts.get(path)
        if a is None or v >= len(a['variants']):
            return str(v)
        return a['variants'][v]['name']

    def field_names(self, path, v):
        a = self.adts.get(path)
        if a is None or v >= len(a['variants']):
            return None
        return [x['name'] for x in a['variants'][v]['fields']]

    def find_ty(self, s):
        if not hasattr(self, '_tys'):
            self._tys = {t['s']: i for i, t in enumerate(self.T)}
        return self._tys.get(s, UNKNOWN_TY)

    # ---- events ------------------------------------------------------------------------
    def event(self, kind, st, data, site=None, base=None):
        fr = self.stack[-1] if self.stack else None
        key = (kind, data, tuple(s[0] for s in self.stack), site)
        if key in self.events:
            e = self.events[key]
            self.evlog.append((e, e['pc'], e['base']))
            e['pc'] = D.or_(e['pc'], st.pc)
            e['base'] = D.or_(e['base'], st.pc if base is None else base)
            return
        e = dict(kind=kind, data=data, pc=st.pc, base=st.pc if base is None else base, ctx=st.ctx, stack=list(self.stack), site=site, key=key)
        self.events[key] = e
        self.evlist.append(e)

    def ev_mark(self):
        return len(self.evlist), len(self.evlog), len(self.looplog)

    def ev_reset(self, m):
        """forget what a superseded round of a fixpoint reported"""
        while len(self.evlog) > m[1]:
            e, pc, base = self.evlog.pop()
            e['pc'], e['base'] = pc, base
        for e in self.evlist[m[0]:]:
            self.events.pop(e['key'], None)
        del self.evlist[m[0]:]
        del self.looplog[m[2]:]

    def where(self):
        """innermost local frame (function path, span)"""
        for fid, path, local, sp in reversed(self.stack):
            if local:
                return path, sp
        return '?', '?'

    def panic(self, st, what, detail='', base=None):
        """st.pc: when it happens; base: when its site is reached (None: no condition of its own)"""
        self.event('panic', st, (what, detail) + self.where(), base=T if base is None else base)

    def oblige(self, st, what):
        """count a discharged-or-not panic obligation site"""
        p, sp = self.where()
        self.obl[(p, sp, what)] = self.obl.get((p, sp, what), 0) + 1

    # ---- grammar -----------------------------------------------------------------------
    def gram(self, parser):
        if parser not in self.grams:
            self.grams[parser] = self.grammar_loader(parser)
        return self.grams[parser]

    # ---- places ------------------------------------------------------------------------
    def load(self, st, cell, projs):
        v = st.mem.get(cell, UNDEF)
        for p in projs:
            v = self.proj(st, v, p)
        return v

    def prune(self, st, v):
        if v.tag == 'g':
            xs = [(c, x) for c, x in v.a[0] if D.and_(c, st.pc) != F]
            if len(xs) != len(v.a[0]):
                return gamma(xs)
        return v

    def proj(self, st, v, p):
        k = p[0]
        t = v.tag
        if t == 'g':
            out = []
            for c, x in v.a[0]:
                if D.and_(c, st.pc) == F:
                    continue
                y = self.proj(st, x, p)
                if y.tag != 'undef':
                    out.append((c, y))
            return gamma(out)
        if t == 'undef':
            return UNDEF
        if k == '*':
            if t == 'ref':
                return self.load(st, v.a[0], v.a[1])
            return v
        if k == 'f':
            i = p[1]
            if t == 'adt':
                return v.a[2][i] if i < len(v.a[2]) else UNDEF
            if t == 'tup' or t == 'arr':
                return v.a[0][i] if i < len(v.a[0]) else UNDEF
            if t == 'clo':
                return v.a[1][i] if i < len(v.a[1]) else UNDEF
            if t == 't' or t == 'as':
                return self.field_term(v, i, p[2])
            if t in ('coll', 'c', 'ref'):
                return v      # Box/Unique/NonNull internals: transparent
            return term('.%d' % i, (v,), p[2])
        if k == 'v':
            if t == 'adt':
                return v if v.a[1] == p[1] else UNDEF
            if t == 't':
                return mk('as', v, p[1], p[2])
            return v
        if k == 'i':
            idx = p[1]
            if isinstance(idx, tuple):
                idx = self.load(st, idx, ())
            elif isinstance(idx, int):
                raise Unsupported('raw index')
            return self.fm.index_val(self, st, v, idx)
        if k == 'ci':
            return self.fm.const_index(self, st, v, p[1], p[3])
        if k == 'ss':
            return self.fm.subslice(self, st, v, p[1], p[2], p[3])
        if k == 'el':
            return self.fm.load_elem(self, st, v, p[1])
        if k == 'o':
            return v
        raise Unsupported('proj ' + str(p))

    def field_term(self, v, i, fty):
        var = ''
        base = v
        if v.tag == 'as':
            base = v.a[0]
            var = v.a[2]
            vi = v.a[1]
        else:
            vi = 0
        ty = self.ty(self.stripbox(base.a[2])) if base.tag == 't' else {'k': '?'}
        name = str(i)
        if ty['k'] == 'adt':
            fs = self.field_names(ty['path'], vi)
            if fs and i < len(fs):
                name = fs[i]
            if ty['path'] == 'std::ops::ControlFlow':
                pass
        elif ty['k'] in ('ref', 'other', '?') and base.tag != 't':
            pass
        if ty['k'] == 'adt' and ty['path'] in ('std::ptr::Unique', 'std::ptr::NonNull', 'std::boxed::Box'):
            return term(base.a[0], base.a[1], fty)
        return term('.', (base, var, name), fty)

    def norm_projs(self, st, fid, projs):
        """resolve index locals to values, keep the rest"""
        out = []
        for p in projs:
            if p[0] == 'i':
                out.append(('i', self.load(st, (fid, p[1]), ())))
            else:
                out.append(tuple(p))
        return tuple(out)

    def proj_idx(self, st, v, idx):
        return self.fm.index_val(self, st, v, idx)

    def load_place(self, st, fid, place):
        cell = (fid, place[0])
        v = st.mem.get(cell, UNDEF)
        for p in place[1]:
            if p[0] == 'i':
                idx = self.load(st, (fid, p[1]), ())
                v = self.fm.index_val(self, st, v, idx)
            else:
                v = self.proj(st, v, p)
        return v

    def store_place(self, st, fid, place, val):
        self.store(st, (fid, place[0]), self.norm_projs(st, fid, place[1]), val)

    def store(self, st, cell, projs, val):
        # find last deref
        last = -1
        for i, p in enumerate(projs):
            if p[0] == '*':
                last = i
        if last >= 0:
            b = self.load_np(st, cell, projs[:last])
            rest = projs[last + 1:]
            for c, r in alts(b):
                pc = D.and_(st.pc, c)
                if pc == F:
                    continue
                if r.tag == 'ref':
                    if b.tag == 'g':
                        old = self.load_np(st, r.a[0], r.a[1] + rest)
                        nv = gamma([(c, val), (D.not_(c), old)])
                    else:
                        nv = val
                    self.store(st, r.a[0], r.a[1] + rest, nv)
                elif r.tag in ('coll', 'adt', 'tup') and b.tag != 'g':
                    # owned box: store in place
                    self.store(st, cell, tuple(projs[:last]) + tuple(rest), val)
                else:
                    self.event('store_unknown', st, (r, rest))
            return
        if val.tag == 'coll' and not val.a[1] and st.ctx:
            self.fm.note_reset(self, st, self.load_np(st, cell, projs))
        if not projs:
            st.mem[cell] = val
            return
        st.mem[cell] = self.upd(st, st.mem.get(cell, UNDEF), projs, val)

    def load_np(self, st, cell, projs):
        v = st.mem.get(cell, UNDEF)
        for p in projs:
            if p[0] == 'i' and isinstance(p[1], Val):
                v = self.fm.index_val(self, st, v, p[1])
            else:
                v = self.proj(st, v, p)
        return v

    def upd(self, st, v, projs, val):
        if not projs:
            return val
        p = projs[0]
        k = p[0]
        if v.tag == 'g':
            out = []
            for c, x in v.a[0]:
                if D.and_(c, st.pc) == F:
                    out.append((c, x))
                    continue
                if k == 'v' and x.tag == 'adt' and x.a[1] != p[1]:
                    out.append((c, x))
                    continue
                out.append((c, self.upd(st, x, projs, val)))
            return gamma(out)
        if k == 'v':
            if v.tag == 't':
                e = self.expand_enum(v, p[1])
                return self.upd(st, e, projs[1:], val)
            return self.upd(st, v, projs[1:], val)
        if k == 'f':
            i = p[1]
            if v.tag == 't':
                e = self.expand(v)
                if e is None:
                    self.event('store_unknown', st, (v, projs))
                    return v
                v = e
            if v.tag == 'adt':
                fs = list(v.a[2])
                while len(fs) <= i:
                    fs.append(UNDEF)
                fs[i] = self.upd(st, fs[i], projs[1:], val)
                return adt(v.a[0], v.a[1], fs)
            if v.tag in ('tup', 'arr'):
                fs = list(v.a[0])
                while len(fs) <= i:
                    fs.append(UNDEF)
                fs[i] = self.upd(st, fs[i], projs[1:], val)
                return mk(v.tag, tuple(fs))
            if v.tag == 'clo':
                fs = list(v.a[1])
                fs[i] = self.upd(st, fs[i], projs[1:], val)
                return mk('clo', v.a[0], tuple(fs))
            if v.tag == 'undef':
                fs = [UNDEF] * (i + 1)
                fs[i] = self.upd(st, UNDEF, projs[1:], val)
                return mk('tup', tuple(fs))
            return v
        if k == 'el':
            return self.fm.store_elem(self, st, v, p[1], projs[1:], val)
        if k == 'i':
            return self.fm.store_elem(self, st, v, p[1] if isinstance(p[1], Val) else const(0), projs[1:], val)
        if k in ('ci', 'o'):
            return self.fm.store_elem(self, st, v, const(p[1]) if k == 'ci' else UNDEF, projs[1:], val)
        if k == '*':
            return self.upd(st, v, projs[1:], val)
        raise Unsupported('upd %s' % (p,))

    def expand(self, t):
        """struct-typed term -> adt of field terms"""
        ty = self.ty(self.stripbox(t.a[2]))
        if ty['k'] == 'adt' and 'ftys' in ty and len(ty['ftys']) == 1:
            fs = [self.field_term(t, i, ft) for i, ft in enumerate(ty['ftys'][0])]
            return adt(ty['path'], 0, fs)
        if ty['k'] == 'tuple':
            return mk('tup', tuple(self.field_term(t, i, ft) for i, ft in enumerate(ty['args'])))
        return None

    def expand_enum(self, t, vi):
        ty = self.ty(self.stripbox(t.a[2]))
        vn = self.variant_name(ty.get('path', '?'), vi)
        if ty.get('path') == OPT:
            return some(term('.', (t, vn, '0'), ty['args'][0])) if vi == 1 else NONE
        if ty['k'] == 'adt' and 'ftys' in ty:
            a = mk('as', t, vi, vn)
            return adt(ty['path'], vi, [self.field_term(a, i, ft) for i, ft in enumerate(ty['ftys'][vi])])
        return t

    # ---- operands ----------------------------------------------------------------------
    def operand(self, st, fid, o):
        k = o[0]
        if k == 'c' or k == 'm':
            v = self.load_place(st, fid, o[1])
            if k == 'm' and not o[1][1]:
                st.mem.pop((fid, o[1][0]), None)
            return self.prune(st, v)
        if k == 'k':
            return self.constant(st, o[1])
        return FALSE     # runtime checks (ub/overflow checks flags)

    def constant(self, st, c):
        v = c['v']
        tyi = c['ty']
        ty = self.ty(tyi)
        if 'bool' in v:
            return TRUE if v['bool'] else FALSE
        if 'int' in v:
            return const(int(v['int']), ty['s'])
        if 'char' in v:
            return const(v['char'], 'char')
        if 'float' in v:
            return const(float(v['float']), ty['s'])
        if 'str' in v:
            return sval(v['str'])
        if 'bytes' in v:
            return mk('arr', tuple(const(b, 'u8') for b in v['bytes']))
        if 'body' in v:
            return self.const_body(st, v['body'], tyi)
        if 'static' in v:
            if v.get('id') is not None:
                cell = ('static', v['id'])
                if cell not in st.mem:
                    st.mem[cell] = self.static_val(st, v['id'])
                return mk('ref', cell, ())
            return term('static', (v['static'],), tyi)
        if 'fnptr' in v:
            return self.fnval(v['fnptr'])
        if ty['k'] == 'fndef':
            return self.fnval(ty['f'])
        if ty['k'] == 'closure':
            return mk('clo', tyi, ())
        if 'zst' in v:
            if ty['k'] == 'tuple':
                return UNIT
            if ty['k'] == 'adt':
                if ty.get('ftys') == [[]] or ty['path'].startswith('crate::'):
                    return adt(ty['path'], 0, ())
                if ty['path'] in (OPT,):
                    return NONE
            return term('zst', (ty['s'],), tyi)
        if 'ext' in v:
            return term('const', (v['ext'],), tyi)
        return term('const?', (ty['s'], str(sorted(v.items()))), tyi)

    def fnval(self, f):
        k = id(f)
        self.frames[('fn', k)] = f
        key = (f.get('path'), f.get('rpath'), tuple(f.get('targs', ())), f.get('id'), tuple(f['ctor']) if 'ctor' in f else None)
        reg = self.__dict__.setdefault('_fnreg', {})
        reg.setdefault(key, f)
        return mk('fn', key)

    def static_val(self, st, i):
        f = self.fns[i]
        v = self.const_eval(i)
        if v is None:
            return term('static', (f['path'],), UNKNOWN_TY)
        return v

    def const_eval(self, i):
        if i in self.constcache:
            return self.constcache[i]
        self.constcache[i] = None
        st = St({}, T, ())
        saved = self.stack
        self.stack = saved + [(('const', i), self.fns[i]['path'], False, self.fns[i]['span'])]
        try:
            rs = self.run_fn(i, [], st, ('const', i))
            if len(rs) >= 1:
                s2, v = rs[0]
                self.constcache[i] = v
                # keep promoted memory alive
                self.constcache[(i, 'mem')] = dict(s2.mem)
        finally:
            self.stack = saved
        return self.constcache[i]

    def const_body(self, st, i, tyi):
        v = self.const_eval(i)
        if v is None:
            return term('const', (self.fns[i]['path'],), tyi)
        for c, x in self.constcache.get((i, 'mem'), {}).items():
            if c not in st.mem:
                st.mem[c] = x
        return v

    # ---- function execution --------------------------------------------------------------
    def get_cfg(self, i):
        c = self.cfg.get(i)
        if c is None:
            c = self.cfg[i] = CFG(self.fns[i])
        return c

    def call_fn(self, i, args, st, site):
        fn = self.fns[i]
        if sum(1 for s in self.stack if s[0][1] == i) >= self.opts.get('recursion', 1):
            return None
        fid = (self.stack[-1][0] if self.stack else ('root',), i, site)
        fid = self.intern_fid(fid)
        self.stack.append((fid, fn['path'], fn['local'], fn['span']))
        self.visited.add(i)
        try:
            return self.run_fn(i, args, st, fid)
        finally:
            self.stack.pop()

    def intern_fid(self, t):
        d = self.__dict__.setdefault('_fids', {})
        if t not in d:
            d[t] = (len(d), t[1])
        return d[t]

    def run_fn(self, i, args, st, fid):
        fn = self.fns[i]
        if 'blocks' not in fn:
            raise Unsupported('no body ' + fn['path'])
        cfg = self.get_cfg(i)
        s = st.fork()
        ctx0 = s.ctx
        for n, a in enumerate(args):
            s.mem[(fid, n + 1)] = a
        exits = self.run_region(i, fid, cfg.region, {0: [s]})
        rets = []
        nl = len(fn['locals'])
        for s2 in exits.get('ret', []):
            v = s2.mem.get((fid, 0), UNDEF)
            v = self.prune(s2, v)
            for l in range(nl):
                # cells may still be referenced by returned refs to promoted temporaries only
                s2.mem.pop((fid, l), None)
            if v.tag == 'undef':
                v = UNIT
            s2.mem[('ret',)] = v
            s2.ctx = ctx0
            rets.append(s2)
        rets = self.join_list(rets)
        out = []
        for s2 in rets:
            v = s2.mem.pop(('ret',))
            out.append((s2, v))
        return out

    def key_of(self, s):
        k = []
        for c, v in s.mem.items():
            if has_iter(v):
                k.append((c, itkey(v)))
        k.sort(key=str)
        return (tuple(k), len(s.ctx), s.ctx)

    def join_list(self, sts):
        if len(sts) <= 1:
            return sts
        by = {}
        for s in sts:
            if s.pc == F:
                continue
            by.setdefault(self.key_of(s), []).append(s)
        return [g[0] if len(g) == 1 else self.join(g) for g in by.values()]

    def join(self, g):
        base = g[0]
        pc = D.or_(*[s.pc for s in g])
        mem = {}
        for c, v in base.mem.items():
            vs = []
            for s in g:
                x = s.mem.get(c)
                if x is None:
                    break
                vs.append(x)
            else:
                if all(x is v for x in vs):
                    mem[c] = v
                else:
                    mem[c] = gamma([(s.pc, x) for s, x in zip(g, vs)])
        # cells missing in the base but present in all others are dead there
        return St(mem, pc, base.ctx)

    argtys = {}
    revmark = mk('over', 'rev')

    # regions: list of items in topological order; item = block int or ('loop', head, region)
    def run_region(self, i, fid, region, entry):
        pending = {b: list(s) for b, s in entry.items()}
        exits = {}
        for item in region:
            if isinstance(item, int):
                sts = pending.pop(item, None)
                if not sts:
                    continue
                for s in self.join_list(sts):
                    for tgt, s2 in self.run_block(i, fid, item, s):
                        pending.setdefault(tgt, []).append(s2)
            else:
                _, head, blocks, sub = item
                ent = pending.pop(head, None)
                if not ent:
                    continue
                for tgt, ss in self.run_loop(i, fid, head, blocks, sub, ent).items():
                    pending.setdefault(tgt, []).extend(ss)
        for b, ss in pending.items():
            exits.setdefault(b, []).extend(ss)
        return exits

    def run_loop(self, i, fid, head, blocks, sub, entries):
        if len(entries) != 1:
            return self.run_loop_(i, fid, head, blocks, sub, entries)
        self.loops.append((len(entries[0].ctx), dict(entries[0].mem)))
        try:
            return self.run_loop_(i, fid, head, blocks, sub, entries)
        finally:
            self.loops.pop()

    def run_loop_(self, i, fid, head, blocks, sub, entries):
        lk = (fid, head)
        W = set()
        rounds = 0
        em = self.ev_mark()
        while True:
            H = self.join_list([self.widen_iters(s, W) for s in entries])
            H0 = H
            counts = {}
            restart = False
            while True:
                rounds += 1
                if rounds > 60:
                    raise Unsupported('loop fixpoint in ' + self.fns[i]['path'])
                allx = {}
                backs = []
                self.ev_reset(em)
                for h in H:
                    out = self.run_region(i, fid, sub, {head: [h.fork()]})
                    hb = out.pop(('back', head), [])
                    for b in hb:
                        new = self.changed_iters(h, b)
                        if new - W:
                            W |= new
                            restart = True
                        backs.append((h, b))
                    for tgt, ss in out.items():
                        for s in ss:
                            allx.setdefault(tgt, []).append((h, s))
                    if restart:
                        break
                if restart:
                    break
                marks = {m for h, b in backs for m in b.ctx[len(h.ctx):]}
                H2 = self.join_heads(lk, i, fid, H, backs, counts, W)
                if self.same_states(H, H2):
                    if marks & self.sofar_marks:
                        H, allx, backs = self.narrow(lk, i, fid, head, sub, H, marks, W, H0)
                    out = {}
                    if len(H) == len(H0) == 1:
                        out[id(H[0])] = self.fm.closed(self, lk, H0[0], H[0], [b for _, b in backs])
                    return self.close_exits(lk, H, allx, out)
                H = H2

    def narrow(self, lk, i, fid, head, sub, H, marks, W, H0):
        """one more round from the fixpoint in which the collections filled by this loop stand for
        themselves, so that only the contributions of the steady state remain"""
        for last in (False, True):
            Hn = [self.fm.wrap_old(self, h, marks, H0[min(j, len(H0) - 1)]) for j, h in enumerate(H)] if not last else H
            backs, allx = [], {}
            for h in Hn:
                out = self.run_region(i, fid, sub, {head: [h.fork()]})
                backs += [(h, b) for b in out.pop(('back', head), [])]
                for tgt, ss in out.items():
                    for s in ss:
                        allx.setdefault(tgt, []).append((h, s))
            if not last:
                H = [self.fm.drop_old(h, marks) for h in self.join_heads(lk, i, fid, Hn, backs, {}, W)]
                # what the rounds of one head have filled is there when a later head is entered from it
                for j in range(len(H) - 1):
                    bs = self.run_region(i, fid, sub, {head: [H[j].fork()]}).pop(('back', head), [])
                    H = self.join_heads(lk, i, fid, H, [(H[j], b) for b in bs if len(b.ctx) == len(H[j].ctx)], {}, W)
        return H, allx, backs

    def close_exits(self, lk, H, allx, out):
        """leave the loop: drop the per-iteration context.  An exit taken while an element is
        bound (break/return inside the body) is gated by 'some element satisfies ...'."""
        brk = {}
        for tgt, ss in allx.items():
            for h, s in ss:
                if len(s.ctx) > len(h.ctx):
                    rel = D.restrict(s.pc, h.pc)
                    brk.setdefault(id(h), []).append(any_node(s.ctx[len(h.ctx):], rel))
        res = {}
        for tgt, ss in allx.items():
            for h, s in ss:
                s = s.fork()
                if len(s.ctx) > len(h.ctx):
                    s.pc = D.and_(s.pc, any_node(s.ctx[len(h.ctx):], D.restrict(s.pc, h.pc)))
                    s.ctx = h.ctx
                else:
                    for k in brk.get(id(h), ()):
                        s.pc = D.and_(s.pc, D.not_(k))
                    s.ctx = h.ctx
                    for c, v in out.get(id(h), {}).items():
                        if s.mem.get(c) is h.mem[c]:
                            s.mem[c] = v
                res.setdefault(tgt, []).append(s)
        return res

    def widen_iters(self, s, W):
        s = s.fork()
        for c in W:
            v = s.mem.get(c)
            if v is not None:
                s.mem[c] = self.fm.widen_iter(self, v)
        return s

    def changed_iters(self, h, b):
        out = set()
        for c, v in h.mem.items():
            if has_iter(v):
                w = b.mem.get(c)
                if w is not None and itkey(w) != itkey(v) and self.fm.needs_widen(self, v):
                    out.add(c)
        return out

    def same_states(self, A, B):
        if len(A) != len(B):
            return False
        for a, b in zip(A, B):
            if a.pc != b.pc or a.ctx != b.ctx:
                return False
            if a.mem.keys() != b.mem.keys():
                return False
            for c, v in a.mem.items():
                if b.mem[c] is not v:
                    return False
        return True

    def join_heads(self, lk, i, fid, H, backs, counts, W=()):
        H = list(H)
        keys = [self.key_of(h) for h in H]
        fresh = {}
        later = []
        for h, b in backs:
            b = self.widen_iters(b, W)
            elems = b.ctx[len(h.ctx):]
            b.ctx = h.ctx
            k = self.key_of(b)
            if not elems and k != self.key_of(h):
                # progress through a finite prefix: an unrolled head, joined like straight-line code
                fresh.setdefault(k, []).append(b)
            elif k not in keys:
                keys.append(k)
                H.append(St(b.mem, h.pc, h.ctx))
            else:
                later.append((keys.index(k), b, elems))
        for k, bs in fresh.items():
            x = bs[0] if len(bs) == 1 else self.join(bs)
            if k not in keys:
                keys.append(k)
                H.append(x)
                continue
            j = keys.index(k)
            t = H[j]
            if t.pc == x.pc and all(x.mem.get(c) is v for c, v in t.mem.items()):
                continue
            later.append((j, x, ()))
        for j, b, elems in later:
            t = H[j]
            mem = {}
            for c, v in t.mem.items():
                w = b.mem.get(c)
                if w is None:
                    continue
                if w is v:
                    mem[c] = v
                else:
                    mem[c] = self.loopjoin(lk, c, (), v, w, D.restrict(b.pc, t.pc), elems, counts, self.cell_ty(c))
            H[j] = St(mem, t.pc, t.ctx)
        return H

    def cell_ty(self, c):
        try:
            fid, l = c
            fn = self.fns[fid[1]]
            return fn['locals'][l][0]
        except Exception:
            return UNKNOWN_TY

    def place_ty(self, cell, projs):
        """declared type of a place, where the types passed on the way are known"""
        ty = self.argtys.get(cell, UNKNOWN_TY) if cell in self.argtys else self.cell_ty(cell)
        var = 0
        for p in projs:
            if ty is None or ty < 0:
                return UNKNOWN_TY
            t = self.ty(self.stripbox(ty))
            if p[0] == 'v':
                var = p[1]
                continue
            if p[0] == '*':
                continue
            if p[0] == 'f':
                ty = self.sub_ty(ty, var, p[1])
            elif p[0] in ('el', 'i', 'ci'):
                ty = self.fm.elem_ty_of(self, ty)
            else:
                return UNKNOWN_TY
            var = 0
        return ty

    def sub_ty(self, ty, var, i):
        t = self.ty(self.stripbox(ty))
        if t['k'] == 'adt':
            if 'ftys' in t:
                try:
                    return t['ftys'][var][i]
                except IndexError:
                    return UNKNOWN_TY
            if t['path'] in (OPT,) and var == 1:
                return t['args'][0]
            if t['path'] == RES:
                return t['args'][var]
        if t['k'] == 'tuple':
            return t['args'][i]
        return UNKNOWN_TY

    def loopjoin(self, lk, c, path, a, b, bpc, elems, counts, ty):
        if a is b:
            return a
        if a.tag == 'undef' or b.tag == 'undef':
            return a if b.tag == 'undef' else b
        b = self.prev(b, elems) if b.tag not in ('coll',) else b
        if a is b:
            return a
        if a.tag == b.tag and shape(a) is not None and shape(a) == shape(b):
            if a.tag == 'coll':
                if all(g in a.a[1] for g in b.a[1]) and a.a[2] <= b.a[2]:
                    return a
                n = counts[(c, path, 'coll')] = counts.get((c, path, 'coll'), 0) + 1
                if n > 60:
                    lv = term('loopvar', (self.lname(lk), self.lcell(c), str(path)), ty)
                    self.looplog.append((lv, T, counts.setdefault(('init', lv), a)))
                    return lv
                return coll(a.a[0], dedupe(list(a.a[1]) + [g for g in b.a[1] if g not in a.a[1]]), min(a.a[2], b.a[2]))
            if a.tag == 'adt':
                return adt(a.a[0], a.a[1], [self.loopjoin(lk, c, path + ((a.a[1], j),), x, y, bpc, elems, counts, self.sub_ty(ty, a.a[1], j)) for j, (x, y) in enumerate(zip(a.a[2], b.a[2]))])
            if a.tag == 'tup':
                return mk('tup', tuple(self.loopjoin(lk, c, path + ((0, j),), x, y, bpc, elems, counts, self.sub_ty(ty, 0, j)) for j, (x, y) in enumerate(zip(a.a[0], b.a[0]))))
        if has_iter(a) or has_iter(b):
            return self.fm.widen_iter(self, a)
        lname = self.lname(lk)
        key = ('phi', lname, self.lcell(c), path)
        # already a loop variable?
        lv = term('loopvar', (lname, self.lcell(c), str(path)), ty)

        def note():
            self.looplog.append((lv, bpc, b))
            self.looplog.append((lv, T, counts.setdefault(('init', lv), a)))
            if sum(m is self.revmark for m in elems) % 2:
                # carried from the last element to the first
                self.looplog.append((lv, T, const('backward', 'str')))
        if a is lv:
            note()
            return a
        n = counts[(c, path)] = counts.get((c, path), 0) + 1
        vals = []
        for v in (a, b):
            for _, x in alts(v):
                if x not in vals and x is not lv:
                    vals.append(x)
        if n > 4 or len(vals) > 6 or any(self.mentions_key(x, key) for x in vals) or all(x.tag in ('b', 'c', 't') or x.tag == 'coll' and x.a[0] == 'str' for x in vals):
            note()
            return bval(D.eq(lv, 1, (0, 1))) if all(x.tag == 'b' for x in vals) else lv
        # merge those with equal shapes pairwise
        by, order = {}, []
        for x in vals:
            s = shape(x) or ('id', id(x))
            if s in by:
                by[s] = self.loopjoin(lk, c, path + (s,), by[s], x, bpc, (), counts, UNKNOWN_TY if s[0] != 'adt' else ty)
            else:
                by[s] = x
                order.append(s)
        if len(order) == 1:
            return by[order[0]]
        self.__dict__.setdefault('phis', {}).setdefault(key, set()).update(str(shape_name(s, by[s])) for s in order)
        return gamma([(D.eq(key, shape_name(s, by[s])), by[s]) for s in order])

    def mentions_key(self, v, key):
        return False

    def lname(self, lk):
        """stable name of a loop: function path + ordinal of its head among the loops of that function"""
        fid, head = lk
        cfg = self.get_cfg(fid[1])
        return '%s@%d' % (self.fns[fid[1]]['path'].split('::')[-1], cfg.loopidx.get(head, 0))

    def lcell(self, c):
        try:
            fid, l = c
            nm = self.fns[fid[1]]['locals'][l][1]
            return nm or '_%d' % l
        except Exception:
            if isinstance(c, tuple) and c and c[0] == 'acc':
                try:
                    return 'acc %s %s' % (self.fns[c[1][1]]['path'], c[2:])
                except Exception:
                    pass
            return str(c)

    def prev(self, v, elems):
        if not elems:
            return v
        return self.fm.prev_val(self, v, elems)

    # ---- blocks --------------------------------------------------------------------------
    def run_block(self, i, fid, b, st):
        """-> list of (target, state); target block int, 'ret', or ('back', head)"""
        fn = self.fns[i]
        cfg = self.get_cfg(i)
        blk = fn['blocks'][b]
        st = st.fork()
        self.steps += 1
        self.visited_blocks.add((i, b))
        if self.steps > self.opts.get('max_steps', 400000):
            raise Unsupported('step budget')
        for s in blk['s']:
            k = s[0]
            if k == '=':
                v = self.rvalue(st, i, fid, s[2], s)
                self.store_place(st, fid, s[1], v)
            elif k == 'dead':
                st.mem.pop((fid, s[1]), None)
            elif k == 'sd':
                pass
        outs = self.terminator(i, fid, b, blk['t'], st)
        res = []
        for tgt, s in outs:
            if s.pc == F:
                continue
            if isinstance(tgt, int):
                tgt = cfg.edge(b, tgt)
            res.append((tgt, s))
        return res

    def set_site(self, sp):
        f = self.stack[-1]
        self.stack[-1] = (f[0], f[1], f[2], sp)

    def terminator(self, i, fid, b, t, st):
        k = t['k']
        if k == 'goto':
            return [(t['t'], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'drop':
            if not t['p'][1]:
                pass
            return [(t['t'], st)]
        if k == 'switch':
            v = self.operand(st, fid, t['o'])
            return self.switch(st, v, t)
        if k == 'assert':
            if t['m'][0] == 'other':
                return [(t['t'], st)]
            v = self.operand(st, fid, t['o'])
            self.set_site(t['sp'])
            n = self.tobool(v)
            if not t['exp']:
                n = D.not_(n)
            self.fm.check_assert(self, st, fid, t, n)
            s2 = st
            m = t['m'][0]
            if m in ('bounds', 'div0', 'rem0', 'overflow', 'negoverflow'):
                if D.and_(st.pc, n) == F:
                    return []
                if m != 'overflow' and m != 'negoverflow':
                    s2.pc = D.and_(st.pc, n)
            return [(t['t'], s2)]
        if k == 'call':
            return self.call_term(i, fid, b, t, st)
        if k in ('unreachable', 'resume'):
            return []
        if k == 'other':
            return []
        raise Unsupported('term ' + k)

    def switch(self, st, v, t):
        outs = []
        rest = st.pc
        vals = [(int(x), tg) for x, tg in t['tg']]
        ty = self.ty(t['ty'])
        for c, tg in vals:
            n = self.eq_const(v, c, ty)
            pc = D.and_(rest, n)
            if pc != F:
                s = st.fork(pc)
                outs.append((tg, s))
            rest = D.and_(rest, D.not_(n))
        if rest != F:
            s = st.fork(rest)
            outs.append((t['else'], s))
        return outs

    def eq_const(self, v, c, ty):
        """condition that scalar value v equals integer c"""
        tag = v.tag
        if tag == 'g':
            return D.or_(*[D.and_(g, self.eq_const(x, c, ty)) for g, x in v.a[0]])
        if tag == 'b':
            return v.a[0] if c == 1 else D.not_(v.a[0])
        if tag == 'c':
            x = v.a[0]
            if isinstance(x, str) and len(x) == 1 and v.a[1] == 'char':
                x = ord(x)
            return T if x == c else F
        if tag == 'disc':
            base, path = v.a
            a = self.adts.get(path)
            if a is None:
                return D.eq(('var', base), c)
            for vi, vr in enumerate(a['variants']):
                if vr['discr'] == c:
                    dom = [x['name'] for x in a['variants']]
                    if len(dom) == 1:
                        return T
                    return D.eq(('var', base), vr['name'], dom)
            return F
        if ty['k'] == 'bool':
            return self.tobool(v) if c == 1 else D.not_(self.tobool(v))
        return self.fm.val_eq(self, v, const(chr(c), 'char') if ty['k'] == 'char' and c < 0x110000 else const(c, ty['s']))

    def tobool(self, v):
        if v.tag == 'b':
            return v.a[0]
        if v.tag == 'g':
            return D.or_(*[D.and_(c, self.tobool(x)) for c, x in v.a[0]])
        if v.tag == 'c':
            return T if v.a[0] else F
        if v.tag == 'undef':
            return F
        return D.eq(v, 1, (0, 1))

    def call_term(self, i, fid, b, t, st):
        self.set_site(t['sp'])
        args = [self.operand(st, fid, a) for a in t['a']]
        f = t['f']
        rs = self.do_call(st, f, args, (b,), t)
        outs = []
        if t['t'] is None:
            return []
        for s, v in rs:
            self.store_place(s, fid, t['d'], v)
            outs.append((t['t'], s))
        return outs

    def do_call(self, st, f, args, site, t=None):
        """-> list of (state, value)"""
        prev = self.cur
        self.cur = st
        try:
            return self.do_call1(st, f, args, site, t)
        finally:
            self.cur = prev

    def do_call1(self, st, f, args, site, t=None):
        dty = t['dty'] if t else UNKNOWN_TY
        if 'ptr' in f:
            fv = self.operand(st, self.stack[-1][0], f['ptr'])
            return self.call_val(st, fv, args, site, dty)
        if 'ctor' in f:
            return [(st, adt(f['ctor'][0], f['ctor'][1], args))]
        path = f['path']
        name = strip_generics(path)
        rname = strip_generics(f.get('rpath', path))
        if f.get('local') and name in FNCALL:
            return self.models[name](self, st, f, args, site, t)
        if f.get('local'):
            rp = f['rpath']
            if rp in self.cuts:
                return self.cut_call(st, f, rp, args, dty)
            if 'id' in f:
                m = self.models.get('local:' + name)
                r = None
                if m is None:
                    r = self.call_fn(f['id'], args, st, site)
                else:
                    r = m(self, st, f, args, site, t)
                    if isinstance(r, Val):
                        r = [(st, r)]
                if r is not None:
                    return r
                self.note_unknown('recursive ' + rp)
                return [(st, term('rec', (rp,) + tuple(self.deep(st, a) for a in args), dty))]
            # trait impl or generated code without body: may have a model by trait name
        for nm in (name, rname):
            m = self.models.get(nm)
            if m is not None:
                r = m(self, st, f, args, site, t)
                if r is None:
                    break
                if isinstance(r, Val):
                    return [(st, r)]
                return r
        if 'id' in f and not f.get('local'):
            r = self.call_fn(f['id'], args, st, site)
            if r is not None:
                return r
        self.note_unknown(name)
        self.fm.havoc(self, st, name, args)
        return [(st, term('x:' + name, tuple(self.deep(st, a) for a in args), dty))]

    def cut_call(self, st, f, rp, args, dty):
        """modular boundary: the callee is analysed on its own; here it is an opaque function of its arguments.
        A callee that mutates its first argument appends an entry to that object's ordered call list."""
        short = rp.replace('crate::', '')
        ins = [self.ty(x[0]) for x in self.fns[f['id']]['locals'][1:1 + len(args)]] if 'id' in f else []
        mut = [k for k, x in enumerate(ins) if x['k'] == 'ref' and x.get('mut')]
        vals = tuple(self.fm.map_colls(self.deep(st, a), lambda c: self.fm.within(self, st.pc, c), {}) for a in args)
        self.event('cut', st, (rp,) + vals)
        if mut:
            st = st.fork()
            k = mut[0]
            old = self.fm.rd(self, st, args[k])
            c = old if old.tag == 'coll' else coll('obj', (seg((), T, vals[k], 'init'),))
            rest = mk('tup', tuple(v for j, v in enumerate(vals) if j != k))
            s = self.fm.addseg(self, st, c, rest, short.rsplit('::', 1)[-1])
            self.fm.wr(self, st, args[k], s)
            for j in mut[1:]:
                self.fm.wr(self, st, args[j], term('after', (short, j) + vals, -1))
            return [(st, UNIT if self.ty(dty).get('s') == '()' else term('call', (short,) + vals, dty))]
        if not args:
            if self.cuts[rp] == 'new':
                return [(st, coll('obj', ()))]
        return [(st, term('call', (short,) + vals, dty))]

    def note_unknown(self, name):
        p, sp = self.where()
        self.unknown.setdefault(name, set()).add((p, sp))

    def call_val(self, st, fv, args, site, dty=UNKNOWN_TY):
        drops, self.drops = self.drops, None
        try:
            return self.call_val_(st, fv, args, site, dty)
        finally:
            self.drops = drops

    def call_val_(self, st, fv, args, site, dty=UNKNOWN_TY):
        """call a closure / function value"""
        at = None
        while fv.tag == 'ref':
            at = fv
            fv = self.load(st, fv.a[0], fv.a[1])
        if fv.tag == 'g':
            out = []
            for c, x in fv.a[0]:
                pc = D.and_(st.pc, c)
                if pc != F:
                    out.extend(self.call_val(st.fork(pc), x, args, site, dty))
            return self.join_rets(out)
        if fv.tag == 'clo':
            ty = self.ty(fv.a[0])
            i = ty['fn']
            fn = self.fns[i]
            envty = self.ty(fn['locals'][1][0])
            cell = None
            if envty['k'] == 'ref' and at is not None:
                a0 = at
            elif envty['k'] == 'ref':
                cell = ('clo', self.stack[-1][0], site, i)
                st = st.fork()
                st.mem[cell] = fv
                a0 = mk('ref', cell, ())
            else:
                a0 = fv
            r = self.call_fn(i, [a0] + list(args), st, site)
            if r is None:
                return [(st, term('rec', (fn['path'],), dty))]
            for s2, _ in r:
                if cell is not None:
                    s2.mem.pop(cell, None)
            return r
        if fv.tag == 'fn':
            f = self._fnreg[fv.a[0]]
            return self.do_call(st, f, args, site, {'dty': dty})
        self.note_unknown('indirect call')
        return [(st, term('x:callval', (fv,) + tuple(self.deep(st, a) for a in args), dty))]

    def join_rets(self, rs):
        if len(rs) <= 1:
            return rs
        sts = []
        for s, v in rs:
            s = s.fork()
            s.mem[('ret',)] = v
            sts.append(s)
        out = []
        for s in self.join_list(sts):
            out.append((s, s.mem.pop(('ret',))))
        return out

    def deep(self, st, v, d=0):
        """resolve references inside a value (for use in terms)"""
        t = v.tag
        if t == 'ref':
            x = self.load(st, v.a[0], v.a[1])
            if d > 12:
                return x
            return self.deep(st, x, d + 1)
        if t in ('c', 'b', 'pair', 'fn', 'undef'):
            return v
        if d > 14:
            return v
        if t == 'adt':
            if not v.a[2]:
                return v
            return adt(v.a[0], v.a[1], [self.deep(st, x, d + 1) for x in v.a[2]])
        if t in ('tup', 'arr'):
            return mk(t, tuple(self.deep(st, x, d + 1) for x in v.a[0]))
        if t == 'g':
            return gamma([(c, self.deep(st, x, d + 1)) for c, x in v.a[0] if D.and_(c, st.pc) != F])
        if t == 'coll':
            return coll(v.a[0], dedupe([seg(s.a[0], s.a[1], self.deep(st, s.a[2], d + 1), s.a[3]) for s in v.a[1]]), v.a[2])
        if t == 'clo':
            return mk('clo', v.a[0], tuple(self.deep(st, x, d + 1) for x in v.a[1]))
        return v

    # ---- rvalues -------------------------------------------------------------------------
    def rvalue(self, st, i, fid, r, stmt):
        k = r[0]
        if k == 'use':
            return self.operand(st, fid, r[1])
        if k == 'ref':
            l, projs = r[2]
            projs = self.norm_projs(st, fid, projs)
            r2 = self.make_ref(st, (fid, l), projs)
            if r[1] == 'shr':
                # a shared borrow is a snapshot: nothing can change while it lives, cells apart
                if r2.tag == 'ref' and stmt and stmt[0] == '=' and not stmt[1][1] and self.is_cell(self.fns[i]['locals'][stmt[1][0]][0]):
                    return r2
                return self.deref_all(st, r2)
            return r2
        if k == 'agg':
            ops = [self.operand(st, fid, o) for o in r[2]]
            a = r[1]
            if a[0] == 'tuple':
                return mk('tup', tuple(ops))
            if a[0] == 'array':
                return mk('arr', tuple(ops))
            if a[0] == 'adt':
                return adt(a[1], a[2], ops)
            if a[0] == 'closure':
                return mk('clo', a[1], tuple(ops))
            return term('agg', tuple(self.deep(st, o) for o in ops))
        if k == 'disc':
            v = self.load_place(st, fid, r[1])
            return self.disc(st, v)
        if k == 'bin':
            a = self.operand(st, fid, r[2])
            b = self.operand(st, fid, r[3])
            dty = UNKNOWN_TY
            if stmt and stmt[0] == '=' and not stmt[1][1]:
                dty = self.fns[i]['locals'][stmt[1][0]][0]
                if r[1].endswith('WithOverflow'):
                    x = self.ty(dty)
                    dty = (x.get('args') or x.get('elems') or [UNKNOWN_TY])[0]
            return self.fm.binop(self, st, r[1], a, b, dty)
        if k == 'un':
            a = self.operand(st, fid, r[2])
            return self.fm.unop(self, st, r[1], a)
        if k == 'cast':
            a = self.operand(st, fid, r[2])
            return self.fm.cast(self, st, r[1], a, r[3], r[4])
        if k == 'rep':
            a = self.operand(st, fid, r[1])
            n = r[2]
            if n is not None and n <= 16:
                return mk('arr', (a,) * n)
            return term('repeat', (a, n))
        if k == 'other':
            return term('rv', (r[1],))
        if k == 'tls':
            return term('tls', ())
        raise Unsupported(k)

    def is_cell(self, ty):
        t = self.ty(self.strip(ty)) if ty is not None and ty >= 0 else {}
        return t.get('path', '') in ('std::sync::OnceLock', 'std::cell::OnceCell', 'std::cell::Cell', 'std::cell::RefCell', 'std::sync::Mutex', 'std::sync::RwLock')

    def deref_all(self, st, v):
        for _ in range(20):
            if v.tag == 'ref':
                v = self.load(st, v.a[0], v.a[1])
            elif v.tag == 'g' and any(x.tag == 'ref' for _, x in v.a[0]):
                v = gamma([(c, self.deref_all(st, x)) for c, x in v.a[0] if D.and_(c, st.pc) != F])
            else:
                break
        return v

    def make_ref(self, st, cell, projs):
        last = -1
        for j, p in enumerate(projs):
            if p[0] == '*':
                last = j
        if last < 0:
            return mk('ref', cell, projs)
        b = self.load_np(st, cell, projs[:last])
        rest = tuple(projs[last + 1:])
        out = []
        for c, r in alts(b):
            if b.tag == 'g' and D.and_(c, st.pc) == F:
                continue
            if r.tag == 'ref':
                out.append((c, mk('ref', r.a[0], r.a[1] + rest)))
            elif r.tag == 't' and not rest:
                out.append((c, r))
            elif r.tag == 't':
                v = r
                for p in rest:
                    v = self.fm.index_val(self, st, v, p[1]) if p[0] == 'i' else self.proj(st, v, p)
                out.append((c, v))
            elif r.tag == 'undef':
                continue
            else:
                # value behind a pointer we treat as transparent (Box, const &str ...)
                if not rest and r.tag in ('c', 'fn', 'arr'):
                    out.append((c, r))
                else:
                    out.append((c, mk('ref', cell, tuple(projs[:last]) + rest)))
        return gamma(out)

    def disc(self, st, v):
        t = v.tag
        if t == 'g':
            return gamma([(c, self.disc(st, x)) for c, x in v.a[0] if D.and_(c, st.pc) != F])
        if t == 'adt':
            a = self.adts.get(v.a[0])
            if a and a['kind'] == 'enum' and v.a[1] < len(a['variants']):
                return const(a['variants'][v.a[1]]['discr'], 'isize')
            return const(v.a[1], 'isize')
        if t == 't':
            ty = self.ty(self.stripbox(v.a[2]))
            if ty['k'] == 'adt':
                return mk('disc', v, ty['path'])
            return mk('disc', v, '?')
        if t == 'undef':
            return UNDEF
        return term('disc?', (v,))


def shape_name(s, v):
    if s[0] == 'adt':
        return '%s::%d' % (s[1].split('::')[-1], s[2])
    if s[0] == 'id':
        return skey(v)[:80]
    return str(s)


class CFG:
    def __init__(self, fn):
        self.fn = fn
        n = len(fn['blocks'])
        succ = {}
        for b, blk in enumerate(fn['blocks']):
            t = blk['t']
            k = t['k']
            if k == 'goto' or k == 'drop' or k == 'assert':
                s = [t['t']]
            elif k == 'switch':
                s = [x[1] for x in t['tg']] + [t['else']]
            elif k == 'call':
                s = [] if t['t'] is None else [t['t']]
            else:
                s = []
            succ[b] = s
        self.succ = succ
        # reachable
        seen, st = {0}, [0]
        while st:
            x = st.pop()
            for y in succ[x]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        self.reach = seen
        self.back = set()
        self.heads = []
        self.region = self.decompose(seen, 0)
        self.loopidx = {h: i for i, h in enumerate(self.heads)}

    def edge(self, b, t):
        return ('back', t) if (b, t) in self.back else t

    def sccs(self, nodes, succ):
        """Tarjan, iterative; result in topological order"""
        idx, low, on, st, out = {}, {}, set(), [], []
        c = [0]

        def strong(v0):
            work = [(v0, iter(succ(v0)))]
            idx[v0] = low[v0] = c[0]
            c[0] += 1
            st.append(v0)
            on.add(v0)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in nodes:
                        continue
                    if w not in idx:
                        idx[w] = low[w] = c[0]
                        c[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(succ(w))))
                        adv = True
                        break
                    if w in on:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
        for v in sorted(nodes):
            if v not in idx:
                strong(v)
        return out[::-1]

    def decompose(self, nodes, entry):
        def succ(v):
            return [w for w in self.succ[v] if (v, w) not in self.back]
        res = []
        for comp in self.sccs(nodes, succ):
            if len(comp) == 1 and comp[0] not in succ(comp[0]):
                res.append(comp[0])
                continue
            cs = set(comp)
            # head: node with a predecessor outside (or the entry)
            heads = [v for v in comp if v == entry or any(v in self.succ[u] for u in self.reach if u not in cs)]
            head = min(heads) if heads else min(comp)
            self.heads.append(head)
            for v in comp:
                if head in self.succ[v]:
                    self.back.add((v, head))
            sub = self.decompose(cs, head)
            res.append(('loop', head, cs, sub))
        return res
