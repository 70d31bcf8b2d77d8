"""Run the interpreter on one entry function and render its summary."""
import json
import os
import re
import sys
import threading
import time

from . import interp as I, pest, models as MM
from .canon import Canon

D = I.D


def loader_for(facts, src):
    def load(path):
        a = next(x for x in facts['adts'] if x['path'] == path)
        fs = [re.search(r'"([^"]+)"', s).group(1) for s in a.get('attrs', []) if 'grammar' in s]
        return pest.load(src, fs)
    return load


def read_text(E, st, f, a, site, t):
    """summary of the shared decoder (its body is judged by its own property)"""
    v = E.deep(st, a[0])
    c = D.eq(('decodes', v), 1, (0, 1))
    return I.gamma([(c, I.ok(I.term('file_text', (v,), E.find_ty('std::string::String')))), (D.not_(c), I.err(I.term('decode_error', (v,), -1)))])


class Summary:
    pass


def find(E, suffix):
    c = [p for p in E.by_path if p.endswith(suffix)]
    ex = [p for p in c if p == suffix or p == 'crate::' + suffix]
    c = ex or c
    if len(c) != 1:
        raise LookupError('entry function %s: %d candidates' % (suffix, len(c)))
    return c[0]


def run(facts, src, entry, cuts=(), decoder=True, tie=None, seed_args=None):
    """-> Summary with rows (result and by-reference arguments), events, panics, unknown"""
    cd = {}
    E0 = I.Engine(facts, loader_for(facts, src), {})
    for c in cuts:
        mode = 1
        if c.startswith('new:'):
            c, mode = c[4:].replace('@', ' '), 'new'
        for p in E0.by_path:
            if p.endswith(c):
                cd[p] = mode
                break
        else:
            raise LookupError('no function ' + c)
    E = I.Engine(facts, E0.loader if hasattr(E0, 'loader') else loader_for(facts, src), cd)
    fid = E.by_path[find(E, entry)]
    fn = facts['fns'][fid]
    if decoder:
        MM.MODELS['local:crate::read_to_string'] = read_text
    else:
        MM.MODELS.pop('local:crate::read_to_string', None)
    E.argtys = {}
    st = I.St({}, I.T, ())
    av, cells = [], []
    for i in range(fn['argc']):
        lt = fn['locals'][i + 1][0]
        ty = E.ty(lt)
        if seed_args and i in seed_args:
            av.append(seed_args[i](E, st))
            continue
        if ty['k'] == 'ref':
            cell = ('arg', i)
            st.mem[cell] = I.term('arg', (i,), ty['t'])
            E.argtys[cell] = ty['t']
            av.append(I.mk('ref', cell, ()))
            if ty.get('mut'):
                cells.append((i, cell))
        else:
            av.append(I.term('arg', (i,), lt))
    E.stack = [(('top', -1), 'top', False, '')]
    t = time.time()
    res = E.call_fn(fid, av, st, ('top',)) or []
    S = Summary()
    S.E, S.t = E, time.time() - t
    S.C = C = Canon(E)
    S.rows = []
    S.vals = []
    xs = []
    outs = {i: [] for i, _ in cells}
    for s, v in res:
        xs.append((s.pc, E.deep(s, v)))
        for i, c in cells:
            outs[i].append((s.pc, E.deep(s, s.mem.get(c, I.UNDEF))))
    if xs:
        pc = D.or_(*[c for c, _ in xs])
        S.pc = pc
        S.value = I.gamma(xs) if len(xs) > 1 else xs[0][1]
        S.rows += C.rows(S.value, pc, 'result')
        S.vals.append(S.value)
        for i, _ in cells:
            v = I.gamma(outs[i]) if len(outs[i]) > 1 else outs[i][0][1]
            S.rows += C.rows(v, pc, 'arg%d' % i)
            S.vals.append(v)
    S.unknown = E.unknown
    S.events = E.evlist
    S.t2 = time.time() - t
    S.fn = fn
    return S


def in_thread(f):
    threading.stack_size(1024 * 1024 * 1024)
    sys.setrecursionlimit(50000)
    r = []

    def g():
        try:
            r.append((True, f()))
        except BaseException as e:
            import traceback
            r.append((False, e, traceback.format_exc()))
    th = threading.Thread(target=g)
    th.start()
    th.join()
    if not r[0][0]:
        sys.stderr.write(r[0][2])
        raise r[0][1]
    return r[0][1]
