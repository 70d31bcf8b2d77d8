"""Summaries of entry functions, each computed in its own bounded process, cached by content."""
import hashlib
import json
import os
import re
import resource
import sys
import time

from . import facts as FA, names as NM
from .entries import ENTRIES

MEM, CPU = 7 << 30, 400


def engine_hash():
    d = os.path.dirname(os.path.abspath(__file__))
    h = hashlib.sha256()
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f not in ('facts.py', 'rules.py', 'report.py', 'compare.py', 'props.py', 'glang.py', 'verdict.py'):
            h.update(open(os.path.join(d, f), 'rb').read())
    if os.path.exists(NM.SPEC):
        h.update(open(NM.SPEC, 'rb').read())
    return h.hexdigest()[:16]


H = re.compile(r'\$[0-9a-f]{10}')


def subjects(w, defs):
    """a warning by what it speaks about: the values shown, not the words around them"""
    for _ in range(6):
        n = H.sub(lambda m: defs.get(m.group(0), m.group(0)) if len(w) < 20000 else m.group(0), w)
        if n == w:
            break
        w = n
    lvl = w.split('(')[0]
    w = re.sub(r"fp\((display|debug), ", "fp(", w)
    w = re.sub(r"'[^'`]*'", "''", w)
    w = re.sub(r', \d+, [^(),]*\)', ')', w)
    return lvl + ' ' + (w if len(w) < 300 else w[:200] + hashlib.sha1(w.encode()).hexdigest()[:10])


def order_uses(S):
    """places where the order in which a hash table is walked shows in the result"""
    from .interp import Val, D
    from . import interp as I
    C = S.C
    out, seen = set(), set()
    T = 1

    def named(val, c, over):
        # the element is picked by a key that only one entry has
        for o in over:
            if o.tag == 'over' and o.a[0] == 'item':
                for v in D.support(c):
                    k = D.keys[v]
                    if isinstance(k, tuple) and k and k[0] in ('val', 'eq') and any(isinstance(x, Val) and x.tag == 't' and x.a[0] == 'key' and x.a[1][0] is o for x in k[1:]):
                        return True
        return False

    def grouped(x, over):
        # a member of the group, where no two entries of the grouping bring the same member
        if x.tag != 't' or x.a[0] not in ('first', 'last') or x.a[1][0].tag != 'coll' or len(x.a[1][0].a[1]) != 1:
            return False
        s = x.a[1][0].a[1][0]
        its = [o for o in s.a[0] if o.tag == 'over' and o.a[0] == 'item']
        if len(its) != 1:
            return False
        v, grp = s.a[2], its[0].a[1]
        f = None
        if v.tag == 't' and v.a[0] == '.' and v.a[1][2] in ('0', '1'):
            f, v = int(v.a[1][2]), v.a[1][0]
        if not (v.tag == 't' and v.a[0] == 'el' and v.a[1][0] is its[0] and isinstance(grp, Val) and grp.tag == 't' and grp.a[0] == 'el'):
            return False
        m = grp.a[1][0]
        if not any(o is m for o in over) or not isinstance(m.a[1], Val) or m.a[1].tag != 'coll' or m.a[1].a[0] != 'mmap':
            return False
        for g in m.a[1].a[1]:
            w = g.a[2].a[0][1] if g.a[3] == 'multi' and g.a[2].tag == 'tup' else None
            if w is not None and f is not None:
                w = w.a[0][f] if w.tag == 'tup' else None
            if w is None or not (w.tag == 't' and w.a[0] == 'key' and any(w.a[1][0] is o for o in g.a[0])):
                return False
        return len(m.a[1].a[1]) == 1

    def keyed(x, over):
        ms = [o for o in over if o.tag == 'over' and o.a[0] == 'item']
        if x.tag == 'tup':
            x = x.a[0][0]
        if grouped(x, over):
            return True
        if x in S.E.__dict__.get('hashkeys', {}).get(tuple(o for o in over if not (o.tag == 'over' and o.a[0] == 'hash')), ()):
            return True
        return x.tag == 't' and x.a[0] == 'key' and any(x.a[1][0] is m for m in ms) or x.tag in ('tup',) and any(keyed(y, over) for y in x.a[0])

    def ordered(over, val):
        # sorted or selected by something that no two entries share
        for o in over:
            if o.tag == 'over' and o.a[0] in ('sorted', 'min', 'max') and len(o.a) > 1 and isinstance(o.a[1], Val):
                k = o.a[1]
                if k is val or keyed(k, over) or setel(k, over) or k.tag == 'tup' and any(keyed(x, over) or setel(x, over) for x in k.a[0]):
                    return True
        return False

    def setel(k, over):
        if k.tag != 't' or k.a[0] != 'el' or not any(o is k.a[1][0] for o in over):
            return False
        x = k.a[1][0].a[1]
        return isinstance(x, Val) and (x.tag == 'coll' and x.a[0] in ('hset', 'bset') or x.tag == 't' and S.E.ty(S.E.stripbox(x.a[2])).get('path', '').endswith('Set'))

    def go(v):
        if isinstance(v, tuple):
            for x in v:
                go(x)
            return
        if not isinstance(v, Val) or v in seen:
            return
        seen.add(v)
        if v.tag == 't' and v.a[0].rsplit('::', 1)[-1] in ('bulk_load', 'bulk_load_with_params') and v.a[1] and isinstance(v.a[1][0], Val) and v.a[1][0].tag == 'coll':
            # an R-tree holds a set: what its queries find does not depend on the order of insertion
            for s in v.a[1][0].a[1]:
                go((s.a[0], s.a[1], s.a[2]))
            return
        if v.tag == 'coll':
            for s in v.a[1]:
                hs = [o for o in s.a[0] if isinstance(o, Val) and o.tag == 'over' and o.a[0] == 'hash']
                if hs and not ordered(s.a[0], s.a[2]):
                    k = v.a[0]
                    if k in ('hset', 'bset'):
                        continue
                    if k in ('hmap', 'bmap', 'mmap') and (keyed(s.a[2], s.a[0]) or isinstance(s.a[3], tuple) and s.a[3][1:2] == ('key',) and keyed(s.a[3][2], s.a[0])):
                        continue
                    if k == 'sel' and named(s.a[2], s.a[1], s.a[0]):
                        continue
                    out.add('%s from %s' % (k, C.over([o for o in s.a[0] if o.a[0] != 'hash'])))
        for x in v.a:
            go(x)
    for v in S.vals:
        go(v)
    # an element picked out of a hash table without a name of its own
    hi = set(S.E.__dict__.get('hashitems', ()))
    good, poor = set(), set()
    for k in D.keys:
        if isinstance(k, tuple) and k and k[0] == 'any' and isinstance(k[1], tuple):
            (good if ordered(k[1], None) else poor).update(o for o in k[1] if o in hi)
    hi -= good - poor
    done = set()

    def free(v, bound):
        if isinstance(v, tuple):
            for x in v:
                free(x, bound)
            return
        if not isinstance(v, Val) or (v, bound) in done or len(done) > 300000:
            return
        done.add((v, bound))
        if v.tag == 'coll':
            for s in v.a[1]:
                b = bound | frozenset(o for o in s.a[0] if o in hi)
                free(s.a[2], b)
                if isinstance(s.a[3], tuple):
                    free(s.a[3], b)
            return
        if v.tag == 'over':
            return
        if v.tag == 't' and v.a[0] in ('el', 'key') and v.a[1][0] in hi and v.a[1][0] not in bound:
            out.add('pick from %s' % C.over([v.a[1][0]]))
            return
        for x in v.a:
            free(x, bound)
    if hi:
        for v in S.vals:
            free(v, frozenset())
    return sorted(out)


def export(S):
    from .interp import Val, D
    C = S.C
    ev = []
    T = 1
    for e in S.events:
        k = e['kind']
        d = e['data']
        if k == 'panic':
            what, det = d[0], d[1]
            base = e['base']
            bad = C.node(D.restrict(e['pc'], base), base) if base != T else C.node(e['pc'])
            if isinstance(det, Val):
                det = C.val(det, base)
            elif isinstance(det, tuple):
                det = ', '.join(C.val(x, base) if isinstance(x, Val) else str(x) for x in det)
            rel = D.restrict(e['pc'], base) if base != T else e['pc']
            atoms = sorted({C.key(D.keys[v]) for v in D.support(rel) if isinstance(D.keys[v], tuple) and D.keys[v][:1] in (('parses',), ('fits',))})
            ev.append(dict(kind=k, what=what, detail=str(det), cond=bad, pc=C.node(e['pc']), atoms=atoms))
        elif k == 'cut':
            ev.append(dict(kind=k, what=C.key(d), pc=C.node(e['pc'])))
        else:
            ev.append(dict(kind=k, what=C.key(d), pc=C.node(e['pc'])))
        fr = e['stack'][-1]
        loc = [f for f in e['stack'] if f[2]]
        ev[-1]['at'] = '%s %s' % ((loc or [fr])[-1][1], (loc or [fr])[-1][3])
        ev[-1]['stack'] = [f[1] for f in e['stack'][1:]]
    logs = {}
    for e in S.events:
        if e['kind'] == 'log':
            w = C.key(e['data'])
            logs[w] = D.or_(logs.get(w, 0), e['pc'])
    logs = sorted([w, C.node(n)] for w, n in logs.items())
    resets = {}
    for e in S.events:
        if e['kind'] == 'reset':
            w = C.key(e['data'])
            resets[w] = D.or_(resets.get(w, 0), e['pc'])
    resets = sorted(['resets ' + w, 'when ' + C.node(n)] for w, n in resets.items())
    defs = dict(S.C.defs)
    logs = sorted([subjects(w, defs), n] for w, n in logs)
    for sub in (S.C.sub, getattr(S.C.sub, 'sub', None) if S.C.sub else None):
        if sub:
            defs.update(sub.defs)
    E = S.E
    return dict(status='ok', logs=logs, order=order_uses(S), rows=[[p, x] for p, x in S.rows] + resets, defs=defs, pc=S.C.node(S.pc) if hasattr(S, 'pc') else 'F', events=ev,
                unknown={str(k): len(v) for k, v in S.unknown.items()}, secs=round(S.t, 2),
                functions=sorted(getattr(E, 'visited', ())), span='%s' % (S.fn.get('span'),), obligations={('%s %s' % (k[0], k[2])): v for k, v in E.obl.items()})


def one(facts, src, name, path):
    from . import analyse as A
    ent, cuts = ENTRIES[name]
    t = time.time()
    try:
        r = A.in_thread(lambda: export(A.run(facts, src, ent, cuts, decoder=name != 'decoder')))
    except LookupError as e:
        r = dict(status='missing', reason=str(e))
    except BaseException as e:
        r = dict(status='undecided', reason='%s: %s' % (type(e).__name__, str(e)[:200]))
    r['wall'] = round(time.time() - t, 2)
    r['maxrss'] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
    with open('%s.%d.tmp' % (path, os.getpid()), 'w') as f:
        json.dump(r, f)
    os.rename('%s.%d.tmp' % (path, os.getpid()), path)


def summaries(names, jobs=7):
    """-> {name: summary}"""
    fp, key = FA.build()
    d = os.path.join(os.path.dirname(fp), 's-' + engine_hash())
    os.makedirs(d, exist_ok=True)
    todo = [n for n in names if not os.path.exists(os.path.join(d, n + '.json'))]
    if todo:
        facts = NM.load(fp)
        src = os.path.join(FA.REPO, 'src')
        from . import analyse as A
        pids = {}
        heavy = ['sct', 'sct-items', 'maps', 'polygon']
        todo.sort(key=lambda n: (n not in heavy, n))

        def wait():
            p, s = os.wait()
            n = pids.pop(p, None)
            f = os.path.join(d, n + '.json') if n else None
            if n and not os.path.exists(f):
                json.dump(dict(status='undecided', reason='analysis exceeded its limits (status %d)' % s, wall=0), open(f, 'w'))
        for n in todo:
            while len(pids) >= jobs:
                wait()
            p = os.fork()
            if p == 0:
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
                    resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU))
                    dn = os.open('/dev/null', os.O_WRONLY)
                    if not os.environ.get('VP_DEBUG'):
                        os.dup2(dn, 2)
                    one(facts, src, n, os.path.join(d, n + '.json'))
                finally:
                    os._exit(0)
            pids[p] = n
        while pids:
            wait()
    return {n: json.load(open(os.path.join(d, n + '.json'))) for n in names}


if __name__ == '__main__':
    ns = sys.argv[1:] or list(ENTRIES)
    t = time.time()
    for n, s in summaries(ns).items():
        if s['status'] == 'ok':
            print('%-20s ok rows %d panics %d unk %s  %.1fs %dMB' % (n, len(s['rows']), sum(e['kind'] == 'panic' for e in s['events']), list(s['unknown'])[:3], s['wall'], s['maxrss']))
        else:
            print('%-20s %s %s' % (n, s['status'], s['reason']))
    print('%.1fs' % (time.time() - t))
