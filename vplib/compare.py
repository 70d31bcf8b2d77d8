"""Compare a summary of the current tree with the reviewed specification table."""
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = re.compile(r'\$[0-9a-f]{10}')


def spec_path(name):
    return os.path.join(VERIF, 'spec', name + '.txt')


def reach(defs, texts):
    out, todo = {}, [h for t in texts for h in H.findall(t)]
    while todo:
        h = todo.pop()
        if h not in out and h in defs:
            out[h] = defs[h]
            todo += H.findall(defs[h])
    return out


def write_spec(name, s):
    used = reach(s['defs'], [x for _, x in s['rows']] + [s['pc']] + [y for x in s['logs'] for y in x])
    with open(spec_path(name), 'w') as f:
        f.write('reach\t%s\n' % s['pc'])
        for u in sorted(s['unknown']):
            f.write('opaque\t%s\n' % u)
        for p, x in s['rows']:
            f.write('row\t%s\t%s\n' % (p, x))
        for w, n in s['logs']:
            f.write('warn\t%s\t%s\n' % (w, n))
        for h in sorted(used):
            f.write('def\t%s\t%s\n' % (h, used[h]))


def read_spec(name):
    r = dict(rows=[], defs={}, unknown=[], pc='', logs=[])
    with open(spec_path(name)) as f:
        for l in f:
            k, *a = l.rstrip('\n').split('\t')
            if k == 'row':
                r['rows'].append((a[0], a[1]))
            elif k == 'def':
                r['defs'][a[0]] = a[1]
            elif k == 'warn':
                r['logs'].append(a)
            elif k == 'opaque':
                r['unknown'].append(a[0])
            else:
                r['pc'] = a[0]
    return r


def expand(t, defs, limit=200000):
    """the set of texts t is made of"""
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        out.append(x)
        for h in H.findall(x):
            if h not in seen and h in defs:
                seen.add(h)
                todo.append(defs[h])
    return out


def leaves(t, defs):
    r = set()
    for x in expand(t, defs):
        r.update(re.findall(r'`[^`]*`', x))
        r.update(re.findall(r"'[^']*'", x))
        r.update(re.findall(r'arg\d+[.\w#]*', x))
    return r


def first_diff(a, b, da, db, depth=0):
    """drill down to the first place where two renderings say different things"""
    if depth < 60:
        ta, tb = re.split(r'(\$[0-9a-f]{10})', a), re.split(r'(\$[0-9a-f]{10})', b)
        if len(ta) == len(tb) and ta[::2] == tb[::2]:
            for x, y in zip(ta[1::2], tb[1::2]):
                if x != y and x in da and y in db:
                    return first_diff(da[x], db[y], da, db, depth + 1)
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    i = max(0, i - 60)
    return ('…' if i else '') + a[i:i + 200], ('…' if i else '') + b[i:i + 200]


class Diff:
    def __init__(self, path, kind, old, new):
        self.path, self.kind, self.old, self.new = path, kind, old, new


def match(path, inc, exc):
    if path.startswith('resets '):
        return True
    return (inc is None or re.search(inc, path)) and not (exc and re.search(exc, path))


def compare(spec, cur, inc=None, exc=None):
    """-> (number of rows compared, [Diff])"""
    a = [(p, x) for p, x in spec['rows'] if match(p, inc, exc)]
    b = [(p, x) for p, x in cur['rows'] if match(p, inc, exc)]
    # an emptied once-cell is filled, on first use, from the data current then: as good as one filled from it now
    lazy = [p for p, x in b if p.endswith('.once') and x in ('Option::None', 'None') or re.fullmatch(r'(\w+\{\w+: )*OnceLock\{once: None\}+', x)]
    for p in lazy:
        if any(q.startswith(p + '.') for q, _ in a):
            a = [(q, x) for q, x in a if not q.startswith(p + '.')]
            b = [(q, x) for q, x in b if q != p]
    ca, cb = {}, {}
    for p, x in a:
        ca.setdefault(p, []).append(x)
    for p, x in b:
        cb.setdefault(p, []).append(x)
    out = []
    for p, xs in ca.items():
        ys = cb.get(p, [])
        for i in range(max(len(xs), len(ys))):
            x, y = xs[i] if i < len(xs) else None, ys[i] if i < len(ys) else None
            if x != y:
                out.append(Diff(p, 'changed' if x is not None and y is not None else 'missing' if y is None else 'extra', x, y))
    for p, ys in cb.items():
        if p not in ca:
            for y in ys:
                out.append(Diff(p, 'extra', None, y))
    return len(a), out


OPAQUE = re.compile(r'\bloop\(|loopvar|sofar\(')


# operations without a model whose result is never what the same expression without them gives (a value is
# rounded, clipped, folded over, dropped as a duplicate): a difference that goes through one of them is a difference
ALTERS = frozenset("""abs abs_diff ceil clamp copysign cycle dedup_by dedup_by_key dedup_with_count div_euclid floor
fract intersperse mul_add pow powf powi rem_euclid round signum sqrt step_by to_degrees to_radians trunc unique unique_by
wrapping_add wrapping_sub wrapping_mul saturating_add saturating_mul to_bits swap_bytes hypot exp ln log2 log10 tan sin
cos asin acos atan cbrt symmetric_difference interleave cartesian_product resize split_off""".split())


def undecided(diffs, spec, cur):
    """a difference that goes through an operation the engine has no meaning for decides nothing by itself:
    then only the inputs the table is made from are compared"""
    new_ops = [u for u in cur['unknown'] if u not in spec['unknown'] and u.split('::')[-1] not in ALTERS]
    nb = {}
    for d in diffs:
        if d.new is None:
            continue
        for x in expand(d.new, cur['defs']):
            nb[x] = 1
    text = '\n'.join(nb)
    ops = [u for u in new_ops if u.split('::')[-1] in text or u in text]
    oa = {}
    for d in diffs:
        if d.old is not None:
            for x in expand(d.old, spec['defs']):
                oa[x] = 1
    old = '\n'.join(oa)
    loops = len(OPAQUE.findall(text)) > len(OPAQUE.findall(old))
    if not ops and not loops:
        return None
    la = set().union(*[leaves(d.old, spec['defs']) for d in diffs if d.old is not None] or [set()])
    lb = set().union(*[leaves(d.new, cur['defs']) for d in diffs if d.new is not None] or [set()])
    return dict(ops=ops, loops=loops, lost=sorted(la - lb), gained=sorted(lb - la))
