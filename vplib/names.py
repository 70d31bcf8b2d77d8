"""Private names are not behaviour: a private function, type or field that was renamed keeps the name the tables know it by.

spec/names.txt lists the private items of the crate with their shapes.  Where one of them is missing and exactly one item of
the same parent and shape is new, the new one is the old one under another name, and the facts are read with the old name.
"""
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec', 'names.txt')


def parent(p):
    return p.rsplit('::', 1)[0] if '::' in p else ''


def last(p):
    return p.rsplit('::', 1)[-1]


def plain(p):
    return not re.search(r'[<>{}]|::_(::|$)|__', p)


def norm(s, me):
    """a type rendered without the name of the item it belongs to and without closure positions"""
    return re.sub(r'\b%s\b' % re.escape(me), '@', re.sub(r'\{closure@[^}]*\}', '{closure}', s))


def functions(f):
    pub = {i['path']: i['pub'] for i in f['items']}
    r = {}
    for x in f['fns']:
        if x['kind'] == 'fn' and x['local'] and plain(x['path'].replace('crate::', '', 1)):
            sig = ' '.join(f['types'][l[0]]['s'].replace(' ', '') for l in x['locals'][:x['argc'] + 1])
            r.setdefault(x['path'], ('pub' if pub.get(x['path']) else 'priv', sig))
    return r


def adts(f):
    r = {}
    for a in f['adts']:
        if a['local'] and plain(a['path'].replace('crate::', '', 1)):
            sig = a['kind'] + ' ' + ' | '.join(','.join(norm(x['ty'].replace(' ', ''), last(a['path'])) for x in v['fields']) for v in a['variants'])
            r[a['path']] = ('pub' if a['pub'] else 'priv', sig, [[(x['name'], x['ty'].replace(' ', ''), x['pub']) for x in v['fields']] for v in a['variants']], [v['name'] for v in a['variants']])
    return r


def table(f):
    out = []
    for p, (v, s) in sorted(functions(f).items()):
        out.append('fn\t%s\t%s\t%s' % (p, v, s))
    for p, (v, s, fields, _) in sorted(adts(f).items()):
        out.append('adt\t%s\t%s\t%s' % (p, v, s))
        for i, fs in enumerate(fields):
            for n, t, pb in fs:
                if not n.isdigit():
                    out.append('field\t%s/%d/%s\t%s\t%s' % (p, i, n, 'pub' if pb else 'priv', t))
    return out


def known():
    r = {'fn': {}, 'adt': {}, 'field': {}}
    if os.path.exists(SPEC):
        for ln in open(SPEC):
            k, p, v, s = ln.rstrip('\n').split('\t')
            r[k][p] = (v, s)
    return r


def pairs(old, new, group):
    """[(old name, new name)]: what vanished and what appeared under the same group, where that is one of each"""
    gone, come = {}, {}
    for p, (v, s) in old.items():
        if p not in new:
            gone.setdefault((group(p), s), []).append((p, v))
    for p, (v, s) in new.items():
        if p not in old:
            come.setdefault((group(p), s), []).append(p)
    return [(g[0][0], come[k][0]) for k, g in gone.items() if len(g) == 1 and g[0][1] == 'priv' and len(come.get(k, ())) == 1]


def load(path):
    """the facts, read under the names the tables know"""
    text = open(path, encoding='utf-8').read()
    f = json.loads(text)
    K = known()
    if not K['fn']:
        return f
    done = []
    for _ in range(4):
        todo = pairs(K['adt'], {p: x[:2] for p, x in adts(f).items()}, parent) or pairs(K['fn'], functions(f), parent)
        if not todo:
            break
        for o, n in todo:
            base = (last(parent(n)) + '::') if parent(n) not in ('', 'crate') else 'crate::'
            text = re.sub(r'(?<![\w])%s%s(?![\w])' % (re.escape(base), re.escape(last(n))), lambda m: base + last(o), text)
            done.append((o, n))
        f = json.loads(text)
    for a in f['adts']:
        if done and a['local'] and a['kind'] == 'struct':
            a['variants'][0]['name'] = last(a['path'])
    cur = {}
    for p, (_, _, fields, _) in adts(f).items():
        for i, fs in enumerate(fields):
            for n, t, pb in fs:
                if not n.isdigit():
                    cur['%s/%d/%s' % (p, i, n)] = ('pub' if pb else 'priv', t)
    ren = {n: o.rsplit('/', 1)[1] for o, n in pairs(K['field'], cur, lambda p: p.rsplit('/', 1)[0])}
    if ren:
        for a in f['adts']:
            for i, v in enumerate(a['variants']):
                for x in v['fields']:
                    x['name'] = ren.get('%s/%d/%s' % (a['path'], i, x['name']), x['name'])
    f['renamed'] = done + sorted(ren.items())
    return f
