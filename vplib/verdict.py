"""Decide one property from the summaries of the current tree and the reviewed tables."""
import hashlib
import json
import os
import re

from . import compare as C, facts as FA, glang, names as NM, summ
from .entries import ENTRIES
from .props import BY, PREMISES

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOKEN = re.compile(r'\b([a-z][a-z_]*):([a-z_]\w*(?:/\^?[A-Za-z_]\w*[*#\d]*)*)')


def bare(p):
    return re.sub(r'\?#\d+|\[\d+\]|!last', '', p)


def read_grammar():
    out = {}
    for l in open(os.path.join(VERIF, 'spec', 'grammar.txt')):
        k, r, t = l.rstrip('\n').split('\t', 2)
        out.setdefault(k, {})[r] = t
    return out


def mentioned(texts, tags):
    out = set()
    for t in texts:
        for m in TOKEN.finditer(t):
            if m.group(1) in tags:
                for c in m.group(2).split('/'):
                    out.add((m.group(1), re.sub(r'[*#\d^]+$', '', c.lstrip('^'))))
    return out


def known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else ():
        m = re.match(r'known: property=(\S+) key=\[(.*?)\] (.*)$', l.rstrip('\n'))
        if m and m.group(1) == pid:
            out[m.group(2)] = m.group(3)
    return out


def panic_keys(n, e, defs):
    d = e['detail'] if isinstance(e.get('detail'), str) else ''
    if 'parse_num_error' in d and e.get('atoms'):
        out = []
        for a in e['atoms']:
            m = re.match(r'(\w+)\((\w+), `([a-z_]+):([^`]*)`\)', a)
            if not m:
                out.append('%s %s' % (n, a))
                continue
            comps = [re.sub(r'[*#\d]+$|\[\d+\]$', '', c) for c in m.group(4).split('/')]
            out.append('%s %s %s:%s' % (m.group(1), m.group(2), m.group(3), '/'.join(comps[-2:])))
        return out
    c = e['cond'] or ''
    for _ in range(4):
        x = C.H.sub(lambda m: defs.get(m.group(0), m.group(0)), c)
        if x == c or len(x) > 4000:
            break
        c = x
    if len(c) > 240:
        c = 'condition ' + hashlib.sha1(c.encode()).hexdigest()[:12]
    return ['%s when %s' % (n, c)]


def excluded(cond):
    return '|' not in cond and any(re.fullmatch(q, c.strip()) for q, _ in PREMISES for c in cond.split(' & '))


class Verdict:
    def __init__(self, pid):
        self.pid, self.v, self.notes, self.known, self.cov = pid, [], [], [], {}

    def bad(self, head, *detail):
        self.v.append((head, [x for x in detail if x]))


def rows_of(spec_or_cur, inc, exc):
    i, x = re.compile(inc), re.compile(exc) if exc else None
    return [(p, t) for p, t in spec_or_cur['rows'] if i.search(bare(p)) and not (x and x.search(bare(p)))]


def where(cur):
    return (cur.get('span') or '').split(' ')[0]


def diff_rows(V, n, a, b, spec, cur, what):
    ca, cb = dict(spec, rows=a), dict(cur, rows=b)
    k, ds = C.compare(ca, cb)
    if not ds:
        return k
    u = C.undecided(ds, spec, cur)
    if u is not None and not u['lost'] and not u['gained']:
        V.notes.append('%s: %d %s go through constructs without a summary (%s); only the inputs they are made of were compared, and those agree' % (n, len(ds), what, ', '.join(u['ops'])[:120] or 'loops'))
        return k
    d = next((d for d in ds if d.old is not None and d.new is not None), ds[0])
    det = []
    if d.old is not None and d.new is not None:
        x, y = C.first_diff(d.old, d.new, spec['defs'], cur['defs'])
        det = ['expected: ' + x, 'found:    ' + y]
    elif d.old is not None:
        det = ['expected: ' + d.old[:240], 'found:    nothing']
    else:
        det = ['expected: nothing', 'found:    ' + d.new[:240]]
    V.bad('%s (%s): %s %s %s' % (ENTRIES[n][0], where(cur), what, d.path, d.kind), *(det + ['and %d more differing %s: %s' % (len(ds) - 1, what, ', '.join(sorted({bare(x.path) for x in ds})[:8]))] if len(ds) > 1 else det))
    return k


def decide(pid):
    p = BY[pid]
    V = Verdict(pid)
    names = []
    for n in [r[0] for r in p['rows']] + p['panics'] + p['order'] + p['effects'] + p['warns']:
        if n not in names:
            names.append(n)
    S = summ.summaries(names) if names else {}
    fp, key = FA.build()
    kn = known(pid)
    ok = {}
    undecided = []
    for n in names:
        s = S[n]
        if s['status'] == 'missing':
            V.bad('the function %s that this property speaks about is gone (%s)' % (ENTRIES[n][0], s['reason']))
        elif s['status'] != 'ok':
            undecided.append('%s: %s' % (n, s['reason']))
        else:
            ok[n] = s
    cov = V.cov
    cov['functions_analysed'] = len({f for s in ok.values() for f in s['functions']})
    cov['entry_functions'] = [ENTRIES[n][0] for n in names]
    samples = []
    # ---- rows of the result tables
    total = 0
    gspec, gcur = None, None
    mention, tags_all = set(), {}
    for n, inc, exc in p['rows']:
        if n not in ok:
            continue
        cur, spec = ok[n], C.read_spec(n)
        inc = inc or '.'
        a, b = rows_of(spec, inc, exc), rows_of(cur, inc, exc)
        if not a:
            V.bad('the reviewed table of %s holds no row for %s' % (n, inc))
            continue
        total += diff_rows(V, n, a, b, spec, cur, 'outcome')
        if len(samples) < 3:
            samples.append('%s: %s = %s' % (n, a[-1][0], a[-1][1][:160]))
        if p['grammar']:
            ta = [t for _, t in a]
            tb = [t for _, t in b]
            ta += C.reach(spec['defs'], ta).values()
            tb += C.reach(cur['defs'], tb).values()
            if gspec is None:
                gspec = read_grammar()
                gcur = glang.tables(NM.load(fp), os.path.join(FA.REPO, 'src'))
            tags = set(gspec) | set(gcur)
            m = mentioned(list(ta) + list(tb), tags)
            mention |= m
            allm = mentioned([t for _, t in spec['rows']] + list(spec['defs'].values()), tags)
            for t in {t for t, _ in m}:
                tags_all.setdefault(t, set()).update(r for q, r in allm if q == t)
    if p['rows']:
        cov['outcomes_compared'] = total
    # ---- grammar rules those rows read
    if mention:
        todo, seen = sorted(mention), set()
        bad = []
        while todo:
            t, r = todo.pop()
            if (t, r) in seen:
                continue
            seen.add((t, r))
            x, y = gspec.get(t, {}).get(r), gcur.get(t, {}).get(r)
            if x is None and y is None:
                continue
            if x != y:
                bad.append((t, r, x, y))
            for q in glang.refs(x or '') | glang.refs(y or ''):
                if (q not in tags_all.get(t, ()) or pid == 'A05') and (t, q) not in seen:
                    todo.append((t, q))
            for q in ('WHITESPACE', 'COMMENT'):
                if (q in gspec.get(t, {}) or q in gcur.get(t, {})) and (t, q) not in seen:
                    todo.append((t, q))
        cov['grammar_rules_compared'] = len(seen)
        for t, r, x, y in sorted(bad)[:6]:
            V.bad('grammar %s.pest, rule %s: the texts it accepts or the parts it yields have changed' % (t, r), 'expected: %s' % x, 'found:    %s' % y)
    # ---- warnings
    if p['warns']:
        k = 0
        for n in p['warns']:
            if n in ok:
                cur, spec = ok[n], C.read_spec(n)
                a = [('message ' + w, c) for w, c in spec['logs']]
                b = [('message ' + w, c) for w, c in cur['logs']]
                k += diff_rows(V, n, a, b, spec, cur, 'warning')
        cov['warnings_compared'] = k
    # ---- panics
    if p['panics']:
        sites, seen, told, prem = 0, set(), set(), 0
        for n in p['panics']:
            if n not in ok:
                continue
            cur = ok[n]
            sites += sum(cur['obligations'].values())
            spec_unknown = C.read_spec(n)['unknown']
            new = [u for u in cur['unknown'] if u not in spec_unknown]
            for e in cur['events']:
                if e['kind'] != 'panic':
                    continue
                if excluded(e['cond'] or ''):
                    prem += 1
                    continue
                text = '\n'.join([e['cond'] or ''] + list(C.reach(cur['defs'], [e['cond'] or '']).values()))
                if new and any(u.split('::')[-1] in text or u in text for u in new):
                    V.notes.append('%s: whether %s at %s can fail goes through a construct without a summary' % (n, e['what'], e['at']))
                    continue
                for key in panic_keys(n, e, cur['defs']):
                    if key in kn:
                        seen.add(key)
                    elif key not in told:
                        told.add(key)
                        V.bad('%s: %s at %s can panic [%s]' % (ENTRIES[n][0], e['what'], e['at'], key), 'path: ' + ' > '.join(map(str, e.get('stack', ())))[-300:])
        for key in sorted(seen):
            V.known.append(kn[key] + ' [' + key + ']')
        cov['panic_sites'] = sites
        cov['excluded_by_premise'] = prem
    # ---- hash order
    if p['order']:
        k = 0
        for n in p['order']:
            if n not in ok:
                continue
            cur = ok[n]
            k += 1
            for o in cur['order']:
                t = o
                for _ in range(6):
                    x = C.H.sub(lambda m: cur['defs'].get(m.group(0), m.group(0)), t)
                    if x == t or len(x) > 3000:
                        break
                    t = x
                if len(t) > 200:
                    t = 'expression ' + hashlib.sha1(t.encode()).hexdigest()[:12]
                key = '%s %s' % (n, t)
                if key in kn:
                    V.known.append(kn[key] + ' [' + key + ']')
                else:
                    V.bad('%s (%s): the order in which a hash table is walked shows in the result [%s]' % (ENTRIES[n][0], where(cur), key), o[:300])
        cov['results_examined_for_order'] = k
    # ---- effects
    if p['effects']:
        spec = {}
        for l in open(os.path.join(VERIF, 'spec', 'effects.txt')) if os.path.exists(os.path.join(VERIF, 'spec', 'effects.txt')) else ():
            a, b = l.rstrip('\n').split('\t')
            spec.setdefault(a, set()).add(b)
        k = 0
        for n in p['effects']:
            if n in ok:
                for e in effects_of(ok[n]):
                    k += 1
                    if e not in spec.get(n, ()):
                        V.bad('%s (%s): touches the world outside: %s' % (ENTRIES[n][0], where(ok[n]), e))
        cov['effects_examined'] = k
    if p['crate']:
        from . import rules
        facts = NM.load(fp)
        for r in p['crate']:
            k, bads = rules.RULES[r](facts)
            cov['rule_' + r] = k
            for b in bads:
                V.bad(*b)
    cov['undecided'] = undecided + V.notes
    cov['samples'] = samples
    return V


def effects_of(s):
    return sorted({e['what'].split('(')[0] for e in s['events'] if e['kind'] == 'effect'})
