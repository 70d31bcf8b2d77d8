#!/usr/bin/env python3
"""check.py <property>: decide one property of the current tree of /repo; writes evidence/<property>.json"""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vplib import verdict  # noqa: E402
from vplib.props import BY  # noqa: E402

EXPL = ('Value-flow summaries: the type-checked MIR of the current tree is interpreted abstractly over all inputs at once (grammar tokens, files and hash tables symbolic, '
        'conditions as decision diagrams, loops as comprehensions). Each outcome of the named entry functions - every field of the result with the condition and the expression '
        'that gives it its value - is put into a normal form and compared with the reviewed table in spec/; likewise the normal form of each grammar rule these outcomes read, '
        'and, where the property asks for it, panic sites that stay reachable, warnings, uses of hash order and effects.')


def main(pid):
    t = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    V = verdict.decide(pid)
    cov = dict(explanation=EXPL, **V.cov)
    rep = os.path.join('evidence', pid + '.replay.txt')
    if os.path.exists(os.path.join(VERIF, rep)):
        os.remove(os.path.join(VERIF, rep))
    if V.v:
        with open(os.path.join(VERIF, rep), 'w') as f:
            f.write('%s %s\n%s\n\n' % (pid, BY[pid]['title'], BY[pid]['statement']))
            for h, d in V.v:
                f.write(h + '\n' + ''.join('    %s\n' % x for x in d))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
                       assumptions=['standard library, pest, serde, geo, rstar and multimap behave as modelled in vplib/m_*.py', 'the tables in spec/ were reviewed against the property'],
                       wall_s=round(time.time() - t, 2), violations=len(V.v)), f, indent=1)
    for k in V.known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for x in V.cov['undecided']:
        print('undecided: ' + x)
    print('%s: %d functions, %s' % (pid, V.cov['functions_analysed'], ', '.join('%s %s' % (v, k.replace('_', ' ')) for k, v in V.cov.items() if isinstance(v, int) and k != 'functions_analysed')))
    for h, d in V.v[:8]:
        print('violated: ' + h)
        for x in d[:4]:
            print('    ' + x[:400])
    if V.v:
        print('VIOLATION property=%s replay=%s' % (pid, os.path.join(VERIF, rep)))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
