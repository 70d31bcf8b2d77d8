"""write properties.jsonl and MANIFEST.json from vplib/props.py"""
import json
import sys
sys.path.insert(0, '/verif')
from vplib.props import P, NA

with open('/verif/properties.jsonl', 'w') as f:
    for p in P + NA:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')


def technique(p):
    t = []
    if p['rows']:
        t.append('value-flow summaries (abstract interpretation of MIR) compared with reviewed tables')
        if p['grammar']:
            t.append('grammar normal forms')
    if p['panics']:
        t.append('reachability of panic sites by abstract interpretation of MIR, grammar-aware')
    if p['warns']:
        t.append('condition analysis of warning sites')
    if p['order']:
        t.append('dataflow analysis of hash iteration order')
    if p['effects']:
        t.append('effect analysis over the call graph')
    elif p['crate']:
        t.append('call-graph rules')
    return '; '.join(t)


NOTE = ('Sound up to the library models in vplib/m_*.py (std, pest, serde, geo, rstar, multimap) and the reviewed tables in spec/; covers all inputs, with loops summarised; '
        'where a path goes through a construct without a summary only its inputs are compared, and the evidence lists it as undecided.')
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py',
               checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], technique=technique(p), level='other', level_note=NOTE) for p in P],
               not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA],
               notes='No hooks: the analysis reads the type-checked program of the unmodified tree through a compiler driver. Changes to /repo are fix: commits only, listed in known_findings.txt.'),
          open('/verif/MANIFEST.json', 'w'), indent=1)
from vplib.entries import ENTRIES
import re
t = ['| property | decided by | entry functions and rows |', '|---|---|---|']
for p in P:
    k = [w for w, c in (('rows', p['rows']), ('grammar', p['rows'] and p['grammar']), ('panics', p['panics']), ('warnings', p['warns']), ('order', p['order']), ('effects', p['effects']), ('crate rules', p['crate'])) if c]
    es = []
    for e, inc, exc in p['rows']:
        es.append('%s%s' % (e, '' if inc in (None, '.') or p['id'] == 'A05' else ' `%s`' % inc.replace('|', '\\|').replace(r'^result(\?Ok\\|\.Ok)?', '…').replace(r'^result(\?Ok\.Ok\|\.Ok\|\?Ok)?', '…')))
    for x in ('panics', 'order', 'effects', 'warns'):
        if p[x]:
            es.append('%d entries' % len(p[x]))
    t.append('| %s %s | %s | %s |' % (p['id'], p['title'], ', '.join(k), ', '.join(dict.fromkeys(es))))
s = open('/verif/DESIGN.md').read()
s = re.sub(r'<!-- table -->.*?<!-- end -->', lambda m: '<!-- table -->\n' + '\n'.join(t) + '\n<!-- end -->', s, flags=re.S)
import glob
import os
B = sorted(glob.glob('/verif/seeded/*/meta.json'))
if B:
    t = ['| bug | breaks | what it does | needs |', '|---|---|---|---|']
    for b in B:
        m = json.load(open(b))
        t.append('| %s | %s | %s | %s |' % ((os.path.basename(os.path.dirname(b)), m['property']) + tuple(re.sub(r'\s+', ' ', m[k]).replace('|', '\\|') for k in ('what_it_breaks', 'needs'))))
    s = re.sub(r'<!-- bugs -->.*?<!-- end bugs -->', lambda m: '<!-- bugs -->\n' + '\n'.join(t) + '\n<!-- end bugs -->', s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
