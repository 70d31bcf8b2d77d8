import sys
sys.path.insert(0, '/verif')
from vplib import summ, compare, entries
ns = [x for x in sys.argv[1:] if x != 'grammar'] if sys.argv[1:] else list(entries.ENTRIES)
for n, s in summ.summaries(ns).items():
    if s['status'] == 'ok':
        compare.write_spec(n, s)
    else:
        print(n, s['status'], s['reason'])
if not sys.argv[1:] or 'grammar' in sys.argv:
    import json
    from vplib import facts, glang, names as NM
    d, _ = facts.build()
    t = glang.tables(NM.load(d), facts.REPO + '/src')
    with open('/verif/spec/grammar.txt', 'w') as f:
        for k in sorted(t):
            for r in sorted(t[k]):
                f.write('%s\t%s\t%s\n' % (k, r, t[k][r]))
if not sys.argv[1:] or 'effects' in sys.argv:
    from vplib import verdict
    with open('/verif/spec/effects.txt', 'w') as f:
        for n, s in summ.summaries(list(entries.ENTRIES)).items():
            for e in verdict.effects_of(s):
                f.write('%s\t%s\n' % (n, e))
if not sys.argv[1:] or 'names' in sys.argv:
    import json
    from vplib import facts, names
    with open('/verif/spec/names.txt', 'w') as f:
        f.write('\n'.join(names.table(json.load(open(facts.build()[0])))) + '\n')
