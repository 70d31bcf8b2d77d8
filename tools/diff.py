"""show how the current tree's summaries differ from the specification tables"""
import sys
sys.path.insert(0, '/verif')
from vplib import summ, compare, entries
ns = sys.argv[1:] or list(entries.ENTRIES)
for n, s in summ.summaries(ns).items():
    if s['status'] != 'ok':
        print(n, s['status'], s['reason'])
        continue
    sp = compare.read_spec(n)
    k, ds = compare.compare(sp, s)
    if sp['pc'] != s['pc']:
        print(n, 'REACH', *[x[:200] for x in compare.first_diff(sp['pc'], s['pc'], sp['defs'], s['defs'])], sep='\n   ')
    if ds:
        u = compare.undecided(ds, sp, s)
        print(n, len(ds), 'differences', 'UNDECIDED %s' % str(u)[:300] if u else '')
        for d in ds[:2]:
            print('  ', d.kind, d.path)
            if d.old and d.new:
                print(*['      ' + x[:260] for x in compare.first_diff(d.old, d.new, sp['defs'], s['defs'])], sep='\n')
            else:
                print('      ', (d.old or d.new)[:200])
