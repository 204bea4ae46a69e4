"""Writes DESIGN.md from design_body.md, seeded/*/meta.json, mutants.py and mutants.res (lines: name property outcome)."""
import sys, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(os.path.dirname(HERE))
sys.dont_write_bytecode = True
sys.path[:0] = ['lib', 'tools']
import main
ps = main.load()
D = open('tools/design_body.md').read()
for k in ps:
    D = D.replace('{n:%s}' % k, '%d scenarios quick, up to %d thorough' % (ps[k].n['quick'], ps[k].n['thorough']))
rows = ['| Bug | Property | Breaks | Needs |', '|---|---|---|---|']
ms = []
for n in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % n))
    ms.append((m['property'], n, m))
for p, n, m in sorted(ms):
    rows.append('| %s | %s | %s | %s |' % (n, p, m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.')))
D = D.replace('{SEEDTABLE}', '\n'.join(rows))
res = {}
for l in open('tools/mutants.res'):
    a = l.split()
    if len(a) >= 3:
        res[(a[0], a[1])] = a[2]
per = {}
for (n, p), o in res.items():
    per.setdefault(p, {}).setdefault(o, []).append(n)
out = []
for p in sorted(per):
    out.append('* %s: %s' % (p, '; '.join('%s: %s' % (o, ', '.join(sorted(per[p][o]))) for o in sorted(per[p]))))
D = D.replace('{MUTTABLE}', '\n'.join(out))
open('DESIGN.md', 'w').write(D)
