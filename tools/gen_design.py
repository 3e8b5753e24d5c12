"""Joins the parts of DESIGN.md; the table of planted changes comes from seeded/ and dev/catch.log."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda n: open(f'{V}/tools/{n}').read().rstrip() + '\n'
rows = []
res = {}
if os.path.exists(V + '/dev/catch.log'):
    for l in open(V + '/dev/catch.log'):
        w = l.split()
        if len(w) > 2:
            res[w[1]] = w[0]
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(i, '?')} |")
t = '## 4. Planted changes\n\nWritten from the property texts and the code (`dev/seeds`), each with a demonstration that runs the real package; all pass the stable tests.\n"caught" = the check of the named property exits 1 on the patched tree.\n\n| id | property | what it breaks | needs | result |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n'
ex = rd('design_sweep.md') if os.path.exists(V + '/tools/design_sweep.md') else ''
open(V + '/DESIGN.md', 'w').write('\n'.join([rd('design_head.md'), rd('design_props.md'), t, ex, rd('design_tail.md')]))
