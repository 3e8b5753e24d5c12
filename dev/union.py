"""Development aid: all units relevant to one file, each once; the properties that have findings."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from analysis import plan, registry
f = sys.argv[1]
t0 = time.time()
pc = []
for p in plan.PROBLEM:
    for c in plan.dedupe(plan.PROBLEM[p]):
        if c not in pc:
            pc.append(c)
pj = [('problem', 'check_config', (c, False)) for c in pc]
fj = []
for l in plan.functions().values():
    for j in l:
        if j not in fj:
            fj.append(j)
sel = {
    'problem.py': lambda: [pj[:14], pj[14:]] + [[j for j in fj if j[0] in ('lint', 'share', 'diag', 'opts')]],
    'solver.py': lambda: [[j for j in fj if j[0] in ('solver', 'lint', 'share', 'diag', 'opts')]],
}.get(f, lambda: [fj + pj[:3]])()
hits, und, txt = [], [], []
for js in sel:
    for r in registry.parallel(js, 'quick'):
        hits += [x['prop'] for x in r['findings']]
        txt += [x['text'][:160] for x in r['findings']][:1]
        und += r['undecided'][:2]
    if hits:
        break
print(json.dumps(dict(hits=sorted(set(hits)), txt=txt[:2], und=sorted(set(und))[:3], wall=round(time.time() - t0))))
