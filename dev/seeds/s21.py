PROPERTY = 'C11'
EDITS = [('nosnoc/problem.py', "        g_len = casadi_length(self.g)\n        self.add_constraint(fe.g, fe.lbg, fe.ubg)\n        # constraint indices\n",
 "        self.add_constraint(fe.g, fe.lbg, fe.ubg)\n        # constraint indices\n        g_len = casadi_length(self.g)\n")]
NEEDS = 'any reader of the index set of the complementarity rows within the assembled constraints'
BREAKS = 'the complementarity index set is shifted by the number of constraints of the element and addresses other or no rows'
DEMO = '''
p = problem(options(n_s=2), model())
ng = p.g.shape[0]
from nosnoc.utils import flatten
idx = flatten(p.ind_comp)
if max(idx) >= ng:
    fail(f'complementarity index {max(idx)} beyond the {ng} constraints')
for i in idx:
    if 'sigma_p' not in syms(p.g[i]):
        fail(f'row {i} of the complementarity index set is {p.g[i]}')
'''
