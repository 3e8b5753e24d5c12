PROPERTY = 'C13'
EDITS = [('nosnoc/problem.py', "            self.add_variable(\n                ca.SX.sym(f'z_{ctrl_idx}_{fe_idx}_{ii+1}', dims.n_z), self.ind_z,\n                model.lbz, model.ubz, model.z0, ii\n            )",
 "            self.add_variable(\n                ca.SX.sym(f'z_{ctrl_idx}_{fe_idx}_{ii+1}', dims.n_z), self.ind_z,\n                model.lbz if ii < opts.n_s - 1 else -np.inf * np.ones(dims.n_z), model.ubz, model.z0, ii\n            )")]
NEEDS = 'a model with bounded algebraic variables'
BREAKS = 'the lower bound of the algebraic variables is not imposed at the last stage of an element'
DEMO = '''
p = problem(options(n_s=3), model(n_z=1, lbz=np.array([-4.0])))
from nosnoc.utils import flatten
if not all(p.lbw[i] == -4.0 for i in flatten(p.ind_z)):
    fail('lower bound of an algebraic variable missing')
'''
