PROPERTY = 'C16'
EDITS = [('nosnoc/solver.py', "            for ind in prob.ind_x:\n                prob.w0[np.array(ind)] = x0\n", "            for ind in prob.ind_x_cont:\n                prob.w0[np.array(ind)] = x0\n")]
NEEDS = 'more than one integrator stage; a second solve from another initial state'
BREAKS = 'inner stage states keep the guess of the construction instead of the current initial state'
DEMO = '''
s = nosnoc.NosnocSolver(options(n_s=3), model())
s.set('x0', np.array([0.7]))
s.initialize()
from nosnoc.utils import flatten
if np.abs(s.problem.w0[flatten(s.problem.ind_x)] - 0.7).max() > 0:
    fail('a state guess differs from the current initial state')
'''
