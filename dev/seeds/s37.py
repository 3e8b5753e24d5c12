PROPERTY = 'C25'
EDITS = [('nosnoc/problem.py', "                self.cost += self.g[ii]**2\n", "                self.cost += self.g[ii]**2 / casadi_length(self.g)\n")]
NEEDS = 'least-squares constraint handling'
BREAKS = 'the constraint rows do not enter with unit weight, so the balance between objective and feasibility depends on the number of rows'
DEMO = '''
import warnings; warnings.simplefilter('ignore')
p = problem(options(constraint_handling=nosnoc.ConstraintHandling.LEAST_SQUARES, mpcc_mode=nosnoc.MpccMode.FISCHER_BURMEISTER, step_equilibration=nosnoc.StepEquilibrationMode.DIRECT), model())
f = ca.Function('f', [p.w, p.p], [p.cost, ca.sumsqr(p.g_lsq)])
a, b = f(0.4 * np.ones(p.w.shape[0]), 0.3 * np.ones(p.p.shape[0]))
if abs(float(a) - float(b)) > 1e-8 * float(b):
    fail(f'objective {a}, sum of squares {b}')
'''
