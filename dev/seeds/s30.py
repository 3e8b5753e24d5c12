PROPERTY = 'C21'
EDITS = [('nosnoc/solver.py', "        w0 = prob.w0.copy()\n\n        w_all = [w0.copy()]", "        w0 = prob.w0\n\n        w_all = [w0.copy()]")]
NEEDS = 'two solves with the same solver object, from different initial states, with the active set of the first element fixed'
BREAKS = 'the multipliers fixed for the first solve stay at zero in the start guess of every later solve'
DEMO = '''
s = nosnoc.NosnocSolver(options(fix_active_set_fe0=True, max_iter_homotopy=1), model())
before = s.problem.w0.copy()
class Fake:
    def __call__(self, **k):
        return dict(x=ca.DM(0.5 * np.ones(s.problem.w.shape[0])), f=ca.DM(0.0), g=ca.DM.zeros(s.problem.g.shape[0], 1))
    def stats(self):
        return dict(return_status='Solve_Succeeded', iter_count=1, t_proc_total=0.0)
s.solver = Fake()
s.solve()
from nosnoc.utils import flatten
it = flatten(s.problem.ind_theta)
if not np.array_equal(before[it], s.problem.w0[it]):
    fail('the fixation of multipliers changed the start guess of later solves')
'''
