PROPERTY = 'C18'
EDITS = [('nosnoc/solver.py', '        results["w_sol"] = w_opt\n', '        results["w_sol"] = w_all[-1]\n')]
NEEDS = 'the polishing step'
BREAKS = 'the returned primal vector is the solution before polishing while states, controls and cost are those after it'
DEMO = '''
s = nosnoc.NosnocSolver(options(do_polishing_step=True, max_iter_homotopy=2), model())
k = [0]
class Fake:
    def __call__(self, **kw):
        k[0] += 1
        return dict(x=ca.DM(0.25 * k[0] * np.ones(s.problem.w.shape[0])), f=ca.DM(0.0), g=ca.DM.zeros(s.problem.g.shape[0], 1))
    def stats(self):
        return dict(return_status='Solve_Succeeded', iter_count=1, t_proc_total=0.0)
s.solver = Fake()
r = s.solve()
if abs(r['w_sol'][s.problem.ind_x[0][0][-1][0]] - r['x_list'][0][0]) > 1e-12:
    fail('w_sol and x_list are of different iterates')
'''
