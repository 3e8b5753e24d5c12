PROPERTY = 'C19'
EDITS = [('nosnoc/solver.py', "            status = solver_stats['return_status']\n            nlp_iter[ii] = ", "            if ii == 0 or not check_ipopt_success(status):\n                status = solver_stats['return_status']\n            nlp_iter[ii] = ")]
NEEDS = 'a homotopy in which an earlier subproblem succeeds and the last one fails'
BREAKS = 'success is reported although the last subproblem was not solved'
DEMO = '''
s = nosnoc.NosnocSolver(options(max_iter_homotopy=3), model())
stats = iter(['Solve_Succeeded', 'Solve_Succeeded', 'Infeasible_Problem_Detected'])
class Fake:
    def __call__(self, **k):
        return dict(x=ca.DM(0.5 * np.ones(s.problem.w.shape[0])), f=ca.DM(0.0), g=ca.DM.zeros(s.problem.g.shape[0], 1))
    def stats(self):
        return dict(return_status=next(stats), iter_count=1, t_proc_total=0.0)
s.solver = Fake()
r = s.solve()
if r['status'] == nosnoc.Status.SUCCESS:
    fail('success although the last subproblem failed')
'''
