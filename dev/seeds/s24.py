PROPERTY = 'C24'
EDITS = [('nosnoc/solver.py', "        w_fix_one = np.abs(w_guess - 1.0) < eps_sigma\n        w_fix_one[ind_dont_set] = False\n", "        w_fix_one = np.abs(w_guess - 1.0) < eps_sigma\n        w_fix_one[w_fix_zero] = False\n")]
NEEDS = 'the polishing step, with a state, step size or other free variable that happens to be one in the homotopy solution'
BREAKS = 'states and step sizes that equal one are fixed to one by the polishing step'
DEMO = '''
s = nosnoc.NosnocSolver(options(do_polishing_step=True), model())
s.initialize()
calls = []
class Fake:
    def __call__(self, **k):
        calls.append(k)
        return dict(x=ca.DM(k['x0']), f=ca.DM(0.0), g=ca.DM.zeros(s.problem.g.shape[0], 1))
    def stats(self):
        return dict(return_status='Solve_Succeeded', iter_count=1, t_proc_total=0.0)
w = 0.3 * np.ones(s.problem.w.shape[0])
ix = s.problem.ind_x[0][0][-1][0]
w[ix] = 1.0
s.polish_solution(Fake(), w)
for c in calls:
    if c['lbx'][ix] == c['ubx'][ix]:
        fail('a state was fixed by the polishing step')
'''
