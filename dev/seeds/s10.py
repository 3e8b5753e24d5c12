PROPERTY = 'C20'
EDITS = [('nosnoc/helpers.py', "                switch_times_sim = results[\"switch_times\"] + np.sum(self.time_steps)\n", "                switch_times_sim = results[\"switch_times\"] + i * self.solver.opts.terminal_time\n")]
NEEDS = 'a simulation step whose element sizes do not sum to the terminal time exactly: a problem without FESD step constraint is exact, so least squares handling or an infeasible step is needed'
BREAKS = 'switch times are shifted by the nominal instead of the elapsed time, so they are no longer points of the returned time grid'
DEMO = '''
class Prob: pass
s = Prob(); s.problem = Prob(); s.opts = options(); s.opts.print_level = 0
s.problem.is_sim_problem = lambda: True
s.problem.model = Prob(); s.problem.model.dims = Prob(); s.problem.model.dims.n_p_glob = 0
s.set = lambda f, v: None
def solve():
    return dict(x_list=[np.zeros(1)] * 2, cpu_time_nlp=0.0, time_steps=np.array([0.3, 0.6]), theta_list=[], lambda_list=[], alpha_list=[], z_list=[],
                w_sol=0, w_all=[], cost_val=0, status=nosnoc.nosnoc_types.Status.INFEASIBLE, switch_times=np.array([0.3]))
s.solve = solve
l = nosnoc.NosnocSimLooper(s, np.zeros(1), 3)
l.run()
r = l.get_results()
for t in r['switch_times']:
    if np.abs(r['t_grid'] - t).min() > 1e-9:
        fail(f"switch time {t} is not on the time grid {r['t_grid']}")
'''
