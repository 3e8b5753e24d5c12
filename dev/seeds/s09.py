PROPERTY = 'C18'
EDITS = [('nosnoc/solver.py', "    u_grid = [0] + np.cumsum(opts.Nfe_list).tolist()\n", "    u_grid = [i * opts.Nfe_list[0] for i in range(opts.N_stages)] + [sum(opts.Nfe_list)]\n")]
NEEDS = 'control stages with different numbers of finite elements'
BREAKS = 'the control grid of the results does not lie on the stage boundaries'
DEMO = '''
o = options(N_stages=3, Nfe_list=[1, 3, 2])
p = problem(o, model(n_u=1))
w = np.arange(p.w.shape[0], dtype=float)
h = np.array([0.1, 0.2, 0.3, 0.4, 0.5, 0.6]); w[p.ind_h] = h
r = nosnoc.get_results_from_primal_vector(p, w)
if np.abs(np.array(r['t_grid_u']) - [0.0, 0.1, 1.0, 2.1]).max() > 1e-12:
    fail(f"t_grid_u = {r['t_grid_u']}")
'''
