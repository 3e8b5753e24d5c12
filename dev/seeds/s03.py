PROPERTY = 'C09'
EDITS = [('nosnoc/problem.py',
 "        h0 = np.array([h_ctrl_stage / np.array(opts.Nfe_list[ctrl_idx])])\n",
 "        h0 = np.array([h_ctrl_stage / np.array(opts.N_finite_elements)])\n")]
NEEDS = 'an Nfe_list whose entries differ from N_finite_elements (non-uniform finite elements per control stage)'
BREAKS = 'nominal step and step-size bounds of control stages are taken from the default number of finite elements instead of that of the stage'
DEMO = '''
o = options(N_stages=2, Nfe_list=[2, 4])
p = problem(o, model(n_u=1), nosnoc.NosnocOcp())
exp = [0.25, 0.25] + 4 * [0.125]
if not np.allclose(p.w0[p.ind_h], exp) or not np.allclose(p.lbw[p.ind_h], (1 - o.gamma_h) * np.array(exp)):
    fail(f'step guesses {p.w0[p.ind_h]} instead of {exp}')
'''
