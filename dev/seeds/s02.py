PROPERTY = 'C06'
EDITS = [('nosnoc/problem.py',
 "                theta = self.Theta(stage=j)\n                lam = self.prev_fe.Lambda(stage=-1)\n                comp_vec = ca.vertcat(comp_vec, theta*lam)\n",
 "                theta = self.Theta(stage=j)\n                if self.fe_idx > 0 or self.ctrl_idx == 0:\n                    lam = self.prev_fe.Lambda(stage=-1)\n                    comp_vec = ca.vertcat(comp_vec, theta*lam)\n")]
NEEDS = 'FESD and at least two control stages'
BREAKS = 'the complementarity residual no longer sees the pairs between the first element of a control stage and the last multipliers of the previous control stage'
DEMO = '''
o = options(N_stages=2, Nfe_list=[1, 2])
p = problem(o, model(n_u=1), nosnoc.NosnocOcp())
w = p.w0.copy() * 0.0
th = p.ind_theta[1][0][0][0][0]
la = p.ind_lam[0][-1][-1][0][0]
w[th], w[la] = 0.7, 2.0
r = float(p.comp_res(w, np.zeros(p.p.shape[0])))
if abs(r - 1.4) > 1e-9:
    fail(f'violated pair across the control stage boundary, residual {r} instead of 1.4')
'''
