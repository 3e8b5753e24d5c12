PROPERTY = 'C10'
EDITS = [('nosnoc/problem.py',
 "                prev_fe.sum_Theta() * self.sum_Theta()\n",
 "                casadi_sum_list(prev_fe.get_Theta_list()[1:]) * self.sum_Theta()\n")]
NEEDS = 'a step equilibration mode that uses the switch indicator, a predecessor element whose convex multipliers are active in its first stage only'
BREAKS = 'the first stage of the predecessor element is left out of the switch indicator, so a switch is indicated where there is none'
DEMO = '''
o = options(step_equilibration=nosnoc.StepEquilibrationMode.L2_RELAXED, Nfe_list=[2], n_s=3)
p = problem(o, model())
a, b = p.stages[0]
f = ca.Function('f', [p.w, p.p], [p.cost])
w = np.ones(p.w.shape[0]); w[p.ind_h] = [0.5, 0.6]
for l in p.ind_lam[0]:
    for i in sum(sum(l, []), []):
        w[i] = 0.0
pv = np.ones(p.p.shape[0])
val = float(f(w, pv))
# per component: no duals within the elements, lambda00 = 1: sum_Lambda(first) * sum_Lambda(second) = 1 * 0, sum_Theta = 3 each
exp = o.rho_h * 9.0 ** 2 * 0.1 ** 2
if abs(val - exp) > 1e-7:
    fail(f'step equilibration cost {val} instead of {exp}')
'''
