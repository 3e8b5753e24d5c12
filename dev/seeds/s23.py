PROPERTY = 'C15'
EDITS = [('nosnoc/problem.py', "            qj = sot*ocp.f_q_fun(X_fe[j], Uk, self.p, model.v_global)", "            qj = ocp.f_q_fun(X_fe[j], Uk, self.p, model.v_global)")]
NEEDS = 'a speed-of-time variable together with a running cost'
BREAKS = 'the running cost is integrated over numerical instead of physical time'
DEMO = '''
m = model(n_u=1)
ocp = nosnoc.NosnocOcp(f_q=m.x[0]**2)
p = problem(options(N_stages=2, Nfe_list=[2, 2], speed_of_time_variables=nosnoc.SpeedOfTimeVariableMode.LOCAL), m, ocp)
if not any('sot' in s for s in syms(p.cost)):
    fail('the running cost is not scaled by the speed of time')
'''
