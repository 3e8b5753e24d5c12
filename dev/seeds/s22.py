PROPERTY = 'C12'
EDITS = [('nosnoc/problem.py', "self.cost += ocp.f_q_T_fun(x_terminal, model.p_ctrl_stages[-1], model.v_global)", "self.cost += ocp.f_q_T_fun(x_terminal, model.p_ctrl_stages[0], model.v_global)")]
NEEDS = 'a terminal cost that depends on a time-varying parameter and more than one control stage'
BREAKS = 'the terminal cost is evaluated with the parameters of the first control stage'
DEMO = '''
pt = ca.SX.sym('pt', 1)
m = model(p_time_var=pt, p_time_var_val=np.array([[1.0], [2.0], [3.0]]))
ocp = nosnoc.NosnocOcp(f_terminal=pt * m.x[0])
p = problem(options(N_stages=3, Nfe_list=[2, 2, 2], step_equilibration=nosnoc.StepEquilibrationMode.DIRECT_COMPLEMENTARITY), m, ocp)
if not any('p_stage2' in s for s in syms(p.cost)):
    fail(f'terminal cost {p.cost} does not use the parameter of the last stage')
'''
