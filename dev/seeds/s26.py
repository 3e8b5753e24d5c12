PROPERTY = 'C28'
EDITS = [('nosnoc/model.py', "                theta_list[s][i] = 2**(n_c - n_Ri)\n", "                theta_list[s][i] = 2**(dims.n_c_sys[0] - n_Ri)\n")]
NEEDS = 'several subsystems with different numbers of switching functions'
BREAKS = 'the smoothed weights of later subsystems do not add up to one'
DEMO = '''
x = ca.SX.sym('x', 2)
F0 = ca.horzcat(ca.vertcat(1, 0), ca.vertcat(-1, 0))
F1 = ca.horzcat(ca.vertcat(0, 1), ca.vertcat(0, 2), ca.vertcat(0, 3), ca.vertcat(0, 4))
m = nosnoc.NosnocModel(x=x, x0=np.array([0.1, 0.2]), F=[F1, F0], c=[ca.vertcat(x[0], x[1]), x[0]],
                       S=[np.array([[1, 1], [1, -1], [-1, 1], [-1, -1]]), np.array([[1], [-1]])])
o = options(); o.preprocess(); m.preprocess_model(o)
m.add_smooth_step_representation(smoothing_parameter=0.3)
th = m.theta_smooth_fun(np.array([0.3, -0.4]), []).full().flatten()
if abs(th[:4].sum() - 1) > 1e-9 or abs(th[4:].sum() - 1) > 1e-9:
    fail(f'weights {th}')
'''
