JOBS = [('lint', 'check_lint', ())]
N = 'nosnoc/'
S, P, M, O, H, L, U, A, R, T = [N + x for x in ('solver.py', 'problem.py', 'model.py', 'nosnoc_opts.py', 'helpers.py', 'plot_utils.py', 'utils.py', 'auto_model.py', 'rk_utils.py', 'ocp.py')]
M = [
 ('key rename', 'C27', S, 'results["lambda_list"] =', 'results["lam_list"] ='),
 ('enum member', 'C27', S, 'InitializationStrategy.RK4_SMOOTHENED', 'InitializationStrategy.RK4_SMOOTHED'),
 ('typo attr', 'C27', P, 'self.ind_theta', 'self.index_theta'),
 ('opts attr', 'C27', P, 'opts.fb_ip_aug2_weight', 'opts.fb_ip_aug_2_weight'),
 ('name', 'C27', S, 'get_results_from_primal_vector(', 'get_results_from_primal('),
 ('import', 'C27', S, 'import numpy as np', 'import numpy as nump'),
 ('np member', 'C27', P, 'np.zeros(', 'np.zeroes('),
 ('ca member', 'C27', M if False else N + 'model.py', 'ca.SX.zeros(', 'ca.SX.zeros_like('),
 ('branch', 'C27', N + 'model.py', "        if self.g_Stewart:\n            n_c_sys = [0]  # No c used!\n        else:\n", "        if not self.g_Stewart:\n"),
 ('param', 'C27', R, 'def rk4_on_timegrid(f, x0, t_grid', 'def rk4_on_timegrid(f, x0, t_grid, n_steps'),
 ('key cond', 'C27', S, '    results["z_list"] = [', '    if opts.pss_mode == PssMode.STEP:\n        results["z_list"] = ['),
 ('key read', 'C27', H, 'results["cpu_time_nlp"]', 'results["cpu_time"]'),
 ('unpack', 'C27', R, '    return A, b, c, order', '    return A, b, c'),
 ('unpack 2', 'C27', N + 'model.py', 'theta, lam, mu, alpha, lambda_n, lambda_p = self.create', 'theta, lam, mu, alpha, lambda_n = self.create'),
 ('kwarg', 'C27', S, 'x0=x_rk4_current', 'x_0=x_rk4_current'),
 ('table', 'C27', R, '{IrkSchemes.GAUSS_LEGENDRE: "legendre", IrkSchemes.RADAU_IIA: "radau"}', '{IrkSchemes.GAUSS_LEGENDRE: "legendre"}'),
 ('swt', 'C27', S, '        theta_prev = results["theta_list"][0]\n', '        theta_prev = results["thetas"][0]\n'),
 ('- update', '-', S, '    results["z_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_z)]', '    results.update(z_list=[w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_z)])'),
 ('- update2', '-', S, '    results["z_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_z)]', '    results.update({"z_list": [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_z)]})'),
 ('- helper', '-', S, '    results["v_global"] = w_opt[prob.ind_v_global]', '    _globals(results, w_opt, prob)', 'def get_results_from_primal_vector', 'def _globals(results, w_opt, prob):\n    results["v_global"] = w_opt[prob.ind_v_global]\n\n\ndef get_results_from_primal_vector'),
 ('- getattr', '-', H, '            self.print_level = solver.opts.print_level', "            self.print_level = getattr(solver.opts, 'print_level')"),
 ('- preset', '-', N + 'model.py', "        if self.g_Stewart:\n            n_c_sys = [0]  # No c used!\n        else:\n", "        n_c_sys = [0]\n        if not self.g_Stewart:\n"),
 ('- flag', '-', N + 'model.py', "        if self.g_Stewart:\n            n_c_sys = [0]  # No c used!\n        else:\n", "        by_g = bool(self.g_Stewart)\n        if by_g:\n            n_c_sys = [0]  # No c used!\n        if not by_g:\n"),
 ('- status', '-', S, '            results["status"] = Status.SUCCESS', '            status_ = Status.SUCCESS', '            results["status"] = Status.INFEASIBLE', '            status_ = Status.INFEASIBLE\n        results["status"] = status_'),
 ('boolean branch', 'C27', P, '        elif opts.mpcc_mode == MpccMode.BOOLEAN:\n            bigM = 1e5\n', '        elif opts.mpcc_mode == MpccMode.BOOLEAN:\n'),
 ('missing mode', 'C27', P, '                MpccMode.FISCHER_BURMEISTER_IP_AUG,\n                MpccMode.ELASTIC_EQ\n', '                MpccMode.ELASTIC_EQ\n'),
 ('shadow', 'C27', L, "        lambdas = flatten_layer(results['lambda_list'], 2)\n", "        flatten_layer = flatten_layer(results['lambda_list'], 2)\n"),
 ('no self', 'C27', S, 'self.problem.print()', 'problem.print()'),
 ('init branch', 'C27', H, '        self.status = []', '        if self.p_values is not None:\n            self.status = []') ,
]
M += [
 ('- flag2', '-', N + 'model.py', "        if self.g_Stewart:\n            n_c_sys = [0]  # No c used!\n        else:\n", "        by_g = self.F is None or not self.g_Stewart\n        if self.F is not None and self.g_Stewart:\n            n_c_sys = [0]  # No c used!\n        if by_g:\n"),
]
