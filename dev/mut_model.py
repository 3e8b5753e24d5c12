JOBS = [('model', 'check_model', k) for k in (('STEWART', 'cS'), ('STEWART', 'g'), ('STEP', 'cS'), ('STEP', 'f_x'))] + [('model', 'check_lambda00', ()), ('model', 'check_smooth', ()), ('model', 'check_init', ())]
F = 'nosnoc/model.py'
M = [
 ('order', 'C08', F, "lambda00_expr = ca.vertcat(lambda00_expr, -ca.fmin(self.c[ii], 0))\n                lambda00_p_expr = ca.vertcat(lambda00_p_expr, ca.fmax(self.c[ii], 0))", "lambda00_expr = ca.vertcat(lambda00_expr, -ca.fmin(self.c[ii], 0), ca.fmax(self.c[ii], 0))"),
 ('sign', 'C07', F, "self.c[ii] - lambda_p[ii] + lambda_n[ii])", "self.c[ii] + lambda_p[ii] - lambda_n[ii])"),
 ('gsign', 'C07', F, "g_Stewart_list = [-self.S[i] @ self.c[i] for i in range(n_sys)]\n\n            g_S", "g_Stewart_list = [self.S[i] @ self.c[i] for i in range(n_sys)]\n\n            g_S"),
 ('upsilon', 'C07', F, "                        if S_temp[j, k] != 0:\n                            upsilon_ij *=", "                        if True:\n                            upsilon_ij *="),
 ('upsilon1', 'C07', F, "upsilon_ij *= (0.5 * (1 - S_temp[j, k]) +", "upsilon_ij *= (0.5 * (1 + S_temp[j, k]) +"),
 ('upsilon_sys', 'C07', F, "S_temp = self.S[ii]", "S_temp = self.S[0]"),
 ('alpha0', 'C07', F, "S_temp[j, k] * alpha[ii][k])", "S_temp[j, k] * alpha[0][k])"),
 ('cols', 'C07', F, "for k in range(len(S_temp[0, :])):", "for k in range(len(self.S[0][0, :])):"),
 ('convex', 'C07', F, "ca.sum1(theta[ii]) - 1)", "ca.sum1(theta[0]) - 1)"),
 ('fx', 'C07', F, "f_x = f_x + self.F[ii] @ theta[ii]", "f_x = self.F[ii] @ theta[ii]"),
 ('zorder', 'C07', F, "                       casadi_vertcat_list(lambda_n),\n                       casadi_vertcat_list(lambda_p),\n                       self.z)", "                       casadi_vertcat_list(lambda_p),\n                       casadi_vertcat_list(lambda_n),\n                       self.z)"),
 ('gz', 'C07', F, "ca.vertcat(g_switching, g_convex, g_lift, self.g_z)", "ca.vertcat(g_convex, g_switching, g_lift, self.g_z)"),
 ('gz2', 'C07', F, "ca.vertcat(g_switching, g_convex, g_lift, self.g_z)", "ca.vertcat(g_switching, g_lift, self.g_z)"),
 ('mmin', 'C08', F, "g_Stewart_list[ii] - ca.mmin(g_Stewart_list[ii]))", "g_Stewart_list[ii] - ca.mmin(g_Stewart))"),
 ('pval', 'C08', F, "self.p_val_ctrl_stages[i, n_p_time_var:] = self.p_global_val", "self.p_val_ctrl_stages[i, n_p_glob:] = self.p_global_val"),
 ('pval0', 'C08', F, "= self.p_time_var_val[i, :]", "= self.p_time_var_val[0, :]"),
 ('porder', 'C08', F, "self.p = ca.vertcat(self.p_time_var, self.p_global)", "self.p = ca.vertcat(self.p_global, self.p_time_var)"),
 ('z0len', 'C23', F, "elif len(self.z0) != n_z:", "elif len(self.z0) < n_z:"),
 ('ubzlen', 'C23', F, "elif len(self.ubz) != n_z:", "elif len(self.lbz) != n_z:"),
 ('Scols', 'C23', F, "if Si.shape[1] != n_c_sys[i]:", "if Si.shape[1] != n_c_sys[0] and i == 0:"),
 ('FS', 'C23', F, "                if len(self.F) != len(self.S):\n                    raise", "                if len(self.F) > len(self.S):\n                    raise"),
 ('glen', 'C23', F, "if g_Stewart.shape[0] != self.F[i].shape[1]:", "if g_Stewart.shape[0] < self.F[i].shape[1]:"),
 ('alphalen', 'C23', F, "if casadi_length(casadi_vertcat_list(self.c)) != casadi_length(casadi_vertcat_list(self.alpha)):", "if len(self.c) != len(self.alpha):"),
 ('ptv', 'C23', F, "if not self.p_time_var_val.shape == (opts.N_stages, n_p_time_var):", "if not self.p_time_var_val.shape[1] == n_p_time_var:"),
 ('pgv', 'C23', F, "if not self.p_global_val.shape == (n_p_glob,):", "if not self.p_global_val.size == n_p_glob:"),
 ('clock', 'C30', F, 'raise ValueError("Please provide t_var for time freezing!")', 'pass'),
 ('fxinc', 'C23', F, 'raise ValueError("model formulation with general inclusions using model.f_x is not supported with PssMode.STEWART")', 'pass'),
 ('gmode', 'C23', F, 'if opts.pss_mode != PssMode.STEWART:', 'if opts.pss_mode == None:'),
 ('lam00', 'C08', F, "z0 = self.z0_rootfinder(self.z0, np.concatenate((self.x0, p0))).full().flatten()", "z0 = self.z0_rootfinder(self.z0, np.concatenate((self.x0, self.p_val_ctrl_stages[-1]))).full().flatten()"),
 ('rootfun', 'C08', F, "[self.z, ca.vertcat(self.x, self.p)]", "[self.z, ca.vertcat(self.p, self.x)]"),
 ('sm_norm', 'C28', F, "2**(n_c - n_Ri)", "2**(dims.n_c_sys[0] - n_Ri)"),
 ('sm_step', 'C28', F, "(ca.tanh(1 / smoothing_parameter * y) + 1) / 2", "(ca.tanh(smoothing_parameter * y) + 1) / 2"),
 ('sm_min', 'C28', F, "mu_smooth_list.append(-smooth_min_fun(g_Stewart_list[s]))", "mu_smooth_list.append(-smooth_min_fun(g_Stewart_list[0]))"),
 ('sm_acc', 'C28', F, "f_x_smooth += self.F[s] @ theta_list[s]", "f_x_smooth = self.F[s] @ theta_list[s]"),
 ('sm_chk', 'C28', F, "if smoothing_parameter <= 0:", "if smoothing_parameter < 0:"),
 ('sm_sign', 'C28', F, "theta_list[s][i] *= ((1 - self.S[s][i, j]) / 2 +", "theta_list[s][i] *= ((1 + self.S[s][i, j]) / 2 +"),
 ('t_fun', 'C30', F, '[self.x], [self.t_var])', '[self.x], [self.x[0]])'),
 ('xor', 'C23', F, "if not (bool(c is not None and S is not None) ^ bool(g_Stewart is not None)):", "if not (bool(c is not None and S is not None) or bool(g_Stewart is not None)):"),
 ('swapped', 'C23', F, "        self.lbz = lbz\n        self.ubz = ubz", "        self.lbz = lbz\n        self.ubz = lbz"),
 ('n_f', 'C07', F, "theta = [ca.SX.sym('theta', dims.n_f_sys[ij])", "theta = [ca.SX.sym('theta', dims.n_f_sys[0])"),
 # behaviour-preserving
 ('r_full', '-', F, "self.lbz = -np.inf * np.ones((n_z,))", "self.lbz = np.full(n_z, -np.inf)"),
 ('r_prod', '-', F, "f_x = f_x + self.F[ii] @ theta[ii]", "f_x += ca.mtimes(self.F[ii], theta[ii])"),
 ('r_zip', '-', F, "g_Stewart_list = [-self.S[i] @ self.c[i] for i in range(n_sys)]\n\n            g_S", "g_Stewart_list = [-Si @ ci for Si, ci in zip(self.S, self.c)]\n\n            g_S"),
 ('r_ups', '-', F, "upsilon_ij *= (0.5 * (1 - S_temp[j, k]) +\n                                           S_temp[j, k] * alpha[ii][k])", "upsilon_ij *= alpha[ii][k] if S_temp[j, k] > 0 else 1 - alpha[ii][k]"),
 ('r_conc', '-', F, "            self.p_val_ctrl_stages[i, :n_p_time_var] = self.p_time_var_val[i, :]\n            self.p_val_ctrl_stages[i, n_p_time_var:] = self.p_global_val", "            self.p_val_ctrl_stages[i, :] = np.concatenate((self.p_time_var_val[i, :], self.p_global_val))"),
 ('r_helper', '-', F, "    def create_stage_vars(self", "    def _parts(self, ii, a, b):\n        return self.c[ii] - a[ii] + b[ii]\n\n    def create_stage_vars(self", "                    self.c[ii] - lambda_p[ii] + lambda_n[ii])", "                    self._parts(ii, lambda_p, lambda_n))"),
 ('r_names', '-', F, "ca.SX.sym('lambda_n', dims", "ca.SX.sym('lam_minus', dims"),
 ('r_fmax', '-', F, "-ca.fmin(self.c[ii], 0)", "ca.fmax(-self.c[ii], 0)"),
 ('r_enum', '-', F, "for ii in range(n_sys):\n                f_x = f_x + self.F[ii] @ theta[ii]", "for ii, Fi in enumerate(self.F):\n                f_x = f_x + Fi @ theta[ii]"),
 ('r_lists', '-', F, "                g_convex = ca.vertcat(g_convex, ca.sum1(theta[ii]) - 1)", "                one = np.ones(n_f_sys[ii])\n                g_convex = ca.vertcat(g_convex, one.T @ theta[ii] - 1)"),
 ('r_dims', '-', F, "        n_x = casadi_length(self.x)\n        n_u = casadi_length(self.u)\n        n_z = casadi_length(self.z)", "        n_x, n_u, n_z = (casadi_length(v) for v in (self.x, self.u, self.z))"),
 ('r_shape', '-', F, "        n_x = casadi_length(self.x)\n", "        n_x = self.x.shape[0]\n"),
 ('r_any', '-', F, "                for i, f in enumerate(self.F):\n                if f.shape", "                for i, f in enumerate(self.F):\n                if f.shape") if False else
 ('r_any', '-', F, "            for i, f in enumerate(self.F):\n                if f.shape[1] == 1:\n                    raise Warning(f\"model.F item {i} is not a switching system!\")", "            if any(f.shape[1] == 1 for f in self.F):\n                raise Warning('model.F contains an item that is not a switching system!')"),
 ('r_check', '-', F, "    def create_stage_vars(self", "    @staticmethod\n    def _check(v, n, msg):\n        if len(v) != n:\n            raise ValueError(msg)\n\n    def create_stage_vars(self", "        elif len(self.z0) != n_z:\n            raise ValueError(\"z0 should be empty or of length n_z.\")", "        else:\n            self._check(self.z0, n_z, 'z0')"),
 ('r_smooth', '-', F, "                theta_list[s][i] = 2**(n_c - n_Ri)\n                for j in range(n_c):\n                    theta_list[s][i] *= ((1 - self.S[s][i, j]) / 2 +\n                                         self.S[s][i, j] * alpha_expr_s[j])", "                w = 2**(n_c - n_Ri)\n                for j in range(n_c):\n                    w = w * ((1 - self.S[s][i, j]) / 2 + self.S[s][i, j] * alpha_expr_s[j])\n                theta_list[s][i] = w"),
 ('r_dot', '-', F, "                    upsilon_temp = ca.vertcat(upsilon_temp, upsilon_ij)\n                upsilon.append(upsilon_temp)", "                    upsilon_temp.append(upsilon_ij)\n                upsilon.append(ca.vertcat(*upsilon_temp))"),
]
