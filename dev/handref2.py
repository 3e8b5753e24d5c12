def sub(p, old, new):
    assert p.count(old) >= 1, old
    return p.replace(old, new)

# 10 solver.set through methods
def s1(s):
    p = s['solver.py']
    body = cut(p, "        prob = self.problem\n        dims = prob.model.dims\n        if field == 'x0':", "    def print_problem(self)")
    new = '''        setters = {'x0': self._set_x0, 'x': self._set_x, 'u': self._set_u, 'v_global': self._set_v_global,
                   'p_global': self._set_p_global, 'p_time_var': self._set_p_time_var, 'theta': self._set_theta,
                   'w': self._set_w}
        if field not in setters:
            raise NotImplementedError()
        setters[field](value)

    def _set_x0(self, value):
        self.problem.model.x0 = value

    def _set_u(self, value):
        self.problem.w0[np.array(self.problem.ind_u)] = value

    def _set_v_global(self, value):
        self.problem.w0[np.array(self.problem.ind_v_global)] = value

    def _set_p_global(self, value):
        n = self.model.dims.n_p_time_var
        for p_stage in self.model.p_val_ctrl_stages:
            p_stage[n:] = value

    def _set_p_time_var(self, value):
        n = self.model.dims.n_p_time_var
        for i in range(self.opts.N_stages):
            self.model.p_val_ctrl_stages[i, :n] = value[i]

    def _fill_per_fe(self, index, value):
        for row, ind_fe in enumerate(flatten_layer(index)):
            for ind in ind_fe:
                self.problem.w0[ind] = value[row, :]

    def _set_x(self, value):
        prob, opts = self.problem, self.opts
        n_rows = value.shape[0]
        if n_rows == opts.N_stages:
            for row, ind_stage in enumerate(prob.ind_x):
                for ind in flatten_layer(ind_stage):
                    prob.w0[ind] = value[row, :]
        elif n_rows == sum(opts.Nfe_list):
            self._fill_per_fe(prob.ind_x, value)
        else:
            raise ValueError(f"value should have shape matching N_stages ({opts.N_stages}) or sum(Nfe_list) "
                             f"({sum(opts.Nfe_list)}), shape: {n_rows}")
        self._warn_if_overwritten('initialization of x')

    def _set_theta(self, value):
        if value.shape[0] != sum(self.opts.Nfe_list):
            raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
        self._fill_per_fe(self.problem.ind_theta, value)

    def _set_w(self, value):
        self.problem.w0 = np.array(value, dtype=float)
        self._warn_if_overwritten('full initialization w')

    def _warn_if_overwritten(self, what):
        if self.opts.initialization_strategy is not InitializationStrategy.EXTERNAL:
            raise Warning(f'{what} might be overwritten due to InitializationStrategy != EXTERNAL.')

'''
    s['solver.py'] = p.replace(body, new)
R['set'] = s1

# 11 homotopy loop restructured
def s2(s):
    p = s['solver.py']
    body = cut(p, "        # homotopy loop\n", "        if opts.do_polishing_step:\n            w_opt, cpu")
    new = '''        # homotopy loop
        ii = 0
        converged = False
        while ii < opts.max_iter_homotopy and not converged:
            self.setup_p_val(sigma_k, min(sigma_k, sigma_k * sigma_k**0.5))
            w_opt, status, cpu_time_nlp[ii], nlp_iter[ii], nlp_res, cost_val = self._solve_nlp(w0, lbw, ubw)
            w0 = w_opt
            w_all.append(w_opt)
            complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]
            complementarity_stats[ii] = complementarity_residual
            if opts.print_level:
                self._print_iter_stats(sigma_k, complementarity_residual, nlp_res, cost_val,
                                       cpu_time_nlp[ii], nlp_iter[ii], status)
            if not check_ipopt_success(status):
                print(f"Warning: IPOPT exited with status {status}")
            converged = complementarity_residual < opts.comp_tol or sigma_k <= opts.sigma_N
            if not converged:
                sigma_k = self.homotopy_sigma_update(sigma_k)
            ii += 1

'''
    p = p.replace(body, new)
    p = p.replace('''    def solve(self) -> dict:
''', '''    def _solve_nlp(self, w_start, lbw, ubw):
        prob = self.problem
        sol = self.solver(x0=w_start, lbg=prob.lbg, ubg=prob.ubg, lbx=lbw, ubx=ubw, p=self.p_val)
        stats = self.solver.stats()
        return (sol['x'].full().flatten(), stats['return_status'], stats['t_proc_total'], stats['iter_count'],
                ca.norm_inf(sol['g']).full()[0][0], sol['f'].full()[0][0])

    def solve(self) -> dict:
''')
    s['solver.py'] = p
R['homotopy'] = s2

# 12 polishing
def s3(s):
    p = s['solver.py']
    body = cut(p, "        ind_set = flatten(prob.ind_lam + prob", "        # fix some variables\n")
    new = '''        fixable = set(flatten([prob.ind_lam, prob.ind_lambda_n, prob.ind_lambda_p, prob.ind_alpha, prob.ind_theta]))
        free = set(flatten([prob.ind_h, prob.ind_u, prob.ind_x, prob.ind_v_global, prob.ind_v, prob.ind_z,
                            prob.ind_elastic, prob.ind_sot, prob.ind_bool, prob.ind_mu]))
        for iw, _ in enumerate(w_guess):
            if iw not in fixable and iw not in free:
                raise Exception(f"w[{iw}] = {prob.w[iw]} not handled proprerly")

        lbw, ubw = prob.lbw.copy(), prob.ubw.copy()
        ind_fix_zero, ind_fix_one = [], []
        for iw in range(len(w_guess)):
            if iw in free:
                continue
            if w_guess[iw] < eps_sigma:
                ind_fix_zero.append(iw)
            elif abs(w_guess[iw] - 1.0) < eps_sigma:
                ind_fix_one.append(iw)
        for ind, val in ((ind_fix_zero, 0.0), (ind_fix_one, 1.0)):
            lbw[ind] = val
            ubw[ind] = val

'''
    s['solver.py'] = p.replace(body, new)
R['polish'] = s3

# 13 result collection
def s4(s):
    p = s['solver.py']
    body = cut(p, '    results["theta_list"] = [\n', '    if opts.use_fesd:\n        time_steps = w_opt')
    new = '''    def collect(index, pick):
        return [pick(w_opt, ind) for ind in get_cont_algebraic_indices(index)]

    results["theta_list"] = collect(prob.ind_theta, get_sys_values)
    results["lambda_list"] = collect(prob.ind_lam, get_sys_values)
    for key, index in (("mu_list", prob.ind_mu), ("z_list", prob.ind_z)):
        results[key] = collect(index, lambda w, ind: w[ind])
    for key in ("alpha", "lambda_n", "lambda_p"):
        results[key + "_list"] = collect(getattr(prob, "ind_" + key), lambda w, ind: w[flatten_layer(ind)])

'''
    p = p.replace(body, new)
    body = cut(p, "    switch_indices = []\n", '    results["switch_times"] = np.array(')
    new = '''    if opts.pss_mode == PssMode.STEP:
        indicators = [alpha.flatten() for alpha in results["alpha_list"]]
    else:
        indicators = [theta.flatten() for theta in results["theta_list"]]
    switch_indices = [i for i, (before, after) in enumerate(zip(indicators, indicators[1:]))
                      if np.any(np.abs(after - before) > 0.1)]

'''
    p = p.replace(body, new)
    p = sub(p, '''        t_stages = opts.terminal_time / opts.N_stages
        time_steps = []
        for Nfe in opts.Nfe_list:
            time_steps += [t_stages / Nfe] * Nfe
''', '''        time_steps = [opts.terminal_time / (opts.N_stages * Nfe) for Nfe in opts.Nfe_list for _ in range(Nfe)]
''')
    s['solver.py'] = p
R['results'] = s4

# 14 initialise: split
def s5(s):
    p = s['solver.py']
    body = cut(p, "    def initialize(self) -> None:", "    def _print_iter_stats(self")
    new = '''    def initialize(self) -> None:
        strategy = self.opts.initialization_strategy
        self.compute_lambda00()
        if strategy in (InitializationStrategy.ALL_XCURRENT_W0_START, InitializationStrategy.ALL_XCURRENT_WOPT_PREV):
            self._initialize_constant()
        elif strategy == InitializationStrategy.RK4_SMOOTHENED:
            self._initialize_rk4()

    def _initialize_constant(self):
        prob = self.problem
        for ind in flatten_outer_layers(prob.ind_x, 2):
            prob.w0[ind] = prob.model.x0

    def _initialize_rk4(self):
        opts, prob, model = self.opts, self.problem, self.model
        if opts.irk_time_points[-1] != 1.0:
            raise NotImplementedError
        dt_fe = opts.terminal_time / (opts.N_stages * opts.Nfe_list[0])
        rk4_t_grid = dt_fe * np.diff(np.concatenate((np.array([0.0]), opts.irk_time_points)))
        offsets = np.concatenate((np.array([0]), np.cumsum(model.dims.n_f_sys))).tolist()
        p_0 = model.p_val_ctrl_stages[0]
        x_k = prob.model.x0
        for i in range(opts.Nfe_list[0]):
            Xrk4 = rk4_on_timegrid(model.f_x_smooth_fun, x0=x_k, t_grid=rk4_t_grid)
            for k in range(opts.n_s):
                x_k = Xrk4[k + 1]
                prob.w0[prob.ind_x[0][i][k]] = x_k
                lam = model.lambda00_fun(x_k, [], p_0).full().flatten()
                mu = model.mu_smooth_fun(x_k, p_0).full().flatten()
                theta = model.theta_smooth_fun(x_k, p_0).full().flatten()
                for s in range(model.dims.n_sys):
                    rows = slice(offsets[s], offsets[s + 1])
                    prob.w0[prob.ind_theta[0][i][k][s]] = theta[rows]
                    prob.w0[prob.ind_lam[0][i][k][s]] = lam[rows]
                    prob.w0[prob.ind_mu[0][i][k][s]] = mu[s]
            prob.w0[prob.ind_x[0][i][-1]] = x_k

'''
    s['solver.py'] = p.replace(body, new)
R['init'] = s5

# 15 model: DCS equations per mode in methods
def m1(s):
    p = s['model.py']
    body = cut(p, "        if opts.pss_mode == PssMode.STEWART:\n            for ii in range(n_sys):\n                f_x = f_x + self.F[ii] @ theta[ii]", "        # collect all algebraic equations\n")
    new = '''        if opts.pss_mode == PssMode.STEWART:
            switching, convex, lambda00 = [], [], []
            for F_ii, g_ii, theta_ii, lam_ii, mu_ii in zip(self.F, g_Stewart_list, theta, lam, mu):
                f_x += F_ii @ theta_ii
                switching.append(g_ii + mu_ii - lam_ii)
                convex.append(ca.sum1(theta_ii) - 1)
                lambda00.append(g_ii - ca.mmin(g_ii))
                std_compl_res += ca.fabs(ca.dot(lam_ii, theta_ii))
            g_switching = ca.vertcat(*switching)
            g_convex = ca.vertcat(*convex)
            lambda00_expr = ca.vertcat(*lambda00)
        elif opts.pss_mode == PssMode.STEP:
            if self.F is not None:
                f_x += casadi_sum_list([F_ii @ ups for F_ii, ups in zip(self.F, upsilon)])
            alphas = alpha if self.F is not None else self.alpha
            for c_ii, alpha_ii, ln_ii, lp_ii in zip(self.c, alphas, lambda_n, lambda_p):
                g_switching = ca.vertcat(g_switching, c_ii + ln_ii - lp_ii)
                std_compl_res += ca.dot(ln_ii, alpha_ii) + ca.dot(lp_ii, 1 - alpha_ii)
            c_all = casadi_vertcat_list(self.c)
            lambda00_expr = ca.vertcat(ca.fmax(-c_all, 0), ca.fmax(c_all, 0))
        else:
            raise NotImplementedError()

'''
    p = p.replace(body, new)
    if 'casadi_sum_list' not in p.split('class ')[0]:
        p = p.replace('casadi_vertcat_list', 'casadi_sum_list, casadi_vertcat_list', 1)
    s['model.py'] = p
R['dcs'] = m1

# 16 model smooth
def m2(s):
    p = s['model.py']
    body = cut(p, "        lambda_smooth = []\n        g_Stewart_list = [-self.S", "        theta_smooth = casadi_vertcat_list(theta_list)\n")
    new = '''        def smooth_min(values):
            weights = ca.exp(-values / smoothing_parameter)
            return ca.dot(values, weights) / ca.sum1(weights)

        lambda_smooth = []
        theta_list = []
        mu_smooth_list = []
        f_x_smooth = ca.SX.zeros((dims.n_x, 1))
        for F_s, S_s, c_s in zip(self.F, self.S, self.c):
            g_s = -(S_s @ c_s)
            min_s = smooth_min(g_s)
            mu_smooth_list.append(-min_s)
            lambda_smooth = ca.vertcat(lambda_smooth, g_s - min_s)
            n_c = casadi_length(c_s)
            alpha = [smooth_step_fun(c_s[i]) for i in range(n_c)]
            theta_s = []
            for i in range(F_s.shape[1]):
                entry = 2**(n_c - sum(np.abs(S_s[i, :])))
                for j in range(n_c):
                    entry = entry * (S_s[i, j] * alpha[j] + 0.5 * (1 - S_s[i, j]))
                theta_s.append(entry)
            theta_s = ca.vertcat(*theta_s)
            theta_list.append(theta_s)
            f_x_smooth = f_x_smooth + F_s @ theta_s

'''
    s['model.py'] = p.replace(body, new)
R['smooth'] = m2

# 17 ocp defaults in a helper
def o1(s):
    p = s['ocp.py']
    body = cut(p, "        # path constraints\n        n_g_path = casadi_length", None)
    new = '''        # path constraints
        n_g_path = casadi_length(self.g_path)
        self.lbg = self._default(self.lbg, n_g_path, 0.0, "lbg and g_path have inconsistent shapes.")
        self.ubg = self._default(self.ubg, n_g_path, 0.0, "ubg and g_path have inconsistent shapes")
        for name, n, fill in (('lbx', dims.n_x, -np.inf), ('ubx', dims.n_x, np.inf), ('lbu', dims.n_u, -np.inf),
                              ('ubu', dims.n_u, np.inf), ('u_guess', dims.n_u, 0.0)):
            setattr(self, name, self._default(getattr(self, name), n, fill,
                                              f"{name} should be empty or of length n_{name[-1] if name != 'u_guess' else 'u'}."))
        n_v_global = casadi_length(model.v_global)
        for name, fill in (('lbv_global', -np.inf), ('ubv_global', np.inf), ('v_global_guess', 0.0)):
            if getattr(self, name) is None:
                setattr(self, name, np.full((n_v_global,), fill))
            if getattr(self, name).shape != (n_v_global,):
                raise Exception(f"{name} and v_global have inconsistent shapes.")

    @staticmethod
    def _default(value, n, fill, message):
        if value is None:
            return np.full((n,), fill)
        if len(value) != n:
            raise ValueError(message)
        return value
'''
    p = p.replace(body, new)
    body = cut(p, "        for ii in range(self.g_path_comp.shape[0]):", "        self.g_global_comp_fun = ca.Function(")
    new = '''        groups = {'g_stage_comp': [], 'g_ctrl_comp': [], 'g_global_comp': []}
        for expr in ca.vertsplit(self.g_path_comp):
            if any(ca.which_depends(expr, rk_stage_vars)):
                group = 'g_stage_comp'
            elif any(ca.which_depends(expr, control_stage_vars)):
                group = 'g_ctrl_comp'
            else:
                group = 'g_global_comp'
            groups[group].append(expr)
        for name, rows in groups.items():
            if len(rows) > 0:
                setattr(self, name, ca.vertcat(*rows))

'''
    s['ocp.py'] = p.replace(body, new)
R['ocp'] = o1

# 18 opts.preprocess split
def p1(s):
    p = s['nosnoc_opts.py']
    body = cut(p, "        # Butcher Tableau\n", "    ## Options in matlab..")
    new = '''        self._setup_tableau()
        self._warn_unsupported()

    def _setup_tableau(self):
        if self.irk_representation == IrkRepresentation.INTEGRAL:
            self.B_irk, self.C_irk, self.D_irk, points = generate_butcher_tableu_integral(self.n_s, self.irk_scheme)
            self.irk_time_points = points[1:]  # without the left boundary point
        else:
            self.A_irk, self.b_irk, self.irk_time_points, _ = generate_butcher_tableu(self.n_s, self.irk_scheme)
        self.right_boundary_point_explicit = bool(abs(1.0 - self.irk_time_points[-1]) < 1e-9)

    def _warn_unsupported(self):
        lsq = self.constraint_handling == ConstraintHandling.LEAST_SQUARES
        fb_modes = (MpccMode.FISCHER_BURMEISTER, MpccMode.FISCHER_BURMEISTER_IP_AUG)
        if self.mpcc_mode in fb_modes and self.cross_comp_mode == CrossComplementarityMode.SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA:
            warn("UNSUPPORTED option combination comp_mode: SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA and mpcc_mode: MpccMode.FISCHER_BURMEISTER")
        if not lsq and self.mpcc_mode == MpccMode.FISCHER_BURMEISTER:
            warn("UNSUPPORTED option combination comp_mode: mpcc_mode == MpccMode.FISCHER_BURMEISTER and constraint_handling != ConstraintHandling.LEAST_SQUARES")
        if not lsq and self.step_equilibration in (StepEquilibrationMode.DIRECT, StepEquilibrationMode.DIRECT_COMPLEMENTARITY):
            warn("UNSUPPORTED option combination: StepEquilibrationMode.DIRECT* and constraint_handling != ConstraintHandling.LEAST_SQUARES")

'''
    p = p.replace(body, new)
    p = sub(p, '''        if self.max_iter_homotopy == 0:
            self.max_iter_homotopy = int(np.round(np.abs(np.log(self.comp_tol / self.sigma_0) / np.log(self.homotopy_update_slope)))) + 1
''', '''        if self.max_iter_homotopy == 0:
            ratio = np.log(self.comp_tol / self.sigma_0) / np.log(self.homotopy_update_slope)
            self.max_iter_homotopy = 1 + int(np.round(abs(ratio)))
''')
    p = sub(p, '''            self.Nfe_list = self.N_stages * [self.N_finite_elements]
''', '''            self.Nfe_list = [self.N_finite_elements for _ in range(self.N_stages)]
''')
    s['nosnoc_opts.py'] = p
R['opts'] = p1

# 19 auto model: table of switching functions
def a1(s):
    p = s['auto_model.py']
    body = cut(p, "    def _rebuild_nonlin(self, node: ca.SX):", "    def _find_matching_expr_nonlin(")
    new = '''    def _indicator(self, expr):
        alpha, fresh = self._find_matching_expr_nonlin(expr)
        if fresh:
            self.c.append(expr)
            self.alpha.append(alpha)
        return alpha

    def _rebuild_nonlin(self, node: ca.SX):
        deps = [node.dep(i) for i in range(node.n_dep())]
        if not deps:
            return node
        if node.is_op(ca.OP_SIGN):
            self._require_smooth(*deps)
            alpha = self._indicator(deps[0])
            return alpha - (1 - alpha)
        if node.is_op(ca.OP_FMAX) or node.is_op(ca.OP_FMIN):
            self._require_smooth(*deps)
            a, b = deps
            alpha = self._indicator(a - b)
            if node.is_op(ca.OP_FMIN):
                a, b = b, a
            return b + alpha * (a - b)
        children = [self._rebuild_nonlin(d) for d in deps]
        if len(children) == 1:
            return ca.SX.unary(node.op(), children[0])
        return ca.SX.binary(node.op(), children[0], children[1])

'''
    p = p.replace(body, new)
    body = cut(p, "    def _check_smooth(self, node: ca.SX) -> bool:", "    def _find_nonlinear_components(")
    new = '''    def _check_smooth(self, node: ca.SX) -> bool:
        if any(node.is_op(op) for op in (ca.OP_SIGN, ca.OP_FMAX, ca.OP_FMIN)):
            return False
        return all(self._check_smooth(node.dep(i)) for i in range(node.n_dep()))

'''
    p = p.replace(body, new)
    body = cut(p, "    def _detect_additive(self):", "    # TODO type output")
    new = '''    def _detect_additive(self):
        return any(self._check_additive(component)
                   for f in ca.vertsplit(self.f_nonsmooth_ode)
                   for component in self._find_nonlinear_components(f))

'''
    s['auto_model.py'] = p.replace(body, new)
R['auto'] = a1

# 20 looper
def l1(s):
    p = s['helpers.py']
    body = cut(p, "        for i in range(self.Nsim):\n", "    def get_results(self) -> dict:")
    new = '''        for i in range(self.Nsim):
            self._prepare_step(i)
            results = self.solver.solve()
            self._store(i, results)
            failed = results["status"] != Status.SUCCESS
            if self.print_level > 0:
                print(f"Sim step {i + 1}/{self.Nsim}\\t status: {results['status']}")
            if failed and stop_on_failure:
                return False
        return True

    def _prepare_step(self, i):
        solver = self.solver
        solver.set("x0", self.xcurrent)
        if self.p_values is not None:
            solver.set("p_global", self.p_values[i])
        if self.w_init is not None:
            solver.set("w", self.w_init[i])

    def _store(self, i, results):
        t_start = np.sum(self.time_steps)
        self.switch_times.extend((results["switch_times"] + t_start).tolist())
        self.time_steps = np.concatenate((self.time_steps, results["time_steps"]))
        self.X_sim.extend(results["x_list"])
        self.xcurrent = results["x_list"][-1]
        self.cpu_nlp[i, :] = results["cpu_time_nlp"]
        for target, key in ((self.theta_sim, "theta_list"), (self.lambda_sim, "lambda_list"),
                            (self.alpha_sim, "alpha_list"), (self.z_sim, "z_list"), (self.w_sim, "w_sol"),
                            (self.w_all, "w_all"), (self.cost_vals, "cost_val"), (self.status, "status")):
            target.append(results[key])
        if self.solver.opts.speed_of_time_variables != SpeedOfTimeVariableMode.NONE:
            self.sot.append(results["sot"])

'''
    s['helpers.py'] = p.replace(body, new)
R['looper'] = l1

# 21 utils
def u1(s):
    p = s['utils.py']
    p = sub(p, '''    result = []
    for el in x:
        result = ca.vertcat(result, el)
    return result
''', '''    return ca.vertcat(*x) if len(x) > 0 else []
''')
    p = sub(p, '''    if status in ['Solve_Succeeded', 'Solved_To_Acceptable_Level', 'Feasible_Point_Found', 'Search_Direction_Becomes_Too_Small']:
        return True
    else:
        return False
''', '''    return status in SUCCESS_STATUS


SUCCESS_STATUS = frozenset(
    ('Solve_Succeeded', 'Solved_To_Acceptable_Level', 'Feasible_Point_Found', 'Search_Direction_Becomes_Too_Small'))
''')
    body = cut(p, "def flatten(L):\n", "def flatten_outer_layers")
    p = p.replace(body, '''def flatten(L):
    if not isinstance(L, list):
        return [L]
    out = []
    for item in L:
        out.extend(flatten(item))
    return out


''')
    body = cut(p, "def increment_indices(L, inc):\n", "def create_empty_list_matrix")
    p = p.replace(body, '''def increment_indices(L, inc):
    def shifted(e):
        if isinstance(e, list):
            return increment_indices(e, inc)
        if not isinstance(e, int):
            raise ValueError('Not a nested list of integers')
        return e + inc

    return [shifted(e) for e in L]


''')
    p = sub(p, '''    return np.empty(list_dims + (0,), dtype=int).tolist()
''', '''    if len(list_dims) == 0:
        return []
    return [create_empty_list_matrix(list_dims[1:]) for _ in range(list_dims[0])]
''')
    p = sub(p, '''    result = input[0]
    for v in input[1:]:
        result += v
    return result
''', '''    total, *rest = input
    for v in rest:
        total = total + v
    return total
''')
    s['utils.py'] = p
R['utils'] = u1

# 22 rk integral
def r1(s):
    p = s['rk_utils.py']
    body = cut(p, "    # Construct polynomial basis\n", "    return B, C, D, tau_root\n")
    new = '''    for j, tau_j in enumerate(tau_root):
        basis = np.poly1d([1.0])
        for r, tau_r in enumerate(tau_root):
            if r != j:
                basis = basis * np.poly1d([1.0, -tau_r]) * (1 / (tau_j - tau_r))
        coeff = basis.coeffs
        D[j] = np.polyval(coeff, 1.0)
        C[j, :] = np.polyval(np.polyder(coeff), tau_root)
        B[j] = np.polyval(np.polyint(coeff), 1.0)
'''
    s['rk_utils.py'] = p.replace(body, new)
R['rkint'] = r1
