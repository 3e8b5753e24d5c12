"""Development aid: changes to the solver, and what the solver unit reports."""
import sys, os, shutil, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
S = 'nosnoc/solver.py'
U = 'nosnoc/utils.py'
D = dict
M = [
 ('sigma_stop', 'C17', S, "            if sigma_k <= opts.sigma_N:\n                break\n", "            if sigma_k < opts.sigma_N:\n                break\n", [('solve', {})]),
 ('w_opt_prev', 'C17', S, "            w0 = w_opt\n", "            w0 = w_all[0]\n", [('solve', {})]),
 ('tau', 'C17', S, "tau_val = min(sigma_k ** 1.5, sigma_k)", "tau_val = sigma_k ** 1.5", [('solve', {})]),
 ('compat', 'C06', S, "complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]\n            complementarity_stats", "complementarity_residual = prob.comp_res(w_all[-2], self.p_val).full()[0][0]\n            complementarity_stats", [('solve', {})]),
 ('slope', 'C17', S, "return opts.homotopy_update_slope * sigma_k", "return opts.homotopy_update_slope * opts.sigma_0", [('solve', {})]),
 ('superlin', 'C17', S, "return max(opts.sigma_N,\n                min(", "return max(0.0,\n                min(", [('solve', D(homotopy_update_rule='SUPERLINEAR'))]),
 ('status', 'C19', U, "'Search_Direction_Becomes_Too_Small'", "'Maximum_Iterations_Exceeded'", [('solve', {})]),
 ('status_first', 'C19', S, "        if check_ipopt_success(status):\n", "        if check_ipopt_success(status) or complementarity_residual < opts.comp_tol:\n", [('solve', {})]),
 ('polish_ret', 'C18', S, "            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status, cost_val = \\\n", "            _, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status, cost_val = \\\n", [('solve', D(do_polishing_step=True))]),
 ('polish_mu', 'C24', S, "prob.ind_bool + prob.ind_mu)", "prob.ind_bool)", [('solve', D(do_polishing_step=True))]),
 ('polish_abs', 'C24', S, "w_fix_one = np.abs(w_guess - 1.0) < eps_sigma", "w_fix_one = w_guess - 1.0 < eps_sigma", [('solve', D(do_polishing_step=True))]),
 ('polish_copy', 'C21', S, "        lbw = prob.lbw.copy()\n        ubw = prob.ubw.copy()\n        lbw[ind_fix_zero]", "        lbw = prob.lbw\n        ubw = prob.ubw.copy()\n        lbw[ind_fix_zero]", [('solve', D(do_polishing_step=True))]),
 ('fix_copy', 'C21', S, "            lbw = prob.lbw.copy()\n            ubw = prob.ubw.copy()\n\n            # lambda00", "            lbw = prob.lbw\n            ubw = prob.ubw.copy()\n\n            # lambda00", [('solve', D(fix_active_set_fe0=True))]),
 ('fix_stage', 'C24', S, "prob.ind_theta[0][0], 2)", "prob.ind_theta[0][-1], 2)", [('solve', D(fix_active_set_fe0=True))]),
 ('fix_thr', 'C24', S, "I_active_lam = np.where(self.lambda00 > 1e1*opts.comp_tol)", "I_active_lam = np.where(self.lambda00 < 1e1*opts.comp_tol)", [('solve', D(fix_active_set_fe0=True))]),
 ('lam00_once', 'C08', S, "        self.compute_lambda00()\n\n        if", "        if not hasattr(self, 'lambda00'):\n            self.compute_lambda00()\n\n        if", [('solve', {})]),
 ('lam00_p', 'C08', 'nosnoc/model.py', "p0 = self.p_val_ctrl_stages[0]", "p0 = self.p_val_ctrl_stages[-1]", [('solve', {})]),
 ('x0_init', 'C16', S, "            for ind in prob.ind_x:\n                prob.w0[np.array(ind)] = x0", "            for ind in prob.ind_x[1:]:\n                prob.w0[np.array(ind)] = x0", [('solve', {})]),
 ('prev', 'C16', S, "            prob.w0[:] = w_opt[:]", "            prob.w0[:] = w_all[0][:]", [('solve', D(initialization_strategy='ALL_XCURRENT_WOPT_PREV'))]),
 ('prev_always', 'C16', S, "        if opts.initialization_strategy == InitializationStrategy.ALL_XCURRENT_WOPT_PREV:\n            prob.w0", "        if opts.initialization_strategy != InitializationStrategy.EXTERNAL:\n            prob.w0", [('solve', {})]),
 ('ctrl_grid', 'C09', S, "u_grid = [0] + np.cumsum(opts.Nfe_list).tolist()", "u_grid = [0] + [opts.Nfe_list[0]*(i+1) for i in range(opts.N_stages)]", [('results', {})]),
 ('z_first', 'C18', U, "return [ind_rk[-1] for ind_fe in ind_alg for ind_rk in ind_fe]", "return [ind_rk[0] for ind_fe in ind_alg for ind_rk in ind_fe]", [('results', {})]),
 ('sw', 'C18', S, "t_grid[i + 1] for i in switch_indices", "t_grid[i] for i in switch_indices", [('results', {})]),
 ('sw_step', 'C18', S, "                switch_indices.append(i)\n            alpha_prev = alpha\n", "                switch_indices.append(i)\n                alpha_prev = alpha\n", [('results', D(pss_mode='STEP'))]),
 ('h_nofesd', 'C09', S, "time_steps += [t_stages / Nfe] * Nfe", "time_steps += [t_stages / opts.Nfe_list[0]] * Nfe", [('results', D(use_fesd=False))]),
 ('sys_mix', 'C18', S, "    if any(len(ind) != len(ind_sys[0]) for ind in ind_sys):\n        return w_opt[flatten(ind_sys)]", "    if any(len(ind) != len(ind_sys[0]) for ind in ind_sys):\n        return w_opt[flatten(ind_sys[0])]", [('results', {})]),
 ('cost_abs', 'C18', S, "cost_val = sol['f'].full()[0][0]\n\n            # process", "cost_val = abs(sol['f'].full()[0][0])\n\n            # process", [('solve', {})]),
 ('set_x', 'C16', S, "                for i, sub_idx in enumerate(prob.ind_x):\n                    for ssub_idx in sub_idx:\n", "                for i, sub_idx in enumerate(prob.ind_x):\n                    for ssub_idx in sub_idx[1:]:\n", [('set:x', {})]),
 ('set_ptv', 'C08', S, "[i, :dims.n_p_time_var] = value[i, :]", "[i, :dims.n_p_time_var] = value[0, :]", [('set:p_time_var', {})]),
 ('set_pg', 'C08', S, "[i, dims.n_p_time_var:] = value", "[i, -1:] = value[-1:]", [('set:p_global', {})]),
 ('set_u', 'C16', S, "prob.w0[np.array(prob.ind_u)] = value", "prob.w0[np.array(prob.ind_u)] = value[0]", [('set:u', {})]),
 ('set_theta', 'C16', S, "                        i += 1\n            else:\n                raise Exception", "                    i += 1\n            else:\n                raise Exception", [('set:theta', {})]),
 ('set_unknown', 'C16', S, "        else:\n            raise NotImplementedError()\n\n    def print_problem", "        else:\n            setattr(prob.model, field, value)\n\n    def print_problem", [('set:something_else', {})]),
 ('pval', 'C08', S, "np.array([sigma, tau]), self.lambda00, model.x0))", "np.array([sigma, tau]), model.x0, self.lambda00))", [('solve', {})]),
 ('lbg', 'C17', S, "                              lbg=prob.lbg,\n                              ubg=prob.ubg,\n                              lbx=lbw", "                              lbg=prob.lbg,\n                              ubg=prob.lbg,\n                              lbx=lbw", [('solve', {})]),

 ('alias_w0', 'C21', S, "            prob.w0[:] = w_opt[:]", "            prob.w0 = w_opt", [('solve', D(initialization_strategy='ALL_XCURRENT_WOPT_PREV'))]),
 ('alias_wall', 'C21', S, "w_all = [w0.copy()]", "w_all = [prob.w0]", [('solve', {})]),
 ('alias_set', 'C21', S, "prob.w0 = np.array(value, dtype=float)", "prob.w0 = value", [('set:w', {})]),
 ('alias_set2', 'C21', S, "prob.w0 = np.array(value, dtype=float)", "prob.w0 = np.asarray(value)", [('set:w', {})]),
 ('x_list', 'C18', S, "flatten_layer(prob.ind_x_cont)]", "flatten_outer_layers(prob.ind_x, 2)]", [('results', {})]),

 ('rk4_k', 'C16', S, "x_ki = Xrk4[k + 1]", "x_ki = Xrk4[k]", [('solve', D(initialization_strategy='RK4_SMOOTHENED'))]),
 ('rk4_cur', 'C16', S, "x_rk4_current = Xrk4[-1]", "x_rk4_current = Xrk4[1]", [('solve', D(initialization_strategy='RK4_SMOOTHENED'))]),
 ('rk4_grid', 'C16', S, "[opts.irk_time_points[k] - opts.irk_time_points[k - 1] for k in range(1, opts.n_s)]", "[opts.irk_time_points[k] - opts.irk_time_points[0] for k in range(1, opts.n_s)]", [('solve', D(initialization_strategy='RK4_SMOOTHENED'))]),
 ('rk4_w', 'C16', 'nosnoc/rk_utils.py', "k3 = f(x[i, :] + dt * k2 / 2)\n        k4 = f(x[i, :] + dt * k3)\n        x[i + 1, :] = x[i, :] + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4).full().flatten()\n\n    x = x.tolist()\n    return x\n", "k3 = f(x[i, :] + dt * k1 / 2)\n        k4 = f(x[i, :] + dt * k3)\n        x[i + 1, :] = x[i, :] + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4).full().flatten()\n\n    x = x.tolist()\n    return x\n", [('solve', D(initialization_strategy='RK4_SMOOTHENED'))]),
 ('rk4_sys', 'C16', S, "sum(self.model.dims.n_f_sys[:s + 1]))", "sum(self.model.dims.n_f_sys[:s]) + self.model.dims.n_f_sys[0])", [('solve', D(initialization_strategy='RK4_SMOOTHENED'))]),
]
def main():
    pass
    names = sys.argv[1:]
    for (n, prop, f, old, new, cs) in M:
        if names and n not in names:
            continue
        d = tempfile.mkdtemp(prefix='mut')
        shutil.copytree('/repo/nosnoc', d + '/nosnoc')
        s = open(f'{d}/{f}').read()
        if s.count(old) < 1:
            print(n, 'PATTERN', s.count(old)); continue
        open(f'{d}/{f}', 'w').write(s.replace(old, new, 1))
        os.environ['VERIF_REPO'] = d
        pid = os.fork()
        if pid == 0:
            from analysis.units import solver as U6
            got, und = {}, []
            for (fn, c) in cs:
                t = time.time()
                try:
                    if fn == 'solve': r = U6.check_solve(U6.cfg(**c))
                    elif fn == 'results': r = U6.check_results(U6.cfg(**c))
                    else: r = U6.check_set(fn[4:], U6.cfg(initialization_strategy='EXTERNAL', **c))
                except Exception as e:
                    import traceback; traceback.print_exc(limit=-3)
                    continue
                for x in r['findings']:
                    got.setdefault(x['prop'], x['text'])
                und += r['undecided']
            print(f'{n:14s} {prop} {"OK  " if prop in got else "MISS"} {got} U={und[:2]}'[:330])
            sys.stdout.flush(); os._exit(0)
        os.waitpid(pid, 0)
        shutil.rmtree(d)
main()
