"""Development aid: applies small changes to a scratch copy of the package and lists what the problem unit reports."""
import sys, os, shutil, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
P = 'nosnoc/problem.py'
M = [
 # name, expected property, file, old, new, configurations (None: base)
 ('fb_sigma', 'C05', P, "x_i[j]**2 + y[j]**2 + sigma**2)\n            # augment", "x_i[j]**2 + y[j]**2 + sigma)\n            # augment", [dict(mpcc_mode='FISCHER_BURMEISTER_IP_AUG', cross_comp_mode='COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER')]),
 ('two_sided_ub', 'C05', P, "ub_comp = np.hstack((np.zeros((n,)), ca.inf*np.ones((n,))))", "ub_comp = np.hstack((ca.inf*np.ones((n,)), ca.inf*np.ones((n,))))", [dict(mpcc_mode='ELASTIC_TWO_SIDED')]),
 ('lam00_order', None, P, "for ii in range(len(self.ind_lam))]", "for ii in range(self.n_rkstages)]", [dict(right_boundary_point_explicit=False), {}]),
 ('prev0', 'C04', P, "Lambdas += [self.prev_fe.Lambda(stage=-1, sys=sys)]", "Lambdas += [self.prev_fe.Lambda(stage=0, sys=sys)]", None),
 ('sys0', 'C04', P, "Lambdas += [self.prev_fe.Lambda(stage=-1, sys=sys)]", "Lambdas += [self.prev_fe.Lambda(stage=-1, sys=slice(0, 1))]", None),
 ('crossjj', 'C04', P, "                for jj in range(opts.n_s):\n                    # within fe", "                for jj in range(j + 1):\n                    # within fe", [dict(cross_comp_mode='COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER')]),
 ('compvec', 'C06', P, "                for jj in range(opts.n_s):\n                    lam = self.Lambda(stage=jj)", "                for jj in range(j, opts.n_s):\n                    lam = self.Lambda(stage=jj)", None),
 ('compvec_prev', 'C06', P, "lam = self.prev_fe.Lambda(stage=-1)\n                comp_vec", "lam = self.prev_fe.Lambda(stage=0)\n                comp_vec", None),
 ('cirk', 'C01', P, "xj += opts.C_irk[r + 1, j + 1] * X_fe[r]", "xj += opts.C_irk[j + 1, r + 1] * X_fe[r]", None),
 ('dirk', 'C01', P, "Xk_end += opts.D_irk[j + 1] * X_fe[j]", "Xk_end += opts.D_irk[j] * X_fe[j]", [dict(right_boundary_point_explicit=False)]),
 ('zstage', 'C01', P, "gj = model.g_z_all_fun(X_fe[j], self.rk_stage_z(j), Uk, self.p)", "gj = model.g_z_all_fun(X_fe[j], self.rk_stage_z(0), Uk, self.p)", None),
 ('sot_cost', 'C15', P, "qj = sot*ocp.f_q_fun(X_fe[j]", "qj = ocp.f_q_fun(X_fe[j]", [dict(speed_of_time_variables='LOCAL'), {}]),
 ('sot_idx', 'C15', P, "sot = self.w[self.ind_sot[ctrl_idx]]", "sot = self.w[self.ind_sot[0]]", [dict(speed_of_time_variables='LOCAL')]),
 ('birk', 'C12', P, "self.cost += opts.B_irk[j + 1] * self.h * qj", "self.cost += opts.B_irk[j + 1] * qj", None),
 ('chain_stage', 'C03', P, "            prev_fe = stage[-1]", "            prev_fe = stage[0]", None),
 ('hsum', 'C09', P, "if opts.use_fesd and opts.equidistant_control_grid:\n", "if opts.use_fesd and opts.equidistant_control_grid and len(stage) > 1:\n", None),
 ('htotal', 'C09', P, "all_h = [fe.h for stage in self.stages for fe in stage]", "all_h = [fe.h for fe in stage]", [dict(equidistant_control_grid=False)]),
 ('ubh', 'C09', P, "ubh = (1 + opts.gamma_h) * h0", "ubh = (1 + opts.gamma_h) * h_ctrl_stage*np.ones(1)", None),
 ('stepeq_first', 'C10', P, "elif not self.fe_idx > 0:", "elif not (self.fe_idx > 0 or self.ctrl_idx > 0):", None),
 ('eta', 'C10', P, "prev_fe.sum_Theta() * self.sum_Theta()", "prev_fe.sum_Theta() * prev_fe.sum_Theta()", [dict(step_equilibration='L2_RELAXED')]),
 ('hmean', 'C10', P, "h_fe = opts.terminal_time / (opts.N_stages * opts.Nfe_list[self.ctrl_idx])", "h_fe = opts.terminal_time / (opts.N_stages * opts.Nfe_list[0])", [dict(step_equilibration='HEURISTIC_MEAN')]),
 ('indxcont', 'C11', P, "self.ind_x_cont[ctrl_idx].append(increment_indices(fe.ind_x[-1], w_len))", "self.ind_x_cont[ctrl_idx].append(increment_indices(fe.ind_x[0], w_len))", None),
 ('indz', 'C11', P, "self.ind_z[ctrl_idx].append(increment_indices(fe.ind_z, w_len))", "self.ind_z[ctrl_idx].append(fe.ind_z)", None),
 ('term_p', 'C12', P, "self.cost += ocp.f_q_T_fun(x_terminal, model.p_ctrl_stages[-1], model.v_global)", "self.cost += ocp.f_q_T_fun(x_terminal, model.p_ctrl_stages[0], model.v_global)", None),
 ('term_x', 'C13', P, "last_fe = self.stages[-1][-1]", "last_fe = self.stages[-1][0]", None),
 ('gpath_end', 'C13', P, "g_path_at_end = self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1 or opts.g_path_at_fe", "g_path_at_end = self.fe_idx == opts.Nfe_list[0]-1 or opts.g_path_at_fe", None),
 ('gpath_p', 'C13', P, "            gqj = ocp.g_path_fun(X_fe[end_idx], Uk, self.p, model.v_global)", "            gqj = ocp.g_path_fun(X_fe[end_idx], Uk, model.p_ctrl_stages[0], model.v_global)", None),
 ('ctrlcomp', 'C14', P, "if self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1:\n            ctrl", "if self.fe_idx == 0 and self.ctrl_idx == 0:\n            ctrl", None),
 ('clock', 'C30', P, "* (ctrl_idx + 1) + t0", "* ctrl_idx + t0", [dict(time_freezing=True)]),
 ('clock_tol', 'C30', P, "[-opts.time_freezing_tolerance],\n", "[0.0],\n", [dict(time_freezing=True)]),
 ('lsq_only', 'C25', P, "for ii in range(casadi_length(self.g)):\n", "for ii in range(1, casadi_length(self.g)):\n", [dict(constraint_handling='LEAST_SQUARES', mpcc_mode='SCHOLTES_EQ')]),
 ('lsq_check', 'C25', P, "if self.lbg[ii] != 0.0 or self.ubg[ii] != 0.0:", "if self.lbg[ii] != 0.0 and self.ubg[ii] != 0.0:", [dict(constraint_handling='LEAST_SQUARES')]),
 ('elastic_cost', 'C12', P, "self.cost += 1 / sigma_p * s_elastic", "self.cost += 1 / sigma_p * s_elastic**2", [dict(mpcc_mode='ELASTIC_EQ')]),
 ('theta_lb', 'C05', P, "self.ind_theta, lb_dual * np.ones(dims.n_f_sys[ij]),", "self.ind_theta, -np.inf * np.ones(dims.n_f_sys[ij]),", None),
 ('alpha_ub', 'C05', P, "lb_dual * np.ones(dims.n_c_sys[ij]), np.ones(dims.n_c_sys[ij]),\n                        0.5", "lb_dual * np.ones(dims.n_c_sys[ij]), np.inf*np.ones(dims.n_c_sys[ij]),\n                        0.5", [dict(pss_mode='STEP')]),
 ('pair_step', None, P, "self.w[flatten(self.ind_lambda_n[stage][sys])],\n                          self.w[flatten(self.ind_lambda_p[stage][sys])])", "self.w[flatten(self.ind_lambda_p[stage][sys])],\n                          self.w[flatten(self.ind_lambda_n[stage][sys])])", [dict(pss_mode='STEP')]),
 ('xend_bounds', 'C13', P, "self.add_variable(ca.SX.sym(f'X_end_{ctrl_idx}_{fe_idx+1}', dims.n_x), self.ind_x,\n                              ocp.lbx, ocp.ubx, model.x0, -1)", "self.add_variable(ca.SX.sym(f'X_end_{ctrl_idx}_{fe_idx+1}', dims.n_x), self.ind_x,\n                              -np.inf*np.ones(dims.n_x), np.inf*np.ones(dims.n_x), model.x0, -1)", [dict(right_boundary_point_explicit=False)]),
 ('uk0', 'C01', P, "Uk = self.w[self.ind_u[ctrl_idx]]", "Uk = self.w[self.ind_u[0]]", None),
 ('pglob', 'C14', P, "p_global = self.p[self.model.dims.n_p_time_var:self.model.dims.n_p_time_var + self.model.dims.n_p_glob]", "p_global = self.p[:self.model.dims.n_p_glob]", None),
 ('stage_end_switch', 'C01', P, "model.g_z_switching_fun(self.w[self.ind_x[-1]], self.rk_stage_z(-1), Uk, self.p))", "model.g_z_switching_fun(self.w[self.ind_x[0]], self.rk_stage_z(-1), Uk, self.p))", [dict(right_boundary_point_explicit=False)]),
]

def run_one(args):
    name, exp, f, old, new, cfgs, repo = args
    os.environ['VERIF_REPO'] = repo
    from analysis import configs, run
    from analysis.units import problem
    run.REPO = repo
    out = []
    for kw in (cfgs or [{}]):
        try:
            r = problem.check_config(configs.cfg(**kw))
            out.append((r['config'], r['wall'], sorted({x['prop'] for x in r['findings']}), [x['text'][:300] for x in r['findings'][:2]], r['undecided'][:3], r['unsupported'][:2]))
        except Exception:
            out.append(traceback.format_exc()[-400:])
    return name, exp, out

if __name__ == '__main__':
    from concurrent.futures import ProcessPoolExecutor
    sel = sys.argv[1:]
    base = tempfile.mkdtemp(prefix='mut')
    jobs = []
    for m in M:
        if sel and m[0] not in sel:
            continue
        d = os.path.join(base, m[0])
        shutil.copytree('/repo/nosnoc', os.path.join(d, 'nosnoc'))
        p = os.path.join(d, m[2])
        s = open(p).read()
        if s.count(m[3]) < 1:
            print('NO MATCH', m[0]); continue
        open(p, 'w').write(s.replace(m[3], m[4]) if m[3].startswith('ALL') else s.replace(m[3], m[4], 1))
        jobs.append(m + (d,))
    with ProcessPoolExecutor(8, max_tasks_per_child=1) as ex:
        for n, e, o in ex.map(run_one, jobs):
            got = set()
            for x in o:
                if isinstance(x, tuple):
                    got |= set(x[2])
            print(('ok  ' if (e in got) else 'MISS') if e else 'info', n, e, sorted(got), o if (sel or e not in got or len(got) > 2) else '', flush=True)
    shutil.rmtree(base)
