"""Reference for the solver: what one call of solve(), set(), ... has to do and to return.

Never executed; read by the value-graph interpreter like the package itself."""
import numpy as np
import casadi as ca
from nosnoc.nosnoc_types import InitializationStrategy, PssMode, HomotopyUpdateRule, Status, SpeedOfTimeVariableMode

ACCEPTED = ['Solve_Succeeded', 'Solved_To_Acceptable_Level', 'Feasible_Point_Found', 'Search_Direction_Becomes_Too_Small']


def initial_multipliers(opts, model):
    p0 = model.p_val_ctrl_stages[0]
    z0 = model.z0
    if opts.rootfinder_for_initial_z:
        z0 = model.z0_rootfinder(model.z0, np.concatenate((model.x0, p0))).full().flatten()
    return model.lambda00_fun(model.x0, z0, p0).full().flatten()


def parameter_vector(opts, model, sigma, tau, lambda00):
    """stage by stage (time-varying, then global), sigma, tau, initial multipliers, initial state"""
    return np.concatenate((model.p_val_ctrl_stages.flatten(), np.array([sigma, tau]), lambda00, model.x0))


def setup_p_val(self, sigma, tau):
    self.p_val = parameter_vector(self.opts, self.model, sigma, tau, self.lambda00)


def next_sigma(opts, sigma):
    if opts.homotopy_update_rule == HomotopyUpdateRule.LINEAR:
        return opts.homotopy_update_slope * sigma
    if opts.homotopy_update_rule == HomotopyUpdateRule.SUPERLINEAR:
        return max(opts.sigma_N, min(opts.homotopy_update_slope * sigma, sigma**opts.homotopy_update_exponent))


def current_state_guess(opts, prob, model):
    if (opts.initialization_strategy == InitializationStrategy.ALL_XCURRENT_W0_START or
            opts.initialization_strategy == InitializationStrategy.ALL_XCURRENT_WOPT_PREV):
        for stage in prob.ind_x:
            for fe in stage:
                for ind in fe:
                    prob.w0[ind] = model.x0


    if opts.initialization_strategy == InitializationStrategy.RK4_SMOOTHENED:
        if opts.irk_time_points[-1] != 1.0:
            raise NotImplementedError()
        p = model.p_val_ctrl_stages[0]
        n_f = model.dims.n_f_sys
        nominal = opts.terminal_time / opts.N_stages / opts.Nfe_list[0]
        x = model.x0
        for i in range(opts.Nfe_list[0]):
            t = 0.0
            for k in range(opts.n_s):
                h = nominal * (opts.irk_time_points[k] - t)
                t = opts.irk_time_points[k]
                k1 = model.f_x_smooth_fun(x)
                k2 = model.f_x_smooth_fun(x + h / 2 * k1)
                k3 = model.f_x_smooth_fun(x + h / 2 * k2)
                k4 = model.f_x_smooth_fun(x + h * k3)
                x = x + (h * (k1 + 2 * k2 + 2 * k3 + k4) / 6).full().flatten()
                prob.w0[prob.ind_x[0][i][k]] = x
                theta = model.theta_smooth_fun(x, p).full().flatten()
                lam = model.lambda00_fun(x, [], p).full().flatten()
                mu = model.mu_smooth_fun(x, p).full().flatten()
                for s in range(model.dims.n_sys):
                    prob.w0[prob.ind_theta[0][i][k][s]] = theta[sum(n_f[:s]):sum(n_f[:s + 1])]
                    prob.w0[prob.ind_lam[0][i][k][s]] = lam[sum(n_f[:s]):sum(n_f[:s + 1])]
                    prob.w0[prob.ind_mu[0][i][k][s]] = mu[s]
            prob.w0[prob.ind_x[0][i][-1]] = x


def fixed_thetas(opts, prob, lambda00):
    """multipliers of the first element whose initial dual is positive"""
    out = []
    for k in range(opts.n_s):
        ind = []
        for sys in prob.ind_theta[0][0][k]:
            ind += sys
        out += [ind[j] for j in range(len(lambda00)) if lambda00[j] > 10 * opts.comp_tol]
    return out


def levels(x, depth):
    if depth == 1:
        return x
    return [b for a in x for b in levels(a, depth - 1)]


def solve(self):
    opts, prob, model = self.opts, self.problem, self.model
    lambda00 = initial_multipliers(opts, model)
    self.lambda00 = lambda00
    current_state_guess(opts, prob, model)
    start = prob.w0.copy()
    lb, ub = prob.lbw, prob.ubw
    iterates = [start]
    if opts.fix_active_set_fe0 and opts.pss_mode == PssMode.STEWART:
        fix = fixed_thetas(opts, prob, lambda00)
        start = put(start, fix, 0.0)
        lb = put(lb, fix, 0.0)
        ub = put(ub, fix, 0.0)

    sigma = opts.sigma_0
    running = True
    iterations = [None for i in range(opts.max_iter_homotopy + (1 if opts.do_polishing_step else 0))]
    x = start
    status = None
    cost = None
    for i in range(opts.max_iter_homotopy):
        if running:
            p = parameter_vector(opts, model, sigma, min(sigma, sigma**1.5), lambda00)
            sol = self.solver(x0=x, lbg=prob.lbg, ubg=prob.ubg, lbx=lb, ubx=ub, p=p)
            stats = self.solver.stats()
            status = stats['return_status']
            iterations[i] = stats['iter_count']
            x = sol['x'].full().flatten()
            cost = sol['f'].full()[0][0]
            iterates.append(x)
            if status not in ACCEPTED:
                print('not successful')
            if prob.comp_res(x, p).full()[0][0] < opts.comp_tol or sigma <= opts.sigma_N:
                running = False
            else:
                sigma = next_sigma(opts, sigma)

    if opts.do_polishing_step:
        signed = []
        signed += levels(prob.ind_theta, 5)
        signed += levels(prob.ind_lam, 5)
        signed += levels(prob.ind_alpha, 5)
        signed += levels(prob.ind_lambda_n, 5)
        signed += levels(prob.ind_lambda_p, 5)
        eps = 10 * opts.comp_tol
        at_zero = [j for j in signed if x[j] < eps]
        at_one = [j for j in signed if abs(x[j] - 1.0) < eps]
        lb, ub = put(put(prob.lbw, at_zero, 0.0), at_one, 1.0), put(put(prob.ubw, at_zero, 0.0), at_one, 1.0)
        p = parameter_vector(opts, model, 0.0, 0.0, lambda00)
        sol = self.solver(x0=x, lbg=prob.lbg, ubg=prob.ubg, lbx=lb, ubx=ub, p=p)
        stats = self.solver.stats()
        status = stats['return_status']
        iterations[opts.max_iter_homotopy] = stats['iter_count']
        x = sol['x'].full().flatten()
        cost = sol['f'].full()[0][0]

    results = solution(prob, x)
    if opts.initialization_strategy == InitializationStrategy.ALL_XCURRENT_WOPT_PREV:
        prob.w0[:] = x
    results["nlp_iter"] = iterations
    results["w_all"] = iterates
    results["w_sol"] = x
    results["cost_val"] = cost
    results["status"] = Status.SUCCESS if status in ACCEPTED else Status.INFEASIBLE
    return results


def put(v, ind, value):
    v = v.copy()
    v[ind] = value
    return v


def last_stages(x, w):
    """flat values at the last stage of every finite element"""
    return [w[levels(fe[-1], 2)] for stage in x for fe in stage]


def solution(prob, w):
    opts = prob.opts
    r = dict()
    elements = [fe for stage in prob.ind_x_cont for fe in stage]
    r["x_out"] = w[prob.ind_x[-1][-1][-1]]
    r["x_list"] = [w[ind] for ind in elements]
    r["x_traj"] = [prob.model.x0] + [w[ind] for ind in elements]
    r["x_all_list"] = [prob.model.x0] + [w[ind] for stage in prob.ind_x for fe in stage for ind in fe]
    r["u_list"] = [w[ind] for ind in prob.ind_u]
    r["u_traj"] = [w[ind] for ind in prob.ind_u]
    if opts.speed_of_time_variables != SpeedOfTimeVariableMode.NONE:
        r["sot"] = [w[ind] for ind in prob.ind_sot]
    r["theta_list"] = last_stages(prob.ind_theta, w)
    r["lambda_list"] = last_stages(prob.ind_lam, w)
    r["mu_list"] = last_stages(prob.ind_mu, w)
    r["alpha_list"] = last_stages(prob.ind_alpha, w)
    r["lambda_n_list"] = last_stages(prob.ind_lambda_n, w)
    r["lambda_p_list"] = last_stages(prob.ind_lambda_p, w)
    r["z_list"] = [w[fe[-1]] for stage in prob.ind_z for fe in stage]
    r["v_global"] = w[prob.ind_v_global]
    if opts.use_fesd:
        h = w[prob.ind_h]
    else:
        h = [opts.terminal_time / opts.N_stages / n for n in opts.Nfe_list for i in range(n)]
    r["time_steps"] = h
    grid = [0.0] + [sum(h[:i + 1]) for i in range(len(h))]
    r["t_grid"] = grid
    r["t_grid_u"] = [grid[sum(opts.Nfe_list[:i])] for i in range(opts.N_stages + 1)]
    active = r["alpha_list"] if opts.pss_mode == PssMode.STEP else r["theta_list"]
    r["switch_times"] = np.array([grid[i + 1] for i in range(len(active) - 1) if np.max(np.abs(active[i + 1] - active[i])) > 0.1])
    return r


def get_results_from_primal_vector(prob, w_opt):
    return solution(prob, w_opt)


def set(self, field, value):
    opts, prob, model = self.opts, self.problem, self.model
    if field == 'x0':
        model.x0 = value
    elif field == 'x':
        if value.shape[0] == opts.N_stages:
            for i in range(opts.N_stages):
                for fe in prob.ind_x[i]:
                    for ind in fe:
                        prob.w0[ind] = value[i, :]
        elif value.shape[0] == sum(opts.Nfe_list):
            for i in range(opts.N_stages):
                for j in range(opts.Nfe_list[i]):
                    for ind in prob.ind_x[i][j]:
                        prob.w0[ind] = value[sum(opts.Nfe_list[:i]) + j, :]
        else:
            raise ValueError()
        if opts.initialization_strategy != InitializationStrategy.EXTERNAL:
            raise Warning()
    elif field == 'u':
        for i in range(opts.N_stages):
            prob.w0[prob.ind_u[i]] = value[i, :]
    elif field == 'v_global':
        prob.w0[prob.ind_v_global] = value
    elif field == 'p_global':
        for i in range(opts.N_stages):
            model.p_val_ctrl_stages[i, model.dims.n_p_time_var:] = value
    elif field == 'p_time_var':
        for i in range(opts.N_stages):
            model.p_val_ctrl_stages[i, :model.dims.n_p_time_var] = value[i, :]
    elif field == 'theta':
        if value.shape[0] == sum(opts.Nfe_list):
            for i in range(opts.N_stages):
                for j in range(opts.Nfe_list[i]):
                    for stage in prob.ind_theta[i][j]:
                        for ind in stage:
                            prob.w0[ind] = value[sum(opts.Nfe_list[:i]) + j, :]
        else:
            raise Exception()
    elif field == 'w':
        prob.w0 = np.array(value, dtype=float)
        if opts.initialization_strategy != InitializationStrategy.EXTERNAL:
            raise Warning()
    else:
        raise NotImplementedError()
