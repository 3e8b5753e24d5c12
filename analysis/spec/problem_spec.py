"""Reference formulation of the discretised optimal control problem.

This file is never executed.  It is read by the same value-graph interpreter as the
package and states, row by row, which variables, equations, bounds and cost terms the
problem consists of.  Every row carries the number of the rule it belongs to (RULES).
"""
import numpy as np
import casadi as ca
from nosnoc.nosnoc_types import MpccMode, CrossComplementarityMode, StepEquilibrationMode, PssMode, IrkRepresentation, ConstraintHandling, SpeedOfTimeVariableMode

# constraint rows
STAGE, ALG, ENDSTATE, LIFT, BOUNDARY_ALG, PATH_END, PATH_STAGE, TERMINAL = 1, 2, 3, 4, 5, 6, 7, 8
COMP_STAGE, COMP_CTRL, COMP_GLOBAL, COMP_CROSS, STEP_EQ, H_SUM, H_TOTAL, CLOCK = 9, 10, 11, 12, 13, 14, 15, 16
# variables
V_X, V_XEND, V_V, V_THETA, V_LAM, V_MU, V_ALPHA, V_LN, V_LP, V_Z, V_H, V_U, V_SOT, V_GLOB, V_ELASTIC, V_BOOL = 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36


class Block:
    """variables with lower bound, upper bound, guess; rows with bounds"""

    def __init__(self):
        self.w = ca.SX([])
        self.lbw = np.array([])
        self.ubw = np.array([])
        self.w0 = np.array([])
        self.w_tag = np.array([])
        self.g = ca.SX([])
        self.lbg = np.array([])
        self.ubg = np.array([])
        self.g_tag = np.array([])
        self.cost = ca.SX.zeros(1)
        self.ind_comp = []
        self.ind_bool = []

    def var(self, symbol, n, tag, lb, ub, w0):
        start = self.w.numel()
        self.w = ca.vertcat(self.w, symbol)
        self.lbw = np.concatenate((self.lbw, lb))
        self.ubw = np.concatenate((self.ubw, ub))
        self.w0 = np.concatenate((self.w0, w0))
        self.w_tag = np.concatenate((self.w_tag, tag * np.ones(n)))
        return list(range(start, start + n))

    def row(self, expr, tag, lb, ub):
        n = expr.numel()
        if n == 0:
            return
        self.g = ca.vertcat(self.g, expr)
        self.lbg = np.concatenate((self.lbg, np.zeros(n) if lb is None else lb))
        self.ubg = np.concatenate((self.ubg, np.zeros(n) if ub is None else ub))
        self.g_tag = np.concatenate((self.g_tag, tag * np.ones(n)))

    def eq(self, expr, tag):
        self.row(expr, tag, np.zeros(expr.numel()), np.zeros(expr.numel()))

    def complementarity(self, opts, tag, a_list, b, sigma, tau, s):
        """sum(a_list) complementary to b"""
        n = b.numel()
        a = sum(a_list)
        mode = opts.mpcc_mode
        if mode == MpccMode.SCHOLTES_INEQ or mode == MpccMode.SCHOLTES_EQ:
            g = a * b - sigma
        elif mode == MpccMode.ELASTIC_INEQ or mode == MpccMode.ELASTIC_EQ:
            g = a * b - s
        elif mode == MpccMode.ELASTIC_TWO_SIDED:
            g = ca.vertcat(a * b - s, a * b + s)
        elif mode == MpccMode.FISCHER_BURMEISTER:
            # one residual per pair, all pairs with the same b are added up
            g = ca.vertcat(*[sum([ai[j] + b[j] - ca.sqrt(ai[j]**2 + b[j]**2 + sigma**2) for ai in a_list]) for j in range(n)])
        elif mode == MpccMode.FISCHER_BURMEISTER_IP_AUG:
            ai = a_list[0]
            fb = [ai[j] + b[j] - ca.sqrt(ai[j]**2 + b[j]**2 + sigma**2) for j in range(n)]
            g = ca.vertcat(*fb,
                           *[opts.fb_ip_aug1_weight * (ai[j] - sigma) * ca.sqrt(tau) for j in range(n)],
                           *[opts.fb_ip_aug1_weight * (b[j] - sigma) * ca.sqrt(tau) for j in range(n)],
                           *[opts.fb_ip_aug2_weight * fb[j] * ca.sqrt(1 + (ai[j] - b[j])**2) for j in range(n)])
        elif mode == MpccMode.BOOLEAN:
            M = 1e5
            z = ca.SX.sym("z", n)
            self.ind_bool.append(self.var(z, n, V_BOOL, np.zeros(n), np.ones(n), 0.5 * np.ones(n)))
            g = ca.vertcat(M * z - b, b + M * z, M * (1 - z) - a, a + M * (1 - z))
        m = g.numel()
        if mode == MpccMode.SCHOLTES_INEQ or mode == MpccMode.ELASTIC_INEQ:
            lb, ub = -np.inf * np.ones(m), np.zeros(m)
        elif mode == MpccMode.ELASTIC_TWO_SIDED:
            lb = np.concatenate((-np.inf * np.ones(n), np.zeros(n)))
            ub = np.concatenate((np.zeros(n), np.inf * np.ones(n)))
        elif mode == MpccMode.BOOLEAN:
            lb, ub = np.zeros(m), np.inf * np.ones(m)
        else:
            lb, ub = np.zeros(m), np.zeros(m)
        if m > 0:
            start = self.g.numel()
            self.ind_comp.append(list(range(start, start + m)))
        self.row(g, tag, lb, ub)


class Initial:
    """start of the chain: state and multipliers are parameters"""

    def __init__(self, opts, model):
        d = model.dims
        self.x_end = ca.SX.sym('X0', d.n_x)
        if opts.pss_mode == PssMode.STEWART:
            self.lam_end = ca.vertcat(*[ca.SX.sym(f'lambda00_{i+1}', d.n_f_sys[i]) for i in range(d.n_sys)])
        else:
            self.lam_end = ca.vertcat(*[ca.SX.sym(f'lambda00_n_{i+1}', d.n_c_sys[i]) for i in range(d.n_sys)],
                                      *[ca.SX.sym(f'lambda00_p_{i+1}', d.n_c_sys[i]) for i in range(d.n_sys)])


def cat(l):
    return ca.vertcat(*l)


class Element(Block):

    def __init__(self, opts, model, ocp, k, f, prev):
        super().__init__()
        d = model.dims
        n_s = opts.n_s
        n_sys = d.n_sys
        inf_x = np.inf * np.ones(d.n_x)
        step = opts.pss_mode == PssMode.STEP
        integral = opts.irk_representation == IrkRepresentation.INTEGRAL
        differential = opts.irk_representation == IrkRepresentation.DIFFERENTIAL
        self.prev, self.k, self.f = prev, k, f
        self.p = model.p_ctrl_stages[k]
        self.last = f == opts.Nfe_list[k] - 1
        # multipliers at the element end are needed if no stage lies there and an element of the same stage follows
        boundary = opts.use_fesd and not opts.right_boundary_point_explicit and not self.last
        nonneg = opts.mpcc_mode != MpccMode.FISCHER_BURMEISTER and opts.mpcc_mode != MpccMode.FISCHER_BURMEISTER_IP_AUG
        low = 0.0 if nonneg else -np.inf

        # step size
        h_nom = opts.terminal_time / opts.N_stages / opts.Nfe_list[k]
        self.ind_h = []
        if opts.use_fesd:
            self.h = ca.SX.sym(f'h_{k}_{f}')
            up = (1 + opts.gamma_h) * h_nom if opts.use_upper_bound_h else np.inf
            self.ind_h = self.var(self.h, 1, V_H, [(1 - opts.gamma_h) * h_nom], [up], [h_nom])
        else:
            self.h = h_nom

        self.x, self.v, self.theta, self.lam, self.z_all = [], [], [], [], []
        self.ind_x, self.ind_v, self.ind_theta, self.ind_lam, self.ind_mu = [], [], [], [], []
        self.ind_alpha, self.ind_lambda_n, self.ind_lambda_p, self.ind_z = [], [], [], []
        none = [[[] for _ in range(n_sys)] for _ in range(n_s)]
        none_dual = none + [[[] for _ in range(n_sys)]] if boundary else none
        if integral:
            self.ind_v = [[] for _ in range(n_s)]
        if step:
            self.ind_theta, self.ind_lam, self.ind_mu = none, none_dual, none_dual
        else:
            self.ind_alpha, self.ind_lambda_n, self.ind_lambda_p = none, none_dual, none_dual
        for s in range(n_s):
            if not integral:
                v = ca.SX.sym(f'V_{k}_{f}_{s+1}', d.n_x)
                self.ind_v.append(self.var(v, d.n_x, V_V, -inf_x, inf_x, np.zeros(d.n_x)))
                self.v.append(v)
            if not differential:
                x = ca.SX.sym(f'X_{k}_{f}_{s+1}', d.n_x)
                self.ind_x.append(self.var(x, d.n_x, V_X, ocp.lbx, ocp.ubx, model.x0))
                self.x.append(x)
            if not step:
                th = [ca.SX.sym(f'theta_{k}_{f}_{s+1}_{i+1}', d.n_f_sys[i]) for i in range(n_sys)]
                la = [ca.SX.sym(f'lambda_{k}_{f}_{s+1}_{i+1}', d.n_f_sys[i]) for i in range(n_sys)]
                mu = [ca.SX.sym(f'mu_{k}_{f}_{s+1}_{i+1}', 1) for i in range(n_sys)]
                self.ind_theta.append([self.var(th[i], d.n_f_sys[i], V_THETA, low * np.ones(d.n_f_sys[i]), np.inf * np.ones(d.n_f_sys[i]),
                                       opts.sigma_0 / d.n_f_sys[i] * np.ones(d.n_f_sys[i])) for i in range(n_sys)])
                self.ind_lam.append([self.var(la[i], d.n_f_sys[i], V_LAM, low * np.ones(d.n_f_sys[i]), np.inf * np.ones(d.n_f_sys[i]),
                                     opts.sigma_0 / d.n_f_sys[i] * np.ones(d.n_f_sys[i])) for i in range(n_sys)])
                self.ind_mu.append([self.var(mu[i], 1, V_MU, -np.inf * np.ones(1), np.inf * np.ones(1), np.ones(1)) for i in range(n_sys)])
                self.theta.append(cat(th))
                self.lam.append(cat(la))
                core = ca.vertcat(cat(th), cat(la), cat(mu))
            else:
                al = [ca.SX.sym(f'alpha_{k}_{f}_{s+1}_{i+1}', d.n_c_sys[i]) for i in range(n_sys)]
                ln = [ca.SX.sym(f'lambda_n_{k}_{f}_{s+1}_{i+1}', d.n_c_sys[i]) for i in range(n_sys)]
                lp = [ca.SX.sym(f'lambda_p_{k}_{f}_{s+1}_{i+1}', d.n_c_sys[i]) for i in range(n_sys)]
                self.ind_alpha.append([self.var(al[i], d.n_c_sys[i], V_ALPHA, low * np.ones(d.n_c_sys[i]), np.ones(d.n_c_sys[i]),
                                       0.5 * np.ones(d.n_c_sys[i])) for i in range(n_sys)])
                self.ind_lambda_n.append([self.var(ln[i], d.n_c_sys[i], V_LN, low * np.ones(d.n_c_sys[i]), np.inf * np.ones(d.n_c_sys[i]),
                                          0.5 * np.ones(d.n_c_sys[i])) for i in range(n_sys)])
                self.ind_lambda_p.append([self.var(lp[i], d.n_c_sys[i], V_LP, low * np.ones(d.n_c_sys[i]), np.inf * np.ones(d.n_c_sys[i]),
                                          0.5 * np.ones(d.n_c_sys[i])) for i in range(n_sys)])
                # alpha against lambda_n, 1 - alpha against lambda_p
                self.theta.append(ca.vertcat(cat(al), 1 - cat(al)))
                self.lam.append(ca.vertcat(cat(ln), cat(lp)))
                core = ca.vertcat(cat(al), cat(ln), cat(lp))
            z = ca.SX.sym(f'z_{k}_{f}_{s+1}', d.n_z)
            self.ind_z.append(self.var(z, d.n_z, V_Z, model.lbz, model.ubz, model.z0))
            self.z_all.append(ca.vertcat(core, z))

        # multipliers at the element end
        self.lam_end = self.lam[-1]
        self.lam_every = self.lam
        self.z_end = None
        if boundary:
            if not step:
                la = [ca.SX.sym(f'lambda_{k}_{f}_end_{i+1}', d.n_f_sys[i]) for i in range(n_sys)]
                mu = [ca.SX.sym(f'mu_{k}_{f}_end_{i+1}', 1) for i in range(n_sys)]
                self.ind_lam.append([self.var(la[i], d.n_f_sys[i], V_LAM, low * np.ones(d.n_f_sys[i]), np.inf * np.ones(d.n_f_sys[i]),
                                     opts.sigma_0 / d.n_f_sys[i] * np.ones(d.n_f_sys[i])) for i in range(n_sys)])
                self.ind_mu.append([self.var(mu[i], 1, V_MU, -np.inf * np.ones(1), np.inf * np.ones(1), np.ones(1)) for i in range(n_sys)])
                self.lam_end = cat(la)
                self.z_end = ca.vertcat(self.theta[-1], cat(la), cat(mu), z)
            else:
                ln = [ca.SX.sym(f'lambda_n_{k}_{f}_end_{i+1}', d.n_c_sys[i]) for i in range(n_sys)]
                lp = [ca.SX.sym(f'lambda_p_{k}_{f}_end_{i+1}', d.n_c_sys[i]) for i in range(n_sys)]
                self.ind_lambda_n.append([self.var(ln[i], d.n_c_sys[i], V_LN, low * np.ones(d.n_c_sys[i]), np.inf * np.ones(d.n_c_sys[i]),
                                          0.5 * np.ones(d.n_c_sys[i])) for i in range(n_sys)])
                self.ind_lambda_p.append([self.var(lp[i], d.n_c_sys[i], V_LP, low * np.ones(d.n_c_sys[i]), np.inf * np.ones(d.n_c_sys[i]),
                                          0.5 * np.ones(d.n_c_sys[i])) for i in range(n_sys)])
                self.lam_end = ca.vertcat(cat(ln), cat(lp))
                self.z_end = ca.vertcat(cat(al), cat(ln), cat(lp), z)
            self.lam_every = self.lam + [self.lam_end]

        # state at the element end
        if not opts.right_boundary_point_explicit or differential:
            x_end = ca.SX.sym(f'X_end_{k}_{f+1}', d.n_x)
            self.ind_x.append(self.var(x_end, d.n_x, V_XEND, ocp.lbx, ocp.ubx, model.x0))
            self.x_end = x_end
        else:
            self.x_end = self.x[-1]
        self.ind_x_cont = self.ind_x[-1]

    def equations(self, opts, model, ocp, U, sot):
        n_s = opts.n_s
        integral = opts.irk_representation == IrkRepresentation.INTEGRAL
        differential = opts.irk_representation == IrkRepresentation.DIFFERENTIAL
        x_start = self.prev.x_end
        if not integral:
            x_rk = [x_start + sum([self.h * opts.A_irk[j, r] * self.v[r] for r in range(n_s)]) for j in range(n_s)]
            self.stage_x = x_rk if differential else self.x
            if not differential:
                for j in range(n_s):
                    self.eq(self.x[j] - x_rk[j], LIFT)
            x_quad = x_start + sum([self.h * opts.b_irk[j] * self.v[j] for j in range(n_s)])
        else:
            self.stage_x = self.x
            x_quad = opts.D_irk[0] * x_start + sum([opts.D_irk[j + 1] * self.x[j] for j in range(n_s)])

        for j in range(n_s):
            x = self.stage_x[j]
            rhs = sot * model.f_x_fun(x, self.z_all[j], U, self.p, model.v_global)
            q = sot * ocp.f_q_fun(x, U, self.p, model.v_global)
            self.eq(model.g_z_all_fun(x, self.z_all[j], U, self.p), ALG)
            if integral:
                poly = opts.C_irk[0, j + 1] * x_start + sum([opts.C_irk[r + 1, j + 1] * self.x[r] for r in range(n_s)])
                self.eq(self.h * rhs - poly, STAGE)
                self.cost += opts.B_irk[j + 1] * self.h * q
            else:
                self.eq(rhs - self.v[j], STAGE)
                self.cost += opts.b_irk[j] * self.h * q

        if not opts.right_boundary_point_explicit or differential:
            self.eq(x_quad - self.x_end, ENDSTATE)

        # path constraints: end of the control stage, optionally every element, optionally every stage
        at_end = self.last or opts.g_path_at_fe
        # with a stage on the element boundary the end point is that stage
        x_bound = self.stage_x[n_s - 1] if opts.right_boundary_point_explicit else self.x_end
        if at_end:
            self.row(ocp.g_path_fun(x_bound, U, self.p, model.v_global), PATH_END, ocp.lbg, ocp.ubg)
        if opts.g_path_at_stg:
            m = n_s - 1 if opts.right_boundary_point_explicit and at_end else n_s
            for j in range(m):
                self.row(ocp.g_path_fun(self.stage_x[j], U, self.p, model.v_global), PATH_STAGE, ocp.lbg, ocp.ubg)

        if opts.use_fesd and not opts.right_boundary_point_explicit and not self.last:
            self.eq(model.g_z_switching_fun(self.x_end, self.z_end, U, self.p), BOUNDARY_ALG)

    def complementarities(self, opts, model, ocp, U, sigma, tau, s):
        n_s = opts.n_s
        for j in range(n_s):
            a, b = ca.horzsplit(ocp.g_rk_comp_fun(self.stage_x[j], U, self.z_all[j], self.p, model.v_global))
            self.complementarity(opts, COMP_STAGE, [a], b, sigma, tau, s)
        if self.last:
            a, b = ca.horzsplit(ocp.g_ctrl_comp_fun(U, self.p, model.v_global))
            self.complementarity(opts, COMP_CTRL, [a], b, sigma, tau, s)
        if not opts.use_fesd:
            for j in range(n_s):
                self.complementarity(opts, COMP_CROSS, [self.lam[j]], self.theta[j], sigma, tau, s)
        elif opts.cross_comp_mode == CrossComplementarityMode.COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER:
            for j in range(n_s):
                self.complementarity(opts, COMP_CROSS, [self.theta[j]], self.prev.lam_end, sigma, tau, s)
                for i in range(n_s):
                    self.complementarity(opts, COMP_CROSS, [self.theta[j]], self.lam[i], sigma, tau, s)
        else:
            for j in range(n_s):
                self.complementarity(opts, COMP_CROSS, self.lam_every + [self.prev.lam_end], self.theta[j], sigma, tau, s)

    def residual(self, opts):
        out = []
        for j in range(opts.n_s):
            if opts.use_fesd:
                out = ca.vertcat(out, self.theta[j] * self.prev.lam_end)
                for i in range(opts.n_s):
                    out = ca.vertcat(out, self.theta[j] * self.lam[i])
            else:
                out = ca.vertcat(out, self.theta[j] * self.lam[j])
        return out

    def step_equilibration(self, opts, sigma, tau, s):
        if not opts.use_fesd:
            return
        mode = opts.step_equilibration
        if mode == StepEquilibrationMode.HEURISTIC_MEAN:
            self.cost += opts.rho_h * (self.h - opts.terminal_time / (opts.N_stages * opts.Nfe_list[self.k]))**2
        elif self.f > 0:
            dh = self.h - self.prev.h
            if mode == StepEquilibrationMode.HEURISTIC_DELTA:
                self.cost += opts.rho_h * dh**2
            elif mode == StepEquilibrationMode.HEURISTIC_DELTA_H_COMP:
                self.complementarity(opts, STEP_EQ, [ca.SX.zeros()], dh, sigma, tau, s)
            else:
                back, forw = self.prev, self
                eta = sum(back.lam_every + [back.prev.lam_end]) * sum(forw.lam_every + [back.lam_end]) + sum(back.theta) * sum(forw.theta)
                nu = 1
                for i in range(eta.numel()):
                    nu = nu * eta[i]
                if mode == StepEquilibrationMode.L2_RELAXED_SCALED:
                    self.cost += opts.rho_h * ca.tanh(nu / opts.step_equilibration_sigma) * dh**2
                elif mode == StepEquilibrationMode.L2_RELAXED:
                    self.cost += opts.rho_h * nu * dh**2
                elif mode == StepEquilibrationMode.DIRECT:
                    self.eq(nu * dh, STEP_EQ)
                elif mode == StepEquilibrationMode.DIRECT_COMPLEMENTARITY:
                    self.complementarity(opts, STEP_EQ, [nu], dh, sigma, tau, s)


def shift(ind, n):
    return [i + n for i in ind]


def shift2(ind, n):
    return [shift(i, n) for i in ind]


def shift3(ind, n):
    return [shift2(i, n) for i in ind]


class Reference(Block):

    def __init__(self, opts, model, ocp):
        super().__init__()
        d = model.dims
        K = opts.N_stages
        sigma, tau = ca.SX.sym('sigma_p'), ca.SX.sym('tau')
        elastic = (opts.mpcc_mode == MpccMode.ELASTIC_INEQ or opts.mpcc_mode == MpccMode.ELASTIC_EQ
                   or opts.mpcc_mode == MpccMode.ELASTIC_TWO_SIDED)
        self.ind_elastic, self.ind_v_global, self.ind_sot, self.ind_u, self.ind_h = [], [], [], [], []
        s = None
        if elastic:
            s = ca.SX.sym('s_elastic')
            self.ind_elastic.append(self.var(s, 1, V_ELASTIC, opts.s_elastic_min * np.ones(1), opts.s_elastic_max * np.ones(1),
                                             opts.s_elastic_0 * np.ones(1)))
        start = Initial(opts, model)
        self.p = ca.vertcat(*model.p_ctrl_stages, sigma, tau, start.lam_end, start.x_end)

        self.ind_v_global.append(self.var(model.v_global, d.n_v_global, V_GLOB, ocp.lbv_global, ocp.ubv_global, ocp.v_global_guess))
        if opts.speed_of_time_variables == SpeedOfTimeVariableMode.GLOBAL:
            sot_all = ca.SX.sym('sot', 1)
            self.ind_sot.append(self.var(sot_all, 1, V_SOT, [opts.speed_of_time_min], [opts.speed_of_time_max], [1.0]))

        self.stages, controls, factors = [], [], []
        prev = start
        for k in range(K):
            U = ca.SX.sym(f'U_{k}', d.n_u)
            self.ind_u.append(self.var(U, d.n_u, V_U, ocp.lbu, ocp.ubu, ocp.u_guess))
            controls.append(U)
            if opts.speed_of_time_variables == SpeedOfTimeVariableMode.LOCAL:
                sot = ca.SX.sym(f's_sot_{k}', 1)
                self.ind_sot.append(self.var(sot, 1, V_SOT, [opts.speed_of_time_min], [opts.speed_of_time_max], [1.0]))
            elif opts.speed_of_time_variables == SpeedOfTimeVariableMode.GLOBAL:
                sot = sot_all
            else:
                sot = 1
            factors.append(sot)
            elements = []
            for f in range(opts.Nfe_list[k]):
                e = Element(opts, model, ocp, k, f, prev)
                elements.append(e)
                prev = e
            self.stages.append(elements)

        T = opts.terminal_time
        self.ind_comp_all = []
        for k in range(K):
            comp = []
            for e in self.stages[k]:
                e.equations(opts, model, ocp, controls[k], factors[k])
                e.complementarities(opts, model, ocp, controls[k], sigma, tau, s)
                e.step_equilibration(opts, sigma, tau, s)
                self.cost += e.cost
                comp.append(shift2(e.ind_comp, self.g.numel()))
                self.g = ca.vertcat(self.g, e.g)
                self.lbg = np.concatenate((self.lbg, e.lbg))
                self.ubg = np.concatenate((self.ubg, e.ubg))
                self.g_tag = np.concatenate((self.g_tag, e.g_tag))
            self.ind_comp_all.append(comp)
            if opts.use_fesd and opts.equidistant_control_grid:
                self.eq(sum([e.h for e in self.stages[k]]) - T / K, H_SUM)
            if opts.time_freezing and opts.equidistant_control_grid:
                clock = model.t_fun(self.stages[k][-1].x_end)
                due = model.t_fun(start.x_end) + T / K * (k + 1)
                self.row(clock - due, CLOCK, [-opts.time_freezing_tolerance], [opts.time_freezing_tolerance])

        p_glob = self.p[d.n_p_time_var:d.n_p_time_var + d.n_p_glob]
        a, b = ca.horzsplit(ocp.g_global_comp_fun(p_glob, model.v_global))
        self.complementarity(opts, COMP_GLOBAL, [a], b, sigma, tau, s)
        self.ind_comp_all += self.ind_comp

        res = []
        for stage in self.stages:
            for e in stage:
                res = ca.vertcat(res, e.residual(opts))
        x_T = self.stages[-1][-1].x_end
        p_T = model.p_ctrl_stages[-1]
        self.eq(ocp.g_terminal_fun(x_T, p_T, model.v_global), TERMINAL)
        self.cost += ocp.f_q_T_fun(x_T, p_T, model.v_global)
        if elastic:
            if opts.objective_scaling_direct:
                self.cost += 1 / sigma * s
            else:
                self.cost = sigma * self.cost + s
        if opts.use_fesd and not opts.equidistant_control_grid:
            self.eq(sum([e.h for stage in self.stages for e in stage]) - T, H_TOTAL)

        # merge the element variables behind the others
        self.ind_x, self.ind_x_cont, self.ind_v, self.ind_theta, self.ind_lam, self.ind_mu = [], [], [], [], [], []
        self.ind_alpha, self.ind_lambda_n, self.ind_lambda_p, self.ind_z, self.ind_bool_all = [], [], [], [], []
        for k in range(K):
            ix, ic, iv, it, il, im, ia, i_n, ip, iz, ib = [], [], [], [], [], [], [], [], [], [], []
            for e in self.stages[k]:
                n = self.w.numel()
                self.w = ca.vertcat(self.w, e.w)
                self.lbw = np.concatenate((self.lbw, e.lbw))
                self.ubw = np.concatenate((self.ubw, e.ubw))
                self.w0 = np.concatenate((self.w0, e.w0))
                self.w_tag = np.concatenate((self.w_tag, e.w_tag))
                self.ind_h += shift(e.ind_h, n)
                ix.append(shift2(e.ind_x, n))
                ic.append(shift(e.ind_x_cont, n))
                iv.append(shift2(e.ind_v, n))
                it.append(shift3(e.ind_theta, n))
                il.append(shift3(e.ind_lam, n))
                im.append(shift3(e.ind_mu, n))
                ia.append(shift3(e.ind_alpha, n))
                i_n.append(shift3(e.ind_lambda_n, n))
                ip.append(shift3(e.ind_lambda_p, n))
                iz.append(shift2(e.ind_z, n))
                ib.append(shift2(e.ind_bool, n))
            self.ind_x.append(ix)
            self.ind_x_cont.append(ic)
            self.ind_v.append(iv)
            self.ind_theta.append(it)
            self.ind_lam.append(il)
            self.ind_mu.append(im)
            self.ind_alpha.append(ia)
            self.ind_lambda_n.append(i_n)
            self.ind_lambda_p.append(ip)
            self.ind_z.append(iz)
            self.ind_bool_all.append(ib)
        self.ind_bool_all += self.ind_bool
        self.w0_original = self.w0
        self.cost_fun = ca.Function('cost_fun', [self.w, self.p], [self.cost])
        self.g_fun = ca.Function('g_fun', [self.w, self.p], [self.g])
        self.comp_res = ca.Function('comp_res', [self.w, self.p], [ca.mmax(res)])
        self.g_lsq = None
        if opts.constraint_handling == ConstraintHandling.LEAST_SQUARES:
            self.g_lsq = self.g
            for i in range(self.g.numel()):
                if self.lbg[i] != 0.0 or self.ubg[i] != 0.0:
                    raise ValueError('inequality in least squares handling')
                self.cost += self.g[i]**2
            self.g = ca.SX([])
            self.lbg = np.array([])
            self.ubg = np.array([])
            self.g_tag = np.array([])
