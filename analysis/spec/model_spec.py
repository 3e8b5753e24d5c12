"""Reference for the model: Stewart and Step reformulation, initial multipliers, smoothing.

Never executed; read by the value-graph interpreter like the package itself."""
import numpy as np
import casadi as ca
from nosnoc.nosnoc_types import PssMode
from nosnoc.dims import NosnocDims


def stack(parts):
    out = ca.SX.zeros(0, 1)
    for p in parts:
        out = ca.vertcat(out, p)
    return out


def size(v):
    return v.shape[0]


def check_data(self, opts):
    """data that do not fit are rejected"""
    n_z = size(self.z)
    n_sys = len(self.F) if self.F is not None else len(self.f_x)
    if self.z0 is not None and len(self.z0) != n_z:
        raise ValueError('z0')
    if self.lbz is not None and len(self.lbz) != n_z:
        raise ValueError('lbz')
    if self.ubz is not None and len(self.ubz) != n_z:
        raise ValueError('ubz')
    if self.F is not None:
        for i in range(n_sys):
            if self.F[i].shape[1] == 1:
                raise Warning('not a switching system')
        if self.g_Stewart:
            if opts.pss_mode != PssMode.STEWART:
                raise ValueError('mode')
            for i in range(len(self.g_Stewart)):
                if self.g_Stewart[i].shape[0] != self.F[i].shape[1]:
                    raise ValueError('indicators')
        else:
            if len(self.c) != len(self.S):
                raise ValueError('c, S')
            if len(self.F) != len(self.S):
                raise ValueError('F, S')
            for i in range(n_sys):
                if self.F[i].shape[1] != self.S[i].shape[0]:
                    raise ValueError('regions')
                if self.S[i].shape[1] != size(self.c[i]):
                    raise ValueError('switching functions')
    else:
        if opts.pss_mode == PssMode.STEWART:
            raise ValueError('general inclusions')
        if size(stack(self.c)) != size(stack(self.alpha)):
            raise ValueError('c, alpha')
    if self.p_global_val.shape != (size(self.p_global),):
        raise ValueError('p_global_val')
    if self.p_time_var_val is not None and self.p_time_var_val.shape != (opts.N_stages, size(self.p_time_var)):
        raise ValueError('p_time_var_val')
    if opts.time_freezing and self.t_var is None:
        raise ValueError('clock')


def preprocess_model(self, opts):
    check_data(self, opts)
    n_x, n_z = size(self.x), size(self.z)
    n_pt, n_pg = size(self.p_time_var), size(self.p_global)
    n_sys = len(self.F) if self.F is not None else len(self.f_x)
    if self.g_Stewart:
        n_c_sys = [0]
    else:
        n_c_sys = [size(self.c[i]) for i in range(n_sys)]
    if self.F is not None:
        n_f_sys = [self.F[i].shape[1] for i in range(n_sys)]
    else:
        n_f_sys = [self.f_x[i].shape[1] for i in range(n_sys)]
    self.dims = NosnocDims(n_x=n_x, n_u=size(self.u), n_sys=n_sys, n_c_sys=n_c_sys, n_f_sys=n_f_sys, n_p_time_var=n_pt, n_p_glob=n_pg, n_z=n_z)

    # defaults
    if self.z0 is None:
        self.z0 = np.zeros(n_z)
    if self.lbz is None:
        self.lbz = -np.inf * np.ones(n_z)
    if self.ubz is None:
        self.ubz = np.inf * np.ones(n_z)
    if self.p_time_var_val is None:
        self.p_time_var_val = np.zeros((opts.N_stages, n_pt))

    # parameters: time-varying, then global
    self.p = ca.vertcat(self.p_time_var, self.p_global)
    self.p_ctrl_stages = [ca.SX.sym(f'p_stage{i}', n_pt + n_pg) for i in range(opts.N_stages)]
    self.p_val_ctrl_stages = np.zeros((opts.N_stages, n_pt + n_pg))
    for i in range(opts.N_stages):
        self.p_val_ctrl_stages[i, :n_pt] = self.p_time_var_val[i, :]
        self.p_val_ctrl_stages[i, n_pt:] = self.p_global_val

    g_switching = ca.SX.zeros(0, 1)
    g_convex = ca.SX.zeros(0, 1)
    if opts.pss_mode == PssMode.STEWART:
        if self.theta is not None:
            theta = self.theta
        else:
            theta = [ca.SX.sym('theta', n_f_sys[i]) for i in range(n_sys)]
        lam = [ca.SX.sym('lambda', n_f_sys[i]) for i in range(n_sys)]
        mu = [ca.SX.sym('mu', 1) for i in range(n_sys)]
        if self.g_Stewart:
            g = self.g_Stewart
        else:
            g = [-self.S[i] @ self.c[i] for i in range(n_sys)]
        z = ca.vertcat(stack(theta), stack(lam), stack(mu), self.z)
        f_x = ca.SX.zeros(n_x, 1)
        lambda00 = ca.SX.zeros(0, 1)
        mu00 = ca.SX.zeros(0, 1)
        for i in range(n_sys):
            f_x = f_x + self.F[i] @ theta[i]
            g_switching = ca.vertcat(g_switching, g[i] - lam[i] + mu[i])
            g_convex = ca.vertcat(g_convex, ca.sum1(theta[i]) - 1)
            lambda00 = ca.vertcat(lambda00, g[i] - ca.mmin(g[i]))
            mu00 = ca.vertcat(mu00, ca.mmin(g[i]))
        self.mu00_stewart_fun = ca.Function('mu00', [self.x, self.z, self.p], [mu00])
        self.g_Stewart_fun = ca.Function('g', [self.x, self.z, self.p], [stack(g)])
    else:
        if self.alpha is not None:
            alpha = self.alpha
        else:
            alpha = [ca.SX.sym('alpha', n_c_sys[i]) for i in range(n_sys)]
        lambda_n = [ca.SX.sym('lambda_n', n_c_sys[i]) for i in range(n_sys)]
        lambda_p = [ca.SX.sym('lambda_p', n_c_sys[i]) for i in range(n_sys)]
        z = ca.vertcat(stack(alpha), stack(lambda_n), stack(lambda_p), self.z)
        if self.F is None:
            f_x = stack(self.f_x)
        else:
            f_x = ca.SX.zeros(n_x, 1)
            for i in range(n_sys):
                for j in range(n_f_sys[i]):
                    weight = 1
                    for k in range(n_c_sys[i]):
                        if self.S[i][j, k] != 0:
                            weight = weight * ((1 - self.S[i][j, k]) / 2 + self.S[i][j, k] * alpha[i][k])
                    f_x = f_x + self.F[i][:, j] * weight
        neg = ca.SX.zeros(0, 1)
        pos = ca.SX.zeros(0, 1)
        for i in range(n_sys):
            g_switching = ca.vertcat(g_switching, self.c[i] - lambda_p[i] + lambda_n[i])
            neg = ca.vertcat(neg, ca.fmax(-self.c[i], 0))
            pos = ca.vertcat(pos, ca.fmax(self.c[i], 0))
        lambda00 = ca.vertcat(neg, pos)

    self.z_all = z
    self.f_x_fun = ca.Function('f_x', [self.x, z, self.u, self.p, self.v_global], [f_x])
    self.g_z_switching_fun = ca.Function('g_switching', [self.x, z, self.u, self.p], [g_switching])
    self.g_z_all_fun = ca.Function('g_all', [self.x, z, self.u, self.p], [ca.vertcat(g_switching, g_convex, self.g_z)])
    self.lambda00_fun = ca.Function('lambda00', [self.x, self.z, self.p], [lambda00])
    if self.t_var is not None:
        self.t_fun = ca.Function('t', [self.x], [self.t_var])
    if opts.rootfinder_for_initial_z:
        g_z = ca.Function('g_z', [self.z, ca.vertcat(self.x, self.p)], [self.g_z])
        self.z0_rootfinder = ca.rootfinder('z0', 'newton', g_z)


def compute_lambda00(self, opts):
    p0 = self.p_val_ctrl_stages[0]
    if opts.rootfinder_for_initial_z:
        z0 = self.z0_rootfinder(self.z0, np.concatenate((self.x0, p0))).full().flatten()
    else:
        z0 = self.z0
    return self.lambda00_fun(self.x0, z0, p0).full().flatten()


def __init__(self, x, x0, F, c, S, g_Stewart, f_x, alpha):
    if F is not None:
        if f_x is not None and alpha is not None:
            raise ValueError('two definitions')
        if c is not None and S is not None:
            if g_Stewart is not None:
                raise ValueError('two definitions')
        elif g_Stewart is None:
            raise ValueError('no regions')
    elif f_x is None or alpha is None:
        raise ValueError('no dynamics')


def add_smooth_step_representation(self, smoothing_parameter):
    """smooth step instead of the region indicator, soft minimum instead of the minimum"""
    if self.g_Stewart:
        raise NotImplementedError()
    if smoothing_parameter <= 0:
        raise ValueError('smoothing_parameter')
    f_x = ca.SX.zeros(self.dims.n_x, 1)
    thetas = ca.SX.zeros(0, 1)
    mus = ca.SX.zeros(0, 1)
    lams = ca.SX.zeros(0, 1)
    for s in range(self.dims.n_sys):
        g = -self.S[s] @ self.c[s]
        for i in range(self.dims.n_f_sys[s]):
            w = 2 ** (self.dims.n_c_sys[s] - sum(np.abs(self.S[s][i, :])))
            for j in range(self.dims.n_c_sys[s]):
                alpha = (1 + ca.tanh(self.c[s][j] / smoothing_parameter)) / 2
                w = w * ((1 - self.S[s][i, j]) / 2 + self.S[s][i, j] * alpha)
            thetas = ca.vertcat(thetas, w)
            f_x = f_x + self.F[s][:, i] * w
        num = 0
        den = 0
        for i in range(self.dims.n_f_sys[s]):
            num = num + g[i] * ca.exp(-g[i] / smoothing_parameter)
            den = den + ca.exp(-g[i] / smoothing_parameter)
        mus = ca.vertcat(mus, -num / den)
        lams = ca.vertcat(lams, g - num / den)
    self.f_x_smooth_fun = ca.Function('f', [self.x], [f_x])
    self.theta_smooth_fun = ca.Function('theta', [self.x, self.p], [thetas])
    self.mu_smooth_fun = ca.Function('mu', [self.x, self.p], [mus])
    self.lambda_smooth_fun = ca.Function('lam', [self.x, self.p], [lams])
