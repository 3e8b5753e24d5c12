"""Reference for the OCP data.  Never executed; read by the value-graph interpreter."""
import numpy as np
import casadi as ca


def check_length(v, n):
    if v is not None and len(v) != n:
        raise ValueError('length')


def check_shape(v, n):
    if v is not None and v.shape != (n,):
        raise ValueError('shape')


def default(v, n, fill):
    if v is None:
        return fill * np.ones(n)
    return v


def preprocess_ocp(self, model):
    n_x, n_u = model.dims.n_x, model.dims.n_u
    n_v, n_g = model.v_global.shape[0], self.g_path.shape[0]
    if self.g_path_comp.shape[1] != 2:
        raise ValueError('width')
    check_length(self.lbg, n_g)
    check_length(self.ubg, n_g)
    check_length(self.lbx, n_x)
    check_length(self.ubx, n_x)
    check_length(self.lbu, n_u)
    check_length(self.ubu, n_u)
    check_length(self.u_guess, n_u)
    check_shape(self.lbv_global, n_v)
    check_shape(self.ubv_global, n_v)
    check_shape(self.v_global_guess, n_v)
    self.lbg = default(self.lbg, n_g, 0)
    self.ubg = default(self.ubg, n_g, 0)
    self.lbx = default(self.lbx, n_x, -np.inf)
    self.ubx = default(self.ubx, n_x, np.inf)
    self.lbu = default(self.lbu, n_u, -np.inf)
    self.ubu = default(self.ubu, n_u, np.inf)
    self.u_guess = default(self.u_guess, n_u, 0)
    self.lbv_global = default(self.lbv_global, n_v, -np.inf)
    self.ubv_global = default(self.ubv_global, n_v, np.inf)
    self.v_global_guess = default(self.v_global_guess, n_v, 0)

    stage = ca.vertcat(model.x, model.z)
    ctrl = ca.vertcat(model.u, model.p_time_var)
    g_stage = ca.SX.zeros(0, 2)
    g_ctrl = ca.SX.zeros(0, 2)
    g_glob = ca.SX.zeros(0, 2)
    for k in range(self.g_path_comp.shape[0]):
        row = self.g_path_comp[k, :]
        if any(ca.which_depends(row, stage)):
            g_stage = ca.vertcat(g_stage, row)
        elif any(ca.which_depends(row, ctrl)):
            g_ctrl = ca.vertcat(g_ctrl, row)
        else:
            g_glob = ca.vertcat(g_glob, row)

    self.g_terminal_fun = ca.Function('g_terminal', [model.x, model.p, model.v_global], [self.g_terminal])
    self.f_q_T_fun = ca.Function('f_q_T', [model.x, model.p, model.v_global], [self.f_terminal])
    self.f_q_fun = ca.Function('f_q', [model.x, model.u, model.p, model.v_global], [self.f_q])
    self.g_path_fun = ca.Function('g_path', [model.x, model.u, model.p, model.v_global], [self.g_path])
    self.g_rk_comp_fun = ca.Function('g_rk', [model.x, model.u, model.z_all, model.p, model.v_global], [g_stage])
    self.g_ctrl_comp_fun = ca.Function('g_ctrl', [model.u, model.p, model.v_global], [g_ctrl])
    self.g_global_comp_fun = ca.Function('g_glob', [model.p_global, model.v_global], [g_glob])
