"""Sampled sizes for the interpretation of value graphs."""
from .evalt import Env

# (n_s, Nfe_list, n_f_sys, n_c_sys, n_x, n_u, n_z, n_p_time, n_p_glob, n_v, n_path, comps rk/ctrl/glob, n_term)
SIZES = [
    dict(n_s=2, Nfe=[2, 3, 1], nf=[2, 4], nc=[1, 2], n_x=2, n_u=1, n_z=1, npt=1, npg=1, nv=1, npath=2, rk=1, ct=1, gl=1, nt=1),
    dict(n_s=3, Nfe=[3, 2], nf=[3], nc=[2], n_x=3, n_u=2, n_z=2, npt=2, npg=1, nv=2, npath=1, rk=2, ct=2, gl=2, nt=2),
    dict(n_s=1, Nfe=[2], nf=[2, 2, 3], nc=[1, 1, 2], n_x=1, n_u=0, n_z=0, npt=0, npg=2, nv=0, npath=0, rk=0, ct=0, gl=0, nt=0),
    dict(n_s=4, Nfe=[1, 4], nf=[3, 2], nc=[2, 1], n_x=4, n_u=1, n_z=3, npt=1, npg=3, nv=1, npath=3, rk=1, ct=3, gl=1, nt=3),
    dict(n_s=3, Nfe=[2], nf=[2, 2], nc=[2, 2], n_x=2, n_u=2, n_z=2, npt=2, npg=2, nv=2, npath=2, rk=2, ct=2, gl=2, nt=2),
]

def nz_all(s, step):
    return 0

def make_env(s, cfg, seed=0, fixed=None, zero_funs=(), alias=None, none=()):
    step = cfg['pss_mode'] == 'STEP'
    rep = cfg['irk_representation']
    ns = s['n_s']
    per = s['nc'] if step else s['nf']
    npt = len(s['Nfe'])
    dims = {
        'opts.n_s': ns, 'opts.N_stages': len(s['Nfe']), 'opts.Nfe_list': list(s['Nfe']), 'model.dims.n_x': s['n_x'],
        'model.dims.n_u': s['n_u'], 'model.dims.n_z': s['n_z'], 'model.dims.n_sys': len(s['nf']), 'model.dims.n_f_sys': list(s['nf']),
        'model.dims.n_c_sys': list(s['nc']), 'model.dims.n_p_time_var': s['npt'], 'model.dims.n_p_glob': s['npg'],
        'model.dims.n_v_global': s['nv'], 'opts.N_finite_elements': s['Nfe'][0],
    }
    for k, v in cfg.items():
        if isinstance(v, bool):
            dims['opts.' + k] = int(v)
    nth = sum(2 * c for c in s['nc']) if step else sum(s['nf'])
    ngz = (sum(s['nf']) + len(s['nf']) if not step else sum(s['nc'])) + s['n_z']
    nsw = ngz
    n_p = s['npt'] + s['npg']
    veclen = {
        'ocp.lbx': s['n_x'], 'ocp.ubx': s['n_x'], 'ocp.lbu': s['n_u'], 'ocp.ubu': s['n_u'], 'ocp.u_guess': s['n_u'],
        'ocp.lbg': s['npath'], 'ocp.ubg': s['npath'], 'ocp.lbv_global': s['nv'], 'ocp.ubv_global': s['nv'],
        'ocp.v_global_guess': s['nv'], 'model.x0': s['n_x'], 'model.z0': s['n_z'], 'model.lbz': s['n_z'], 'model.ubz': s['n_z'],
        'model.v_global': s['nv'], 'model.p_ctrl_stages': [n_p] * npt, 'model.x': s['n_x'], 'model.u': s['n_u'], 'model.z': s['n_z'],
        'opts.C_irk': (ns + 1, ns + 1), 'opts.D_irk': ns + 1, 'opts.B_irk': ns + 1, 'opts.A_irk': (ns, ns), 'opts.b_irk': ns,
        'model.p_val_ctrl_stages': (npt, n_p),
    }
    for n in none:
        veclen[n] = None
    funlen = {
        'model.f_x_fun': s['n_x'], 'model.g_z_all_fun': ngz, 'model.g_z_switching_fun': nsw, 'model.t_fun': 'scalar',
        'ocp.f_q_fun': 'scalar', 'ocp.f_q_T_fun': 'scalar', 'ocp.g_path_fun': s['npath'], 'ocp.g_terminal_fun': s['nt'],
        'ocp.g_rk_comp_fun': (s['rk'], 2), 'ocp.g_ctrl_comp_fun': (s['ct'], 2), 'ocp.g_global_comp_fun': (s['gl'], 2),
    }
    return Env(dims, seed, fixed, zero_funs, None, alias, funlen, veclen)
