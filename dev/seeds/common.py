import sys
import numpy as np
import casadi as ca
import nosnoc
from nosnoc.problem import NosnocProblem

def model(n_sys=1, n_u=0, n_z=0, n_p=0, n_v=0, stages=1, x0=None, **kw):
    """n_sys scalar sign systems, states x_1..x_n"""
    n = n_sys
    x = ca.SX.sym('x', n)
    args = dict(x=x, x0=np.array(x0 if x0 is not None else -0.3 - 0.1 * np.arange(n)))
    u = ca.SX.sym('u', n_u)
    if n_u:
        args['u'] = u
    if n_z:
        z = ca.SX.sym('z', n_z)
        args.update(z=z, g_z=z - x[0] - 2.0, z0=1.5 * np.ones(n_z))
    F, c, S = [], [], []
    for i in range(n_sys):
        e = np.zeros(n); e[i] = 1.0
        d = ca.DM(e)
        du = u[0] if n_u else 0.0
        F.append(ca.horzcat(d * (3.0 + i + du), d * (1.0 + du)))
        c.append(x[i])
        S.append(np.array([[-1], [1]]))
    args.update(F=F, S=S, c=c)
    args.update(kw)
    return nosnoc.NosnocModel(**args)

def options(**kw):
    o = dict(print_level=0, terminal_time=1.0, N_stages=1, Nfe_list=[2], n_s=2)
    o.update(kw)
    return nosnoc.NosnocOpts(**o)

def problem(opts, m, ocp=None):
    opts.preprocess()
    m.preprocess_model(opts)
    return NosnocProblem(opts, m, ocp)

def names(v):
    return [v[i].name() for i in range(v.shape[0])]

def syms(e):
    return {s.name() for s in ca.symvar(e)}

def fail(msg):
    print('BROKEN:', msg)
    sys.exit(1)
