"""Drivers and references for appending variables and constraints.  Never executed; read by the value-graph interpreter."""
import numpy as np
import casadi as ca
from nosnoc.problem import NosnocFormulationObject


def code_plain(a, la, ua, ia, b, lb, ub, ib):
    o = NosnocFormulationObject()
    ind = []
    o.add_variable(a, ind, la, ua, ia)
    o.add_variable(b, ind, lb, ub, ib)
    return [o.w, o.lbw, o.ubw, o.w0, ind]


def code_stage(a, la, ua, ia, b, lb, ub, ib):
    o = NosnocFormulationObject()
    ind = [[], []]
    o.add_variable(a, ind, la, ua, ia, 1)
    o.add_variable(b, ind, lb, ub, ib, 0)
    return [o.w, o.lbw, o.ubw, o.w0, ind]


def code_sys(a, la, ua, ia, b, lb, ub, ib):
    o = NosnocFormulationObject()
    ind = [[[], []]]
    o.add_variable(a, ind, la, ua, ia, 0, 1)
    o.add_variable(b, ind, lb, ub, ib, stage=0, sys=0)
    return [o.w, o.lbw, o.ubw, o.w0, ind]


def vector(a, la, ua, ia, b, lb, ub, ib):
    return [ca.vertcat(a, b), np.concatenate((la, lb)), np.concatenate((ua, ub)), np.concatenate((ia, ib))]


def check(a, la, ua, ia):
    if len(la) != a.shape[0] or len(ua) != a.shape[0] or len(ia) != a.shape[0]:
        raise ValueError('length')


def ref_plain(a, la, ua, ia, b, lb, ub, ib):
    check(a, la, ua, ia)
    check(b, lb, ub, ib)
    na, nb = a.shape[0], b.shape[0]
    return vector(a, la, ua, ia, b, lb, ub, ib) + [[list(range(0, na)), list(range(na, na + nb))]]


def ref_stage(a, la, ua, ia, b, lb, ub, ib):
    check(a, la, ua, ia)
    check(b, lb, ub, ib)
    na, nb = a.shape[0], b.shape[0]
    return vector(a, la, ua, ia, b, lb, ub, ib) + [[list(range(na, na + nb)), list(range(0, na))]]


def ref_sys(a, la, ua, ia, b, lb, ub, ib):
    check(a, la, ua, ia)
    check(b, lb, ub, ib)
    na, nb = a.shape[0], b.shape[0]
    return vector(a, la, ua, ia, b, lb, ub, ib) + [[[list(range(na, na + nb)), list(range(0, na))]]]


def code_con(a, la, ua, b, lb, ub):
    o = NosnocFormulationObject()
    ind = []
    o.add_constraint(a, la, ua)
    o.add_constraint(b, lb=lb, ub=ub, index=ind)
    return [o.g, o.lbg, o.ubg, ind]


def ref_con(a, la, ua, b, lb, ub):
    na, nb = a.shape[0], b.shape[0]
    if len(la) != na or len(ua) != na or len(lb) != nb or len(ub) != nb:
        raise ValueError('length')
    return [ca.vertcat(a, b), np.concatenate((la, lb)), np.concatenate((ua, ub)), [list(range(na, na + nb))]]


def code_con_default(a, b, ub, c, lc):
    o = NosnocFormulationObject()
    ind = []
    o.add_constraint(a, index=ind)
    o.add_constraint(b, ub=ub)
    o.add_constraint(c, lb=lc, index=ind)
    return [o.g, o.lbg, o.ubg, ind]


def ref_con_default(a, b, ub, c, lc):
    na, nb, nc = a.shape[0], b.shape[0], c.shape[0]
    if len(ub) != nb or len(lc) != nc:
        raise ValueError('length')
    return [ca.vertcat(a, b, c), np.concatenate((np.zeros(na), np.zeros(nb), lc)), np.concatenate((np.zeros(na), ub, np.zeros(nc))),
            [list(range(0, na)), list(range(na + nb, na + nb + nc))]]
