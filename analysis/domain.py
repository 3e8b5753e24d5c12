"""Facts about the objects of the analysed package used by the value-graph analysis."""
from .terms import *
from . import terms as TT
from . import interp as I

DIMS = ('n_u', 'n_s', 'n_x', 'n_f_sys', 'n_c_sys', 'n_sys', 'n_p_time_var', 'n_p_glob', 'n_v_global', 'n_z',
        'N_stages', 'Nfe_list', 'N_finite_elements', 'fe_idx', 'ctrl_idx', 'n_rkstages', 'n_theta', 'n_lambda')
TT.INT_ATTR.update(DIMS)
TT.SCALAR_ATTR.update({'n_u', 'n_s', 'n_x', 'n_sys', 'n_p_time_var', 'n_p_glob', 'n_v_global', 'n_z', 'N_stages',
                       'fe_idx', 'ctrl_idx', 'terminal_time', 'gamma_h', 'sigma_0', 'sigma_N', 'rho_h',
                       'speed_of_time_min', 'speed_of_time_max', 's_elastic_min', 's_elastic_max', 's_elastic_0',
                       'step_equilibration_sigma', 'fb_ip_aug1_weight', 'fb_ip_aug2_weight', 'comp_tol',
                       'time_freezing_tolerance', 'max_iter_homotopy', 'homotopy_update_slope', 'homotopy_update_exponent',
                       'time_step', 'smoothing_parameter', 'terminal_time', 'gamma_h'})
TT.SCALAR_ELEM.update({'n_f_sys', 'n_c_sys', 'Nfe_list', 'b_irk', 'A_irk', 'B_irk', 'C_irk', 'D_irk'})

TT.SCALAR_FUN.update({'f_q_fun', 'f_q_T_fun', 't_fun'})

def _pos(t):
    if t.op == 'attr':
        return t.args[1] in ('n_s', 'N_stages', 'n_x', 'n_sys', 'n_rkstages')
    if t.op == 'index' and t.args[0].op == 'attr':
        return t.args[0].args[1] in ('Nfe_list', 'n_f_sys', 'n_c_sys')
    if t.op == 'call':
        v = TT._extremum(t)
        return v is not None and v.args[1] in ('Nfe_list', 'n_f_sys', 'n_c_sys')
    return False
def _nonneg_attr(t):
    return t.op == 'attr' and t.args[1] in ('n_u', 'n_z', 'n_p_time_var', 'n_p_glob', 'n_v_global')
TT.POS_FACTS.append(_pos)

class PkgDomain(I.Domain):
    attr_types = {'opts': 'NosnocOpts', 'model': 'NosnocModel', 'ocp': 'NosnocOcp', 'dims': 'NosnocDims', 'problem': 'NosnocProblem'}
    param_types = {'opts': 'NosnocOpts', 'model': 'NosnocModel', 'ocp': 'NosnocOcp', 'problem': 'NosnocProblem'}
    def __init__(self, pins=None):
        self.pins = pins or {}         # attribute name of opts -> term
    def obj_class(self, t):
        if t.op == 'param':
            return self.param_types.get(t.args[0])
        return None
    def attr_value(self, obj, name):
        if obj.op == 'param' and obj.args[0] == 'opts' or (obj.op == 'attr' and obj.args[1] == 'opts'):
            if name in self.pins:
                return self.pins[name]
        return None
    def islist(self, t):
        if t.op == 'attr':
            return t.args[1].startswith('ind_')
        if t.op == 'index':
            return self.islist(t.args[0])
        return False

LEN = {'x0': 'n_x', 'lbx': 'n_x', 'ubx': 'n_x', 'lbu': 'n_u', 'ubu': 'n_u', 'u_guess': 'n_u', 'z0': 'n_z', 'lbz': 'n_z', 'ubz': 'n_z',
       'lbv_global': 'n_v_global', 'ubv_global': 'n_v_global', 'v_global_guess': 'n_v_global', 'v_global': 'n_v_global',
       'x': 'n_x', 'u': 'n_u', 'z': 'n_z'}
def _lenhook(t):
    if t.op == 'attr' and t.args[1] in LEN and t.args[0].op in ('param', 'attr') and t.args[0].args[-1] in ('model', 'ocp'):
        return mk('attr', mk('attr', mk('param', 'model'), 'dims'), LEN[t.args[1]])
    if t.op == 'attr' and t.args[1] in ('p_ctrl_stages', 'Nfe_list', 'p_val_ctrl_stages'):
        return mk('attr', mk('param', 'opts'), 'N_stages')
    if t.op == 'call' and t.args[0].__class__ is T and t.args[0].op == 'attr':
        if t.args[0].args[1] == 'f_x_fun':
            return mk('attr', mk('attr', mk('param', 'model'), 'dims'), 'n_x')
        return mk('len', t.args[0])
    if t.op == 'index' and t.args[0].op == 'call' and t.args[0].args[0] == 'horzsplit':
        return length(t.args[0].args[1])
    return None
TT.LEN_HOOKS.append(_lenhook)
