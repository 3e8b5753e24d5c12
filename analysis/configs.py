"""Option configurations: every enumerated / boolean option is pinned, all sizes, scalars and data stay symbolic."""
import itertools
from .terms import *

AX = dict(
    pss_mode=('PssMode', ['STEWART', 'STEP']),
    irk_representation=('IrkRepresentation', ['INTEGRAL', 'DIFFERENTIAL', 'DIFFERENTIAL_LIFT_X']),
    mpcc_mode=('MpccMode', ['SCHOLTES_INEQ', 'SCHOLTES_EQ', 'FISCHER_BURMEISTER', 'FISCHER_BURMEISTER_IP_AUG',
                            'ELASTIC_INEQ', 'ELASTIC_EQ', 'ELASTIC_TWO_SIDED', 'BOOLEAN']),
    cross_comp_mode=('CrossComplementarityMode', ['SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA',
                                                  'COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER']),
    step_equilibration=('StepEquilibrationMode', ['HEURISTIC_MEAN', 'HEURISTIC_DELTA', 'L2_RELAXED_SCALED', 'L2_RELAXED',
                                                  'DIRECT', 'DIRECT_COMPLEMENTARITY', 'HEURISTIC_DELTA_H_COMP']),
    speed_of_time_variables=('SpeedOfTimeVariableMode', ['NONE', 'LOCAL', 'GLOBAL']),
    constraint_handling=('ConstraintHandling', ['EXACT', 'LEAST_SQUARES']),
    use_fesd=(None, [True, False]),
    right_boundary_point_explicit=(None, [True, False]),
    use_upper_bound_h=(None, [True, False]),
    g_path_at_fe=(None, [False, True]),
    g_path_at_stg=(None, [False, True]),
    time_freezing=(None, [False, True]),
    equidistant_control_grid=(None, [True, False]),
    objective_scaling_direct=(None, [True, False]),
)
BASE = {k: v[1][0] for k, v in AX.items()}
BASE['step_equilibration'] = 'HEURISTIC_DELTA'

def cfg(**kw):
    c = dict(BASE)
    c.update(kw)
    return c

def name(c):
    d = [f'{k}={v}' for k, v in c.items() if v != BASE[k]]
    return ','.join(d) or 'base'

def pins(c):
    out = {}
    for k, v in c.items():
        e = AX[k][0]
        out[k] = boolT(v) if e is None else mk('enum', e, v)
    return out

def valid(c):
    # IP_AUG takes a single complementary vector: the summed cross complementarity is rejected by the code
    if c['mpcc_mode'] == 'FISCHER_BURMEISTER_IP_AUG' and c['use_fesd'] and c['cross_comp_mode'].startswith('SUM'):
        return False
    if c['constraint_handling'] == 'LEAST_SQUARES':
        return True
    return True

def single():
    """base and every single-option variation (with what the option needs to matter)"""
    out = []
    for k, (e, vals) in AX.items():
        for v in vals:
            c = cfg(**{k: v})
            if k == 'mpcc_mode' and v == 'FISCHER_BURMEISTER_IP_AUG':
                c['cross_comp_mode'] = 'COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER'
            if k == 'objective_scaling_direct' and v is False:
                c['mpcc_mode'] = 'ELASTIC_INEQ'
            if c not in out:
                out.append(c)
    return out
