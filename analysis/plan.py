"""Per property: the units, what they analyse, and how the evidence is summed up."""
from . import registry, configs
from .configs import cfg

S, ALL = dict(pss_mode='STEP'), dict(cross_comp_mode='COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER')
DIFF, LIFT = dict(irk_representation='DIFFERENTIAL'), dict(irk_representation='DIFFERENTIAL_LIFT_X')
RB, NF = dict(right_boundary_point_explicit=False), dict(use_fesd=False)
EQ = dict(equidistant_control_grid=False)
def M(m):
    return dict(mpcc_mode=m)
def SE(m):
    return dict(step_equilibration=m)
def SOT(m):
    return dict(speed_of_time_variables=m)
LSQ = dict(constraint_handling='LEAST_SQUARES')
TF = dict(time_freezing=True)
FE, STG = dict(g_path_at_fe=True), dict(g_path_at_stg=True)
def J(*ds):
    r = {}
    for d in ds:
        r.update(d)
    return r
FB, IPA = M('FISCHER_BURMEISTER'), J(M('FISCHER_BURMEISTER_IP_AUG'), ALL)
MODES = ['SCHOLTES_EQ', 'FISCHER_BURMEISTER', 'ELASTIC_INEQ', 'ELASTIC_EQ', 'ELASTIC_TWO_SIDED', 'BOOLEAN']
SEQ = ['HEURISTIC_MEAN', 'HEURISTIC_DELTA', 'L2_RELAXED_SCALED', 'L2_RELAXED', 'DIRECT', 'DIRECT_COMPLEMENTARITY', 'HEURISTIC_DELTA_H_COMP']

PROBLEM = {
    'C01': [{}, S, DIFF, LIFT, RB, NF, J(DIFF, RB), J(LIFT, RB), J(S, RB), J(NF, RB), SOT('LOCAL'), J(S, DIFF)],
    'C03': [{}, S, DIFF, LIFT, RB, NF, J(DIFF, RB), J(LIFT, RB), J(NF, RB), EQ],
    'C04': [{}, S, ALL, J(S, ALL), RB, J(RB, ALL), J(S, RB), NF, J(S, NF), FB, J(NF, FB), J(DIFF, RB)],
    'C05': [{}, S, ALL] + [M(m) for m in MODES] + [J(S, M(m)) for m in MODES] + [IPA, J(IPA, S), J(FB, ALL), J(FB, NF), J(NF, M('BOOLEAN')), J(RB, S, FB)],
    'C06': [{}, S, RB, J(S, RB), NF, J(NF, RB), ALL, DIFF],
    'C08': [{}, S],
    'C09': [{}, RB, dict(use_upper_bound_h=False), EQ, NF, J(NF, EQ), J(EQ, RB), J(EQ, TF), SOT('LOCAL')],
    'C10': [SE(m) for m in SEQ] + [J(S, SE('L2_RELAXED')), J(RB, SE('DIRECT')), J(S, RB, SE('L2_RELAXED_SCALED')), J(NF, SE('HEURISTIC_MEAN')), J(NF, SE('DIRECT')),
                                   J(EQ, SE('HEURISTIC_MEAN')), J(FB, SE('DIRECT_COMPLEMENTARITY')), J(M('ELASTIC_TWO_SIDED'), SE('DIRECT_COMPLEMENTARITY')), J(EQ, SE('DIRECT'))],
    'C11': [{}, S, DIFF, LIFT, RB, J(S, RB), M('BOOLEAN'), M('ELASTIC_EQ'), SOT('LOCAL'), SOT('GLOBAL'), NF, J(DIFF, RB)],
    'C12': [{}, DIFF, LIFT, SOT('LOCAL'), M('ELASTIC_INEQ'), M('ELASTIC_EQ'), M('ELASTIC_TWO_SIDED'), J(M('ELASTIC_INEQ'), dict(objective_scaling_direct=False)),
            SE('HEURISTIC_MEAN'), SE('HEURISTIC_DELTA_H_COMP'), NF, RB, J(M('ELASTIC_EQ'), dict(objective_scaling_direct=False), SE('HEURISTIC_MEAN'))],
    'C13': [{}, RB, DIFF, LIFT, FE, STG, J(FE, RB), J(STG, RB), J(STG, DIFF), J(FE, STG), J(STG, DIFF, RB), J(NF, STG), J(FE, STG, RB), J(LIFT, STG, FE), J(NF, FE, RB), S],
    'C14': [{}, S, DIFF, LIFT, RB, FB, M('ELASTIC_TWO_SIDED'), M('BOOLEAN'), NF, J(NF, RB)],
    'C15': [SOT('LOCAL'), SOT('GLOBAL'), {}, J(SOT('LOCAL'), DIFF), J(SOT('GLOBAL'), LIFT), J(SOT('LOCAL'), NF), J(SOT('GLOBAL'), RB), J(SOT('GLOBAL'), EQ)],
    'C25': [J(LSQ, M('SCHOLTES_EQ')), J(LSQ, FB), LSQ, J(LSQ, M('ELASTIC_EQ')), {}],
    'C30': [TF, J(TF, RB), J(TF, DIFF), J(TF, EQ), {}, J(TF, SOT('LOCAL')), J(TF, NF)],
    'C16': [{}, SOT('LOCAL')],
}

TRUST = ['CasADi and NumPy implement the operations used (vertcat, indexing, elementwise arithmetic, Function) as documented',
         'sizes n_s, N_stages, Nfe_list, n_x, n_sys, n_f_sys, n_c_sys are positive; the other dimensions are nonnegative',
         'the value-graph interpreter of /verif/analysis models the Python subset used by the package correctly']

def dedupe(l):
    out = []
    for x in l:
        c = cfg(**x)
        if configs.valid(c) and c not in out:
            out.append(c)
    return out

def pairwise():
    """covering array: every pair of option values occurs in some configuration"""
    ax = configs.AX
    names = list(ax)
    need = {(a, i, b, j) for x, a in enumerate(names) for b in names[x + 1:] for i in range(len(ax[a][1])) for j in range(len(ax[b][1]))}
    out = []
    def pairs(c):
        ix = {k: ax[k][1].index(c[k]) for k in names}
        return {(a, ix[a], b, ix[b]) for x, a in enumerate(names) for b in names[x + 1:]}
    while need:
        a, i, b, j = min(need)
        c = {a: ax[a][1][i], b: ax[b][1][j]}
        for k in names:
            if k in c:
                continue
            best, bn = None, -1
            for v in ax[k][1]:
                c[k] = v
                n = 0
                iv = ax[k][1].index(v)
                for k2 in c:
                    if k2 == k:
                        continue
                    i2 = ax[k2][1].index(c[k2])
                    t = (k, iv, k2, i2) if names.index(k) < names.index(k2) else (k2, i2, k, iv)
                    n += t in need
                if n > bn:
                    best, bn = v, n
            c[k] = best
        c = {k: c[k] for k in names}
        need -= pairs(c)
        if c['constraint_handling'] == 'LEAST_SQUARES' and c['mpcc_mode'] not in ('SCHOLTES_EQ', 'FISCHER_BURMEISTER', 'ELASTIC_EQ'):
            c['constraint_handling'] = 'EXACT'
        if c['mpcc_mode'] == 'FISCHER_BURMEISTER_IP_AUG':
            c['cross_comp_mode'] = 'COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER'
        if configs.valid(c) and c not in out:
            out.append(c)
    return out

def problem_unit(prop, tier):
    cs = dedupe(PROBLEM[prop])
    if tier == 'thorough':
        cs += [c for c in configs.single() if c not in cs]
        cs += [c for c in pairwise() if c not in cs and (c['constraint_handling'] == 'EXACT' or prop == 'C25')]
    rs = registry.parallel([('problem', 'check_config', (c, False)) for c in cs], tier)
    fs = [dict(f, rule='value graph of the assembled problem against the reference formulation') for r in rs for f in r['findings'] if f['prop'] == prop]
    und = [f"{r.get('config', '')}: {u}" for r in rs for u in r['undecided']]
    ident = [r['config'] for r in rs if r.get('identical')]
    cov = dict(configurations=len(cs), identical_normal_form=len(ident),
               compared_by_interpretation=[r['config'] for r in rs if not r.get('failed') and not r.get('identical')],
               attributes_compared=sum(r.get('attrs', 0) for r in rs), undecided=und[:40])
    return fs, cov, dict(programs=len(cs), agreed=len(ident), attrs=sum(31 for r in rs), samples=ident[:6])

def sol(*cs):
    from .units import solver as U
    return [('solver', 'check_solve', (U.cfg(**c),)) for c in cs]
def res(*cs):
    from .units import solver as U
    return [('solver', 'check_results', (U.cfg(**c),)) for c in cs]
def sets(*fields):
    from .units import solver as U
    return [('solver', 'check_set', (f, U.cfg(initialization_strategy='EXTERNAL'))) for f in fields] + \
           [('solver', 'check_set', (f, U.cfg())) for f in fields]
def init(s):
    return dict(initialization_strategy=s)
PREV, EXT, RK4 = init('ALL_XCURRENT_WOPT_PREV'), init('EXTERNAL'), init('RK4_SMOOTHENED')
POL, FIX, SUP = dict(do_polishing_step=True), dict(fix_active_set_fe0=True), dict(homotopy_update_rule='SUPERLINEAR')
ALLFIELDS = ['x0', 'x', 'u', 'v_global', 'p_global', 'p_time_var', 'theta', 'w', 'something_else']

KINDS = [('STEWART', 'cS'), ('STEWART', 'g'), ('STEP', 'cS'), ('STEP', 'f_x')]
MODEL = [('model', 'check_model', k) for k in KINDS]
MINIT, SMOOTH, L00 = [('model', 'check_init', ())], [('model', 'check_smooth', ())], [('model', 'check_lambda00', ())]
OCP, OINIT = [('ocp', 'check_ocp', ())], [('ocp', 'check_init', ())]
OPRE, OVAL, OVALD = [('opts', 'check_preprocess', ())], [('opts', 'check_validate', ())], [('opts', 'check_validated', ())]
BUT = [('butcher', 'check_differential', ()), ('butcher', 'check_integral', ())]
LOOP = [('loop', 'check_loop', ())]
AUTO = [('auto', 'check_recursion', ()), ('auto', 'check_assembly', ())]

def functions():
    """units that compare single functions with their references"""
    return {
        'C01': OPRE,
        'C02': OPRE + BUT,
        'C20': LOOP,
        'C22': OPRE + OVAL + OVALD + [('opts', 'check_read', ())],
        'C26': AUTO,
        'C29': [('diag', 'check_print', ()), ('diag', 'check_solver_print', ())],
        'C06': sol({}, SUP),
        'C07': MODEL,
        'C08': sol({}, PREV, EXT) + sets('x0', 'p_global', 'p_time_var') + MODEL + L00 + [('diag', 'check_dump', ())],
        'C11': [('append', 'check_append', ())],
        'C12': OCP, 'C13': OCP, 'C14': OCP,
        'C23': MODEL + MINIT + OCP + OINIT,
        'C27': [('lint', 'check_lint', ())],
        'C28': SMOOTH,
        'C30': MODEL,
        'C34': [('vf', 'check_field', ())],
        'C09': res({}, NF, S) + OPRE,
        'C15': res(SOT('LOCAL'), SOT('GLOBAL'), {}),
        'C16': sol({}, PREV, EXT, RK4) + sets('x', 'u', 'v_global', 'theta', 'w', 'something_else'),
        'C17': sol({}, SUP, PREV, S, EXT) + OPRE,
        'C18': res({}, S, NF, SOT('LOCAL')) + sol({}, POL, J(POL, S), PREV),
        'C19': sol({}, POL, SUP) + LOOP,
        'C21': sol({}, POL, FIX, PREV, EXT, J(FIX, POL, PREV, NF), RK4) + res({}, S) + sets(*ALLFIELDS) + [('share', 'check_share', ())],
        'C24': sol(POL, J(POL, S), FIX, J(FIX, POL, PREV), J(FIX, S)),
    }

def options_unit(tier):
    """every member of every option, alone: what deviates from the reference there but not with the default options is an option that is not honoured"""
    from .units import solver as U
    cs = [configs.BASE] + [c for c in configs.single() if c != configs.BASE]
    pj = [('problem', 'check_config', (c, False)) for c in cs]
    ss = [U.cfg()] + [U.cfg(**{k: v}) for k, (_, vs) in U.AX.items() for v in vs[1:]]
    sj = [('solver', 'check_solve', (c,)) for c in ss]
    rj = [('solver', 'check_results', (c,)) for c in ss if c == U.cfg() or c['speed_of_time_variables'] != 'NONE' or c['pss_mode'] != 'STEWART' or not c['use_fesd']]
    rs = registry.parallel(pj + sj + rj, tier)
    out, und = [], []
    for jobs, part in ((pj, rs[:len(pj)]), (sj, rs[len(pj):len(pj) + len(sj)]), (rj, rs[len(pj) + len(sj):])):
        if part[0].get('failed'):
            und += part[0]['undecided']
            continue
        base = {(f['prop'], f['site']) for f in part[0]['findings']}
        und += [u for r in part for u in r['undecided']]
        for j, r in list(zip(jobs, part))[1:]:
            default = jobs[0][2][0]
            opt = ', '.join(f'{k}={v}' for k, v in j[2][0].items() if v != default[k])
            for f in r['findings']:
                if (f['prop'], f['site']) not in base:
                    out.append(dict(f, prop='C22', rule='option members are implemented or rejected', text=f'{opt} is not implemented as documented ({f["prop"]}): {f["text"]}'))
                    break
    return out, dict(option_members=len(rs), undecided=sorted(set(und))[:20])

GRAPH = ('The listed functions are turned into value graphs by abstract interpretation (arguments, sizes and library results symbolic) together with reference versions of them; '
         'returned values, logged calls of the NLP solver, raised errors and the final state of shared objects are compared: identical graphs agree for all inputs, other graphs are '
         'interpreted at sampled sizes, index layouts and values and reported only if they differ.')

def function_unit(prop, tier):
    jobs = functions().get(prop, [])
    if tier == 'thorough':
        jobs = [(m, f, a, dict(seeds=tuple(range(16)))) if f == 'check_solve' else (m, f, a) for m, f, a in jobs]
    rs = registry.parallel(jobs, tier)
    fs = [f for r in rs for f in r['findings'] if f['prop'] == prop]
    und = [f"{r.get('config', '')}: {u}" for r in rs for u in r['undecided']]
    cov = dict(functions=[r.get('config', '') for r in rs if not r.get('failed')], compared_points=sum(r.get('compared', 0) for r in rs),
               identical=[r['config'] for r in rs if r.get('identical')], undecided=und[:40],
               rules=sorted({x for r in rs for x in r.get('rules', [])}), obligations=sum(r.get('obligations', 0) for r in rs))
    return fs, cov, rs

LEVEL = {'C02': 'other', 'C27': 'other'}
EXTRA = {
    'C02': 'The Butcher tables are propagated as constants through the generating functions for every scheme and number of stages and checked against the row-sum, order, stage-order and stiff-accuracy conditions.',
    'C21': 'Ownership: every change in place in the package is traced to the attribute, argument, default, class-level or module-level object it reaches, through calls; attributes changed in place must hold objects '
           'that were made for them (to the depth of the change), and arguments of public functions are not changed.',
    'C27': 'Every name, import, member of a module or enumeration, attribute of an object of known type, call shape, unpacking, result key and enum-keyed table of the package is resolved against its definitions; '
           'locals and attributes must be assigned on every path (definite-assignment dataflow that keeps the conditions of the branches).',
}

def run(prop, tier, seed):
    findings, cov, assumptions = [], {}, list(TRUST)
    expl = []
    level = 'other'
    n = agreed = attrs = 0
    samples = []
    if prop in PROBLEM:
        f, c, t = problem_unit(prop, tier)
        findings += f
        cov['problem'] = c
        level = 'translation_validation'
        n += t['programs']; attrs += t['attrs']; samples += t['samples']
        expl.append('For every listed option configuration the constructor of the problem is interpreted abstractly with all sizes and data symbolic; the resulting value graph '
                    '(variables, bounds, guesses, constraints, bounds, cost, parameters, index sets, residual) is compared with the one of the reference formulation: identical normal '
                    'forms hold for all sizes, other graphs are compared by interpretation at sampled sizes and reported only if they differ.')
    if prop in functions():
        f, c, rs = function_unit(prop, tier)
        findings += f
        cov['functions'] = c
        if any(r.get('compared') for r in rs) or level != 'other':
            level = 'translation_validation'
            expl.append(GRAPH)
        n += len(rs); attrs += c['compared_points']; samples += c['functions'][:6]
    if prop == 'C22':
        f, c = options_unit(tier)
        findings += f
        cov['option_members'] = c
        n += c['option_members']
        expl.append('Every member of every enumerated or boolean option is analysed alone: a deviation from the reference that does not occur with the default options means that the option is not honoured. '
                    'Every declared option is read by some function other than its own printing and validation.')
    level = LEVEL.get(prop, level)
    if prop in EXTRA:
        expl.append(EXTRA[prop])
    if level == 'translation_validation':
        cov.update(programs=n, disagreements_checked=attrs, samples=samples[:8])
    cov['explanation'] = ' '.join(expl)
    return dict(findings=findings, coverage=cov, level=level, assumptions=assumptions)
