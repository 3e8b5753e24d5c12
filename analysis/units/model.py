"""NosnocModel: reformulation, validation, smoothing, against spec/model_spec.py."""
import random
from ..terms import *
from . import fn
from .fn import en, P, Mat, EvalError, hreal_v

WANT = ['f_x_fun', 'g_z_switching_fun', 'g_z_all_fun', 'z_all', 'lambda00_fun', 'p', 'p_ctrl_stages', 'p_val_ctrl_stages', 'z0', 'lbz', 'ubz', 'p_time_var_val',
        'dims.n_x', 'dims.n_u', 'dims.n_z', 'dims.n_sys', 'dims.n_c_sys', 'dims.n_f_sys', 'dims.n_p_time_var', 'dims.n_p_glob',
        'F', 'S', 'c', 'x', 'u', 'z', 'x0', 'g_z', 'v_global', 'p_global_val']
PROP = {'lambda00_fun': 'C08', 'p': 'C08', 'p_ctrl_stages': 'C08', 'p_val_ctrl_stages': 'C08', 'z0': 'C23', 'lbz': 'C23', 'ubz': 'C23', 'p_time_var_val': 'C23',
        't_fun': 'C30', 'z0_rootfinder': 'C08'}

FILE = 'nosnoc/model.py'

def prop_of(n):
    return PROP.get(n, 'C07')

SIZES = [
    dict(nf=[2, 4], nc=[1, 2], n_x=2, n_u=1, n_z=1, npt=1, npg=1, nv=1, N=2),
    dict(nf=[3], nc=[2], n_x=3, n_u=2, n_z=2, npt=2, npg=1, nv=2, N=3),
    dict(nf=[2, 2, 3], nc=[1, 1, 3], n_x=1, n_u=0, n_z=0, npt=0, npg=2, nv=0, N=1),
    dict(nf=[4, 2], nc=[3, 1], n_x=4, n_u=1, n_z=3, npt=1, npg=3, nv=1, N=4),
    dict(nf=[2, 2], nc=[2, 2], n_x=2, n_u=2, n_z=2, npt=2, npg=2, nv=2, N=3),
]

def data(s, mode, kind, seed, **over):
    """attributes of a model of the given kind: 'cS', 'g', 'f_x'"""
    rnd = random.Random(seed * 7 + 1)
    val = lambda *k: 2 * hreal_v(seed, *k) - 0.9
    n_sys = len(s['nf'])
    S = []
    for i in range(n_sys):
        rows = []
        for j in range(s['nf'][i]):
            rows.append([rnd.choice([-1, 0, 1]) for _ in range(s['nc'][i])])
        rows[0] = [1] * s['nc'][i]
        S.append(Mat(rows))
    at = {
        'self.F': [Mat([[val('F', i, r, c) for c in range(s['nf'][i])] for r in range(s['n_x'])]) for i in range(n_sys)],
        'self.S': S, 'self.c': [[val('c', i, k) for k in range(s['nc'][i])] for i in range(n_sys)],
        'self.g_Stewart': None, 'self.f_x': None, 'self.alpha': None, 'self.theta': None, 'self.t_var': val('t'),
        'self.z0': [val('z0', k) for k in range(s['n_z'])], 'self.lbz': [val('lbz', k) for k in range(s['n_z'])], 'self.ubz': [val('ubz', k) for k in range(s['n_z'])],
        'self.p_global_val': [val('pg', k) for k in range(s['npg'])],
        'self.p_time_var_val': Mat([[val('pt', i, k) for k in range(s['npt'])] for i in range(s['N'])]),
        'self.g_z': [val('g_z', k) for k in range(s['n_z'])],
    }
    for n, k in (('x', 'n_x'), ('u', 'n_u'), ('z', 'n_z'), ('p_time_var', 'npt'), ('p_global', 'npg'), ('v_global', 'nv'), ('x0', 'n_x')):
        at['self.' + n] = [val(n, j) + 10 for j in range(s[k])]
    if kind == 'g':
        at['self.g_Stewart'] = [[val('g', i, k) for k in range(s['nf'][i])] for i in range(n_sys)]
        at['self.c'] = at['self.S'] = None
    if kind == 'f_x':
        at['self.F'] = at['self.S'] = None
        at['self.f_x'] = [[val('f_x', k) for k in range(s['n_x'])]] if n_sys == 1 else \
            [[val('f_x', i, k) for k in range(2)] for i in range(n_sys)]
        at['self.alpha'] = [[val('al', i, k) + 20 for k in range(s['nc'][i])] for i in range(n_sys)]
    at.update({'opts.N_stages': s['N'], 'opts.rootfinder_for_initial_z': False, 'opts.time_freezing': False, 'opts.pss_mode': f'PssMode.{mode}'})
    at.update(over)
    return at

def mk_ev(at, seed):
    return fn.FunEv(fn.env({}, seed, arrays1=['self.p_global_val', 'self.z0', 'self.x0']), {}, dict(at))

def cut(v):
    return v[:-1]

def bad(s, mode, kind, seed):
    """data that do not fit: (name, overrides)"""
    d = data(s, mode, kind, seed)
    n = s['n_z']
    out = [('z0 of another length', {'self.z0': [0.1] * (n + 1)}), ('lbz of another length', {'self.lbz': [0.1] * (n + 1)}), ('ubz of another length', {'self.ubz': [0.1] * (n + 2)}),
           ('p_global_val of another length', {'self.p_global_val': [0.1] * (s['npg'] + 1)}),
           ('p_global_val with two axes', {'self.p_global_val': Mat([[0.1] * max(1, s['npg'])])}),
           ('p_time_var_val with another number of columns', {'self.p_time_var_val': Mat([[0.1] * (s['npt'] + 1)] * s['N'])}),
           ('p_time_var_val with another number of rows', {'self.p_time_var_val': Mat([[0.1] * s['npt']] * (s['N'] + 1))}),
           ('time freezing without a clock', {'opts.time_freezing': True, 'self.t_var': None})]
    if n:
        out += [('z0 shorter than z', {'self.z0': cut(d['self.z0'])}), ('lbz shorter than z', {'self.lbz': cut(d['self.lbz'])}), ('ubz shorter than z', {'self.ubz': cut(d['self.ubz'])})]
    i = len(s['nf']) - 1
    def repl(name, k, v):
        l = list(d[name]); l[k] = v
        return {name: l}
    if kind == 'cS':
        out += [('c and S of different length', {'self.c': d['self.c'] + [d['self.c'][0]]}),
                ('F and S of different length', {'self.S': d['self.S'] + [d['self.S'][0]], 'self.c': d['self.c'] + [d['self.c'][0]]}),
                ('S with another number of rows than F has columns', repl('self.S', i, Mat(d['self.S'][i].rows + [[1] * s['nc'][i]]))),
                ('S with another number of columns than c has entries', repl('self.S', i, Mat([r + [1] for r in d['self.S'][i].rows]))),
                ('c with more entries than S has columns', repl('self.c', i, d['self.c'][i] + [0.3])),
                ('a subsystem with one region', dict(repl('self.F', i, Mat([r[:1] for r in d['self.F'][i].rows])), **repl('self.S', i, Mat(d['self.S'][i].rows[:1])))),
                ('S that is no list', {'self.S': d['self.S'][0]})]
    if kind == 'g':
        out += [('indicators of another length than F has columns', repl('self.g_Stewart', i, d['self.g_Stewart'][i] + [0.2])),
                ('fewer indicators than F has columns', repl('self.g_Stewart', 0, cut(d['self.g_Stewart'][0]))),
                ('indicators in Step mode', {'opts.pss_mode': 'PssMode.STEP'})]
    if kind == 'f_x':
        out += [('general inclusion in Stewart mode', {'opts.pss_mode': 'PssMode.STEWART'}),
                ('alpha of another length than c', repl('self.alpha', i, d['self.alpha'][i] + [20.3]))]
    return out

KINDS = [('STEWART', 'cS'), ('STEWART', 'g'), ('STEP', 'cS'), ('STEP', 'f_x')]

def graphs(mode):
    ty = {'self': 'NosnocModel'}
    pins = {'pss_mode': en('PssMode', mode)}
    want = WANT + (['mu00_stewart_fun', 'g_Stewart_fun'] if mode == 'STEWART' else [])
    w = want + ['t_fun', 'z0_rootfinder']
    a = fn.graph(('method', 'NosnocModel', 'preprocess_model'), ['opts'], pins, ty, want=w)
    b = fn.graph(('func', 'spec_model_spec', 'preprocess_model'), ['self', 'opts'], pins, ty, want=w)
    return a, b, want

def check_model(mode, kind):
    out = fn.Out(f'preprocess_model {mode} {kind}', FILE)
    a, b, want = graphs(mode)
    if b.unsupported:
        raise RuntimeError('reference: ' + str(b.unsupported[:3]))
    for u in a.unsupported[:5]:
        out.und(str(u)[:160])
    if a.unsupported:
        return out.d
    site = 'NosnocModel.preprocess_model'
    crash = {}
    for si, s in enumerate(SIZES):
        for seed in (0, 1, 2):
            for name, over in (('', {}), ('no z0', {'self.z0': None}), ('no bounds', {'self.lbz': None, 'self.ubz': None}), ('no p_time_var_val', {'self.p_time_var_val': None}),
                               ('root finder', {'opts.rootfinder_for_initial_z': True}), ('time freezing', {'opts.time_freezing': True}), ('no clock', {'self.t_var': None}),
                               ('given multipliers', {'self.theta': [[30 + i + k / 9 for k in range(m)] for i, m in enumerate(s['nf'])]} if mode == 'STEWART' and kind == 'cS' else {})):
                at = data(s, mode, kind, seed, **over)
                ea, eb = mk_ev(at, seed), mk_ev(at, seed)
                rb = fn.raised(b, eb)
                if rb:
                    raise RuntimeError(f'reference rejects valid data: {rb}')
                try:
                    ra = fn.raised(a, ea)
                except EvalError as e:
                    out.und(f'raise conditions: {e}')
                    continue
                if ra:
                    out.find('C23', site, f'valid data ({name or "all given"}) are rejected: {ra}', si)
                    continue
                w = want + (['t_fun'] if at['self.t_var'] is not None else []) + (['z0_rootfinder'] if at['opts.rootfinder_for_initial_z'] else [])
                fn.compare_attrs(a, b, ea, eb, w, prop_of, site, out, si)
        for name, over in bad(s, mode, kind, 0):
            at = data(s, mode, kind, 0, **over)
            ea, eb = mk_ev(at, 0), mk_ev(at, 0)
            A, B, W = a, b, want
            if 'opts.pss_mode' in over:
                A, B, W = graphs('STEP' if mode == 'STEWART' else 'STEWART')
                if A.unsupported:
                    continue
            rb = fn.raised(B, eb, True)
            if not rb and name != 'S that is no list':
                raise RuntimeError(f'reference accepts {name} at {si}')
            ra = fn.raised(A, ea, True)
            out.d['compared'] += 1
            if not ra:
                try:                        # an error while the functions are built rejects as well
                    for n in W:
                        fn.value(ea, A.attrs[n])
                except EvalError:
                    continue
                out.find('C23' if 'clock' not in name else 'C30', site, f'{name}: accepted', si)
    out.crashes(prop_of)
    return out.d

def check_lambda00():
    out = fn.Out('compute_lambda00', FILE)
    ty = {'self': 'NosnocModel'}
    a = fn.graph(('method', 'NosnocModel', 'compute_lambda00'), ['opts'], {}, ty)
    b = fn.graph(('func', 'spec_model_spec', 'compute_lambda00'), ['self', 'opts'], {}, ty)
    if a.unsupported:
        out.und(str(a.unsupported[0])[:160])
        return out.d
    for si, s in enumerate(SIZES):
        for seed in range(4):
            at = data(s, 'STEWART', 'cS', seed)
            at['opts.rootfinder_for_initial_z'] = bool(seed % 2)
            n_p = s['npt'] + s['npg']
            at['self.p_val_ctrl_stages'] = Mat([[hreal_v(seed, 'p', i, k) for k in range(n_p)] for i in range(s['N'])])
            def ev():
                e = mk_ev(at, seed)
                e.env.funlen.update({'self.lambda00_fun': sum(s['nf']), 'self.z0_rootfinder': s['n_z']})
                return e
            ea, eb = ev(), ev()
            y = eb.ev(b.ret, {})
            try:
                x = ea.ev(a.ret, {})
            except EvalError as e:
                out.und(str(e)); continue
            out.d['compared'] += 1
            d = fn.diff(x, y, 'initial multipliers', 0)
            if d:
                out.find('C08', 'NosnocModel.compute_lambda00', d, si)
    return out.d

def check_smooth():
    out = fn.Out('add_smooth_step_representation', FILE)
    ty = {'self': 'NosnocModel'}
    w = ['f_x_smooth_fun', 'theta_smooth_fun', 'mu_smooth_fun', 'lambda_smooth_fun']
    a = fn.graph(('method', 'NosnocModel', 'add_smooth_step_representation'), ['smoothing_parameter'], {}, ty, want=w)
    b = fn.graph(('func', 'spec_model_spec', 'add_smooth_step_representation'), ['self', 'smoothing_parameter'], {}, ty, want=w)
    if b.unsupported:
        raise RuntimeError('reference: ' + str(b.unsupported[:3]))
    for u in a.unsupported[:5]:
        out.und(str(u)[:160])
    if a.unsupported:
        return out.d
    site = 'NosnocModel.add_smooth_step_representation'
    for si, s in enumerate(SIZES):
        for seed in range(3):
            at = data(s, 'STEWART', 'cS', seed)
            at['self.p'] = at['self.p_time_var'] + at['self.p_global']
            at.update({'self.dims.n_x': s['n_x'], 'self.dims.n_sys': len(s['nf']), 'self.dims.n_f_sys': list(s['nf']), 'self.dims.n_c_sys': list(s['nc'])})
            at['smoothing_parameter'] = [10.0, 0.3, 1.0][seed]
            ea, eb = mk_ev(at, seed), mk_ev(at, seed)
            try:
                ra = fn.raised(a, ea)
            except EvalError as e:
                out.und(f'raise conditions: {e}'); continue
            if ra:
                out.find('C28', site, f'valid data are rejected: {ra}', si)
                continue
            fn.compare_attrs(a, b, ea, eb, w, lambda n: 'C28', site, out, si)
        for name, over in (('indicators only', {'self.g_Stewart': [[0.2] * k for k in s['nf']], 'self.S': None, 'self.c': None}),
                           ('smoothing parameter zero', {'smoothing_parameter': 0}), ('negative smoothing parameter', {'smoothing_parameter': -0.4})):
            at.update(over)
            ea = mk_ev(at, 0)
            out.d['compared'] += 1
            try:
                ra = fn.raised(a, ea, True)
            except EvalError:
                continue
            if not ra:
                out.find('C28', site, f'{name}: accepted', si)
            at['smoothing_parameter'] = 1.0
    out.crashes(lambda n: 'C28')
    return out.d

def check_init():
    """which combinations of region definitions the constructor accepts"""
    out = fn.Out('NosnocModel.__init__', FILE)
    names = ['F', 'c', 'S', 'g_Stewart', 'f_x', 'alpha']
    stored = ['x', 'x0', 'F', 'c', 'S', 'g_Stewart', 'u', 'z', 'z0', 'lbz', 'ubz', 'alpha', 'theta', 'f_x', 'g_z', 'p_time_var', 'p_global', 'p_time_var_val', 'p_global_val', 'v_global', 't_var', 'name']
    ci = fn.run.program().find_class('NosnocModel')
    have = [x.arg for x in ci.methods['__init__'].args.args[1:]] + [x.arg for x in ci.methods['__init__'].args.kwonlyargs]
    kw = {n: n for n in stored if n in have}
    a = fn.graph(('new', 'NosnocModel'), [], {}, {}, want=[n for n in stored], kwargs=kw)
    b = fn.graph(('func', 'spec_model_spec', '__init__'), ['self', 'x', 'x0'] + ['F', 'c', 'S', 'g_Stewart', 'f_x', 'alpha'], {}, {})
    for u in a.unsupported[:5]:
        out.und(str(u)[:160])
    if a.unsupported:
        return out.d
    for m in range(64):
        at = {n: ([[0.1, 0.2]] if m >> k & 1 else None) for k, n in enumerate(names)}
        ev = lambda: fn.FunEv(fn.env({}, 0), {}, dict(at))
        rb = fn.raised(b, ev())
        try:
            ra = fn.raised(a, ev())
        except EvalError as e:
            out.und(str(e)); continue
        out.d['compared'] += 1
        given = ', '.join(n for n in names if at[n] is not None)
        if bool(ra) != bool(rb):
            out.find('C23', 'NosnocModel.__init__', f'a model with {given or "no region definition"} is {"rejected" if ra else "accepted"}')
    at = {n: [hreal_v(0, n, k) for k in range(2)] for n in stored}
    at.update(f_x=None, alpha=None, g_Stewart=None)
    e = fn.FunEv(fn.env({}, 0), {}, dict(at))
    for n in stored:
        try:
            x = e.ev(a.attrs[n], {})
        except EvalError as er:
            out.und(f'{n}: {er}'); continue
        out.d['compared'] += 1
        if fn.diff(x, at[n]) is not None:
            out.find('C23', 'NosnocModel.__init__', f'attribute {n} is not the argument {n}')
    return out.d
