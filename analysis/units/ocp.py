"""NosnocOcp against spec/ocp_spec.py."""
from ..terms import *
from . import fn
from .fn import en, P, Mat, EvalError, hreal_v, hkey

FILE = 'nosnoc/ocp.py'
FUNS = {'g_terminal_fun': 'C13', 'f_q_T_fun': 'C12', 'f_q_fun': 'C12', 'g_path_fun': 'C13', 'g_rk_comp_fun': 'C14', 'g_ctrl_comp_fun': 'C14', 'g_global_comp_fun': 'C14'}
VECS = {'lbg': ('ng', 0), 'ubg': ('ng', 0), 'lbx': ('n_x', -1), 'ubx': ('n_x', 1), 'lbu': ('n_u', -1), 'ubu': ('n_u', 1), 'u_guess': ('n_u', 0),
        'lbv_global': ('nv', -1), 'ubv_global': ('nv', 1), 'v_global_guess': ('nv', 0)}
SIZES = [
    dict(n_x=2, n_u=1, n_z=1, npt=1, npg=1, nv=1, ng=2, nt=1, nc=4),
    dict(n_x=3, n_u=2, n_z=2, npt=2, npg=1, nv=2, ng=1, nt=2, nc=6),
    dict(n_x=1, n_u=0, n_z=0, npt=0, npg=2, nv=0, ng=0, nt=0, nc=1),
    dict(n_x=4, n_u=3, n_z=3, npt=1, npg=3, nv=3, ng=3, nt=3, nc=5),
    dict(n_x=2, n_u=1, n_z=0, npt=1, npg=0, nv=1, ng=1, nt=1, nc=0),
]

def data(s, seed, **over):
    val = lambda *k: 2 * hreal_v(seed, *k) - 0.9
    at = {}
    for n, k in (('x', 'n_x'), ('u', 'n_u'), ('z', 'n_z'), ('p_time_var', 'npt'), ('p_global', 'npg'), ('v_global', 'nv')):
        at['model.' + n] = [val(n, j) + 10 for j in range(s[k])]
    at['model.p'] = at['model.p_time_var'] + at['model.p_global']
    at['model.z_all'] = [val('zz', j) + 15 for j in range(5)] + at['model.z']
    at['model.dims.n_v_global'] = s['nv']        # length of model.v_global
    for n in ('n_x', 'n_u', 'n_z'):
        at['model.dims.' + n] = s[n]
    at['model.dims.n_p_time_var'], at['model.dims.n_p_glob'] = s['npt'], s['npg']
    for n, (k, _) in VECS.items():
        at['self.' + n] = [val(n, j) for j in range(s[k])]
    at['self.g_terminal'] = [val('gt', j) for j in range(s['nt'])]
    at['self.g_path'] = [val('gp', j) for j in range(s['ng'])]
    at['self.f_q'], at['self.f_terminal'] = val('fq'), val('ft')
    at['self.g_path_comp'] = Mat([[val('gc', j, k) for k in range(2)] for j in range(s['nc'])])
    if not s['nc']:
        at['self.g_path_comp'] = fn.Empty(0, 2)
    at.update(over)
    return at

def depends(s, at, seed):
    """which_depends: every row depends on some of the variables"""
    def f(ev, e, v, *o):
        row = ev.flat(e, [])
        vs = ev.flat(v, [])
        r = repr(round(row[0], 9)) if row else ''
        return [any(hreal_v(seed, 'dep', r, k, round(x, 9)) < 0.18 for x in vs) for k in range(len(row))]
    return f

def mk_ev(s, at, seed):
    e = fn.FunEv(fn.env({}, seed, arrays1=['self.' + n for n in VECS]), {}, dict(at))
    d = depends(s, at, seed)
    e.EXT = dict(e.EXT, **{'casadi.which_depends': d})
    return e

def check_ocp():
    out = fn.Out('preprocess_ocp', FILE)
    ty = {'self': 'NosnocOcp'}
    want = list(FUNS) + list(VECS)
    a = fn.graph(('method', 'NosnocOcp', 'preprocess_ocp'), ['model'], {}, ty, want=want)
    b = fn.graph(('func', 'spec_ocp_spec', 'preprocess_ocp'), ['self', 'model'], {}, ty, want=want)
    if b.unsupported:
        raise RuntimeError('reference: ' + str(b.unsupported[:3]))
    for u in a.unsupported[:5]:
        out.und(str(u)[:160])
    if a.unsupported:
        return out.d
    site = 'NosnocOcp.preprocess_ocp'
    prop_of = lambda n: FUNS.get(n, 'C23')
    for si, s in enumerate(SIZES):
        for seed in range(6):
            sets = [{}] + [{'self.' + n: None} for n in VECS] + [{'self.' + n: None for n in VECS}]
            for over in sets if seed == 0 else sets[:1]:
                at = data(s, seed, **over)
                ea, eb = mk_ev(s, at, seed), mk_ev(s, at, seed)
                rb = fn.raised(b, eb)
                if rb:
                    raise RuntimeError(f'reference rejects valid data: {rb}')
                try:
                    ra = fn.raised(a, ea)
                except EvalError as e:
                    out.und(f'raise conditions: {e}'); continue
                if ra:
                    out.find('C23', site, f'valid data (not given: {", ".join(over) or "none"}) are rejected: {ra}', si)
                    continue
                fn.compare_attrs(a, b, ea, eb, want, prop_of, site, out, si)
        d = data(s, 0)
        bads = [(f'{n} longer than its dimension', {'self.' + n: d['self.' + n] + [0.3]}) for n in VECS]
        bads += [(f'{n} shorter than its dimension', {'self.' + n: d['self.' + n][:-1]}) for n in VECS if d['self.' + n]]
        bads += [('path complementarities with three columns', {'self.g_path_comp': Mat([[0.1, 0.2, 0.3]] * max(1, s['nc']))}),
                 ('path complementarities with one column', {'self.g_path_comp': Mat([[0.1]] * max(1, s['nc']))})]
        for name, over in bads:
            at = data(s, 0, **over)
            ea, eb = mk_ev(s, at, 0), mk_ev(s, at, 0)
            if not fn.raised(b, eb, True):
                raise RuntimeError(f'reference accepts {name}')
            out.d['compared'] += 1
            if not fn.raised(a, ea, True):
                try:
                    for n in want:
                        fn.value(ea, a.attrs[n])
                except EvalError:
                    continue
                out.find('C23', site, f'{name}: accepted', si)
    out.crashes(prop_of)
    return out.d

def check_init():
    """every argument is stored under its own name"""
    out = fn.Out('NosnocOcp.__init__', FILE)
    ci = fn.run.program().find_class('NosnocOcp')
    have = [x.arg for x in ci.methods['__init__'].args.args[1:]] + [x.arg for x in ci.methods['__init__'].args.kwonlyargs]
    stored = [n for n in list(VECS) + ['f_q', 'f_terminal', 'g_path', 'g_terminal', 'g_path_comp'] if n in have]
    a = fn.graph(('new', 'NosnocOcp'), [], {}, {}, want=stored, kwargs={n: n for n in stored})
    for u in a.unsupported[:5]:
        out.und(str(u)[:160])
    at = {n: [hreal_v(0, n, k) for k in range(2)] for n in stored}
    e = fn.FunEv(fn.env({}, 0), {}, dict(at))
    for n in stored:
        try:
            x = fn.value(e, a.attrs[n])
        except EvalError as er:
            out.und(f'{n}: {er}'); continue
        out.d['compared'] += 1
        if fn.diff(x, at[n]) is not None:
            out.find('C13' if n not in ('f_q', 'f_terminal') else 'C12', 'NosnocOcp.__init__', f'attribute {n} is not the argument {n}')
    return out.d
