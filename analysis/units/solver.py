"""Functions of the solver against their reference (spec/solver_spec.py).

Both are turned into value graphs: result, final state of every object that is shared with the
caller, log of NLP calls, raised errors.  Identical graphs agree for all inputs; other graphs are
interpreted at sampled sizes, index layouts and values."""
import math, os, random
from .. import run, configs, interp as I, prims
from . import fn
from ..terms import *
from ..soldomain import SolverDomain, DEPTH
from ..evalt import Env, EvalError, Mat, hreal
from ..evalfn import FnEv, diff, hreal_v, hkey, digest, UNSET, fl

en = lambda c, m: mk('enum', c, m)
P = run.P

AX = dict(
    initialization_strategy=('InitializationStrategy', ['ALL_XCURRENT_W0_START', 'ALL_XCURRENT_WOPT_PREV', 'EXTERNAL', 'RK4_SMOOTHENED']),
    pss_mode=('PssMode', ['STEWART', 'STEP']),
    homotopy_update_rule=('HomotopyUpdateRule', ['LINEAR', 'SUPERLINEAR']),
    speed_of_time_variables=('SpeedOfTimeVariableMode', ['NONE', 'LOCAL', 'GLOBAL']),
    do_polishing_step=(None, [False, True]),
    fix_active_set_fe0=(None, [False, True]),
    use_fesd=(None, [True, False]),
)

def cfg(**kw):
    c = {k: v[1][0] for k, v in AX.items()}
    c['print_level'] = 0
    c.update(kw)
    return c

def pins(c):
    out = {}
    for k, v in c.items():
        cl = AX[k][0] if k in AX else None
        out[k] = en(cl, v) if cl else boolT(v) if isinstance(v, bool) else num(v)
    return out

def graph(fn, args, pin, ref):
    P = lambda a: a if isinstance(a, T) else run.P(a)
    it = I.Interp(run.program(), SolverDomain(pin))
    prims.install(it)
    st = I.State()
    if ref:
        m = it.prog.modules['spec_solver_spec']
        it.frames.append(I.Frame(m, None, 'check'))
        f = it.from_resolved(it.prog.resolve('spec_solver_spec', fn), st)
        args = [P(a) for a in args]
    else:
        ci = it.prog.find_class('NosnocSolver')
        it.frames.append(I.Frame(ci.module, None, 'check'))
        if args and args[0] == 'self':
            f = it.getattr(P('self'), fn, st)
            args = [P(a) for a in args[1:]]
        else:
            f = it.from_resolved(it.prog.resolve('nosnoc.solver', fn), st)
            args = [P(a) for a in args]
    r = it.call(f, args, {}, None, st)
    heap = {}
    for (k, attr), ents in st.heap.items():
        if not isinstance(k, T) or attr == '#last':
            continue
        for e in ents:
            heap[(show(k), attr, tuple(show(x) for x in e[1]))] = it.reify(st, it.V(st, e[3]))
    rebound = {(show(k), attr): ents[0][3] for (k, attr), ents in st.heap.items()
               if isinstance(k, T) and attr not in ('#last', '[]') and len(ents) == 1 and not ents[0][1]}
    return dict(leaves=leaves(it, st, r), rebound=rebound, ret=it.reify(st, it.V(st, r)), dead=st.dead, heap=heap, raises=list(it.raises), unsupported=list(it.unsupported), it=it)

def leaves(it, st, t, seen=None):
    """objects a result gives access to"""
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen:
        return set()
    seen.add(t)
    out = {t}
    if t.op == 'new':
        v = it.V(st, t)
        if v is not t and v.op in ('list', 'dict', 'tuple', 'fold', 'ite'):
            out |= leaves(it, st, v, seen) - {v}
    elif t.op == 'dict':
        for k, v in t.args[0]:
            out |= leaves(it, st, v, seen)
    elif t.op == 'fold':
        inits, nexts, fps = t.args[3:6]
        todo, done = [0], set()
        while todo:
            j = todo.pop()
            if j in done:
                continue
            done.add(j)
            r = leaves(it, st, inits[j], seen) | leaves(it, st, nexts[j], seen)
            todo += [k for k, p in enumerate(fps) if p in r]
            out |= r
    elif t.op in ('list', 'tuple', 'el', 'opt', 'rep', 'ite', 'spread'):
        def go(a):
            if isinstance(a, T):
                return leaves(it, st, a, seen)
            r = set()
            if isinstance(a, tuple):
                for x in a:
                    r |= go(x)
            return r
        for a in t.args:
            out |= go(a)
    return out

# containers that later calls change in place (set, solve)
INPLACE = [('problem', 'w0'), ('model', 'p_val_ctrl_stages')]

def aliases(g):
    """places of the result, or arguments, that are the very container a later call writes into"""
    bad = []
    for o, n in INPLACE:
        cur = g['rebound'].get((o, n))
        obj = mk('attr', mk('param', o), n)
        for c in ([obj] if cur is None else [cur]):
            if c in g['leaves']:
                bad.append((f'{o}.{n}', 'the result contains'))
            if c.op == 'param':
                bad.append((f'{o}.{n}', f'argument {c.args[0]} becomes'))
    return bad

# ------------------------------------------------------------------- sampled data
SIZES = [
    dict(n_s=2, Nfe=[2, 3, 1], nf=[2, 4], nc=[1, 2], n_x=2, n_u=1, n_z=1, npt=1, npg=1, nv=1, rx=2, rl=2, maxit=4),
    dict(n_s=3, Nfe=[3, 1], nf=[3, 3], nc=[2, 2], n_x=3, n_u=2, n_z=2, npt=2, npg=1, nv=2, rx=4, rl=4, maxit=6),
    dict(n_s=1, Nfe=[2], nf=[2, 3], nc=[1, 3], n_x=1, n_u=0, n_z=0, npt=0, npg=2, nv=0, rx=1, rl=1, maxit=5),
    dict(n_s=3, Nfe=[1, 1], nf=[4], nc=[2], n_x=2, n_u=2, n_z=0, npt=1, npg=0, nv=0, rx=1, rl=3, maxit=7),
    dict(n_s=3, Nfe=[2], nf=[2, 2], nc=[2, 2], n_x=2, n_u=2, n_z=2, npt=2, npg=2, nv=2, rx=3, rl=3, maxit=8),
]
STATUS = ['Solve_Succeeded', 'Solved_To_Acceptable_Level', 'Feasible_Point_Found', 'Search_Direction_Becomes_Too_Small',
          'Maximum_Iterations_Exceeded', 'Infeasible_Problem_Detected', 'Restoration_Failed']

def layout(s, c, seed):
    """index sets: an arbitrary partition of the variables"""
    step = c['pss_mode'] == 'STEP'
    rnd = random.Random(seed * 17 + 3)
    N = len(s['Nfe'])
    sizes = {}
    def nest(name, rk, per, use):
        return [[[(([per_s if use else 0 for per_s in per]) if isinstance(per, list) else (per if use else 0)) for k in range(rk)] for j in range(s['Nfe'][i])] for i in range(N)]
    sh = {
        'ind_x': nest('x', s['rx'], s['n_x'], True),
        'ind_v': nest('v', s['n_s'], s['n_x'], s['rx'] == 1),
        'ind_z': nest('z', s['n_s'], s['n_z'], True),
        'ind_theta': nest('t', s['n_s'], s['nf'], not step), 'ind_lam': nest('l', s['rl'], s['nf'], not step),
        'ind_mu': nest('m', s['rl'], [1] * len(s['nf']), not step),
        'ind_alpha': nest('a', s['n_s'], s['nc'], step), 'ind_lambda_n': nest('n', s['rl'], s['nc'], step), 'ind_lambda_p': nest('p', s['rl'], s['nc'], step),
        'ind_bool': [[0] * n for n in s['Nfe']],
        'ind_u': [s['n_u']] * N, 'ind_elastic': 1, 'ind_h': sum(s['Nfe']) if c['use_fesd'] else 0, 'ind_v_global': s['nv'],
        'ind_sot': {'NONE': 0, 'GLOBAL': 1, 'LOCAL': [1] * N}[c['speed_of_time_variables']],
    }
    tot = 0
    def count(x):
        return sum(count(y) for y in x) if isinstance(x, list) else x
    nw = sum(count(v) for v in sh.values())
    perm = list(range(nw))
    rnd.shuffle(perm)
    pos = iter(perm)
    def fill(x):
        return [fill(y) for y in x] if isinstance(x, list) else [next(pos) for _ in range(x)]
    out = {k: fill(v) for k, v in sh.items()}
    # end states: last point of every element
    out['ind_x_cont'] = [[fe[-1] for fe in st] for st in out['ind_x']]
    return out, nw

def make(s, c, seed, fixed=None, valshape=None):
    if c['initialization_strategy'] == 'RK4_SMOOTHENED':
        s = dict(s, rx=max(s['rx'], s['n_s']), rl=max(s['rl'], s['n_s']))
    ind, nw = layout(s, c, seed)
    N, step = len(s['Nfe']), c['pss_mode'] == 'STEP'
    n_p = s['npt'] + s['npg']
    nth = sum(2 * k for k in s['nc']) if step else sum(s['nf'])
    tol = 1e-3
    dims = {'opts.n_s': s['n_s'], 'opts.N_stages': N, 'opts.Nfe_list': list(s['Nfe']), 'model.dims.n_x': s['n_x'], 'model.dims.n_u': s['n_u'],
            'model.dims.n_z': s['n_z'], 'model.dims.n_sys': len(s['nf']), 'model.dims.n_f_sys': list(s['nf']), 'model.dims.n_c_sys': list(s['nc']),
            'model.dims.n_p_time_var': s['npt'], 'model.dims.n_p_glob': s['npg'], 'model.dims.n_v_global': s['nv'],
            'opts.max_iter_homotopy': s['maxit'], 'opts.comp_tol': tol, 'opts.sigma_0': [1.0, 1.3, 1.6, 1.0][seed % 4], 
            'opts.homotopy_update_slope': 0.4, 'opts.homotopy_update_exponent': [1.5, 2.0][seed % 2],
            'opts.sigma_N': [1e-9, 0.02, 0.3, 0.16][seed % 4],
            'opts.rootfinder_for_initial_z': seed % 2, 'opts.terminal_time': 2.5}
    veclen = {'problem.w0': nw, 'problem.lbw': nw, 'problem.ubw': nw, 'problem.w': nw, 'problem.lbg': 3, 'problem.ubg': 3, 'problem.g': 3,
              'model.x0': s['n_x'], 'model.z0': s['n_z'], 'model.p_val_ctrl_stages': (N, n_p), 'w_opt': nw, 'self.lambda00': nth}
    funlen = {'problem.ind_x_stages': s['rx'], 'problem.ind_lam_stages': s['rl'], 'problem.ind_mu_stages': s['rl'], 'problem.ind_lambda_n_stages': s['rl'],
              'problem.ind_lambda_p_stages': s['rl'], 'model.lambda00_fun': nth, 'model.z0_rootfinder': s['n_z'], 'model.f_x_smooth_fun': s['n_x'], 'model.theta_smooth_fun': nth, 'model.mu_smooth_fun': len(s['nf']), 'problem.g_fun': 3}
    attrs = {'problem.' + k: v for k, v in ind.items()}
    attrs['opts.irk_time_points'] = [(k + 0.3 * (k < s['n_s'] - 1)) / (s['n_s'] - 1 + (seed == 2)) if s['n_s'] > 1 else 1.0 for k in range(s['n_s'])]
    attrs['problem.N_finite_elements'] = sum(s['Nfe'])
    env = Env(dims, seed, fixed, veclen=veclen, funlen=funlen)
    if valshape is not None:
        rows = [[hreal_v(seed, 'val', i, j) for j in range(valshape[-1])] for i in range(valshape[0] if len(valshape) > 1 else 1)]
        attrs['value'] = Mat(rows) if len(valshape) > 1 else rows[0]
    scale = [1, 1, 0.3, 0.15, 0.5][seed % 5]
    attrs['w_opt'] = [0.3 + scale * hreal_v(seed, 'w', k) for k in range(nw)]
    def lam00(ev, a, kw):
        k = digest(hkey([ev.arr(x) for x in a]))
        return [0.0 if hreal_v(seed, 'l0', k, j) < 0.5 else hreal_v(seed, 'l1', k, j) for j in range(nth)]
    def nlp(ev, a, kw):
        k = digest(hkey([ev.arr(x) for x in a]), hkey({q: ev.arr(x) for q, x in kw.items()}))
        def x(j):
            r = hreal_v(seed, 'x', k, j)
            m = hreal_v(seed, 'm', k, j)
            return 1e-6 * r if m < 0.3 else 1 + 1e-6 * (r - 0.5) if m < 0.6 else r + 0.05
        return {'x': [x(j) for j in range(nw)], 'f': [hreal_v(seed, 'f', k) * 4 - 2], 'g': [hreal_v(seed, 'g', k, j) for j in range(3)],
                'lam_x': [hreal_v(seed, 'lx', k, j) for j in range(nw)], 'lam_g': [hreal_v(seed, 'lg', k, j) for j in range(3)]}
    def stats(ev, a, kw):
        k = digest(hkey(a))
        return {'return_status': STATUS[int(hreal_v(seed, 'st', k) * 0.9999 * len(STATUS))], 'iter_count': int(hreal_v(seed, 'it', k) * 1000),
                't_proc_total': hreal_v(seed, 'tp', k), 't_wall_total': hreal_v(seed, 'tw', k), 'success': False}
    def res(ev, a, kw):
        k = digest(hkey([ev.arr(x) for x in a]))
        return tol * (0.7 + 4 * hreal_v(seed, 'res', k))
    calls = {'self.solver': nlp, 'nlp': nlp, 'nlpstats': stats, 'problem.comp_res': res, 'model.lambda00_fun': lam00}
    return lambda: FnEv(env, calls, attrs), nw

def log_of(g, ev):
    t = g['heap'].get(('LOG', '[]', ()))
    return ev.ev(t, {}) if t is not None else []

def events(log):
    """NLP calls and, after each, whether something was printed"""
    out = []
    for e in log:
        if not isinstance(e, list) or e[0] != 'event':
            continue
        if e[1] == 'nlp':
            out.append([e[2], 0])
        elif e[1] == 'print' and out:
            out[-1][1] += 1
    return out

def collapse(evs):
    """a solve repeated with the same arguments gives the same answer"""
    out = []
    for e in evs:
        if out and diff(out[-1][0], e[0]) is None:
            out[-1][1] = max(out[-1][1], e[1])
        else:
            out.append(list(e))
    return out

def raised(g, ev, b=None):
    """names of the errors whose condition holds"""
    out = []
    def go(r, b):
        if r.op == 'guarded':
            if ev.cond(r.args[0], b):
                go(r.args[1], b)
        elif r.op == 'each':
            bv, lo, hi, body = r.args
            for k in range(ev.iev(lo, b), ev.iev(hi, b)):
                q = dict(b); q[bv] = k
                go(body, q)
        elif r.op == 'raise':
            if ev.cond(r.args[0], b):
                out.append(r.args[1].split('(')[0])
    for r in g['raises']:
        go(r, {})
    return out

# ------------------------------------------------------------------- comparison
RULE = 'value graph of the function against its reference'
SITE = 'nosnoc/solver.py:'

class Out:
    def __init__(self, name):
        self.crash, self.ok = {}, set()
        self.d = dict(config=name, identical=False, undecided=[], findings=[], compared=0, functions=[])
    def crashes(self, prop, site):
        """ill-shaped at a regular size, interpretable at another one: the shapes do not fit in general"""
        for i in (0, 1):
            if i in self.crash and i not in self.ok and self.ok - set(self.crash):
                self.find(prop, site, 'sizes do not fit: ' + self.crash[i], i)
    def find(self, prop, site, text, size=None):
        f = dict(prop=prop, site=SITE + site, text=text, config=self.d['config'], rule=RULE)
        if size is not None:
            f['size'] = size
        self.d['findings'].append(f)
    def und(self, s, si=None):
        if si is not None and ('out of range' in s or 'store of' in s):
            self.crash.setdefault(si, s)
        if s not in self.d['undecided'] and len(self.d['undecided']) < 20:
            self.d['undecided'].append(s)

# result entries and the properties they belong to
KEYPROP = {'status': 'C19', 'sot': 'C15', 'time_steps': 'C09', 't_grid': 'C09', 't_grid_u': 'C09', 'nlp_iter': 'C17', 'w_all': 'C17'}
SHARED = ('problem', 'model', 'opts', 'ocp')

def initial(path, attr, ix):
    """the value before the call"""
    from ..evalfn import UNSET
    return None

def shared_state(g):
    """final values of objects that outlive the call and are not the solver's own scratch"""
    out = {}
    for (k, attr, ix), v in g['heap'].items():
        root = k.split('.')[0].split('[')[0]
        if root in SHARED:
            if ix:
                out[(k, attr, ix)] = None
            else:
                out[k if attr == '[]' else k + '.' + attr] = v
    return out

def state_diff(a, ea, b, eb, out):
    """differences of the final shared state"""
    sa, sb = shared_state(a), shared_state(b)
    res = []
    for k in sorted(set(sa) | set(sb), key=str):
        if not isinstance(k, str):
            out.und(f'store with an index into {k}')
            continue
        t = P(k.split('.')[0])
        for n in k.split('.')[1:]:
            t = mk('attr', t, n)
        x = ea.ev(sa[k], {}) if k in sa else ea.ev(t, {})
        y = eb.ev(sb[k], {}) if k in sb else eb.ev(t, {})
        d = diff(x, y, k, 0)
        if d:
            res.append((k, d))
    return res

STATE_PROP = {'problem.w0': 'C16', 'model.x0': 'C08', 'model.p_val_ctrl_stages': 'C08'}

def flatp(v):
    return fl(v) if isinstance(v, (list, Mat)) else [v]

def nlp_diff(la, lb, c, s, out, si):
    """the NLPs that are solved, in order"""
    ka, kb = [e[0] for e in la], [e[0] for e in lb]
    fixing = c['fix_active_set_fe0'] or c['do_polishing_step']
    for j, (x, y) in enumerate(zip(ka, kb)):
        last = c['do_polishing_step'] and j == len(kb) - 1
        d = diff(x, y, f'NLP {j}')
        if not d:
            continue
        if not (isinstance(x, dict) and isinstance(y, dict)):
            out.und('log of NLP calls')
            return
        for k in sorted(set(x) | set(y)):
            if k not in x or k not in y:
                out.find('C17', 'NosnocSolver.solve', f'NLP {j} is called {"without" if k in y else "with"} {k}', si)
                continue
            d = diff(x[k], y[k], k, 0)
            if not d:
                continue
            if k == 'p':
                p, q = flatp(x[k]), flatp(y[k])
                N = len(s['Nfe']) * (s['npt'] + s['npg'])
                bad = [i for i in range(max(len(p), len(q))) if i >= len(p) or i >= len(q) or diff(p[i], q[i])]
                if len(p) != len(q):
                    out.find('C08', 'NosnocSolver.setup_p_val', f'NLP {j}: parameter vector has {len(p)} entries, expected {len(q)}', si)
                else:
                    sg = [i for i in bad if N <= i < N + 2]
                    if sg:
                        pr = 'C24' if last else 'C17'
                        out.find(pr, 'NosnocSolver.solve', f'NLP {j} is solved with {"sigma" if sg[0] == N else "tau"} = {p[sg[0]]:.6g}, expected {q[sg[0]]:.6g}', si)
                    if len(bad) > len(sg):
                        i = [i for i in bad if i not in sg][0]
                        blk = 'stage parameters' if i < N else 'initial multipliers' if i < len(p) - s['n_x'] else 'initial state'
                        out.find('C08', 'NosnocSolver.setup_p_val', f'NLP {j}: {blk}: p[{i}] = {p[i]}, expected {q[i]}', si)
                        if i >= N + 2 and i < len(p) - s['n_x'] and j == 0:
                            pass
            elif k == 'x0':
                pr = 'C24' if fixing and j == 0 and c['fix_active_set_fe0'] or last else 'C16' if j == 0 else 'C17'
                out.find(pr, 'NosnocSolver.solve' if pr != 'C16' else 'NosnocSolver.initialize', f'NLP {j} starts from another point: {d}', si)
            else:
                pr = 'C24' if last or c['fix_active_set_fe0'] else 'C17'
                out.find(pr, 'NosnocSolver.polish_solution' if last else 'NosnocSolver.solve', f'NLP {j} is solved with other bounds: {d}', si)
        return
    if len(ka) != len(kb):
        if c['do_polishing_step'] and len(ka) < len(kb) and all(diff(x, y) is None for x, y in zip(ka, kb)) and len(kb) - len(ka) == 1:
            out.find('C24', 'NosnocSolver.solve', 'no NLP is solved after the homotopy with the fixed active set', si)
            return
        out.find('C17', 'NosnocSolver.solve', f'{len(ka)} NLPs are solved, expected {len(kb)}', si)
        if any(diff(x, y) is None for x, y in zip(ka, kb)):
            out.find('C06', 'NosnocSolver.solve', f'{len(ka)} NLPs are solved, expected {len(kb)}: the residual does not stop the homotopy as required', si)

def check_solve(c, seeds=(0, 1, 2, 3), szs=None):
    out = Out('solve ' + cname(c))
    a, b = graph('solve', ['self'], pins(c), False), graph('solve', ['self'], pins(c), True)
    if b['unsupported']:
        raise RuntimeError('reference: ' + str(b['unsupported'][:2]))
    for u in a['unsupported'][:5]:
        out.und(str(u)[:160])
    if a['unsupported']:
        return out.d
    for si in (szs if szs is not None else range(len(SIZES))):
        s = SIZES[si]
        for seed in seeds:
            mkr, nw = make(s, c, seed)
            ea, eb = mkr(), mkr()
            compare_solve(a, b, ea, eb, c, s, si, out)
    leak = next((f for f in out.d['findings'] if f['text'].startswith('problem.w0 after')), None)
    if leak and (c['fix_active_set_fe0'] or c['do_polishing_step']):
        # without the temporary fixation the initial guess is what it should be: the fixation leaks
        r = check_solve(dict(c, fix_active_set_fe0=False, do_polishing_step=False), seeds[:1], [leak['size']] if 'size' in leak else [0])
        if r['compared'] and not any(f['text'].startswith('problem.w0 after') for f in r['findings']):
            out.find('C21', 'NosnocSolver.solve', 'fixation kept in ' + leak['text'], leak.get('size'))
    out.ok -= set(out.crash)
    out.crashes('C24' if c['fix_active_set_fe0'] or c['do_polishing_step'] else 'C16' if c['initialization_strategy'] == 'RK4_SMOOTHENED' else 'C18', 'NosnocSolver.solve')
    for n, how in aliases(a):
        out.find('C21', 'NosnocSolver.solve', f'{how} the container {n} itself, which later calls change in place')
    out.d['stats'] = dict(functions=sorted(getattr(a['it'], 'visited', [])))
    return out.d

def compare_solve(a, b, ea, eb, c, s, si, out):
    try:
        rs = raised(a, ea)
    except EvalError as e:
        out.und(f'raise conditions: {e}')
        rs = []
    rb = raised(b, eb)
    if rb:
        if not rs and not a['dead']:
            out.find('C16', 'NosnocSolver.solve', f'solve does not raise {rb[0]}', si)
        return
    if rs:
        loc = 'C24' if c['do_polishing_step'] else 'C16'
        out.find(loc, 'NosnocSolver.solve', f'solve raises {rs[0]}', si)
        return
    lb = collapse(events(log_of(b, eb)))
    vb = eb.ev(b['ret'], {})
    try:
        la = collapse(events(log_of(a, ea)))
        n0 = len(out.d['findings'])
        nlp_diff(la, lb, c, s, out, si)
        if len(out.d['findings']) > n0:
            return              # everything after it follows
        # announcements
        silent = [j for j, (x, y) in enumerate(zip(la, lb)) if y[1] and not x[1]]
        if silent:
            out.find('C19', 'NosnocSolver.solve', f'unsuccessful NLP {silent[0]} is not announced', si)
    except EvalError as e:
        out.und(f'NLP calls: {e}', si)
        if str(e) == 'None in arithmetic':
            out.find('C17', 'NosnocSolver.solve', 'an argument of an NLP call is computed from None', si)
            return
    va = entries(a, ea, out, si)
    if va is not None:
        results(va, vb, c, si, out)
    try:
        for k, d in state_diff(a, ea, b, eb, out):
            pr = STATE_PROP.get(k, 'C21')
            out.find(pr, 'NosnocSolver.solve', f'{k} after the solve: {d}', si)
    except EvalError as e:
        out.und(f'state after the solve: {e}', si)
    out.d['compared'] += 1
    out.ok.add(si)

def entries(a, ea, out, si=None):
    """result entries that can be evaluated"""
    r = a['ret']
    if r.op != 'dict':
        try:
            v = ea.ev(r, {})
            if isinstance(v, dict):
                return v
        except EvalError as e:
            out.und(f'result: {e}')
            return None
        out.und('result is not a dictionary: ' + show(r)[:100])
        return None
    d = {}
    for k, v in r.args[0]:
        try:
            d[ea.ev(k, {})] = ea.ev(v, {})
        except EvalError as e:
            out.und(f'result {show(k)}: {e}', si)
            d[show(k).strip("'\"") if k.op != 'str' else k.args[0]] = EvalError
    return d

DEPTHS = {'x_list': 1, 'x_traj': 1, 'x_all_list': 1, 'u_list': 1, 'u_traj': 1, 'z_list': 1, 'theta_list': 1, 'lambda_list': 1, 'mu_list': 1,
          'alpha_list': 1, 'lambda_n_list': 1, 'lambda_p_list': 1, 'w_all': 1, 'nlp_iter': 1, 'sot': 0}

def results(va, vb, c, si, out, fn='get_results_from_primal_vector'):
    for k, y in vb.items():
        if k not in va:
            out.find('C18', fn, f'result {k!r} is missing', si)
            continue
        if va[k] is EvalError:
            continue
        x = va[k]
        if k == 'cost_val':
            x = x[0] if isinstance(x, list) and len(x) == 1 else x
        if k in ('status',):
            d = None if hkey(x) == hkey(y) else f'{k} is {x}, expected {y}'
        else:
            d = diff(x, y, k, DEPTHS.get(k, 0))
        if d:
            own = k in ('status', 'nlp_iter', 'w_all', 'w_sol', 'cost_val')
            out.find(KEYPROP.get(k, 'C18'), 'NosnocSolver.solve' if own else fn, f'result {d}', si)
            if KEYPROP.get(k) in ('C09', 'C15', 'C17'):
                out.find('C18', 'NosnocSolver.solve' if own else fn, f'result {d}', si)

def cname(c):
    d = cfg()
    return ','.join(f'{k}={v}' for k, v in c.items() if d.get(k) != v) or 'default'

def check_results(c):
    """results of an arbitrary primal vector"""
    out = Out('results ' + cname(c))
    a = graph('get_results_from_primal_vector', ['problem', 'w_opt'], pins(c), False)
    b = graph('get_results_from_primal_vector', ['problem', 'w_opt'], pins(c), True)
    for u in a['unsupported'][:5]:
        out.und(str(u)[:160])
    if a['unsupported']:
        return out.d
    out.d['identical'] = a['ret'] is b['ret']
    for si, s in enumerate(SIZES):
        for seed in range(5):
            mkr, nw = make(s, c, seed)
            ea, eb = mkr(), mkr()
            vb = eb.ev(b['ret'], {})
            va = entries(a, ea, out, si)
            if va is not None:
                results(va, vb, c, si, out)
            try:
                for k, d in state_diff(a, ea, b, eb, out):
                    out.find('C21', 'get_results_from_primal_vector', f'{k} is modified: {d}', si)
            except EvalError as e:
                out.und(f'state: {e}')
            out.d['compared'] += 1
            out.ok.add(si)
    out.ok -= set(out.crash)
    out.crashes('C18', 'get_results_from_primal_vector')
    return out.d

# ------------------------------------------------------------------- set
FIELDS = ['x0', 'x', 'u', 'v_global', 'p_global', 'p_time_var', 'theta', 'w', 'something_else']
SETPROP = {'x0': 'C08', 'p_global': 'C08', 'p_time_var': 'C08'}

def value_shapes(f, s, c):
    N, E = len(s['Nfe']), sum(s['Nfe'])
    if f in ('x',):
        return [(N, s['n_x']), (E, s['n_x']), (E + N + 1, s['n_x'])]
    if f == 'u': return [(N, s['n_u'])]
    if f == 'x0': return [(s['n_x'],)]
    if f == 'v_global': return [(s['nv'],)]
    if f == 'p_global': return [(s['npg'],)]
    if f == 'p_time_var': return [(N, s['npt'])]
    if f == 'theta':
        return [(E, s['nf'][0]), (E + 1, s['nf'][0])]
    return [None]

def check_set(field, c):
    out = Out(f'set({field!r}) ' + cname(c))
    st = mk('str', field)
    a = graph('set', ['self', st, P('value')], pins(c), False)
    b = graph('set', ['self', st, P('value')], pins(c), True)
    if b['unsupported']:
        raise RuntimeError('reference: ' + str(b['unsupported'][:2]))
    for u in a['unsupported'][:5]:
        out.und(str(u)[:160])
    if a['unsupported']:
        return out.d
    pr = SETPROP.get(field, 'C16')
    for n, how in aliases(a):
        out.find('C21', 'NosnocSolverBase.set', f'{how} the container {n} itself, which later calls change in place')
    site = 'NosnocSolverBase.set'
    for si, s in enumerate(SIZES):
        if field == 'theta' and len(set(s['nf'])) != 1:
            s = dict(s, nf=[s['nf'][0]] * len(s['nf']))
        for shp in value_shapes(field, s, c):
            if shp and shp[-1] == 0 and field != 'p_global':
                continue
            if field == 'w':
                shp = (layout(s, c, 1)[1],)
            mkr, nw = make(s, c, 1, valshape=shp)
            ea, eb = mkr(), mkr()
            rb = raised(b, eb)
            try:
                ra = raised(a, ea)
            except EvalError as e:
                out.und(f'raise conditions: {e}')
                continue
            hb, ha = [r for r in rb if r != 'Warning'], [r for r in ra if r != 'Warning']
            if bool(hb) != bool(ha):
                out.find('C16' if field not in SETPROP else pr, site, f'set({field!r}) with shape {shp} ' + ('is rejected: ' + ha[0] if ha else 'is accepted'), si)
                continue
            if hb:
                out.d['compared'] += 1
                continue
            try:
                for k, d in state_diff(a, ea, b, eb, out):
                    p = STATE_PROP.get(k, pr)
                    out.find(pr, site, f'after set({field!r}) with shape {shp}: {d}', si)
                    if k not in STATE_PROP:
                        out.find('C21', site, f'set({field!r}) changes {k}', si)
            except EvalError as e:
                out.und(f'state after set: {e}', si)
                if any(x in str(e) for x in fn.SHAPE):
                    try:
                        state_diff(b, eb, b, mkr(), out)
                    except EvalError as e2:
                        raise RuntimeError(f'reference: {e2}')
                    out.find(pr, site, f'set({field!r}) with a value of the accepted shape {shp}: sizes do not fit: {e}', si)
            out.d['compared'] += 1
            out.ok.add(si)
    out.ok -= set(out.crash)
    out.crashes(pr, site)
    return out.d
