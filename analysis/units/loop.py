"""NosnocSimLooper against spec/loop_spec.py: the solver is a function of the values set before each call."""
from .. import run, interp as I
from ..terms import *
from . import fn
from .fn import en, P, EvalError, Mat, hreal_v, hkey

FILE = 'nosnoc/helpers.py'
FIELDS = ('x0', 'w', 'p_global')
PROP = {'X_sim': 'C20', 'cpu_nlp': 'C20', 'time_steps': 'C20', 'theta_sim': 'C20', 'lambda_sim': 'C20', 'alpha_sim': 'C20', 'z_sim': 'C20',
        'w_sim': 'C20', 'w_all': 'C20', 'cost_vals': 'C20', 'status': 'C20', 'switch_times': 'C20', 't_grid': 'C20', 'sot': 'C20'}

def solver(it, st, f, args, kwargs, node):
    if f.op not in ('attr', 'meth') or f.args[0] is not P('solver') or f.args[1] not in ('set', 'solve'):
        return None
    o, name = f.args
    A = [it.reify(st, it.V(st, a)) for a in args]
    if name == 'set':
        kw = {k: it.reify(st, it.V(st, v)) for k, v in kwargs.items()}
        f, v = A[0] if A else kw['field'], A[1] if len(A) > 1 else kw['value']
        if f.op != 'str':
            raise I.Undecided('set of a computed field')
        it.log(st, mk('event', 'set', f, v))
        it.hset(st, o, '#' + f.args[0], v)
        return NONE
    vals = []
    for f in FIELDS:
        v = it.hget(st, o, '#' + f)
        vals.append(it.reify(st, it.V(st, v)) if v is not None else mk('attr', o, '#' + f))
    it.log(st, mk('event', 'solve', *vals))
    return mk('call', 'solve', *vals)

class LoopEv(fn.FunEv):
    fail = ()
    def o_call(self, t, b):
        if t.args[0] == 'solve':
            vals = [self.ev(a, b) if not (a.op == 'attr' and a.args[1].startswith('#')) else '-' for a in t.args[1:]]
            return self.solve(vals)
        return super().o_call(t, b)
    def o_attr(self, t, b):
        if t.args[1].startswith('#'):
            return '-'
        return super().o_attr(t, b)
    def o_is(self, t, b):
        return self.same(self.ev(t.args[0], b), self.ev(t.args[1], b))
    def solve(self, vals):
        k = hkey(vals)
        r = lambda *a: hreal_v(k, *a)
        nx, ne, nst = self.nx, self.ne, 1 + int(3 * r('count'))
        vec = lambda n, m: [r(n, j) for j in range(m)]
        stat = en('Status', 'SUCCESS') if r('status') < self.rate else en('Status', 'INFEASIBLE')
        return dict(x_list=[[r('x', i, j) for j in range(nx)] for i in range(ne)], switch_times=vec('sw', int(3 * r('nsw'))), time_steps=vec('h', ne),
                    cpu_time_nlp=vec('cpu', self.ncpu), theta_list=[vec('theta', 2) for _ in range(ne)], lambda_list=[vec('lam', 2) for _ in range(ne)],
                    alpha_list=[vec('alpha', 2)], z_list=[vec('z', 1)], w_sol=vec('w', 4), w_all=[vec('w', 4), vec('wp', 4)], cost_val=r('cost'),
                    status=self.ev(stat, {}), sot=vec('sot', 1), x_all_list=vec('xa', 3), u_list=[vec('u', 1)], v_global=vec('vg', 1),
                    nlp_iter=vec('it', 2), t_grid=vec('tg', ne + 1), mu_list=[vec('mu', 1)], cost_N=r('cN'))
    rate = 0.6

def check_loop():
    out = fn.Out('NosnocSimLooper', FILE)
    args = ['solver', 'x0', 'Nsim', 'p_values', 'w_init', 'stop']
    a = fn.graph(('func', 'spec_loop_spec', 'drive'), args, hooks=solver)
    b = fn.graph(('func', 'spec_loop_spec', 'reference'), args, hooks=solver)
    if b.unsupported:
        raise RuntimeError('reference: ' + str(b.unsupported[:3]))
    for u in a.unsupported[:5]:
        out.und(str(u)[:160])
    if a.unsupported:
        return out.d
    site = 'NosnocSimLooper'
    none = LoopEv(fn.env({}, 0), {}, {})
    def mkev(s, seed, p, w, **over):
        val = lambda *k: hreal_v(seed, *k)
        at = {'x0': [val('x0', j) for j in range(s['nx'])], 'Nsim': s['N'], 'stop': s['stop'],
              'p_values': Mat([[val('p', i, j) for j in range(s['np'])] for i in range(s['N'])]) if p else None,
              'w_init': [[val('wi', i, j) for j in range(3)] for i in range(s['N'])] if w else None,
              'solver.problem.model.dims.n_p_glob': s['np'], 'solver.problem.model.dims.n_u': 0, 'solver.problem.opts.N_stages': 1,
              'solver.problem.ocp_trivial': True, 'solver.opts.max_iter_homotopy': 3, 'solver.opts.do_polishing_step': s['polish'],
              'solver.opts.print_level': 0, 'solver.opts.speed_of_time_variables': none.ev(en('SpeedOfTimeVariableMode', s['sot']), {}), 'LOG': []}
        at.update(over)
        e = LoopEv(fn.env({}, seed, arrays1=['x0']), {}, at)
        e.nx, e.ne, e.ncpu = s['nx'], s['ne'], 3 + bool(s['polish'])
        e.rate = s.get('rate', 0.6)
        e.EXT = dict(e.EXT)
        return e
    S = [dict(N=N, nx=nx, ne=ne, np=np_, stop=stop, polish=pol, sot=sot, rate=rate)
         for N, nx, ne, np_, pol, sot in ((1, 1, 1, 1, False, 'NONE'), (3, 2, 2, 2, True, 'LOCAL'), (4, 3, 1, 1, False, 'GLOBAL'), (2, 2, 3, 3, False, 'NONE'), (6, 2, 2, 1, False, 'NONE'))
         for stop in (False, True) for rate in ((1.0, 0.6, 0.0) if stop else (0.5,))]
    for si, s in enumerate(S):
        for seed in range(3):
            for p, w in ((True, True), (False, False), (True, False), (False, True)):
                ea, eb = mkev(s, seed, p, w), mkev(s, seed, p, w)
                tag = f"Nsim {s['N']}, p_values {'' if p else 'not '}given, start guesses {'' if w else 'not '}given" + (', stop on failure' if s['stop'] else '')
                try:
                    ra = fn.raised(a, ea)
                    va = fn.value(ea, a.ret)
                    la = fn.value(ea, a.log) if a.log is not None else []
                except EvalError as e:
                    out.und(f'{tag}: {e}')
                    out.crash.setdefault(('results', 'NosnocSimLooper'), {})[si] = str(e)
                    continue
                vb = fn.value(eb, b.ret)
                lb = fn.value(eb, b.log)
                if fn.raised(b, eb):
                    raise RuntimeError('reference rejects')
                out.d['compared'] += 1
                out.ok.add(('results', 'NosnocSimLooper'))
                if ra:
                    out.find('C20', site, f'valid arguments are rejected: {ra}', tag); continue
                da, db = va[1], vb[1]
                ca, cb = [x for x in la if x[1] in ('set', 'solve')], [x for x in lb if x[1] in ('set', 'solve')]
                na, nb = [sum(x[1] == 'solve' for x in c) for c in (ca, cb)]
                m = calls(ca, cb)
                if m:
                    out.find('C20', 'NosnocSimLooper.run', m, tag); continue
                if na != nb:
                    out.find('C19' if s['stop'] else 'C20', 'NosnocSimLooper.run', f'the solver is called {na} times instead of {nb} times', tag)
                    continue
                if bool(va[0]) is not bool(vb[0]):
                    out.find('C19', 'NosnocSimLooper.run', f'run returns {va[0]!r} instead of {vb[0]!r}', tag)
                db['t_grid'] = [0.0]
                for h in db['time_steps']:
                    db['t_grid'].append(db['t_grid'][-1] + h)
                for k, y in db.items():
                    if not isinstance(da, dict) or k not in da:
                        out.find('C20', 'NosnocSimLooper.get_results', f'result {k} is missing', tag); continue
                    d = fn.diff(norm(da[k]), norm(y), k, 3)
                    if d:
                        out.find('C20', 'NosnocSimLooper', d, tag)
                # speed of time: collected per step if there are such variables
                if s['sot'] != 'NONE':
                    d = fn.diff(norm(da.get('sot')), norm(sots(lb, eb)), 'sot', 3)
                    if d:
                        out.find('C20', 'NosnocSimLooper.run', d, tag)
    out.crashes(lambda n: 'C20', tuple(range(2, 6)))
    # rejected arguments
    s = S[2]
    P_ = lambda n, m: Mat([[hreal_v(i, j) for j in range(m)] for i in range(n)])
    for name, over in (('a problem with controls', {'solver.problem.model.dims.n_u': 1}), ('a problem with two stages', {'solver.problem.opts.N_stages': 2}),
                       ('a problem with an objective or constraints', {'solver.problem.ocp_trivial': False}),
                       ('p_values with too few rows', {'p_values': P_(s['N'] - 1, s['np'])}), ('p_values with too many rows', {'p_values': P_(s['N'] + 1, s['np'])}),
                       ('p_values with too many columns', {'p_values': P_(s['N'], s['np'] + 1)})):
        ea, eb = mkev(s, 0, True, False, **over), mkev(s, 0, True, False, **over)
        out.d['compared'] += 1
        try:
            if not fn.raised(a, ea):
                out.find('C20', 'NosnocSimLooper.__init__', f'{name}: accepted')
        except EvalError as e:
            out.und(f'{name}: {e}')
    return out.d

def sots(log, ev):
    return [ev.solve(['-' if x == '-' else x for x in e[2:]])['sot'] for e in log if e[1] == 'solve']

def norm(v):
    if isinstance(v, Mat):
        return [norm(r) for r in v.rows]
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v

def calls(x, y):
    """state of the solver at each call of solve"""
    sx, sy = [e for e in x if e[1] == 'solve'], [e for e in y if e[1] == 'solve']
    for k, (p, q) in enumerate(zip(sx, sy)):
        for f, u, v in zip(FIELDS, p[2:], q[2:]):
            if fn.diff(u, v):
                return f'step {k} is solved with another {f}: {short(u)} instead of {short(v)}'
    return None

def short(v):
    return str(v)[:60]
