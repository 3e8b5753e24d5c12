"""create_function_calculate_vector_field: the returned function, applied to symbolic data.

The root finder is interpreted as what it stands for, a root of its residual (found from the start value by Newton's method on the value graph
of the residual), so the order of unknowns and rows and the sign convention of the inner multiplier do not matter."""
import math
from .. import run, interp as I, prims
from ..terms import *
from ..evalt import path
from ..soldomain import SolverDomain
from . import fn
from .fn import en, P, EvalError, Mat, hreal_v, hkey, value
from ..evalfn import digest

FILE = 'nosnoc/solver.py'
SITE = 'NosnocSolverBase.create_function_calculate_vector_field'
SIZES = [
    dict(nf=[2], n_x=2, n_u=1, n_z=1), dict(nf=[3], n_x=3, n_u=2, n_z=2), dict(nf=[2, 4], n_x=2, n_u=1, n_z=1), dict(nf=[3, 2, 2], n_x=4, n_u=2, n_z=2),
]

def graph(mode):
    it = I.Interp(run.program(), SolverDomain({'pss_mode': en('PssMode', mode)}))
    prims.install(it)
    st = I.State()
    ci = it.prog.find_class('NosnocSolver')
    it.frames.append(I.Frame(ci.module, None, 'check'))
    f = it.getattr(P('self'), 'create_function_calculate_vector_field', st)
    r = it.call(f, [P('sigma'), P('p'), P('v')], {}, None, st)
    g = fn.Graph()
    g.it, g.dead, g.ret = it, st.dead, None
    if not st.dead:
        q = it.call(r, [P('x'), P('u'), P('z')], {}, None, st)
        g.ret = it.reify(st, it.V(st, q))
    g.raises, g.unsupported = list(it.raises), list(it.unsupported)
    return g

def solve(A, b):
    n = len(b)
    M = [list(A[i]) + [b[i]] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        if abs(M[p][c]) < 1e-14:
            raise EvalError('singular')
        M[c], M[p] = M[p], M[c]
        for r in range(n):
            if r != c and M[r][c]:
                q = M[r][c] / M[c][c]
                for k in range(c, n + 1):
                    M[r][k] -= q * M[c][k]
    return [M[i][n] / M[i][i] for i in range(n)]

def newton(res, x):
    nrm = lambda r: max(abs(e) for e in r)
    r = res(x)
    if len(r) != len(x):
        raise EvalError(f'{len(r)} equations for {len(x)} unknowns')
    for _ in range(200):
        if nrm(r) < 1e-10:
            return x
        J = []
        h = 1e-7
        for k in range(len(x)):
            xp, xm = list(x), list(x)
            xp[k] += h; xm[k] -= h
            a, b = res(xp), res(xm)
            J.append([(p - q) / (2 * h) for p, q in zip(a, b)])
        d = solve([[J[k][i] for k in range(len(x))] for i in range(len(r))], r)
        t = 1.0
        while t > 1e-4:
            y = [p - t * q for p, q in zip(x, d)]
            try:
                s = res(y)
                if nrm(s) < nrm(r) * (1 - 0.01 * t) and all(e == e for e in s):
                    break
            except (EvalError, ValueError):
                pass
            t /= 2
        else:
            raise EvalError('root not found')
        x, r = y, s
    raise EvalError('root not found')

ROOT = ('singular', 'root not found', 'equations for', 'length of the parameter of the root finder', 'shape of a product')

class VfEv(fn.FunEv):
    bound = None
    def o_attr(self, t, b):
        if path(t) == 'model.F':
            if self.bound is None:
                raise EvalError('model.F outside of a function')
            k = digest(hkey(sorted(self.bound.items())))
            return [Mat([[2 * hreal_v('F', k, i, r, c) - 1 for c in range(n)] for r in range(self.s['n_x'])]) for i, n in enumerate(self.s['nf'])]
        return super().o_attr(t, b)
    def f_horzcatl(self, v):
        if isinstance(v, list) and v and all(isinstance(m, Mat) for m in v):
            return Mat([[e for m in v for e in m.rows[r]] for r in range(len(v[0].rows))])
        raise EvalError('horzcat of ' + str(v)[:40])
    def f_vdot(self, x, y):
        if isinstance(y, Mat) and not isinstance(x, Mat):
            x, y = y, x
        if isinstance(x, Mat):
            y = self.flat(y, [])
            if any(len(r) != len(y) for r in x.rows):
                raise EvalError('shape of a product')
            return [sum(p * q for p, q in zip(r, y)) for r in x.rows]
        return super().f_vdot(x, y)
    f_mtimes = lambda self, x, y: self.f_vdot(x, y) if isinstance(x, Mat) and not isinstance(y, Mat) else super(VfEv, self).f_mtimes(x, y)
    def copy(self, symmap, bound):
        sub = type(self)(self.env, self.calls_, self.attrs_, symmap)
        sub.EXT, sub.s, sub.bound = self.EXT, self.s, bound
        return sub
    def o_call(self, t, b):
        f = t.args[0]
        if isinstance(f, T) and f.op == 'casfun':
            names = [path(i) for i in f.args[1]]
            if any(n is None for n in names):
                raise EvalError('function of ' + str([show(i) for i in f.args[1]])[:80])
            bound = {n: self.flat(self.ev(a, b), []) for n, a in zip(names, t.args[1:])}
            outs = [self.copy(None, bound).ev(o, {}) for o in f.args[2]]
            return outs[0] if len(outs) == 1 else outs
        if isinstance(f, T) and f.op == 'call' and isinstance(f.args[0], T) and f.args[0].op == 'ext' and f.args[0].args[0] == 'casadi.rootfinder':
            d = f.args[3]
            if d.op == 'dict':
                q = {k.args[0]: v for k, v in d.args[0] if k.op == 'str'}
                X, Pm, G = q['x'], q.get('p'), q['g']
            elif d.op == 'casfun':
                X, Pm, G = d.args[1][0], d.args[1][1] if len(d.args[1]) > 1 else None, d.args[2][0]
            else:
                raise EvalError('root finder of ' + d.op)
            xs = self.flat(self.copy(None, self.bound).ev(X, b), [])
            x0 = self.flat(self.ev(t.args[1], b), [])
            m = {}
            if Pm is not None:
                ps = self.flat(self.copy(None, self.bound).ev(Pm, b), [])
                pv = self.flat(self.ev(t.args[2], b), [])
                if len(ps) != len(pv):
                    raise EvalError('length of the parameter of the root finder')
                m = dict(zip(ps, pv))
            def res(v):
                return self.flat(self.copy({**m, **dict(zip(xs, v))}, self.bound).ev(G, b), [])
            return newton(res, x0 * len(xs) if len(x0) == 1 else x0)
        return super().o_call(t, b)

def expected(s, sigma, g, F):
    """theta with lam = g - mu, sqrt(lam^2 + theta^2 + sigma^2) = lam + theta, i.e. 2 lam theta = sigma^2, sum(theta) = 1 in every subsystem"""
    out = [0.0] * s['n_x']
    k = 0
    for i, n in enumerate(s['nf']):
        gi = g[k:k + n]
        k += n
        lo, hi = 0.0, min(gi)         # lam > 0 needs mu < min(g)
        lo = hi - n * sigma ** 2      # sum(theta) < 1 there
        for _ in range(200):
            mu = (lo + hi) / 2
            if mu >= min(gi) or sum(sigma ** 2 / (2 * (x - mu)) for x in gi) > 1:
                hi = mu
            else:
                lo = mu
        th = [sigma ** 2 / (2 * (x - lo)) for x in gi]
        for r in range(s['n_x']):
            out[r] += sum(F[i].rows[r][c] * th[c] for c in range(n))
    return out

def check_field():
    out = fn.Out('vector field helper', FILE)
    a = graph('STEWART')
    st = graph('STEP')
    for u in a.unsupported[:5]:
        out.und(str(u)[:160])
    if not st.dead and not st.raises:
        out.find('C34', SITE, 'step representation: no error although the field is computed from the Stewart indicators')
    if a.dead:
        out.find('C34', SITE, 'rejected for the Stewart representation')
    if a.dead or a.unsupported:
        return out.d
    for si, s in enumerate(SIZES):
        for seed in range(3):
            val = lambda *k: hreal_v(seed, *k)
            at = {n: [val(n, j) + 3 for j in range(k)] for n, k in (('x', s['n_x']), ('u', s['n_u']), ('z', s['n_z']), ('p', 2), ('v', 1))}
            sigma = [0.3, 0.05, 0.2][seed]
            at.update({'sigma': sigma, 'model.dims.n_f_sys': list(s['nf']), 'model.dims.n_sys': len(s['nf']), 'model.dims.n_x': s['n_x'],
                       'model.dims.n_u': s['n_u'], 'model.dims.n_z': s['n_z']})
            ng = sum(s['nf'])
            def gst(ev, a, kw):
                k = digest(hkey([ev.flat(q, []) for q in a]))
                return [2 * hreal_v('g', k, j) - 0.7 for j in range(ng)]
            e = fn.env({}, seed, funlen={'model.g_Stewart_fun': ng}, arrays1={'x', 'u', 'z', 'p', 'v'})
            calls = {'model.g_Stewart_fun': gst, 'model.g_Stewart_fun.size_out': lambda ev, a, kw: [ng, 1], 'model.g_Stewart_fun.numel_out': lambda ev, a, kw: ng,
                     'model.g_Stewart_fun.size1_out': lambda ev, a, kw: ng}
            ev = VfEv(e, calls, at)
            ev.s = s
            g = gst(ev, [at['x'], at['z'], at['p']], {})
            ev.bound = {'model.x': at['x'], 'model.z': at['z'], 'model.u': at['u'], 'model.p': at['p'], 'model.v_global': at['v']}
            F = VfEv.o_attr(ev, mk('attr', P('model'), 'F'), {})
            ev.bound = None
            y = expected(s, sigma, g, F)
            try:
                x = ev.flat(value(ev, a.ret), [])
            except EvalError as ex:
                out.und(f'size {si}: {ex}')
                if any(w in str(ex) for w in ROOT):
                    out.find('C34', SITE, f'{len(s["nf"])} subsystems: the inner system has no unique root: {ex}', si)
                continue
            out.d['compared'] += 1
            if len(x) != len(y) or any(abs(p - q) > 1e-5 for p, q in zip(x, y)):
                out.find('C34', SITE, f'{len(s["nf"])} subsystems, sigma {sigma}: value {[round(q, 5) for q in x]}, expected {[round(q, 5) for q in y]}', si)
    return out.d
