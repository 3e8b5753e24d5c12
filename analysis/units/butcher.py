"""Runge-Kutta coefficients: constants propagated through the two generators, conditions decided by arithmetic."""
import ast, math
from fractions import Fraction as Fr
from ..terms import *
from . import fn
from .fn import en, P, EvalError, Mat
from .opts import members

FILE = 'nosnoc/rk_utils.py'
KNOWN = {'RADAU_IIA': ('radau', lambda n: 2 * n - 1), 'GAUSS_LEGENDRE': ('legendre', lambda n: 2 * n)}
TOL = Fr(1, 10 ** 11)

def shifted_legendre(n):
    """coefficients (ascending) of the shifted Legendre polynomial"""
    return [Fr((-1) ** (n + k) * math.comb(n, k) * math.comb(n + k, k)) for k in range(n + 1)]

def roots(c):
    """real roots in [0, 1] of an ascending polynomial by bisection"""
    ev = lambda x: sum(a * x ** k for k, a in enumerate(c))
    N = 4000
    xs = [Fr(k, N) + Fr(1, 9999991) for k in range(N)]
    out, prev = [], None
    for x in [Fr(-1, 997)] + xs + [Fr(1) + Fr(1, 997)]:
        v = ev(x)
        if prev is not None and (v > 0) != (prev[1] > 0):
            a, b, fa = prev[0], x, prev[1]
            for _ in range(60):
                m = (a + b) / 2
                m = Fr(int(m * 10 ** 24), 10 ** 24)
                fm = ev(m)
                if (fm > 0) == (fa > 0):
                    a, fa = m, fm
                else:
                    b = m
            out.append((a + b) / 2)
        prev = (x, v)
    return out

_nodes = {}
def nodes(kind, n):
    if (kind, n) not in _nodes:
        if kind == 'legendre':
            r = roots(shifted_legendre(n))
        else:
            a, b = shifted_legendre(n), shifted_legendre(n - 1) + [Fr(0)]
            p = [x - y for x, y in zip(a, b)]
            # divide by (x - 1)
            q, acc = [], Fr(0)
            for c in reversed(p):
                acc = acc + c
                q.append(acc)
            q = list(reversed(q[:-1]))
            r = (roots(q) if n > 1 else []) + [Fr(1)]
        assert len(r) == n, (kind, n, len(r))
        _nodes[(kind, n)] = [float(x) for x in r]
    return _nodes[(kind, n)]

def pmul(a, b):
    r = [0.0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r

class RkEv(fn.FunEv):
    pass
def _poly(ev, c):
    return ev.flat(c, []) if isinstance(c, (list, Mat)) else [c]
def polyval(ev, c, x):
    c = _poly(ev, c)
    def one(z):
        r = 0.0
        for a in c:
            r = r * z + a
        return r
    return [one(z) for z in ev.flat(x, [])] if isinstance(x, (list, Mat)) else one(x)
def convolve(ev, a, b, *o):
    return pmul(_poly(ev, a), _poly(ev, b))
def polyder(ev, c, *o):
    c = _poly(ev, c)
    n = len(c) - 1
    return [a * (n - k) for k, a in enumerate(c[:-1])]
def polyint(ev, c, *o):
    c = _poly(ev, c)
    n = len(c) - 1
    return [a / (n - k + 1) for k, a in enumerate(c)] + [0.0]
def poly(ev, r):
    c = [1.0]
    for x in _poly(ev, r):
        c = pmul(c, [1.0, -x])
    return c
def points(ev, n, kind='radau'):
    if not isinstance(n, (int, float)) or kind not in ('radau', 'legendre'):
        raise EvalError('collocation_points')
    if not 1 <= n <= 9:
        raise EvalError('no collocation points of this order')
    return list(nodes(kind, int(n)))
EXT = {'numpy.polyval': polyval, 'numpy.convolve': convolve, 'numpy.polymul': convolve, 'numpy.polyder': polyder, 'numpy.polyint': polyint, 'numpy.poly': poly,
       'casadi.collocation_points': points}

def lagrange(t):
    n = len(t)
    B, C, D = [], [], []
    for j in range(n):
        c = [1.0]
        for r in range(n):
            if r != j:
                c = [x / (t[j] - t[r]) for x in pmul(c, [1.0, -t[r]])]
        d = polyder(FLAT, c)
        D.append(polyval(FLAT, c, 1.0))
        C.append([polyval(FLAT, d, x) for x in t])
        B.append(polyval(FLAT, polyint(FLAT, c), 1.0))
    return B, C, D
class _F:
    def flat(self, v, out):
        return list(v)
FLAT = _F()

def mkev():
    e = RkEv(fn.env({}, 0), {}, {})
    e.EXT = dict(e.EXT, **EXT)
    return e

def exact(v):
    return Fr(repr(float(v))) if not isinstance(v, Fr) else v

def rows(v):
    return [[exact(x) for x in (r if isinstance(r, list) else [r])] for r in (v.rows if isinstance(v, Mat) else [v] if not (v and isinstance(v[0], list)) else v)]

def conditions(A, b, c, s, order, radau):
    """violated conditions of the tableau"""
    bad = []
    if len(A) != s or any(len(r) != s for r in A) or len(b) != s or len(c) != s:
        return [f'sizes {len(A)} x {len(A[0]) if A else 0}, {len(b)}, {len(c)} instead of {s}']
    for i in range(s):
        if abs(sum(A[i]) - c[i]) > TOL:
            bad.append(f'row sum {i}: sum A[{i}] - c[{i}] = {float(sum(A[i]) - c[i]):.3g}')
    for k in range(1, order + 1):
        d = sum(b[i] * c[i] ** (k - 1) for i in range(s)) - Fr(1, k)
        if abs(d) > TOL:
            bad.append(f'order condition {k}: sum b c^{k - 1} - 1/{k} = {float(d):.3g}')
    for k in range(1, s + 1):
        for i in range(s):
            d = sum(A[i][j] * c[j] ** (k - 1) for j in range(s)) - c[i] ** k / k
            if abs(d) > TOL:
                bad.append(f'stage order condition {k}, stage {i}: {float(d):.3g}')
    if radau:
        if abs(c[-1] - 1) > Fr(1, 10 ** 9):
            bad.append('the last node is not at the right boundary')
        for j in range(s):
            if abs(A[s - 1][j] - b[j]) > TOL:
                bad.append(f'not stiffly accurate: A[-1][{j}] - b[{j}] = {float(A[s - 1][j] - b[j]):.3g}')
    if any(c[i] >= c[i + 1] for i in range(s - 1)):
        bad.append('nodes are not increasing')
    return bad

def check_differential():
    out = fn.Out('generate_butcher_tableu', FILE)
    site = 'generate_butcher_tableu'
    n_ok = 0
    for sch in members('IrkSchemes') + ['<no scheme>']:
        for s in range(0, 13):
            g = fn.graph(('func', 'nosnoc.rk_utils', site), [num(s), en('IrkSchemes', sch)])
            rej = g.dead
            if not rej:
                try:
                    rej = bool(fn.raised(g, mkev()))
                except EvalError as e:
                    out.und(f'{sch} {s}: {e}'); continue
            if rej:
                if sch in KNOWN and 1 <= s <= 9:
                    out.find('C02', site, f'{s} stages of {sch} are rejected', s)
                out.d['compared'] += 1
                continue
            if sch not in KNOWN:
                if sch[0] == '<':
                    out.find('C02', site, 'an unknown scheme gets a tableau', s)
                else:
                    out.und(f'scheme {sch}: no reference')
                continue
            if g.unsupported:
                out.und(f'{sch} {s}: {g.unsupported[0]}'); continue
            try:
                v = fn.value(mkev(), g.ret)
                A, b, c, order = v
                A, b, c = rows(A if isinstance(A, (list, Mat)) else [A]), rows(b if isinstance(b, (list, Mat)) else [b]), rows(c if isinstance(c, (list, Mat)) else [c])
                b, c = [x for r in b for x in r], [x for r in c for x in r]
            except (EvalError, TypeError, ValueError) as e:
                # a tableau that is no matrix
                if str(g.ret.op) == 'none' or 'rows of' in str(e):
                    out.find('C02', site, f'{sch} with {s} stages: no tableau: {e}', s)
                else:
                    out.und(f'{sch} {s}: {e}')
                continue
            out.d['compared'] += 1
            want = KNOWN[sch][1](s)
            if order != want:
                out.find('C02', site, f'{sch} with {s} stages declares order {order}, the scheme has {want}', s)
            for m in conditions(A, b, c, s, want, sch == 'RADAU_IIA')[:3]:
                out.find('C02', site, f'{sch} with {s} stages: {m}', s, rule='row sums, quadrature and stage order conditions, stiff accuracy')
            n_ok += 1
    out.d['obligations'] = n_ok
    return out.d

def check_integral():
    out = fn.Out('generate_butcher_tableu_integral', FILE)
    site = 'generate_butcher_tableu_integral'
    for sch in members('IrkSchemes'):
        if sch not in KNOWN:
            continue
        for s in range(1, 10):
            g = fn.graph(('func', 'nosnoc.rk_utils', site), [num(s), en('IrkSchemes', sch)])
            if g.unsupported:
                out.und(f'{sch} {s}: {g.unsupported[0]}'); continue
            ev = mkev()
            try:
                rej = g.dead or fn.raised(g, ev)
                if rej:
                    out.find('C02', site, f'{s} stages of {sch} are rejected', s); continue
                v = fn.value(ev, g.ret)
                t = [0.0] + nodes(KNOWN[sch][0], s)
                B, C, D = lagrange(t)
                x = [ev.flat(v[0], []), v[1], ev.flat(v[2], []), ev.flat(v[3], [])]
            except EvalError as e:
                out.und(f'{sch} {s}: {e}'); continue
            out.d['compared'] += 1
            for n, p, q in (('B', x[0], B), ('C', x[1], Mat(C)), ('D', x[2], D), ('nodes', x[3], t)):
                m = close(p, q, n)
                if m:
                    out.find('C02', site, f'{sch} with {s} stages: {m}', s, rule='Lagrange interpolation through the collocation nodes')
    return out.d

def close(p, q, n):
    fl = lambda v: [y for x in (v.rows if isinstance(v, Mat) else v) for y in (fl(x) if isinstance(x, (list, Mat)) else [x])]
    a, b = fl(p), fl(q)
    if len(a) != len(b) or isinstance(q, Mat) and (not isinstance(p, Mat) or len(p.rows) != len(q.rows)):
        return f'{n} has another shape'
    for k, (x, y) in enumerate(zip(a, b)):
        if abs(x - y) > 1e-5 * max(1.0, abs(y)):
            return f'{n}: entry {k} is {x:.9g}, expected {y:.9g}'
    return None
