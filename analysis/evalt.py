"""Interpretation of value graphs at sampled sizes and sampled values ("random interpretation").

A value graph contains no program points any more: it is a closed expression over the
data of the problem.  Two graphs that the normal form does not identify are compared by
interpreting both under the same assignment of sizes, data and variables; user functions
are interpreted as fixed smooth functions of their arguments.  Different values mean
different expressions (up to the tolerance), and the rows that differ are reported.

Two algebras: numbers, and supports (which leaves a value depends on).
"""
import math, hashlib
from .terms import *
from . import terms as TT
from . import interp as I

class EvalError(Exception):
    pass

def hreal(*key, lo=0.35, hi=1.65):
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return lo + (hi - lo) * int.from_bytes(h, 'big') / 2.0 ** 64

class PV:
    """value of a loop-carried variable"""
    __slots__ = ('v', 'n')
    def __init__(self, v, n):
        self.v, self.n = v, n

class Mat:
    """rows x cols"""
    def __init__(self, rows):
        self.rows = rows

class Num:
    """numbers"""
    name = 'num'
    def const(self, c):
        return int(c) if c == int(c) else float(c)
    def add(self, a, b):
        return a + b
    def mul(self, a, b):
        if (a == 0 and abs(b) == math.inf) or (b == 0 and abs(a) == math.inf):
            return math.nan
        return a * b
    def pow(self, a, e):
        if e == int(e) and e >= 0:
            return a ** int(e)
        if a == 0:
            return math.nan
        try:
            r = a ** e
        except (OverflowError, ZeroDivisionError):
            return math.nan
        return r if not isinstance(r, complex) else math.nan
    def fun(self, name, args):
        if any(isinstance(a, float) and math.isnan(a) for a in args):
            return math.nan
        f = FUNS.get(name)
        if f is not None:
            try:
                return f(*args)
            except (ValueError, OverflowError, ZeroDivisionError):
                return math.nan
        return self.opaque(('ew', name), args)
    def opaque(self, key, args):
        s = 0.0
        for n, a in enumerate(args):
            if a is None or isinstance(a, str):
                s += hreal('k', key, n, a); continue
            if isinstance(a, float) and (math.isnan(a) or math.isinf(a)):
                a = 7.3 if a > 0 else -3.1
            s += math.sin(hreal('w', key, n, lo=0.7, hi=1.9) * a + hreal('p', key, n)) * hreal('c', key, n)
        return 1.3 + hreal('o', key) + 0.5 * math.sin(s) + 0.11 * s
    def leaf(self, env, key):
        return env.value(key)

FUNS = {
    'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log, 'tanh': math.tanh, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
    'abs': abs, 'fmax': max, 'fmin': min, 'floor': math.floor, 'ceil': math.ceil, 'round': round,
    'sign': lambda x: (x > 0) - (x < 0), 'log10': math.log10, 'atan': math.atan, 'sinh': math.sinh, 'cosh': math.cosh,
}

class Sup:
    """supports"""
    name = 'sup'
    E = frozenset()
    def const(self, c):
        return self.E
    def add(self, a, b):
        return a | b
    def mul(self, a, b):
        return a | b
    def pow(self, a, e):
        return a
    def fun(self, name, args):
        r = self.E
        for a in args:
            if isinstance(a, frozenset):
                r |= a
        return r
    def opaque(self, key, args):
        return self.fun('', args) | {key}
    def leaf(self, env, key):
        return frozenset([key])

class Env:
    """sizes and data.  dims: nested python structure for the integer-valued leaves"""
    def __init__(self, dims, seed=0, fixed=None, zero_funs=(), cond=None, alias=None, funlen=None, veclen=None, default=None):
        self.default = default
        self.dims, self.seed = dims, seed
        self.fixed = fixed or {}
        self.zero_funs = set(zero_funs)
        self.conds = cond or {}
        self.alias = alias or (lambda k: k)
        self.funlen = funlen or {}
        self.veclen = veclen or {}
    def value(self, key):
        k = self.alias(key)
        if k in self.fixed:
            return self.fixed[k]
        if k[0] in self.fixed:
            return self.fixed[k[0]]
        if self.default is not None and not (isinstance(k[0], str) and '.' in k[0]):
            return self.default
        return hreal(self.seed, k)

class Ev:
    def __init__(self, env, alg=None, callhook=None):
        self.env, self.A = env, alg or Num()
        self.num = self if isinstance(self.A, Num) else Ev(env, Num())
        self.memo = {}
        self.calls = []
        self.callhook = callhook

    # -------------------------------------------------------- public
    def scalar(self, t, b=()):
        v = self.ev(t, dict(b))
        return self.one(v)
    def vector(self, t, b=()):
        v = self.ev(t, dict(b))
        return self.vec(v)

    # -------------------------------------------------------- helpers
    def one(self, v):
        while isinstance(v, list):
            if len(v) != 1:
                raise EvalError(f'vector of length {len(v)} where a number is expected')
            v = v[0]
        if isinstance(v, Mat):
            if len(v.rows) == 1 and len(v.rows[0]) == 1:
                return v.rows[0][0]
            raise EvalError('matrix where a number is expected')
        return v
    def vec(self, v):
        if isinstance(v, list):
            return v
        if isinstance(v, Mat):
            if all(len(r) == 1 for r in v.rows):
                return [r[0] for r in v.rows]
            raise EvalError('matrix where a vector is expected')
        return [v]
    def flat(self, v, out):
        if isinstance(v, list):
            for x in v:
                self.flat(x, out)
        elif isinstance(v, Mat):
            for r in v.rows:
                out.extend(r)
        else:
            out.append(v)
        return out
    def bc(self, f, *vs):
        """elementwise with broadcasting of scalars"""
        if any(isinstance(v, Mat) for v in vs):
            ms = [v for v in vs if isinstance(v, Mat)]
            n, m = len(ms[0].rows), len(ms[0].rows[0]) if ms[0].rows else 0
            out = []
            for i in range(n):
                row = []
                for j in range(m):
                    row.append(f(*[v.rows[i][j] if isinstance(v, Mat) else self.one(v) for v in vs]))
                out.append(row)
            return Mat(out)
        n = None
        for v in vs:
            if isinstance(v, list) and (n is None or n == 1):
                n = len(v)
        if n is None:
            if None in vs:
                raise EvalError('None in arithmetic')
            return f(*vs)
        for v in vs:
            if isinstance(v, list) and len(v) not in (1, n):
                if len(v) == 0 or n == 0:
                    raise EvalError('empty operand')
                raise EvalError(f'operands of length {len(v)} and {n}')
        return [f(*[(v[k] if len(v) != 1 else v[0]) if isinstance(v, list) else v for v in vs]) for k in range(n)]

    # -------------------------------------------------------- evaluation
    def ev(self, t, b):
        if t.fv:
            key = (t, tuple(b.get(x) for x in t.fv)) if len(t.fv) == 1 else (t, tuple(b.get(x) for x in sorted(t.fv, key=lambda x: x.id)))
        else:
            key = t
        r = self.memo.get(key, self)
        if r is not self:
            return r
        m = getattr(self, 'o_' + t.op, None)
        if m is None:
            raise EvalError('operator ' + t.op)
        r = m(t, b)
        self.memo[key] = r
        return r

    def iev(self, t, b):
        """integer (size) value"""
        v = self.num.ev(t, b)
        v = self.num.one(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, float) and v == int(v):
            return int(v)
        if not isinstance(v, int):
            raise EvalError(f'size expected, got {v} for {show(t)[:100]}')
        return v

    def o_poly(self, t, b):
        A = self.A
        r = None
        for m, c in t.args[0]:
            p = None
            for a, e in m:
                v = self.ev(a, b)
                if v is None:
                    raise EvalError('None in arithmetic')
                if e != 1:
                    v = self.bc(lambda x: A.pow(x, e), v)
                p = v if p is None else self.bc(A.mul, p, v)
            if p is None:
                p = A.const(c)
            elif c != 1:
                p = self.bc(lambda x: A.mul(A.const(c), x), p)
            r = p if r is None else self.bc(A.add, r, p)
        return A.const(0) if r is None else r
    def o_bigmul(self, t, b):
        return self.bc(self.A.mul, self.ev(t.args[0], b), self.ev(t.args[1], b))
    def o_inf(self, t, b):
        return math.inf if self.A.name == 'num' else self.A.E
    def o_true(self, t, b):
        return 1 if self.A.name == 'num' else self.A.E
    def o_false(self, t, b):
        return 0 if self.A.name == 'num' else self.A.E
    def o_none(self, t, b):
        return None
    def o_str(self, t, b):
        return t.args[0]
    def o_enum(self, t, b):
        return f'{t.args[0]}.{t.args[1]}'
    def o_b(self, t, b):
        if t not in b:
            raise EvalError('free index')
        return b[t] if self.A.name == 'num' else self.A.E
    o_bv = o_b
    def o_fstr(self, t, b):
        out = ''
        for a in t.args:
            v = self.num.ev(a, b)
            v = self.num.one(v)
            if isinstance(v, float) and v == int(v):
                v = int(v)
            out += str(v)
        return out
    def o_sym(self, t, b):
        nm = self.num.ev(t.args[1], b)
        if isinstance(nm, list):
            nm = nm[0] if nm else ''
        n = self.iev(t.args[2], b)
        return [self.A.leaf(self.env, (nm, k)) for k in range(n)]
    def o_fill(self, t, b):
        return [self.one(self.ev(t.args[0], b))] * self.iev(t.args[1], b)
    def o_range(self, t, b):
        r = list(range(self.iev(t.args[0], b), self.iev(t.args[1], b)))
        return r if self.A.name == 'num' else [self.A.E] * len(r)
    def o_len(self, t, b):
        v = self.num.ev(t.args[0], b) if not self._funlen(t.args[0]) is not None else None
        n = self._funlen(t.args[0])
        if n is None:
            v = self.num.ev(t.args[0], b)
            n = len(v) if isinstance(v, list) else len(v.rows) if isinstance(v, Mat) else 1
        return n if self.A.name == 'num' else self.A.E
    def _funlen(self, t):
        if t.op == 'attr':
            p = path(t)
            if p in self.env.funlen:
                n = self.env.funlen[p]
                return n[0] if isinstance(n, tuple) else n
        return None
    def o_shape(self, t, b):
        v = self.num.ev(t.args[0], b)
        return [len(v.rows), len(v.rows[0]) if v.rows else 0] if isinstance(v, Mat) else [len(v), 1]
    def seqv(self, t, b):
        out = []
        for s in t.args:
            o = s.op
            if o == 'el':
                v = self.ev(s.args[0], b)
                if t.op == 'col':
                    out.extend(self.vec(v))
                else:
                    out.append(v)
            elif o == 'spread':
                v = self.ev(s.args[0], b)
                if v is None:
                    raise EvalError('spread of None')
                out.extend(v if isinstance(v, list) else self.vec(v))
            elif o == 'opt':
                if self.cond(s.args[0], b):
                    v = self.ev(s.args[1], b)
                    out.extend(v if isinstance(v, list) else self.vec(v))
            elif o == 'rep':
                bv, lo, hi, body = s.args
                for k in range(self.iev(lo, b), self.iev(hi, b)):
                    b2 = dict(b); b2[bv] = k
                    v = self.ev(body, b2)
                    out.extend(v if isinstance(v, list) else self.vec(v))
            else:
                raise EvalError('segment ' + o)
        return out
    o_list = o_col = lambda self, t, b: self.seqv(t, b)
    def o_tuple(self, t, b):
        return [self.ev(a, b) for a in t.args]
    def o_sum(self, t, b):
        bv, lo, hi, body = t.args
        r = self.A.const(0)
        for k in range(self.iev(lo, b), self.iev(hi, b)):
            b2 = dict(b); b2[bv] = k
            r = self.bc(self.A.add, r, self.ev(body, b2))
        return r
    def o_prod(self, t, b):
        bv, lo, hi, body = t.args
        r = self.A.const(1)
        for k in range(self.iev(lo, b), self.iev(hi, b)):
            b2 = dict(b); b2[bv] = k
            r = self.bc(self.A.mul, r, self.ev(body, b2))
        return r
    def cond(self, c, b):
        o = c.op
        if o == 'true':
            return True
        if o in ('false', 'none'):
            return False
        if o in ('le', 'lt', 'eq'):
            v = self.num.one(self.num.ev(c.args[0], b))
            if v is None:
                raise EvalError('comparison of None')
            if isinstance(v, float) and math.isnan(v):
                raise EvalError('comparison of an undefined value')
            return v <= 0 if o == 'le' else v < 0 if o == 'lt' else v == 0
        if o == 'not':
            return not self.cond(c.args[0], b)
        if o == 'is':
            x, y = c.args
            k = show(c)
            if k in self.env.conds:
                return self.env.conds[k]
            if y.op == 'none':
                v = self.num.ev(x, b)
                return v is None
            u, v = self.num.ev(x, b), self.num.ev(y, b)
            return u == v
        if o == 'ite':
            return self.cond(c.args[1], b) if self.cond(c.args[0], b) else self.cond(c.args[2], b)
        if o == 'bcall':
            k = show(c)
            if k in self.env.conds:
                return self.env.conds[k]
            if c.args[0] == 'truth':
                v = self.num.ev(c.args[1], b)
                return bool(v)
        k = show(c)
        if k in self.env.conds:
            return self.env.conds[k]
        raise EvalError('condition ' + k[:80])
    def o_ite(self, t, b):
        return self.ev(t.args[1] if self.cond(t.args[0], b) else t.args[2], b)
    def _b(self, t, b):
        return int(self.cond(t, b)) if self.A.name == 'num' else self.A.E
    o_le = o_lt = o_eq = o_is = o_not = o_bcall = _b
    def o_ew(self, t, b):
        args = [self.ev(a, b) for a in t.args[1:]]
        n = t.args[0]
        if n == 'pow':
            e = self.num.one(self.num.ev(t.args[2], b))
            return self.bc(lambda x: self.A.pow(x, e), args[0])
        return self.bc(lambda *x: self.A.fun(n, x), *args)
    def o_diag(self, t, b):
        v = self.vec(self.ev(t.args[0], b))
        z = self.A.const(0)
        return Mat([[v[i] if i == j else z for j in range(len(v))] for i in range(len(v))])
    def o_param(self, t, b):
        raise EvalError('object ' + str(t.args[0]))
    def o_attr(self, t, b):
        p = path(t)
        if p is None:
            raise EvalError('attribute ' + show(t)[:60])
        if p in self.env.dims:
            v = self.env.dims[p]
            return v if self.A.name == 'num' else (self.A.E if not isinstance(v, list) else [self.A.E] * len(v))
        if p in self.env.veclen:
            n = self.env.veclen[p]
            if n is None:
                return None
            if isinstance(n, list):       # list of vectors
                return [[self.A.leaf(self.env, (p, i, k)) for k in range(m)] for i, m in enumerate(n)]
            if isinstance(n, tuple):
                return Mat([[self.A.leaf(self.env, (p, i, j)) for j in range(n[1])] for i in range(n[0])])
            return [self.A.leaf(self.env, (p, k)) for k in range(n)]
        return self.A.leaf(self.env, (p, 0))
    def o_call(self, t, b):
        f = t.args[0]
        if isinstance(f, T) and f.op == 'attr':
            p = path(f)
            args = []
            for a in t.args[1:]:
                self.flat(self.ev(a, b), args)
            if self.num is self:
                nargs = args
            else:
                nargs = []
                for a in t.args[1:]:
                    self.num.flat(self.num.ev(a, b), nargs)
            ks = tuple(repr(round(float(x), 7)) if isinstance(x, (int, float)) else str(x) for x in nargs)
            n = self.env.funlen.get(p)
            if n is None:
                raise EvalError('function ' + str(p))
            if self.callhook:
                self.callhook(p, ks)
            z = p in self.env.zero_funs
            def val(*ij):
                if z:
                    return self.A.const(0)
                if self.A.name == 'sup':
                    return frozenset([('call', p, ij, ks)])
                return self.A.opaque((self.env.seed, p) + ij, args)
            if isinstance(n, tuple):
                return Mat([[val(i, j) for j in range(n[1])] for i in range(n[0])])
            if n == 'scalar':
                return val(0)
            return [val(i) for i in range(n)]
        if f == 'horzsplit':
            v = self.ev(t.args[1], b)
            if isinstance(v, Mat):
                w = len(v.rows[0]) if v.rows else 2
                return [[r[j] for r in v.rows] for j in range(w)]
            raise EvalError('horzsplit of a vector')
        if f in ('mfmax', 'mfmin', 'mmax', 'mmin'):
            v = self.flat([self.ev(a, b) for a in t.args[1:]], [])
            if not v and f == 'mfmin':
                raise EvalError('minimum of nothing')
            return v[0] if len(v) == 1 else self.A.fun('f' + f[-3:], v) if v else self.A.const(0)
        if f == 'incr':
            off = self.iev(t.args[2], b)
            def go(v):
                return [go(x) for x in v] if isinstance(v, list) else v + off
            return go(self.ev(t.args[1], b)) if self.A.name == 'num' else self.ev(t.args[1], b)
        if f == 'flatten':
            return self.flat(self.ev(t.args[1], b), [])
        raise EvalError('call ' + str(f if isinstance(f, str) else show(f))[:60])
    def o_casfun(self, t, b):
        return [self.ev(a, b) for a in t.args[2]]
    def o_store(self, t, b):
        v = self.ev(t.args[0], b)
        if isinstance(v, Mat) or v is None:
            raise EvalError('store into a matrix')
        v = list(v) if isinstance(v, list) else [v]
        def go(seq):
            for s in seq.args:
                if s.op == 'el':
                    wr = s.args[0]
                    while wr.op == 'ite':
                        wr = wr.args[1] if self.cond(wr.args[0], b2[-1]) else wr.args[2]
                    i, x = wr.args
                    if i.op == 'tuple':
                        raise EvalError('matrix store')
                    k = self.iev(i, b2[-1])
                    if not -len(v) <= k < len(v):
                        raise EvalError('store out of range')
                    x = self.ev(x, b2[-1])
                    v[k] = self.one(x) if isinstance(x, list) and len(x) == 1 and not isinstance(v[k], list) else x
                elif s.op == 'opt':
                    if self.cond(s.args[0], b2[-1]):
                        go(s.args[1])
                elif s.op == 'rep':
                    bv, lo, hi, body = s.args
                    for k in range(self.iev(lo, b2[-1]), self.iev(hi, b2[-1])):
                        q = dict(b2[-1]); q[bv] = k
                        b2.append(q); go(body); b2.pop()
                else:
                    raise EvalError('store ' + s.op)
        b2 = [b]
        go(t.args[1])
        return v
    def o_fold(self, t, b):
        bv, lo, hi, inits, nexts, fps = t.args
        vals = [self.ev(x, b) for x in inits]
        both = self.num is not self
        nums = [self.num.ev(x, b) for x in inits] if both else vals
        for k in range(self.iev(lo, b), self.iev(hi, b)):
            q = dict(b); q[bv] = k
            for p, v, n in zip(fps, vals, nums):
                q[p] = PV(v, n)
            vals = [self.ev(x, q) for x in nexts]
            nums = [self.num.ev(x, q) for x in nexts] if both else vals
        return vals[0]
    def o_phi(self, t, b):
        if t not in b:
            raise EvalError('free loop variable')
        return b[t].n if self.num is self else b[t].v
    def o_index(self, t, b):
        v = self.ev(t.args[0], b)
        i = t.args[1]
        if i.op == 'tuple':
            return self.index2(v, i, b)
        if i.op == 'sl':
            return self.slice(v, i, b)
        if isinstance(v, Mat):
            v = [list(r) for r in v.rows] if len(v.rows) != 1 else list(v.rows[0])
        k = self.num.ev(i, b)
        if not isinstance(v, list):
            if isinstance(k, int) and k in (0, -1):
                return v
            if isinstance(k, list) and all(x in (0, -1) for x in k):
                return [v] * len(k)
            raise EvalError('index of a number')
        if isinstance(k, list):
            if k and isinstance(k[0], list) and len(k) == 1:
                k = k[0]
            return [self.at(v, x) for x in k]
        return self.at(v, k)
    def at(self, v, k):
        if isinstance(k, float) and k == int(k):
            k = int(k)
        if not isinstance(k, int):
            raise EvalError(f'index {k}')
        if not -len(v) <= k < len(v):
            raise EvalError(f'index {k} out of range {len(v)}')
        return v[k]
    def slice(self, v, i, b):
        if not isinstance(v, list):
            v = self.vec(v)
        ix = [None if a.op == 'none' else self.iev(a, b) for a in i.args]
        return v[slice(*ix)]
    def index2(self, v, i, b):
        if not isinstance(v, Mat):
            if isinstance(v, list) and len(i.args) == 2:
                if v and isinstance(v[0], list):
                    v = Mat(v)
                else:
                    v = Mat([[x] for x in v])
            else:
                raise EvalError('matrix index of a vector')
        def sel(a, n):
            if a.op == 'sl':
                ix = [None if q.op == 'none' else self.iev(q, b) for q in a.args]
                return list(range(n))[slice(*ix)], True
            k = self.num.ev(a, b)
            if isinstance(k, list):
                return k, True
            k = int(k)
            if not -n <= k < n:
                raise EvalError(f'matrix index {k} out of range {n}')
            return [k], False
        r, rs = sel(i.args[0], len(v.rows))
        c, cs = sel(i.args[1], len(v.rows[0]) if v.rows else 0)
        if not rs and not cs:
            return v.rows[r[0]][c[0]]
        return Mat([[v.rows[x][y] for y in c] for x in r])

def path(t):
    """dotted path of an attribute term"""
    out = []
    while t.op == 'attr':
        out.append(t.args[1])
        t = t.args[0]
    if t.op == 'param':
        out.append(str(t.args[0]))
        return '.'.join(reversed(out))
    return None
