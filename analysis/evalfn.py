"""Interpretation of value graphs of ordinary functions (solver, model, options).

Extends evalt with truth vectors, dictionaries, scattered stores and opaque library calls.
Opaque calls become fixed functions of their arguments, so two graphs agree only if they
pass the same values to the same calls."""
import math, hashlib
from .terms import *
from .evalt import Ev, Env, EvalError, Mat, PV, hreal, path, Num
from . import interp as I

class Unset:
    def __repr__(self):
        return '<unset>'
UNSET = Unset()

def hkey(v):
    """stable key of a value"""
    if isinstance(v, Mat):
        return ('M',) + tuple(hkey(r) for r in v.rows)
    if isinstance(v, (list, tuple)):
        return tuple(hkey(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((str(k), hkey(x)) for k, x in v.items()))
    if isinstance(v, bool) or isinstance(v, (int, float)):
        v = float(v)
        return repr(v) if not math.isfinite(v) else f'{v:.7g}'
    return str(v)

def digest(*key):
    return hashlib.blake2b(repr(key).encode(), digest_size=12).hexdigest()

def hreal_v(*key, lo=0.0, hi=1.0):
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return lo + (hi - lo) * int.from_bytes(h, 'big') / 2.0 ** 64

class FnEv(Ev):
    def __init__(self, env, calls=None, attrs=None):
        super().__init__(env)
        self.calls_ = calls or {}       # name -> function(evaluator, args, kwargs)
        self.attrs_ = attrs or {}       # path -> value
        self.num = self
        self.ckeys, self.keep = {}, []

    # ---- truth values stay booleans
    def o_true(self, t, b): return True
    def o_false(self, t, b): return False
    def o_zero(self, t, b): return 0
    def o_one(self, t, b): return 1
    def o_unset(self, t, b): return UNSET
    def o_const(self, t, b): return t.args[0]
    def o_bool(self, t, b): return bool(t.args[0])
    def cmp(self, c, b):
        v = self.ev(c.args[0], b)
        o = c.op
        def f(x):
            if x is None or x is UNSET or isinstance(x, str):
                raise EvalError('comparison of ' + repr(x))
            if isinstance(x, float) and math.isnan(x):
                raise EvalError('comparison of an undefined value')
            if o == 'eq' or o == 'le':
                tol = 1e-11
                return abs(x) <= tol if o == 'eq' else x <= tol
            return x < -1e-13
        return self.bc(f, v)
    def truthv(self, v):
        if isinstance(v, Mat):
            raise EvalError('truth of a matrix')
        if isinstance(v, (list, dict, str, tuple)):
            return len(v) > 0
        if v is UNSET:
            raise EvalError('truth of unset')
        return bool(v)
    def flagv(self, v):
        while isinstance(v, list) and len(v) == 1:
            v = v[0]
        return v
    def cond(self, c, b):
        o = c.op
        if o in ('le', 'lt', 'eq'):
            v = self.cmp(c, b)
            v = self.flagv(v)
            if isinstance(v, list):
                raise EvalError('truth of a vector')
            return v
        if o in ('not', 'ite', 'is', 'bcall', 'in') or o in ('true', 'false', 'none'):
            v = self.flagv(self.ev(c, b))
            if o == 'bcall' or isinstance(v, bool):
                return self.truthv(v)
        return self.truthv(self.flagv(self.ev(c, b)))
    def o_le(self, t, b): return self.cmp(t, b)
    o_lt = o_eq = o_le
    def o_not(self, t, b):
        v = self.ev(t.args[0], b)
        if isinstance(v, list) and v and all(isinstance(x, bool) for x in v):
            return [not x for x in v]
        return not self.truthv(v)
    def o_is(self, t, b):
        x, y = self.ev(t.args[0], b), self.ev(t.args[1], b)
        return self.same(x, y)
    def same(self, x, y):
        x, y = self.flagv(x), self.flagv(y)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return float(x) == float(y)
        if type(x) is not type(y):
            return False
        return hkey(x) == hkey(y)
    def o_ite(self, t, b):
        c = t.args[0]
        if c.op in ('le', 'lt', 'eq'):
            v = self.flagv(self.cmp(c, b))
            if isinstance(v, list):         # elementwise
                x, y = self.ev(t.args[1], b), self.ev(t.args[2], b)
                return self.bc(lambda k, p, q: p if k else q, v, x, y)
            return self.ev(t.args[1] if v else t.args[2], b)
        return self.ev(t.args[1] if self.cond(c, b) else t.args[2], b)
    def o_bcall(self, t, b):
        n = t.args[0]
        a = [self.ev(x, b) for x in t.args[1:] if x.op != 'type']
        if n == 'truth':
            v = a[0]
            return self.truthv(v)
        if n == 'flag':
            return bool(a[0])
        if n == 'any':
            return any(self.truthv(x) for x in self.flat(a[0], []))
        if n == 'all':
            return all(self.truthv(x) for x in self.flat(a[0], []))
        if n == 'in':
            y = a[1]
            if isinstance(y, (dict, str)):
                return a[0] in y
            return any(self.same(a[0], x) for x in y)
        if n == 'isinstance':
            ty = t.args[-1]
            ty = ty.args[0] if ty.op == 'type' else None
            v = a[0]
            if ty == 'list': return isinstance(v, list)
            if ty == 'int': return isinstance(v, int)
            if ty == 'str': return isinstance(v, str)
        return int(digest(self.env.seed, str(n), self.ckey(a, {}))[:4], 16) % 2 == 1
    def o_nondet(self, t, b):
        return f'<some value {t.args[0]}>'
    def o_flag(self, t, b):
        return bool(self.ev(t.args[0], b))

    # ---- data
    def o_attr(self, t, b):
        p = path(t)
        if p in self.attrs_:
            return self.attrs_[p]
        if p is None:
            o = self.ev(t.args[0], b)
            if isinstance(o, dict) and t.args[1] in o:
                return o[t.args[1]]
            raise EvalError('attribute ' + show(t)[:60])
        return super().o_attr(t, b)
    def o_param(self, t, b):
        n = t.args[0]
        if n in self.attrs_:
            return self.attrs_[n]
        if n in self.env.dims:
            return self.env.dims[n]
        return f'<{n}>'
    def o_event(self, t, b):
        if t.args[0] == 'nlp' and t.args[1].op == 'call':
            d = {}
            for k, a in enumerate(t.args[1].args[1:]):
                if a.op == 'kw':
                    d[a.args[0]] = self.ev(a.args[1], b)
                else:
                    d[f'argument {k}'] = self.ev(a, b)
            return ['event', 'nlp', d]
        return ['event', t.args[0]] + [self.ev(a, b) if isinstance(a, T) else a for a in t.args[1:]]
    def o_dict(self, t, b):
        return {self.ev(k, b): self.ev(v, b) for k, v in t.args[0]}
    def o_class(self, t, b): return f'<class {t.args[0]}>'
    def o_ext(self, t, b): return f'<{t.args[0]}>'
    def o_sl(self, t, b): return slice(*[None if a.op == 'none' else self.iev(a, b) for a in t.args])
    def o_fstr(self, t, b):
        return ''.join(str(hkey(self.ev(a, b))) for a in t.args)
    def o_col(self, t, b):
        out = []
        for x in self.seqv(t, b):
            if isinstance(x, Mat):
                for r in x.rows: out.extend(r)
            else:
                out.append(x)
        return out
    def vec(self, v):
        if isinstance(v, Mat):
            return [x for r in v.rows for x in r]
        if isinstance(v, dict):
            return list(v)
        return super().vec(v)
    def o_vsum(self, t, b):
        return sum(self.flat(self.ev(t.args[0], b), []))
    def o_cumsum(self, t, b):
        out, s = [], 0
        for x in self.flat(self.ev(t.args[0], b), []):
            s += x
            out.append(s)
        return out
    def o_len(self, t, b):
        n = self._funlen(t.args[0])
        if n is not None:
            return n
        v = self.ev(t.args[0], b)
        if isinstance(v, (list, dict, str)):
            return len(v)
        if isinstance(v, Mat):
            return len(v.rows)
        if v is None or v is UNSET:
            raise EvalError('length of ' + str(v))
        return 1
    def o_shape(self, t, b):
        v = self.ev(t.args[0], b)
        if isinstance(v, list) and v and isinstance(v[0], list):
            return [len(v), len(v[0])]
        return super().o_shape(t, b)
    # ---- calls
    def o_call(self, t, b):
        f = t.args[0]
        args, kw = [], {}
        for a in t.args[1:]:
            if a.op == 'kw':
                kw[a.args[0]] = self.ev(a.args[1], b)
            else:
                args.append(self.ev(a, b))
        if isinstance(f, str):
            m = getattr(self, 'f_' + f, None)
            if m is not None:
                return m(*args, **kw)
            name = f
        elif f.op == 'method':
            m = getattr(self, 'm_' + f.args[0], None)
            if m is not None:
                return m(*args, **kw)
            name = 'method:' + f.args[0]
        elif f.op == 'attr':
            name = path(f) or show(f)[:60]
        elif f.op in ('ext', 'builtin', 'class'):
            name = f.args[0]
            m = self.EXT.get(name)
            if m is not None:
                return m(self, *args, **kw)
        else:
            name = show(f)[:80]
        if name in self.calls_:
            return self.calls_[name](self, args, kw)
        if name in self.env.funlen:
            n = self.env.funlen[name]
            if n == 'scalar':
                return self.opaque_call(name, args, kw)
            if isinstance(n, tuple):
                return Mat([[self.opaque_call(name, args, kw, (i, j)) for j in range(n[1])] for i in range(n[0])])
            return [self.opaque_call(name, args, kw, (i,)) for i in range(n)]
        return self.opaque_call(name, args, kw)
    EXT = {}
    def opaque_call(self, name, args, kw, ix=()):
        return hreal(self.env.seed, name, ix, self.ckey(args, kw))
    def ckey(self, args, kw):
        k = (tuple(map(id, args)), tuple((n, id(v)) for n, v in kw.items()))
        r = self.ckeys.get(k)
        if r is None:
            r = digest(hkey([self.arr(a) for a in args]), hkey({n: self.arr(v) for n, v in kw.items()}))
            self.ckeys[k] = r
            self.keep.append((args, kw))
        return r
    def arr(self, v):
        """vectors and one-element containers are the same as arguments"""
        if isinstance(v, (list, Mat)):
            return self.flat(v, [])
        if isinstance(v, (int, float)):
            return [v]
        return v
    def f_flatval(self, v): return self.vec(v) if not isinstance(v, list) else self.flat(v, [])
    def f_colmajor(self, v): return [x for c in zip(*v.rows) for x in c] if isinstance(v, Mat) else self.flat(v, [])
    def f_vdot(self, x, y): return sum(p * q for p, q in zip(self.flat(x, []), self.flat(y, [])))
    def f_set(self, v): return v
    def f_matrix(self, v): return v
    def f_sorted(self, v): return sorted(self.flat(v, []))
    def f_vsum(self, v): return sum(self.flat(v, []))
    def f_where(self, c):
        return [[k for k, x in enumerate(self.flat(c, [])) if x]]
    def f_BitXor(self, a, b): return self.bc(lambda x, y: x != y if isinstance(x, bool) else x ^ y, a, b)
    def f_BitAnd(self, a, b): return self.bc(lambda x, y: x and y if isinstance(x, bool) else x & y, a, b)
    def f_BitOr(self, a, b): return self.bc(lambda x, y: x or y if isinstance(x, bool) else x | y, a, b)
    def f_mod(self, a, b): return self.bc(lambda x, y: x % y, a, b)
    def f_floordiv(self, a, b): return self.bc(lambda x, y: x // y, a, b)
    def f_not(self, a): return self.bc(lambda x: not x, a)
    f_invert = f_not
    def f_srange(self, a, b, c=1): return list(range(int(a), int(b), int(c)))
    def f_norm_inf(self, v): return max([abs(x) for x in self.flat(v, [])] + [0])
    def f_T(self, v):
        if isinstance(v, Mat):
            return Mat([list(r) for r in zip(*v.rows)])
        return v
    def f_ncols(self, v): return len(v.rows[0]) if isinstance(v, Mat) and v.rows else 1
    def f_mfmax(self, *v):
        f = self.flat(list(v), [])
        if not f:
            raise EvalError('maximum of nothing')
        return max(f)
    def f_mfmin(self, *v):
        f = self.flat(list(v), [])
        if not f:
            raise EvalError('minimum of nothing')
        return min(f)
    def f_mtimes(self, x, y):
        mx, my = isinstance(x, Mat), isinstance(y, Mat)
        if not mx and not my:
            return self.f_vdot(x, y)
        if mx and not my:
            y = self.flat(y, [])
            if any(len(r) != len(y) for r in x.rows):
                raise EvalError('shape of a product')
            return [sum(p * q for p, q in zip(r, y)) for r in x.rows]
        raise EvalError('matrix product')
    def f_filled(self, v, *shape):
        if len(shape) != 2:
            raise EvalError('array of another rank')
        return Mat([[v] * int(shape[1]) for _ in range(int(shape[0]))])
    def f_incr(self, v, off):
        return [self.f_incr(x, off) for x in v] if isinstance(v, list) else v + off
    def f_flat_outer(self, v, n):
        for _ in range(int(n)):
            if v and any(isinstance(x, list) for x in v):
                v = [y for x in v for y in x]
        return v
    def f_indexof(self, v, x):
        for k, y in enumerate(v):
            if self.same(x, y):
                return k
        raise EvalError('index of a missing value')
    def f_get(self, d, k, default=None):
        return d.get(k, default) if isinstance(d, dict) else self.opaque_call('get', [d, k, default], {})
    def f_reshape(self, v, *shape):
        return v
    def f_nonzero(self, c): return self.f_where(c)
    def f_mmax(self, v): return max(self.flat(v, []))
    def f_mmin(self, v): return min(self.flat(v, []))
    def f_flatten(self, v): return self.flat(v, [])
    # ---- indexing
    def o_index(self, t, b):
        v = self.ev(t.args[0], b)
        i = t.args[1]
        if i.op == 'str':
            if isinstance(v, dict):
                if i.args[0] not in v:
                    raise EvalError('key ' + i.args[0])
                return v[i.args[0]]
            return self.opaque_call('item:' + i.args[0], [v], {})
        if i.op == 'sl':
            if not isinstance(v, (list, Mat)):
                v = [v]
            s = self.o_sl(i, b)
            return v[s] if isinstance(v, list) else [list(r) for r in v.rows][s]
        if i.op == 'tuple':
            if isinstance(v, list) and not (v and isinstance(v[0], list)):
                return super().o_index(t, b)
            return super().o_index(t, b)
        k = self.ev(i, b)
        if isinstance(v, dict):
            if k not in v:
                raise EvalError(f'key {k}')
            return v[k]
        if isinstance(v, Mat):
            v = [list(r) for r in v.rows] if len(v.rows) != 1 or k in (0, -1) and isinstance(k, int) and len(v.rows[0]) > 1 else list(v.rows[0])
        if isinstance(k, slice):
            return v[k]
        if not isinstance(v, list):
            if k == 0 or k == -1 or k == [0] or (isinstance(k, list) and all(x in (0, -1) and not isinstance(x, bool) for x in k)):
                return v if not isinstance(k, list) else [v] * len(k)
            raise EvalError('index of ' + str(v)[:30])
        return self.gather(v, k)
    def gather(self, v, k):
        if isinstance(k, list):
            if k and all(isinstance(x, bool) for x in k):
                if len(k) != len(v):
                    raise EvalError('mask length')
                return [x for x, m in zip(v, k) if m]
            return [self.gather(v, x) for x in k]
        if isinstance(k, bool):
            k = int(k)
        return self.at(v, k)
    def o_store(self, t, b):
        v = self.ev(t.args[0], b)
        if v is None:
            raise EvalError('store into None')
        if isinstance(v, dict):
            v = dict(v)
        elif isinstance(v, Mat):
            v = Mat([list(r) for r in v.rows])
        else:
            v = list(v) if isinstance(v, list) else [v]
        self.apply(v, t.args[1], b)
        return v
    def nested(self, t, b):
        """an array made from a list of lists"""
        def inner(sq, b):
            for e in sq.args:
                if e.op == 'rep':
                    lo = self.iev(e.args[1], b)
                    if lo < self.iev(e.args[2], b):
                        q = dict(b); q[e.args[0]] = lo
                        return inner(e.args[3], q)
                elif e.op == 'opt':
                    if self.cond(e.args[0], b):
                        return inner(e.args[1], b)
                elif e.op == 'el':
                    return isinstance(self.ev(e.args[0], b), list)
                else:
                    return True
            return False
        return t.op in ('col', 'list') and any(e.op == 'rep' for e in t.args) and inner(t, b)
    def apply(self, v, seq, b):
        for s in seq.args:
            if s.op == 'el':
                wr = s.args[0]
                while wr.op == 'ite':
                    wr = wr.args[1] if self.cond(wr.args[0], b) else wr.args[2]
                i, x = wr.args
                x = self.ev(x, b)
                if i.op == 'tuple':
                    self.put2(v, i, x, b)
                    continue
                k = self.o_sl(i, b) if i.op == 'sl' else self.ev(i, b)
                if isinstance(k, list) and isinstance(x, list) and len(x) > 1 and self.nested(i, b) and len(k) % len(x) == 0 and not any(isinstance(e, (list, bool)) for e in k + x):
                    x = x * (len(k) // len(x))      # the array of places has rows: the value is broadcast over them
                self.put(v, k, x)
            elif s.op == 'opt':
                if self.cond(s.args[0], b):
                    self.apply(v, s.args[1], b)
            elif s.op == 'rep':
                bv, lo, hi, body = s.args
                for k in range(self.iev(lo, b), self.iev(hi, b)):
                    q = dict(b); q[bv] = k
                    self.apply(v, body, q)
            else:
                raise EvalError('store ' + s.op)
    def put(self, v, k, x):
        if isinstance(v, dict):
            v[k] = x
            return
        if isinstance(v, Mat):
            n = len(v.rows)
            r = self.flat(x, [])
            w = len(v.rows[k])
            v.rows[k] = list(r) if len(r) == w else r * w
            return
        if isinstance(k, slice):
            ix = list(range(len(v)))[k]
            x = self.flat(x, [])
            if len(x) == 1:
                x = x * len(ix)
            if len(x) != len(ix):
                raise EvalError('store shape')
            for i, y in zip(ix, x):
                v[i] = y
            return
        if isinstance(k, list):
            if k and isinstance(k[0], list) or (k and all(isinstance(e, list) for e in k)):
                # rows of a matrix of indices; the value is broadcast over the rows
                xs = self.flat(x, [])
                tot = self.flat(k, [])
                if len(xs) == len(tot):
                    for i, y in zip(tot, xs):
                        self.put(v, i, y)
                    return
                for r in k:
                    self.put(v, r, x)
                return
            if k and all(isinstance(e, bool) for e in k):
                if len(k) != len(v):
                    raise EvalError('mask length')
                k = [i for i, e in enumerate(k) if e]
            xs = self.flat(x, []) if isinstance(x, (list, Mat)) else [x]
            if len(xs) == 1:
                xs = xs * len(k)
            if len(xs) != len(k):
                raise EvalError(f'store of {len(xs)} values at {len(k)} places')
            for i, y in zip(k, xs):
                self.put(v, i, y)
            return
        if isinstance(k, float) and k == int(k):
            k = int(k)
        if not isinstance(k, int) or not -len(v) <= k < len(v):
            raise EvalError(f'store at {k}')
        v[k] = x[0] if isinstance(x, list) and len(x) == 1 and not isinstance(v[k], list) else x
    def put2(self, v, i, x, b):
        if isinstance(v, list):
            raise EvalError('matrix store into a vector')
        def sel(a, n):
            k = self.o_sl(a, b) if a.op == 'sl' else self.ev(a, b)
            if isinstance(k, slice):
                return list(range(n))[k]
            if isinstance(k, float) and k == int(k):
                k = int(k)
            if isinstance(k, int) and not -n <= k < n:
                raise EvalError(f'store at {k}')
            return k if isinstance(k, list) else [k]
        r = sel(i.args[0], len(v.rows))
        c = sel(i.args[1], len(v.rows[0]) if v.rows else 0)
        xs = self.flat(x, []) if isinstance(x, (list, Mat)) else [x]
        n = len(r) * len(c)
        if len(xs) == 1:
            xs = xs * n
        elif len(xs) == len(c):
            xs = xs * len(r)
        if len(xs) != n:
            raise EvalError('matrix store shape')
        k = 0
        for p in r:
            for q in c:
                v.rows[p][q] = xs[k]
                k += 1

# ---------------------------------------------------------------- comparison
def diff(x, y, at='', flatten=2, tol=1e-7):
    """first difference of two values, None if they agree.  Below 'flatten' levels only the flat contents count."""
    if isinstance(x, dict) and isinstance(y, dict):
        for k in x:
            if k not in y:
                return f'{at}[{k!r}] is not expected'
        for k in y:
            if k not in x:
                return f'{at}[{k!r}] is missing'
            d = diff(x[k], y[k], f'{at}[{k!r}]', flatten, tol)
            if d:
                return d
        return None
    cx, cy = isinstance(x, (list, Mat)), isinstance(y, (list, Mat))
    if cx or cy:
        if flatten <= 0 or not (isinstance(x, list) and isinstance(y, list)):
            fx, fy = fl(x), fl(y)
            if len(fx) != len(fy):
                return f'{at} has {len(fx)} entries, expected {len(fy)}'
            for k, (p, q) in enumerate(zip(fx, fy)):
                d = diff(p, q, f'{at}[{k}]', 0, tol)
                if d:
                    return d
            return None
        if len(x) != len(y):
            return f'{at} has {len(x)} entries, expected {len(y)}'
        for k, (p, q) in enumerate(zip(x, y)):
            d = diff(p, q, f'{at}[{k}]', flatten - 1, tol)
            if d:
                return d
        return None
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        x, y = float(x), float(y)
        if x == y or (math.isnan(x) and math.isnan(y)):
            return None
        if math.isinf(x) or math.isinf(y) or not abs(x - y) <= tol * (1 + abs(x) + abs(y)):
            return f'{at} = {x:.6g}, expected {y:.6g}'
        return None
    if x is UNSET or y is UNSET:
        return None if x is y else f'{at} is {x}, expected {y}'
    if x is None or y is None:
        return None if x is y else f'{at} is {x}, expected {y}'
    return None if str(x) == str(y) else f'{at} is {str(x)[:60]}, expected {str(y)[:60]}'

def fl(x):
    out = []
    def go(v):
        if isinstance(v, list):
            for a in v: go(a)
        elif isinstance(v, Mat):
            for r in v.rows: out.extend(r)
        else:
            out.append(v)
    go(x)
    return out
