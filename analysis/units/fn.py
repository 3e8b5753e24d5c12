"""Functions and methods against their references: graphs, sampled interpretation, comparison.

A CasADi function is compared as a function: its symbols are identified with the positions of
its arguments, symbols that are no argument are free (CasADi rejects them)."""
import math
from .. import run, interp as I, prims
from ..terms import *
from ..domain import PkgDomain
from ..evalt import Env, EvalError, Mat
from ..evalfn import FnEv, diff, hreal_v, hkey, digest, UNSET, fl

en = lambda c, m: mk('enum', c, m)
P = run.P
RULE = 'value graph of the function against its reference'

class FnDomain(PkgDomain):
    def __init__(self, pins=None, types=None, attrs=None, hooks=None):
        super().__init__(pins)
        self.param_types = dict(PkgDomain.param_types, **(types or {}))
        self.attrs = attrs or {}
        self.hooks = hooks
    def attr_value(self, obj, name):
        if obj.op == 'param' and (obj.args[0], name) in self.attrs:
            return self.attrs[(obj.args[0], name)]
        return super().attr_value(obj, name)
    def call(self, it, st, f, args, kwargs, node):
        if self.hooks:
            return self.hooks(it, st, f, args, kwargs, node)
        return None

class Graph:
    pass

def graph(target, args, pins=None, types=None, attrs=None, want=(), kwargs=None, hooks=None, prims_=None, obj='self'):
    """target: ('method', class, name) | ('func', module, name) | ('new', class)"""
    it = I.Interp(run.program(), FnDomain(pins, types, attrs, hooks))
    prims.install(it)
    for k, v in (prims_ or {}).items():
        it.primitives[k] = v
    st = I.State()
    tm = lambda a: a if isinstance(a, T) else P(a)
    args = [tm(a) for a in args]
    kw = {k: tm(v) for k, v in (kwargs or {}).items()}
    o = P(obj)
    if target[0] == 'method':
        ci = it.prog.find_class(target[1])
        it.frames.append(I.Frame(ci.module, None, 'check'))
        f = it.getattr(o, target[2], st)
        r = it.call(f, args, kw, None, st)
    elif target[0] == 'func':
        m = it.prog.modules[target[1]]
        it.frames.append(I.Frame(m, None, 'check'))
        f = it.from_resolved(it.prog.resolve(target[1], target[2]), st)
        r = it.call(f, args, kw, None, st)
    else:
        ci = it.prog.find_class(target[1])
        it.frames.append(I.Frame(ci.module, None, 'check'))
        r = o = it.instantiate(ci, args, kw, ci.node, st)
    g = Graph()
    g.it, g.dead = it, st.dead
    g.ret = it.reify(st, it.V(st, r))
    g.attrs = {}
    for a in want:
        q = o
        try:
            for n in a.split('.'):
                q = it.getattr(q, n, st)
            g.attrs[a] = it.reify(st, it.V(st, q))
        except I.Undecided as e:
            g.attrs[a] = unknown(str(e))
    g.heap = {}
    for (k, attr), ents in st.heap.items():
        if isinstance(k, T) and not attr.startswith('#'):
            for e in ents:
                g.heap[(show(k), attr, tuple(show(x) for x in e[1]))] = it.reify(st, it.V(st, e[3]))
    g.log = it.reify(st, it.V(st, mk('attr', mk('param', 'LOG'), '[]'))) if False else g.heap.get(('LOG', '[]', ()))
    g.raises, g.unsupported = list(it.raises), list(it.unsupported)
    return g

class Empty(Mat):
    """matrix without rows"""
    def __init__(self, n, m):
        super().__init__([])
        self.cols = m

def value(ev, t, b=None):
    try:
        return ev.ev(t, b or {})
    except (TypeError, AttributeError, ZeroDivisionError, KeyError, IndexError, ValueError, OverflowError) as e:
        raise EvalError(f'{type(e).__name__}: {e}')

SHAPE = ('out of range', 'shape of a product', 'matrix store shape', 'operands of length', 'store of', 'store shape')

class FunEv(FnEv):
    def __init__(self, env, calls=None, attrs=None, symmap=None):
        super().__init__(env, calls, attrs)
        self.symmap = symmap
        self.free = []
    # symbols
    def o_key(self, t, b):
        return tuple(self.ev(a, b) if isinstance(a, T) else a for a in t.args)
    def o_sym(self, t, b):
        k = self.ev(t.args[0], b)
        n = self.iev(t.args[2], b)
        out = []
        for i in range(n):
            v = hreal_v('symbol', k, i)
            if self.symmap is not None:
                if v in self.symmap:
                    v = self.symmap[v]
                else:
                    self.free.append(v)
                    self.env.symvals.add(v)
            else:
                self.env.symvals.add(v)
            out.append(v)
        return out
    def o_casfun(self, t, b):
        ins = [self.flat(self.ev(a, b), []) for a in t.args[1]]
        m = {}
        cin = []
        for i, vs in enumerate(ins):
            row = []
            for j, v in enumerate(vs):
                if v in self.env.symvals:
                    m[v] = hreal_v('argument', i, j) + 0.2
                    row.append(m[v])
                else:
                    row.append(v)
            cin.append(row)
        sub = type(self)(self.env, self.calls_, self.attrs_, m)
        sub.EXT = self.EXT
        outs = [sub.ev(a, b) for a in t.args[2]]
        outs = [['free variable'] if sub.free else self.flat(o, []) if not isinstance(o, Mat) else o for o in outs]
        return ['function of', cin, 'giving', outs]
    def bc(self, f, *vs):
        if any(isinstance(v, Mat) for v in vs) and any(isinstance(v, list) for v in vs):
            vs = [[r[0] for r in v.rows] if isinstance(v, Mat) and all(len(r) == 1 for r in v.rows) else
                  list(v.rows[0]) if isinstance(v, Mat) and len(v.rows) == 1 else v for v in vs]
        return super().bc(f, *vs)
    def o_index(self, t, b):
        # rows of arrays of numbers
        q = t.args[0]
        if t.args[1].op not in ('sl', 'tuple', 'str') and not (q.op == 'index' and q.args[1].op == 'tuple') and not (q.op == 'call' and q.args[0] == 'T'):
            v = self.ev(t.args[0], b)
            if isinstance(v, Mat) and len(v.rows) == 1:
                k = self.ev(t.args[1], b)
                if k in (0, -1) and not isinstance(k, bool):
                    return list(v.rows[0])
        return super().o_index(t, b)
    def o_bcall(self, t, b):
        n = t.args[0]
        if n == 'ndim':
            v = self.ev(t.args[1], b)
            k = self.iev(t.args[2], b)
            d = 2 if isinstance(v, Mat) else 1 if isinstance(v, list) else 0
            return d == k
        if n == 'eqobj':
            x, y = self.ev(t.args[1], b), self.ev(t.args[2], b)
            return diff(x, y) is None
        return super().o_bcall(t, b)
    def o_shape(self, t, b):
        q = t.args[0]
        while q.op == 'ite':
            q = q.args[1] if self.cond(q.args[0], b) else q.args[2]
        v = self.ev(q, b)
        if v is None:
            raise EvalError('shape of None')
        if isinstance(v, Empty):
            return [0, v.cols]
        if isinstance(v, list) and not any(isinstance(x, list) for x in v) and (q.op == 'fill' or q.op == 'attr' and path1(q) in self.env.arrays1 or q.op == 'param' and q.args[0] in self.env.arrays1):
            return [len(v)]
        return super().o_shape(t, b)
    def f_ncols(self, v):
        return v.cols if isinstance(v, Empty) else super().f_ncols(v)
    def f_mtimes(self, x, y):
        if isinstance(x, Mat) and isinstance(y, Mat):
            return Mat([[sum(p * q for p, q in zip(r, c)) for c in zip(*y.rows)] for r in x.rows])
        if not isinstance(x, (list, Mat)) or not isinstance(y, (list, Mat)):
            return self.bc(lambda a, c: a * c, x, y)
        return super().f_mtimes(x, y)

def path1(t):
    from ..evalt import path
    return path(t)

FunEv.EXT = dict(FnEv.EXT)
FunEv.EXT['casadi.rootfinder'] = lambda ev, name, plugin, f, *o: ['rootfinder', plugin, f]

def env(dims, seed=0, veclen=None, funlen=None, fixed=None, arrays1=()):
    e = Env(dims, seed, fixed, veclen=veclen, funlen=funlen)
    e.symvals = set()
    e.arrays1 = set(arrays1)
    return e

def canonical(ev, v):
    """created symbols are numbered in the order in which they appear"""
    num = {}
    def go(x):
        if isinstance(x, Mat):
            return Mat([[go(y) for y in r] for r in x.rows])
        if isinstance(x, (list, tuple)):
            return [go(y) for y in x]
        if isinstance(x, dict):
            return {k: go(y) for k, y in x.items()}
        if isinstance(x, float) and x in ev.env.symvals:
            return f'symbol {num.setdefault(x, len(num))}'
        return x
    return go(v)

def raised(g, ev, lenient=False):
    """names of the errors whose condition holds, up to the first; lenient: a condition that cannot be
    evaluated for these data is an error of the program itself"""
    def go(r, b):
        if r.op == 'guarded':
            if ev.cond(r.args[0], b):
                return go(r.args[1], b)
        elif r.op == 'each':
            bv, lo, hi, body = r.args
            for k in range(ev.iev(lo, b), ev.iev(hi, b)):
                q = dict(b); q[bv] = k
                x = go(body, q)
                if x:
                    return x
        elif r.op == 'raise':
            if ev.cond(r.args[0], b):
                return r.args[1].split('(')[0]
        return None
    for r in g.raises:
        try:
            x = go(r, {})
        except (EvalError, TypeError, AttributeError, ZeroDivisionError, KeyError, IndexError, ValueError) as e:
            if lenient:
                return 'error: ' + str(e)
            raise EvalError(str(e))
        if x:
            return x
    return 'error' if g.dead else None

class Out:
    def __init__(self, name, file):
        self.file = file
        self.d = dict(config=name, identical=False, undecided=[], findings=[], compared=0, functions=[])
        self.crash, self.ok = {}, set()
    def find(self, prop, site, text, size=None, rule=RULE):
        f = dict(prop=prop, site=self.file + ':' + site, text=text, config=self.d['config'], rule=rule)
        if size is not None:
            f['size'] = size
        if len([x for x in self.d['findings'] if x['site'] == f['site'] and x['prop'] == prop]) < 6:
            self.d['findings'].append(f)
    def crashes(self, prop_of, regular=(0, 3)):
        """interpretable at one size, ill-shaped at a regular other one: the shapes do not fit in general"""
        for (n, site), c in self.crash.items():
            if (n, site) in self.ok:
                for tag in regular:
                    if tag in c and any(x in c[tag] for x in SHAPE):
                        self.find(prop_of(n), site, f'{n}: sizes do not fit: {c[tag]}', tag)
                        break
    def und(self, s):
        if s not in self.d['undecided'] and len(self.d['undecided']) < 20:
            self.d['undecided'].append(s)

def compare_attrs(a, b, ea, eb, names, prop_of, site, out, tag):
    """final values of the attributes"""
    for n in names:
        try:
            y = canonical(eb, value(eb, b.attrs[n]))
        except EvalError as e:
            raise RuntimeError(f'reference: {n}: {e}')
        try:
            x = canonical(ea, value(ea, a.attrs[n]))
        except EvalError as e:
            out.und(f'{n} ({tag}): {e}')
            out.crash.setdefault((n, site), {})[tag] = str(e)
            continue
        out.ok.add((n, site))
        out.d['compared'] += 1
        d = diff(x, y, n, 3)
        if d:
            out.find(prop_of(n), site, f'{d}', tag)
