"""NosnocAutoModel: structural induction over the expression graph.

Every recursive method is interpreted once with an arbitrary node; recursive calls stand for results that
satisfy the method's contract.  The contracts are checked case by case (kind of the node, values of its
operands, results of the recursive calls)."""
import itertools, math
from .. import run, interp as I
from ..terms import *
from . import fn
from .fn import en, P, EvalError, Mat, hreal_v

FILE = 'nosnoc/auto_model.py'
CLS = 'nosnoc.auto_model.NosnocAutoModel.'
UN = {'OP_NEG': lambda x: -x, 'OP_SIN': math.sin, 'OP_SQ': lambda x: x * x, 'OP_EXP': math.exp, 'OP_COS': math.cos}
BIN = {'OP_ADD': lambda x, y: x + y, 'OP_SUB': lambda x, y: x - y, 'OP_MUL': lambda x, y: x * y, 'OP_DIV': lambda x, y: x / y, 'OP_ATAN2': math.atan2}
SGN = lambda x: (x > 0) - (x < 0)

class Node(float):
    """expression with its value"""
    def __new__(cls, val, op=None, *deps, smooth=True, name=''):
        o = float.__new__(cls, val)
        o.op, o.deps, o.name = op, deps, name
        o.smooth = smooth and all(d.smooth for d in deps) and op not in ('OP_SIGN', 'OP_FMAX', 'OP_FMIN')
        return o

def node(op, *deps):
    if op == 'OP_SIGN': v = float(SGN(deps[0]))
    elif op == 'OP_FMAX': v = max(deps)
    elif op == 'OP_FMIN': v = min(deps)
    elif len(deps) == 1: v = UN[op](deps[0])
    else: v = BIN[op](*deps)
    return Node(v, op, *deps)

def opname(x):
    if isinstance(x, str):
        return x.strip('<>').split('.')[-1]
    raise EvalError('operation ' + repr(x))

class Unpaired(Exception):
    pass

class NodeEv(fn.FunEv):
    def __init__(self, top, rec, state=None):
        at = {'node': top}
        at.update({'self.' + k: v for k, v in (state or {}).items()})
        super().__init__(fn.env({}, 0), {}, at)
        self.rec, self.alpha, self.paired = rec, {}, False
    def o_call(self, t, b):
        f = t.args[0]
        if f == 'casop':
            op = opname(self.ev(t.args[1], b))
            a = [self.ev(x, b) for x in t.args[2:]]
            return self.apply(op, a)
        if isinstance(f, T) and f.op in ('attr', 'meth') and f.args[1] in ('n_dep', 'is_op', 'dep', 'op', 'unary', 'binary', 'n_out', 'is_symbolic', 'is_constant', 'is_leaf'):
            o = self.ev(f.args[0], b)
            if isinstance(o, list) and len(o) == 1:
                o = o[0]
            a = [self.ev(x, b) for x in t.args[1:]]
            m = f.args[1]
            if m in ('unary', 'binary'):
                return self.apply(opname(a[0]), a[1:])
            if not isinstance(o, Node):
                raise EvalError(f'{m} of a computed expression')
            if m == 'n_dep':
                return len(o.deps)
            if m == 'is_op':
                return o.op is not None and opname(a[0]) == o.op
            if m == 'op':
                return o.op or 'OP_PARAMETER'
            if m == 'dep':
                k = int(a[0]) if a else 0
                if k >= len(o.deps):
                    raise EvalError('operand out of range')
                return o.deps[k]
            return not o.deps
        if isinstance(f, T) and f.op == 'ext' and f.args[0].startswith(CLS):
            m = f.args[0][len(CLS):]
            a = [self.ev(x, b) for x in t.args[2:]]
            if m not in self.rec:
                raise EvalError('recursive call of ' + m)
            return self.rec[m](*a)
        return super().o_call(t, b)
    def apply(self, op, a):
        a = [x[0] if isinstance(x, list) and len(x) == 1 else x for x in a]
        if any(isinstance(x, list) for x in a):
            raise EvalError('operation on lists')
        if op in ('OP_SIGN', 'OP_FMAX', 'OP_FMIN') or (len(a) == 1 and op in UN) or (len(a) == 2 and op in BIN):
            return float(node(op, *[x if isinstance(x, Node) else Node(x) for x in a]))
        raise EvalError(f'operation {op} with {len(a)} operands')
    def o_sym(self, t, b):
        k = str(self.ev(t.args[0], b))
        if k not in self.alpha:
            if self.paired:
                raise Unpaired()
            return ['symbol ' + k]
        return [self.alpha[k]]
    def o_bcall(self, t, b):
        if t.args[0] == 'truth':
            v = self.ev(t.args[1], b)
            if isinstance(v, Node):
                raise EvalError('truth of an expression')
        return super().o_bcall(t, b)

def prod(ev, *ls):
    return [list(x) for x in itertools.product(*ls)]
NodeEv.EXT = dict(fn.FunEv.EXT)
NodeEv.EXT['itertools.product'] = prod

def leaf(v):
    return Node(v, name='leaf')

def cases():
    """node, description; operands are leaves, smooth or nonsmooth expressions"""
    V = (1.3, -0.7, 0.4, -2.1)
    smooth = [leaf(0.8), node('OP_SIN', leaf(0.6)), node('OP_MUL', leaf(1.5), leaf(-0.4))]
    rough = [node('OP_SIGN', leaf(0.9)), node('OP_FMAX', leaf(0.2), leaf(-0.5)), node('OP_FMIN', leaf(0.3), leaf(1.4))]
    deep = [node('OP_MUL', leaf(0.3), rough[0]), node('OP_NEG', rough[1])]
    out = [leaf(v) for v in V[:2]]
    for op in list(UN) + ['OP_SIGN']:
        out += [node(op, leaf(v)) for v in V] + [node(op, x) for x in smooth + rough + deep]
    for op in list(BIN) + ['OP_FMAX', 'OP_FMIN']:
        out += [node(op, leaf(x), leaf(y)) for x in V for y in V if x != y]
        out += [node(op, x, y) for x in smooth + rough + deep for y in smooth + rough + deep if x is not y]
    return out

def text(n):
    return '(' + ' '.join([n.op] + [text(d) for d in n.deps]) + ')' if n.deps else f'{float(n):g}'

def get(method, want=()):
    return fn.graph(('method', 'NosnocAutoModel', method), ['node'], types={'self': 'NosnocAutoModel'}, want=want)

def num1(v):
    while isinstance(v, list) and len(v) == 1:
        v = v[0]
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return float(v)
    raise EvalError('no expression: ' + repr(v)[:60])

close = lambda x, y: abs(x - y) < 1e-9

def split(d):
    """two summands with the value of d"""
    return [d - 0.3, 0.3]

def additive(d):
    """result of the recursive call: values for positive and negative switching function"""
    if d.smooth:
        return [[float(d)], None, None]
    c = 0.37 * (1 if (hash(round(float(d), 6)) % 2) else -1)
    o = float(d) + 1.7
    return [[float(d), o] if c > 0 else [o, float(d)], [c], Mat([[1], [-1]])]

REC = {'_check_smooth': lambda d: d.smooth, '_find_nonlinear_components': split, '_rebuild_additive_component': additive, '_rebuild_nonlin': lambda d: float(d)}
NESTED = ('OP_SIGN', 'OP_FMAX', 'OP_FMIN')

def check_recursion():
    out = fn.Out('NosnocAutoModel recursion', FILE)
    g = {m: get(m, ('c', 'alpha')) for m in ('_check_smooth', '_find_nonlinear_components', '_rebuild_additive_component', '_rebuild_nonlin')}
    for m, x in g.items():
        for u in x.unsupported[:3]:
            out.und(f'{m}: {u}'[:160])
    for n in cases():
        for m, x in g.items():
            if x.unsupported:
                continue
            try:
                (globals()['one' + m])(out, x, n, 'NosnocAutoModel.' + m)
                out.d['compared'] += 1
            except EvalError as e:
                out.und(f'{m} {text(n)}: {e}')
    return out.d

def nested(n):
    return n.op in NESTED and not all(d.smooth for d in n.deps)

def one_check_smooth(out, g, n, site):
    v = NodeEv(n, REC).flagv(fn.value(NodeEv(n, REC), g.ret))
    if bool(v) != n.smooth:
        out.find('C26', site, f'{text(n)} counts as {"smooth" if v else "nonsmooth"}')

def one_find_nonlinear_components(out, g, n, site):
    ev = NodeEv(n, REC)
    v = fn.value(ev, g.ret)
    if not isinstance(v, list):
        raise EvalError('no list of components')
    s = sum(num1(x) for x in v)
    if not close(s, float(n)):
        out.find('C26', site, f'{text(n)}: the components sum to {s:g}, not to {float(n):g}')

def one_rebuild_additive_component(out, g, n, site):
    ev = NodeEv(n, REC)
    r = fn.raised(g, ev)
    bad = nested(n) or (n.op in BIN and sum(not d.smooth for d in n.deps) > 1)
    if r:
        if not bad:
            out.find('C26', site, f'{text(n)} is rejected')
        return
    if nested(n):
        out.find('C26', site, f'{text(n)}: nested nonsmooth functions are not rejected')
        return
    v = fn.value(ev, g.ret)
    if not isinstance(v, list) or len(v) != 3:
        raise EvalError('no triple')
    f, c, S = v
    f = [num1(x) for x in f]
    if c is None:
        if not n.smooth:
            out.find('C26', site, f'{text(n)}: no switching function'); return
        if len(f) != 1 or not close(f[0], float(n)):
            out.find('C26', site, f'{text(n)}: another vector field')
        return
    if n.smooth:
        out.find('C26', site, f'{text(n)}: switching function of a smooth expression'); return
    rows = ev.flat(S, [])
    if bad or len(rows) != len(f):
        out.find('C26', site, f'{text(n)}: {len(f)} vector fields for {len(rows)} sign rows'); return
    cv = num1(c)
    act = [k for k in range(len(rows)) if rows[k] * cv > 0]
    if len(act) != 1:
        out.find('C26', site, f'{text(n)}: {len(act)} regions for a strict sign'); return
    if not close(f[act[0]], float(n)):
        out.find('C26', site, f'{text(n)}: the vector field of the active region is {f[act[0]]:g} instead of {float(n):g}')

def one_rebuild_nonlin(out, g, n, site):
    for state in ({'c': [], 'alpha': []}, {'c': [0.77, -0.31], 'alpha': ['symbol first', 'symbol second']}):
        nonlin(out, g, n, site, state)

def nonlin(out, g, n, site, state):
    ev = NodeEv(n, REC, state)
    r = fn.raised(g, ev)
    if r:
        if not nested(n):
            out.find('C26', site, f'{text(n)} is rejected')
        return
    if nested(n):
        out.find('C26', site, f'{text(n)}: nested nonsmooth functions are not rejected'); return
    c, al = fn.value(ev, g.attrs['c']), fn.value(ev, g.attrs['alpha'])
    c = [num1(x) for x in ev.flat(c, [])]
    al = [x for x in ev.flat(al, [])]
    if len(c) != len(al) or any(not isinstance(x, str) for x in al) or len(set(al)) != len(al):
        out.find('C26', site, f'{text(n)}: {len(c)} switching functions for {len(set(al))} multipliers'); return
    ev = NodeEv(n, REC, state)
    ev.alpha = {a[7:]: 1.0 if x > 0 else 0.0 for a, x in zip(al, c)}
    ev.paired = True
    try:
        v = fn.value(ev, g.ret)
    except Unpaired:
        out.find('C26', site, f'{text(n)}: multiplier without switching function'); return
    if n.op in NESTED and len(c) != 1 + len(state['c']):
        out.find('C26', site, f'{text(n)}: {len(c)} switching functions'); return
    v = num1(v)
    if not close(v, float(n)):
        out.find('C26', site, f'{text(n)}: the reformulation has the value {v:g} instead of {float(n):g}')

# ---- assembly of the model from the components ----------------------------------------------

LINEAR = [   # per row: (component, switching function or None for smooth)
    [[('s0', None), ('a0', 'c1')], [('a1', 'c2'), ('b1', 'c1')]],
    [[('a0', 'c1')], [('s1', None)]],
    [[('a0', 'c1'), ('b0', 'c1'), ('s0', None), ('t0', None)]],
    [[('s0', None)], [('a1', 'c1'), ('s1', None)], [('a2', 'c2'), ('b2', 'c3'), ('s2', None)]],
]
NONLIN = [[['c1'], []], [['c1', 'c2'], ['c3'], []], [['c1']]]

def els(it, st, xs):
    return it.boxed(mk('list', *[el(x) for x in xs]), st)

def assemble(rows, linear):
    """graph of reformulate() with the recursive methods replaced by tables"""
    comp = {n: c for r in rows for n, c in r} if linear else {}
    def name(it, st, x):
        x = it.reify(st, it.V(st, x))
        if x.op != 'param':
            raise I.Undecided('component ' + show(x)[:60])
        return x.args[0]
    def find(it, st, args, kw, node):
        n = name(it, st, args[1])
        return els(it, st, [P(c) for c, _ in rows[int(n[3:])]])
    def smooth(it, st, args, kw, node):
        return boolT(comp[name(it, st, args[1])] is None)
    def rebuild(it, st, args, kw, node):
        n = name(it, st, args[1])
        return mk('tuple', els(it, st, [P(n + '+'), P(n + '-')]), P(comp[n]), P('S'))
    def nonlin(it, st, args, kw, node):
        r = int(name(it, st, args[1])[3:])
        o = args[0]
        for c in rows[r]:
            for at, v in (('c', c), ('alpha', 'alpha ' + c)):
                l = it.getattr(o, at, st)
                it.hset(st, l, '[]', concat('list', it.V(st, l), mk('list', el(P(v)))))
        return P(f'f{r}')
    def detect(it, st, args, kw, node):
        return boolT(not linear)
    def split(it, st, args, kw, node):
        return els(it, st, [P(f'row{k}') for k in range(len(rows))])
    def model(it, st, args, kw, node):
        if args:
            raise I.Undecided('positional arguments of NosnocModel')
        d = mk('dict', tuple((string(k), it.reify(st, it.V(st, v))) for k, v in kw.items()))
        return d
    def hooks(it, st, f, args, kw, node):
        if f.op in ('attr', 'meth') and f.args[1] in ('str', '__str__', '__repr__') and f.args[0].op == 'param':
            return string(f.args[0].args[0])
        return None
    pr = {CLS + '_find_nonlinear_components': find, CLS + '_check_smooth': smooth, CLS + '_rebuild_additive_component': rebuild, CLS + '_rebuild_nonlin': nonlin,
          CLS + '_detect_additive': detect, 'casadi.vertsplit': split, 'new:NosnocModel': model}
    return fn.graph(('func', 'spec_auto_spec', 'reformulate'), ['x', 'x0', 'u', 'f'], prims_=pr, hooks=hooks)

class AsmEv(fn.FunEv):
    def o_col(self, t, b):
        if all(a.op in ('spread', 'el') for a in t.args):
            vs = [self.ev(a.args[0], b) for a in t.args]
            if any(isinstance(v, Mat) for v in vs):
                out = []
                for v in vs:
                    out += v.rows if isinstance(v, Mat) else [[x] for x in (v if isinstance(v, list) else [v])]
                return Mat(out)
        return super().o_col(t, b)
    def f_horzcat(self, *a):
        cs = [x.rows if isinstance(x, Mat) else [[y] for y in x] if isinstance(x, list) else [[x]] for x in a]
        if len({len(c) for c in cs}) != 1:
            raise EvalError('horzcat of different heights')
        return Mat([[y for c in cs for y in c[i]] for i in range(len(cs[0]))])

def val(n):
    return hreal_v('auto', n)

def check_assembly():
    out = fn.Out('NosnocAutoModel.reformulate', FILE)
    for rows in LINEAR:
        tag = str(rows)
        try:
            g = assemble(rows, True)
        except I.Undecided as e:
            out.und(f'{tag}: {e}'); continue
        if g.unsupported or g.dead:
            out.und(f'{tag}: {g.unsupported[:1]} dead={g.dead}'); continue
        names = [n for r in rows for n, _ in r]
        cs = sorted({c for r in rows for _, c in r if c})
        at = {n + s: val(n + s) for n in names for s in '+-'}
        at.update({n: val(n) for n in names})
        at.update({c: 0.5 + val(c) for c in cs})
        at.update({'S': Mat([[1], [-1]]), 'x': [1.5, 2.5], 'x0': [0.1, 0.2], 'u': [3.5]})
        e = AsmEv(fn.env({}, 0), {}, at)
        try:
            v = fn.value(e, g.ret)
            if not isinstance(v, dict) or not {'F', 'c', 'S'} <= set(v):
                raise EvalError('no model')
            F = v['F']
            C = [num1(x) for x in v['c']]
            S = v['S']
        except EvalError as ex:
            out.und(f'{tag}: {ex}'); continue
        out.d['compared'] += 1
        site = 'NosnocAutoModel._reformulate_linear'
        common(out, v, at, site)
        if not len(F) == len(C) == len(S):
            out.find('C26', site, f'{len(F)} vector fields, {len(C)} switching functions, {len(S)} sign matrices'); continue
        if sorted(C) != sorted(at[c] for c in cs):
            out.find('C26', site, 'the switching functions are not those of the components', tag); continue
        by = {at[c]: c for c in cs}
        for sg in itertools.product((1, -1), repeat=len(cs)):
            sign = dict(zip(cs, sg))
            want = [sum(at[n] if c is None else at[n + ('+' if sign[c] > 0 else '-')] for n, c in r) for r in rows]
            got = [0.0] * len(rows)
            ok = True
            for Fj, cj, Sj in zip(F, C, S):
                cols = [k for k, r in enumerate(Sj.rows) if r[0] * sign[by[cj]] > 0]
                M = Fj.rows if isinstance(Fj, Mat) else [[x] for x in Fj]
                if len(cols) != 1 or len(M) != len(rows) or any(len(r) != len(Sj.rows) for r in M):
                    out.find('C26', site, 'the vector fields do not have one column per row of the sign matrix', tag); ok = False; break
                for i in range(len(rows)):
                    got[i] += num1(M[i][cols[0]])
            if not ok:
                break
            bad = [i for i in range(len(rows)) if not close(got[i], want[i])]
            if bad:
                out.find('C26', site, f'signs {sign}: row {bad[0]} of the dynamics is {got[bad[0]]:g} instead of {want[bad[0]]:g}', tag)
                break
    for rows in NONLIN:
        tag = str(rows)
        site = 'NosnocAutoModel._reformulate_nonlin'
        try:
            g = assemble(rows, False)
        except I.Undecided as e:
            out.und(f'{tag}: {e}'); continue
        if g.unsupported or g.dead:
            out.und(f'{tag}: {g.unsupported[:1]} dead={g.dead}'); continue
        cs = [c for r in rows for c in r]
        at = {c: val(c) for c in cs}
        at.update({'alpha ' + c: val('alpha ' + c) for c in cs})
        at.update({f'f{k}': val(f'f{k}') for k in range(len(rows))})
        at.update({'x': [1.5, 2.5], 'x0': [0.1, 0.2], 'u': [3.5]})
        e = AsmEv(fn.env({}, 0), {}, at)
        try:
            v = fn.value(e, g.ret)
            if not isinstance(v, dict) or not {'f_x', 'c', 'alpha'} <= set(v):
                raise EvalError('no model')
            f = e.flat(v['f_x'], [])
            c, al = [e.flat(x, []) for x in v['c']], [e.flat(x, []) for x in v['alpha']]
            nf = len(v['f_x'])
        except EvalError as ex:
            out.und(f'{tag}: {ex}'); continue
        out.d['compared'] += 1
        common(out, v, at, site)
        if [x for r in c for x in r] != [at[x] for x in cs] or [x for r in al for x in r] != [at['alpha ' + x] for x in cs] or [len(r) for r in c] != [len(r) for r in al]:
            # another order is fine if both have it
            p = sorted(zip([x for r in c for x in r], [x for r in al for x in r]))
            if p != sorted((at[x], at['alpha ' + x]) for x in cs) or [len(r) for r in c] != [len(r) for r in al]:
                out.find('C26', site, 'switching functions and multipliers are not paired', tag); continue
        if nf != len(c) or fn.diff(f, [at[f'f{k}'] for k in range(len(rows))]):
            out.find('C26', site, 'the vector field is not the stack of the reformulated rows', tag)
    return out.d

def common(out, v, at, site):
    for k in ('x', 'x0', 'u'):
        if k not in v or fn.diff(v[k], at[k]):
            out.find('C26', 'NosnocAutoModel.reformulate', f'the model does not get {k} of the given system')
