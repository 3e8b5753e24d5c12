"""Models of the library calls the analysed package makes (numpy, casadi, builtins)."""
from .terms import *
from . import terms as TT
from . import interp as I

EWNAMES = {'sqrt', 'tanh', 'exp', 'log', 'fabs', 'abs', 'sin', 'cos', 'tan', 'fmin', 'fmax', 'sign', 'log10', 'round',
           'floor', 'ceil', 'isnan', 'isfinite', 'isinf', 'maximum', 'minimum', 'absolute'}

def R(it, st, v):
    return it.reify(st, it.V(st, v))

def nd(it, st, v):
    """arrays are pure values; in-place writes update the place that holds them"""
    return v

def arr(it, st, v):
    """np.array(v)"""
    t = R(it, st, v)
    return arr_pure(t)

def arr_pure(t):
    if t.op == 'tuple':
        t = seq('list', [el(x) for x in t.args])
    if t.op == 'list':
        segs = []
        for s in t.args:
            q = _aseg(s)
            if q is None:
                return mk('call', 'matrix', t)
            segs.append(q)
        return seq('col', segs)
    if t.op == 'range' or t.op == 'col':
        return t
    return t
def _aseg(s):
    if s.op == 'el':
        v = s.args[0]
        if v.op in ('list', 'tuple', 'range') or isvec(v) is True:
            return None
        return s
    if s.op == 'rep':
        bv, lo, hi, body = s.args
        q = [_aseg(x) for x in body.args]
        if None in q:
            return None
        b = binder(lo, hi)
        return mrep(b, lo, hi, subst(seq('col', q), {bv: b}))
    if s.op == 'opt':
        q = [_aseg(x) for x in s.args[1].args]
        return None if None in q else opt(s.args[0], seq('col', q))
    if s.op == 'spread':
        return s
    return None

def catseg(v):
    """value as segments of a column vector"""
    if v.op == 'list':
        out = []
        for s in v.args:
            if s.op == 'el':
                out.extend(catseg(s.args[0]))
            elif s.op == 'spread' and s.args[0].op == 'list':
                out.extend(catseg(s.args[0]))
            else:
                out.append(s)
        return out
    if v.op == 'col':
        return list(v.args)
    if v.op == 'none':
        return [el(v)]
    if isvec(v) is False:
        return [el(v)]
    return [spread(v)]

def catall(v):
    b = binder(ZERO, length(v))
    return mrep(b, ZERO, length(v), seq("col", [spread(I.index(v, b))]))

def listsegs(it, st, v):
    """elements of a list of vectors -> column segments"""
    v = it.V(st, v)
    if v.op == 'tuple':
        r = []
        for a in v.args:
            r.extend(catseg(R(it, st, a)))
        return r
    v = R(it, st, v)
    if v.op == 'list':
        return _ls(v.args)
    return [catall(v)]
def _ls(segs):
    r = []
    for s in segs:
        if s.op == 'el':
            r.extend(catseg(s.args[0]))
        elif s.op == 'rep':
            bv, lo, hi, body = s.args
            b = binder(lo, hi)
            r.append(mrep(b, lo, hi, subst(seq('col', _ls(body.args)), {bv: b})))
        elif s.op == 'opt':
            r.append(opt(s.args[0], seq('col', _ls(s.args[1].args))))
        elif s.op == 'spread':
            if s.args[0].op == 'list':
                r.extend(_ls(s.args[0].args))
            else:
                r.append(catall(s.args[0]))
    return r

def shape_arg(it, st, args):
    a = [it.V(st, x) for x in args]
    if len(a) == 1 and a[0].op == 'tuple':
        a = [it.V(st, x) for x in a[0].args]
    return a

def filled(it, st, v, args):
    a = shape_arg(it, st, args)
    if not a:
        return v
    if len(a) == 1 or (len(a) == 2 and a[1] is ONE):
        return nd(it, st, fill(v, a[0]))
    if len(a) == 2 and a[0] is ONE and False:
        return nd(it, st, fill(v, a[1]))
    return mk('call', 'filled', v, *a)

def reduce_sum(it, st, v, start=None):
    v = R(it, st, v)
    r = ZERO if start is None else start
    if v.op == 'tuple':
        for a in v.args:
            r = add(r, a)
        return r
    if v.op == 'range':
        lo, hi = v.args
        b = binder(lo, hi)
        return add(r, msum(b, lo, hi, b))
    if v.op in ('list', 'col'):
        return add(r, seg_sum(v.args))
    if v.op == 'fill':
        return add(r, mul(v.args[0], v.args[1]))
    if v.op == 'call' and v.args[0] == 'T':
        v = v.args[1]
    return add(r, vsum(v))
def vsum(v):
    """sum of the entries of a vector value"""
    if isvec(v) is False:
        return v
    if v.op in ('list', 'col'):
        return seg_sum(v.args)
    if v.op == 'poly':
        # linear: pull numeric coefficients
        parts = ZERO
        for m, c in v.args[0]:
            sc = tuple(x for x in m if isvec(x[0]) is False)
            ve = tuple(x for x in m if isvec(x[0]) is not False)
            from .terms import _poly
            if not ve:
                parts = add(parts, mul(_poly({sc: c}), length(v)))
            else:
                parts = add(parts, mul(_poly({sc: c}), mk('call', 'vsum', _poly({ve: 1}))))
        return parts
    n = cint(length(v))
    if n is not None and n <= 6:
        r = ZERO
        for k in range(n):
            r = add(r, I.index(v, num(k)))
        return r
    return mk('call', 'vsum', v)
def seg_sum(segs):
    r = ZERO
    for s in segs:
        if s.op == 'el':
            r = add(r, s.args[0])
        elif s.op == 'spread':
            r = add(r, vsum(s.args[0]))
        elif s.op == 'opt':
            r = add(r, ite(s.args[0], seg_sum(s.args[1].args), ZERO))
        elif s.op == 'rep':
            bv, lo, hi, body = s.args
            b = binder(lo, hi)
            r = add(r, msum(b, lo, hi, subst(seg_sum(body.args), {bv: b})))
    return r

def reduce_list(it, st, v):
    """sum(list of lists, []) : concatenation of the elements"""
    v = R(it, st, v)
    if v.op == 'tuple':
        return concat('list', *v.args)
    if v.op == 'list':
        def go(segs):
            out = []
            for s in segs:
                if s.op == 'el':
                    out.extend(segs_of(s.args[0]))
                elif s.op == 'rep':
                    bv, lo, hi, body = s.args
                    b = binder(lo, hi)
                    out.append(mrep(b, lo, hi, subst(seq('list', go(body.args)), {bv: b})))
                elif s.op == 'opt':
                    out.append(opt(s.args[0], seq('list', go(s.args[1].args))))
                else:
                    b = binder(ZERO, length(s.args[0]))
                    out.append(mrep(b, ZERO, length(s.args[0]), seq('list', [spread(I.index(s.args[0], b))])))
            return out
        return seq('list', go(v.args))
    b = binder(ZERO, length(v))
    return seq('list', [mrep(b, ZERO, length(v), mk('list', spread(I.index(v, b))))])

def quant(it, st, v, isany):
    v = R(it, st, v)
    if v.op in ('tuple',):
        cs = [it.truth(a, st) for a in v.args]
        return mor(*cs) if isany else mand(*cs)
    if v.op in ('list', 'col'):
        r = FALSE if isany else TRUE
        for s in v.args:
            if s.op == 'rep':
                bv, lo, hi, body = s.args
                b = binder(lo, hi)
                c = quant(it, st, subst(body, {bv: b}), isany)
                if b in c.fv:
                    c = None
                elif isany:
                    c = mand(lt(lo, hi), c)
                else:
                    c = mor(mnot(lt(lo, hi)), c)
                if c is not None:
                    r = mor(r, c) if isany else mand(r, c)
                    continue
            if s.op == 'el':
                c = it.truth(s.args[0], st)
            elif s.op == 'opt' and all(x.op == 'el' for x in s.args[1].args):
                cs = [it.truth(x.args[0], st) for x in s.args[1].args]
                c = mand(s.args[0], mor(*cs)) if isany else mor(mnot(s.args[0]), mand(*cs))
            else:
                c = mk('bcall', 'any', seq('col', [s])) if isany else mnot(mk('bcall', 'any', neg_seg(s)))
            r = mor(r, c) if isany else mand(r, c)
        return r
    k = v.args[0] if v.op == 'not' else v
    if k.op in ('lt', 'le', 'eq') and isvec(k.args[0]) is not False:
        return mk('bcall', 'any', v) if isany else mk('bcall', 'all', v)
    if isbool(v):
        return v
    if isvec(v) is False:
        return truth(v)
    return mk('bcall', 'any', v) if isany else mk('bcall', 'all', v)
def neg_seg(s):
    if s.op == 'rep':
        bv, lo, hi, body = s.args
        b = binder(lo, hi)
        return seq('col', [mrep(b, lo, hi, subst(seq('col', [neg_seg1(x) for x in body.args]), {bv: b}))])
    return seq('col', [neg_seg1(s)])
def neg_seg1(s):
    if s.op == 'el':
        return el(mnot(truth(s.args[0])))
    if s.op == 'opt':
        return opt(s.args[0], seq('col', [neg_seg1(x) for x in s.args[1].args]))
    if s.op == 'rep':
        return neg_seg(s).args[0]
    return spread(mk('call', 'not', s.args[0]))

def minmax(it, st, args, name):
    if len(args) == 1:
        v = R(it, st, args[0])
        if v.op == 'tuple' or (v.op in ('list', 'col') and v.args and all(s.op == 'el' for s in v.args)):
            xs = list(v.args) if v.op == 'tuple' else [s.args[0] for s in v.args]
            return ew(name, *xs)
        if v.op == 'fill':
            return v.args[0]
        return mk('call', 'm' + name, v)
    return ew(name, *[R(it, st, a) for a in args])
TT.REBUILD['ew'] = lambda n, *a: ew(n, *a) if n != 'pow' else power(*a)

def cumsum(v):
    v = v
    if v.op in ('col', 'list') and all(s.op == 'el' for s in v.args):
        out, acc = [], ZERO
        for s in v.args:
            acc = add(acc, s.args[0])
            out.append(el(acc))
        return seq('col', out)
    return mk('cumsum', v)
TT.REBUILD['cumsum'] = cumsum

def is_type(it, st, o, t):
    """isinstance(o, t) -> condition"""
    if t.op == 'tuple':
        return mor(*[is_type(it, st, o, x) for x in t.args])
    if t.op == 'list':
        return mor(*[is_type(it, st, o, x.args[0]) for x in t.args])
    v = it.V(st, o)
    n = t.args[0] if t.op in ('builtin', 'ext', 'class') else None
    k = it.kind_of(o)
    known = it.dom.is_kind(v, n) if n else None
    if known is not None:
        return boolT(known)
    if v.op == 'none':
        return FALSE
    if n == 'list':
        if k == 'list' or v.op == 'list' or it.dom.islist(v):
            return TRUE
        if v.op in ('col', 'fill', 'poly', 'range', 'tuple', 'str', 'sym', 'dict') or k in ('nd', 'obj', 'dict'):
            return FALSE
    if n == 'tuple':
        if v.op == 'tuple':
            return TRUE
        if v.op in ('col', 'fill', 'poly', 'range', 'list', 'str'):
            return FALSE
    if n == 'dict' and (v.op == 'dict' or k == 'dict'):
        return TRUE
    if n == 'str' and v.op in ('str', 'fstr'):
        return TRUE
    if n in ('int', 'float') and cint(v) is not None:
        return boolT(n == 'int')
    if n == 'int' and isint(v):
        return TRUE
    if t.op == 'class':
        ci = it.class_of(o)
        if ci is not None:
            return boolT(any(c.qual == n for c in it.prog.mro(ci)))
    return mk('bcall', 'isinstance', R(it, st, v), mk('type', n) if n else R(it, st, t))

SX = {'casadi.SX', 'casadi.MX', 'casadi.DM', 'casadi.SX.zeros'}

def symname(it, st, v):
    v = R(it, st, v)
    return v

def external(it, name, args, kwargs, node, st):
    V = lambda x: it.V(st, x)
    if name.startswith('builtins.'):
        return builtin(it, name[9:], args, kwargs, node, st)
    base, _, short = name.partition('.')
    if name in it.primitives:
        r = it.primitives[name](it, st, args, kwargs, node)
        if r is not NotImplemented:
            return r
    if base == 'numpy':
        r = numpy(it, short, args, kwargs, node, st)
        if r is not None:
            return r
    if base == 'casadi':
        r = casadi(it, short, args, kwargs, node, st)
        if r is not None:
            return r
    if name in ('copy.copy', 'copy.deepcopy'):
        return do_copy(it, args[0], st, name.endswith('deepcopy'))
    if name in ('warnings.warn',):
        it.log(st, mk('event', 'warn', *[R(it, st, a) for a in args]))
        return NONE
    if name == 'collections.defaultdict':
        o = it.box(st, 'dict', mk('dict', ()))
        if args and args[0] is not NONE:
            it.hset(st, o, '#factory', args[0])
        return o
    if name in ('functools.partial',):
        return mk('partial', args[0], tuple(args[1:]), tuple(kwargs.items()))
    if name in ('math.sqrt', 'math.exp', 'math.log', 'math.tanh', 'math.floor', 'math.ceil'):
        return ew(short, R(it, st, args[0]))
    if name in ('math.fabs',):
        return ew('abs', R(it, st, args[0]))
    if name == 'itertools.chain':
        return seq('list', sum([list(segs_of(V(a))) for a in args], []))
    if name in ('itertools.chain.from_iterable',):
        return reduce_list(it, st, args[0])
    if name == 'itertools.product' and len(args) == 2:
        a, b = [it.chunks(x, st, node) for x in args]
        if all(c[0] == 'one' and len(c) == 2 for c in a + b):
            return mk('tuple', *[mk('tuple', x[1], y[1]) for x in a for y in b])
    if name.startswith('time.'):
        return mk('call', mk('ext', name), mk('nondet', TT.fresh()))
    return mk('call', mk('ext', name), *[R(it, st, a) for a in args],
              *[mk('kw', k, R(it, st, v)) for k, v in sorted(kwargs.items())])

def do_copy(it, a, st, deep):
    k = it.kind_of(a)
    v = it.V(st, a)
    if k in I.CONTAINERS:
        return it.box(st, k, R(it, st, v) if deep else v)
    if k == 'obj':
        return mk('call', 'deepcopy' if deep else 'copyobj', a)
    if v.op in ('attr', 'index', 'param') and isvec(v) is not False and it.class_of(v) is None:
        return it.box(st, 'list' if it.dom.islist(v) else 'nd', v)      # a container of unknown size
    return v

def numpy(it, n, args, kwargs, node, st):
    V = lambda x: it.V(st, x)
    mat = lambda v: it.box(st, 'nd', v) if v.op == 'call' and v.args[0] == 'filled' else v
    rr = lambda i=0: R(it, st, args[i])
    if n in ('array', 'asarray', 'asfarray', 'atleast_1d', 'fromiter'):
        v = arr(it, st, args[0])
        if v.op == 'range':
            return v
        if n == 'array' and v.op == 'param':
            return it.box(st, 'nd', v)
        return nd(it, st, v) if v.op in ('col', 'fill', 'store', 'list') or (n == 'array' and it.kind_of(args[0]) == 'nd') else v
    if n in ('zeros', 'ones', 'full', 'empty'):
        if n == 'empty':
            a = shape_arg(it, st, args)
            if a and a[-1] is ZERO:
                return mk('call', 'emptynested', *a[:-1])
        if n == 'full':
            v = V(args[1] if len(args) > 1 else kwargs['fill_value'])
            return mat(filled(it, st, v, args[:1] or [kwargs['shape']]))
        a = args[:1] or [kwargs['shape']]
        return mat(filled(it, st, {'zeros': ZERO, 'ones': ONE, 'empty': mk('call', 'uninit')}[n], a))
    if n in ('zeros_like', 'ones_like', 'full_like'):
        v = rr()
        c = {'zeros_like': ZERO, 'ones_like': ONE}.get(n) or V(args[1])
        return nd(it, st, fill(c, length(v)))
    if n in ('concatenate', 'hstack', 'vstack', 'r_', 'block'):
        if n == 'vstack':
            return None
        return nd(it, st, seq('col', listsegs(it, st, args[0])))
    if n == 'append':
        return nd(it, st, seq('col', catseg(arr(it, st, args[0])) + catseg(arr(it, st, args[1]))))
    if n == 'diff' and len(args) == 1 and not kwargs:
        v = arr(it, st, args[0])
        k, m = binder(ZERO, sub(length(v), ONE)), sub(length(v), ONE)
        return nd(it, st, seq('col', [mrep(k, ZERO, m, mk('col', el(sub(I.index(v, add(k, ONE)), I.index(v, k)))))]))
    if n == 'cumsum':
        return cumsum(arr(it, st, args[0]))
    if n in ('sum', 'nansum'):
        if len(args) == 1 and not kwargs:
            return reduce_sum(it, st, args[0])
        return None
    if n == 'mean' and len(args) == 1:
        v = rr()
        return div(reduce_sum(it, st, args[0]), length(v))
    if n in ('abs', 'absolute', 'fabs'):
        return ew('abs', arr(it, st, args[0]))
    if n in ('sqrt', 'tanh', 'exp', 'log', 'log10', 'log2', 'sin', 'cos', 'round', 'floor', 'ceil', 'isnan', 'isinf', 'isfinite', 'sign', 'around'):
        return ew({'around': 'round'}.get(n, n), *[arr(it, st, a) for a in args])
    if n in ('maximum', 'minimum', 'fmax', 'fmin'):
        return ew('fmax' if 'max' in n else 'fmin', *[arr(it, st, a) for a in args])
    if n in ('max', 'amax', 'min', 'amin') and len(args) == 1 and not kwargs:
        return minmax(it, st, args, 'fmax' if 'max' in n else 'fmin')
    if n == 'any':
        return quant(it, st, args[0], True)
    if n == 'all':
        return quant(it, st, args[0], False)
    if n == 'prod' and len(args) == 1:
        return None
    if n == 'where' and len(args) == 1:
        return mk('call', 'where', rr())
    if n == 'copy':
        return do_copy(it, args[0], st, False)
    if n == 'nan_to_num':
        return mk('ew', 'nan_to_num', rr())
    if n in ('dot', 'matmul', 'inner') and len(args) == 2:
        return dot(rr(0), rr(1))
    if n == 'size':
        return length(rr())
    if n == 'ravel' or n == 'squeeze':
        return flatval(rr())
    if n == 'arange' and len(args) in (1, 2):
        a = [V(x) for x in args]
        return I.mk_range(ZERO, a[0]) if len(a) == 1 else I.mk_range(a[0], a[1])
    if n == 'transpose':
        return I.transpose(rr())
    if n in ('float64', 'int64', 'int32'):
        return V(args[0])
    if n == 'tile' and len(args) == 2:
        v, k = rr(0), V(args[1])
        if k.op not in ('tuple',):
            b = binder(ZERO, k)
            return nd(it, st, seq('col', [mrep(b, ZERO, k, seq('col', catseg(v)))]))
    if n == 'repeat' and len(args) == 2 and isvec(rr(0)) is False:
        return nd(it, st, fill(rr(0), V(args[1])))
    if n == 'iscomplexobj':
        return FALSE
    if n == 'array_equal':
        return eq(rr(0), rr(1))
    if n == 'isclose' or n == 'allclose':
        return mk('bcall', n, rr(0), rr(1), *[mk('kw', k, R(it, st, v)) for k, v in sorted(kwargs.items())])
    if n in ('less', 'greater', 'less_equal', 'greater_equal'):
        a, b = rr(0), rr(1)
        return {'less': lt(a, b), 'greater': lt(b, a), 'less_equal': le(a, b), 'greater_equal': le(b, a)}[n]
    return None

def dot(a, b):
    if isvec(a) is False or isvec(b) is False:
        return mul(a, b)
    return I.matmul(I.transpose(a), b) if False else mk('call', 'vdot', *sorted((a, b)))

def flatval(v):
    """column-major flattening of a matrix value (identity on vectors)"""
    if isvec(v) is not None or v.op in ('fill', 'col', 'index', 'attr', 'sym', 'range', 'store', 'ite', 'poly', 'ew', 'cumsum'):
        return v
    if v.op == 'call' and v.args[0] in ('flatval',):
        return v
    return mk('call', 'flatval', v)

def casadi(it, n, args, kwargs, node, st):
    V = lambda x: it.V(st, x)
    rr = lambda i=0: R(it, st, args[i])
    for p in ('SX.', 'MX.', 'DM.'):
        if n.startswith(p):
            m = n[3:]
            if m == 'sym':
                nm = symname(it, st, args[0])
                ln = V(args[1]) if len(args) > 1 else ONE
                if len(args) > 2 and V(args[2]) is not ONE:
                    return mk('call', 'symmat', nm, *[V(a) for a in args[1:]])
                return newsym(it, st, nm, ln)
            if m in ('zeros', 'ones', 'nan'):
                v = {'zeros': ZERO, 'ones': ONE, 'nan': mk('nan')}[m]
                a = [V(x) for x in args]
                if not a or (a[0] is ONE and len(a) == 1) or (len(a) == 2 and a[0] is ONE and a[1] is ONE):
                    return v
                return filled(it, st, v, args)
            if m == 'eye':
                if V(args[0]) is ONE:
                    return ONE
                return mk('diag', fill(ONE, V(args[0])))
            if m in ('unary', 'binary'):
                return mk('call', 'casop', *[R(it, st, a) for a in args])
    if n in ('SX', 'MX', 'DM'):
        if not args:
            return EMPTY_COL
        a = [V(x) for x in args]
        if len(a) == 2:
            return filled(it, st, ZERO, args)
        v = R(it, st, a[0])
        if v.op == 'list':
            v = arr_pure(v)
        if cint(v) is not None:
            return v
        return nd(it, st, v) if v.op in ('col', 'fill', 'store') else v
    if n in ('vertcat', 'veccat'):
        r = []
        for a in args:
            if a.op == 'star':
                r.extend(_ls(segs_of(R(it, st, a.args[0]))))
            else:
                r.extend(catseg(R(it, st, a)))
        return nd(it, st, seq('col', r))
    if n == 'vcat':
        return nd(it, st, seq('col', listsegs(it, st, args[0])))
    if n in ('horzcat', 'hcat'):
        xs = [R(it, st, a.args[0] if a.op == 'star' else a) for a in args]
        if len(xs) == 1 and n == 'horzcat' and args[0].op != 'star':
            return xs[0]
        if n == 'hcat' or args[0].op == 'star':
            v = xs[0]
            if v.op == 'list' and all(s.op == 'el' for s in v.args):
                return mk('call', 'horzcat', *[s.args[0] for s in v.args])
            return mk('call', 'horzcatl', v)
        return mk('call', 'horzcat', *xs)
    if n == 'diag':
        v = rr()
        return mk('diag', v)
    if n in ('mtimes', 'dot'):
        if n == 'dot':
            return dot(rr(0), rr(1))
        return I.matmul(rr(0), rr(1))
    if n in ('sqrt', 'tanh', 'exp', 'log', 'sin', 'cos', 'sign'):
        return ew(n, rr())
    if n in ('fabs', 'fmin', 'fmax'):
        return ew(n, *[R(it, st, a) for a in args])
    if n in ('power',):
        return power(rr(0), rr(1))
    if n in ('times',):
        return mul(rr(0), rr(1))
    if n == 'sumsqr':
        return vsum(mul(rr(), rr()))
    if n in ('sum1', 'sum2', 'sum'):
        return reduce_sum(it, st, args[0])
    if n in ('transpose',):
        return I.transpose(rr())
    if n in ('mmax', 'mmin'):
        return mk('call', 'mf' + n[1:], rr())
    if n == 'norm_inf':
        return mk('call', 'norm_inf', rr())
    if n == 'Function':
        return casfun(it, args, kwargs, st)
    if n == 'horzsplit':
        v = rr()
        if len(args) == 1:
            return mk('call', 'horzsplit', v)
    if n == 'vertsplit' and len(args) == 1:
        v = R(it, st, args[0])
        if v.op == 'attr' and v.args[1] in I.MATRIX_ATTR:
            m = I.index(it.getattr(v, 'shape', st), ZERO)
            k = binder(ZERO, m)
            return seq('list', [mrep(k, ZERO, m, mk('list', el(I.index(v, mk('tuple', k, mk('sl', NONE, NONE))))))])
    if n == 'vertsplit':
        return mk('call', 'vertsplit', *[R(it, st, a) for a in args])
    return None

def newsym(it, st, nm, ln):
    key = ('sym', TT.fresh()) + st.binders
    return mk('sym', mk('key', *key[1:]), nm, ln)

def casfun(it, args, kwargs, st):
    name = R(it, st, args[0])
    ins = R(it, st, args[1])
    outs = R(it, st, args[2]) if len(args) > 2 else mk('list')
    if ins.op == 'list' and all(s.op == 'el' for s in ins.args) and outs.op == 'list' and all(s.op == 'el' for s in outs.args):
        return mk('casfun', name, tuple(s.args[0] for s in ins.args), tuple(s.args[0] for s in outs.args))
    return mk('call', mk('ext', 'casadi.Function'), name, ins, outs)

def builtin(it, n, args, kwargs, node, st):
    V = lambda x: it.V(st, x)
    if n == 'len':
        v = V(args[0])
        if v.op == 'tuple':
            return num(len(v.args))
        if v.op == 'dict':
            return num(len(v.args[0]))
        if v.op == 'setlit':
            return num(len(v.args))
        return length(R(it, st, v) if v.op in ('list', 'col', 'ite') else v)
    if n == 'range':
        a = [V(x) for x in args]
        if len(a) == 1:
            return I.mk_range(ZERO, a[0])
        if len(a) == 2:
            return I.mk_range(a[0], a[1])
        s = cint(a[2])
        if s == -1:
            return mk('iter', 'reversed', I.mk_range(add(a[1], ONE), add(a[0], ONE)))
        lo, hi = cint(a[0]), cint(a[1])
        if s and lo is not None and hi is not None:
            return mk('tuple', *[num(k) for k in range(lo, hi, s)])
        if s and s > 0:
            return mk('call', 'srange', *a)
        raise I.Undecided('range with step')
    if n == 'enumerate':
        start = V(args[1]) if len(args) > 1 else V(kwargs['start']) if 'start' in kwargs else ZERO
        return mk('iter', 'enumerate', args[0], start)
    if n == 'zip':
        return mk('iter', 'zip', *args)
    if n == 'reversed':
        return mk('iter', 'reversed', args[0])
    if n == 'map':
        return mk('iter', 'map', *args)
    if n == 'sum':
        if len(args) == 2 and (it.kind_of(args[1]) == 'list' or V(args[1]).op == 'list'):
            return concat('list', V(args[1]), reduce_list(it, st, args[0]))
        return reduce_sum(it, st, args[0], V(args[1]) if len(args) == 2 else V(kwargs['start']) if 'start' in kwargs else None)
    if n in ('max', 'min') and not kwargs:
        return minmax(it, st, args, 'f' + n)
    if n == 'abs':
        return ew('abs', R(it, st, args[0]))
    if n == 'round':
        return ew('round', *[R(it, st, a) for a in args])
    if n == 'any':
        return quant(it, st, args[0], True)
    if n == 'all':
        return quant(it, st, args[0], False)
    if n == 'bool':
        return it.truth(args[0], st)
    if n == 'isinstance':
        return is_type(it, st, args[0], args[1])
    if n == 'issubclass':
        return mk('bcall', 'issubclass', *[R(it, st, a) for a in args])
    if n == 'callable':
        return mk('bcall', 'callable', R(it, st, args[0]))
    if n == 'hasattr':
        return mk('bcall', 'hasattr', args[0], R(it, st, args[1]))
    if n == 'list' or n == 'tuple':
        if not args:
            return mk('list') if n == 'list' else mk('tuple')
        a = args[0]
        if a.op == 'iter':
            def go(a):
                segs = []
                for ch in it.chunks(a, st, node):
                    if ch[0] == 'one':
                        segs.append(el(ch[1]) if len(ch) == 2 else opt(ch[2], mk('list', el(ch[1]))))
                    else:
                        b = binder(ch[1], ch[2])
                        x = ch[3](b)
                        segs.append(mrep(b, ch[1], ch[2], mk('list', el(x)) if ch[0] == 'gen' else seq('list', go(x))))
                return segs
            return seq('list', go(a))
        v = V(a)
        if n == 'tuple':
            if v.op == 'list' and all(s.op == 'el' for s in v.args):
                return mk('tuple', *[s.args[0] for s in v.args])
            return v
        if v.op == 'tuple':
            return seq('list', [el(x) for x in v.args])
        if v.op == 'dict':
            return seq('list', [el(k) for k, _ in v.args[0]])
        if v.op in ('setlit',):
            return seq('list', [el(x) for x in v.args])
        if v.op in ('range', 'list'):
            return seq('list', [spread(v)]) if v.op == 'range' else v
        if v.op == 'col':
            return mk('list', *v.args)
        return v
    if n == 'dict':
        d = mk('dict', ())
        if args:
            v = V(args[0])
            if v.op == 'dict':
                d = v
            elif v.op == 'iter' or v.op in ('list', 'tuple'):
                for ch in it.chunks(v, st, node):
                    if ch[0] != 'one' or len(ch) > 2:
                        raise I.Undecided('dict()')
                    t = V(ch[1])
                    d = I.dict_set(d, V(t.args[0]), t.args[1])
            else:
                return mk('call', 'dict', v)
        for k, v in kwargs.items():
            d = I.dict_set(d, string(k), v)
        return d
    if n in ('set', 'frozenset'):
        if not args:
            return mk('setlit')
        v = R(it, st, args[0])
        if v.op == 'setlit':
            return v
        if v.op == 'dict':
            return mk('setlit', *[k for k, _ in v.args[0]])
        if v.op == 'tuple' or (v.op == 'list' and all(s.op == 'el' for s in v.args)):
            xs = list(v.args) if v.op == 'tuple' else [s.args[0] for s in v.args]
            return mk('setlit', *dict.fromkeys(xs))
        return mk('call', 'set', v)
    if n == 'sorted' and len(args) == 1 and set(kwargs) <= {'reverse'}:
        v = R(it, st, args[0])
        xs = list(v.args) if v.op in ('tuple', 'setlit') else [k for k, _ in v.args[0]] if v.op == 'dict' else \
            [s.args[0] for s in v.args] if v.op == 'list' and all(s.op == 'el' for s in v.args) else None
        if xs is not None and (not xs or all(x.op == 'str' for x in xs) or all(x.op == 'tuple' and x.args and x.args[0].op == 'str' for x in xs)):
            key = lambda x: x.args[0] if x.op == 'str' else x.args[0].args[0]
            rev = V(kwargs['reverse']) is TRUE if kwargs else False
            if len({key(x) for x in xs}) == len(xs):
                return it.box(st, 'list', mk('list', *[el(x) for x in sorted(xs, key=key, reverse=rev)]))
    if n == 'sorted':
        return mk('call', 'sorted', *[R(it, st, a) for a in args])
    if n in ('int', 'float'):
        v = V(args[0])
        if n == 'float' or cint(v) is not None or isint(v):
            return v if v.op != 'str' else mk('call', n, v)
        return ew('int', v)
    if n == 'str':
        v = V(args[0])
        return v if v.op in ('str', 'fstr') else TT.fstr(v)
    if n in ('repr', 'format'):
        return mk('fstr', *[V(a) for a in args])
    if n == 'print':
        it.log(st, mk('event', 'print', *[R(it, st, a) for a in args]))
        return NONE
    if n == 'slice':
        a = [V(x) for x in args]
        if len(a) == 1:
            a = [ZERO, a[0]]
        if a[0] is NONE:
            a[0] = ZERO
        if len(a) == 3 and a[2] is NONE:
            a = a[:2]
        return mk('slice', *a)
    if n == 'getattr':
        nm = V(args[1])
        if nm.op == 'str':
            v = it.getattr(args[0], nm.args[0], st, node)
            return v
        if nm.op == 'ite':
            o = args[0]
            return it.gite(nm.args[0], builtin(it, n, [o, nm.args[1]], kwargs, node, st), builtin(it, n, [o, nm.args[2]], kwargs, node, st))
        return mk('call', 'getattr', args[0], nm)
    if n == 'setattr':
        nm = V(args[1])
        if nm.op == 'str':
            it.setattr(args[0], nm.args[0], args[2], st)
            return NONE
        raise I.Undecided('setattr with computed name')
    if n == 'vars':
        return mk('objdict', args[0])
    if n == 'type':
        return mk('call', 'type', args[0])
    if n == 'next':
        v = args[0]
        chs = it.chunks(v, st, node) if v.op == 'iter' or V(v).op in ('list', 'tuple') else None
        if chs and chs[0][0] == 'one' and len(chs[0]) == 2:
            return chs[0][1]
        raise I.Undecided('next()')
    if n == 'iter':
        return args[0]
    if n == 'id':
        return mk('call', 'id', args[0])
    if n == 'exit' or n == 'quit':
        it.do_raise(st, 'SystemExit', node)
        return NONE
    if n == 'divmod':
        a, b = V(args[0]), V(args[1])
        return mk('tuple', mk('call', 'floordiv', a, b), mk('call', 'mod', a, b))
    if n == 'open':
        return mk('call', 'open', *[R(it, st, a) for a in args])
    if n in ('Exception', 'ValueError', 'TypeError', 'NotImplementedError', 'RuntimeError', 'Warning', 'KeyError', 'object', 'UserWarning', 'RuntimeWarning'):
        return mk('call', mk('builtin', n), *[R(it, st, a) for a in args])
    if n.startswith('object.'):
        return NONE
    return mk('call', mk('builtin', n), *[R(it, st, a) for a in args])

def method(it, o, name, args, kwargs, node, st):
    V = lambda x: it.V(st, x)
    k = it.kind_of(o)
    if o.op == 'ite' and (k in I.CONTAINERS or name in ('append', 'extend', 'update', 'insert', 'clear')):
        out = {}
        def f1(q): out[1] = method(it, o.args[1], name, args, kwargs, node, q)
        def f2(q): out[2] = method(it, o.args[2], name, args, kwargs, node, q)
        it.branch(o.args[0], f1, f2, st)
        return it.gite(o.args[0], out[1], out[2])
    v = V(o)
    if name == 'append':
        x = args[0]
        it.hset(st, o, '[]', concat('list', v, mk('list', el(it.boxed(x, st)))))
        it.note(V(o), node)
        return NONE
    if name == 'extend':
        x = args[0]
        if x.op == 'iter':
            x = builtin(it, 'list', [x], {}, node, st)
        x = V(x)
        if x.op == 'tuple':
            x = seq('list', [el(a) for a in x.args])
        it.hset(st, o, '[]', concat('list', v, x if x.op in ('list',) else mk('list', *segs_of(x))))
        return NONE
    if name == 'insert':
        i = V(args[0])
        if i is ZERO:
            it.hset(st, o, '[]', concat('list', mk('list', el(it.boxed(args[1], st))), v))
            return NONE
        raise I.Undecided('insert')
    if name == 'clear':
        it.hset(st, o, '[]', mk('dict', ()) if v.op == 'dict' else EMPTY_LIST)
        return NONE
    if name == 'pop':
        if v.op == 'list' and v.args and (not args or cint(V(args[0])) in (-1, 0)):
            at = -1 if not args or cint(V(args[0])) == -1 else 0
            r = I.index(v, num(at))
            rest = I.index(v, mk('sl', ZERO, num(-1)) if at == -1 else mk('sl', ONE, NONE))
            it.hset(st, o, '[]', rest)
            return r
        if v.op == 'dict':
            key = V(args[0])
            r = I.dict_get(it, v, key, st) if len(args) == 1 else args[1]
            for kk, vv in v.args[0]:
                if kk is key:
                    r = vv
            it.hset(st, o, '[]', mk('dict', tuple((a, b) for a, b in v.args[0] if a is not key)))
            return r
        return mk('call', 'pop', v, *[R(it, st, a) for a in args])
    if name == 'copy':
        return do_copy(it, o, st, False)
    if name in ('flatten', 'ravel', 'squeeze'):
        if v.op == 'objcall':
            return v
        o_ = kwargs.get('order', args[0] if args else None)
        if o_ is not None and name != 'squeeze' and not (V(o_).op == 'str' and V(o_).args[0] == 'C'):
            if V(o_).op == 'str' and V(o_).args[0] == 'F':
                return mk('call', 'colmajor', R(it, st, v))
            raise I.Undecided('order of flattening')
        return flatval(R(it, st, v))
    if name in ('full', 'item', 'toarray'):
        v = R(it, st, v)
        return v
    if name == 'tolist':
        v = R(it, st, v)
        if v.op == 'call' and v.args[0] == 'emptynested':
            return nested_empty(it, st, list(v.args[1:]))
        if v.op == 'col':
            return mk('list', *v.args)
        return v
    if name in ('items', 'keys', 'values'):
        if v.op == 'dict':
            return mk('tuple', *[mk('tuple', a, b) if name == 'items' else a if name == 'keys' else b for a, b in v.args[0]])
        return mk('call', name, R(it, st, v))
    if name == 'get':
        if v.op == 'dict':
            key = V(args[0])
            dflt = args[1] if len(args) > 1 else NONE
            r = dflt
            for a, b in reversed(v.args[0]):
                r = it.gite(it.eqv(key, a, st), b, r)
            return r
        return mk('call', 'get', R(it, st, v), *[R(it, st, a) for a in args])
    if name == 'update':
        if v.op == 'dict':
            d = v
            for a in args:
                x = V(a)
                if x.op != 'dict':
                    raise I.Undecided('dict.update')
                for kk, vv in x.args[0]:
                    d = I.dict_set(d, kk, vv)
            for kk, vv in kwargs.items():
                d = I.dict_set(d, string(kk), vv)
            it.hset(st, o, '[]', d)
            return NONE
        if v.op == 'objdict':
            raise I.Undecided('__dict__.update')
    if name == 'setdefault' and v.op == 'dict':
        key = V(args[0])
        for a, b in v.args[0]:
            if a is key:
                return b
        x = it.boxed(args[1] if len(args) > 1 else NONE, st)
        it.hset(st, o, '[]', I.dict_set(v, key, x))
        return x
    if name in ('numel', 'size1', 'rows'):
        return length(R(it, st, v))
    if name in ('size2', 'columns'):
        return I.ncols(R(it, st, v))
    if name == 'sum':
        return reduce_sum(it, st, o)
    if name in ('max', 'min') and not args:
        return minmax(it, st, [o], 'f' + name)
    if name == 'any':
        return quant(it, st, o, True)
    if name == 'all':
        return quant(it, st, o, False)
    if name == 'astype':
        return nd(it, st, v)
    if name == 'reshape':
        a = [V(x) for x in args]
        if len(a) == 1 and a[0].op == 'tuple':
            a = list(a[0].args)
        v = R(it, st, v)
        if len(a) == 1 and cint(a[0]) == -1:
            return flatval(v)
        if len(a) == 2 and a[1] is ONE or (len(a) == 1):
            return flatval(v)
        return mk('call', 'reshape', v, *a)
    if name == 'dot':
        return dot(R(it, st, v), R(it, st, args[0]))
    if name in ('format', 'join', 'startswith', 'endswith', 'split'):
        if name == 'format':
            if v.op == 'str' and not kwargs:
                return I.braces(v.args[0], [R(it, st, a) for a in args])
            return mk('fstr', v, *[R(it, st, a) for a in args])
        if name == 'join':
            x = R(it, st, args[0])
            xs = list(x.args) if x.op == 'tuple' else [s.args[0] for s in x.args] if x.op == 'list' and all(s.op == 'el' for s in x.args) else None
            if v.op == 'str' and xs:
                return TT.fstr(*[y for x in xs for y in (v, x)][1:])
            return mk('fstr', v, *[R(it, st, a) for a in args])
        return mk('call', name, v, *[R(it, st, a) for a in args])
    if name == 'add' and v.op == 'setlit':
        x = R(it, st, args[0])
        if x not in v.args:
            it.hset(st, o, '[]', mk('setlit', *(v.args + (x,))))
        return NONE
    if name in ('union', 'update') and v.op == 'setlit':
        xs = list(v.args)
        for a in args:
            w = R(it, st, a)
            if w.op not in ('tuple', 'setlit', 'list', 'dict') or (w.op == 'list' and any(s.op != 'el' for s in w.args)):
                raise I.Undecided('union of unknown sets')
            xs += [k for k, _ in w.args[0]] if w.op == 'dict' else [s.args[0] for s in w.args] if w.op == 'list' else list(w.args)
        r = mk('setlit', *dict.fromkeys(xs))
        if name == 'union':
            return r
        it.hset(st, o, '[]', r)
        return NONE
    if name == 'index' and v.op == 'list':
        return mk('call', 'indexof', R(it, st, v), R(it, st, args[0]))
    r = it.dom.call(it, st, mk('meth', o, name), args, kwargs, node)
    if r is not None:
        return r
    ov = o if k == 'obj' else R(it, st, v)
    it.stats['opaque'].add('.' + name)
    return mk('call', mk('method', name), ov, *[R(it, st, a) for a in args],
              *[mk('kw', kk, R(it, st, vv)) for kk, vv in sorted(kwargs.items())])

def nested_empty(it, st, dims):
    """fresh nested list of the given dimensions with empty lists as leaves"""
    if not dims:
        return it.box(st, 'list', EMPTY_LIST)
    n = dims[0]
    k = cint(n)
    if k is not None and k <= 3:
        return it.box(st, 'list', seq('list', [el(nested_empty(it, st, dims[1:])) for _ in range(k)]))
    b = binder(ZERO, n)
    h0 = dict(st.heap)
    st.binders += (b,)
    inner = nested_empty(it, st, dims[1:])
    st.binders = st.binders[:-1]
    it.close_family(st, h0, b, ZERO, n)
    return it.box(st, 'list', seq('list', [mrep(b, ZERO, n, mk('list', el(inner)))]))
