"""Hash-consed value-graph terms with smart constructors (normal forms).

Every value the abstract interpreter computes is one of these terms.  The
constructors normalise on the fly, so equality of values is identity of terms
(modulo canonicalisation of binders, done when a binder is closed):

  arithmetic   polynomials with rational coefficients over atoms
  conditions   ordered decision trees over atomic conditions
  sequences    'list' (Python list) and 'col' (column vector / 1-d array), a
               tuple of segments: el(v), spread(v), rep(bv, lo, hi, seq), opt(c, seq)
  reductions   sum / prod over a bound index
"""
from fractions import Fraction

class T:
    __slots__ = ('op', 'args', 'id', 'fv', 'height', 'key')
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return self.id < o.id

_table = {}
_EMPTY = frozenset()

def _scan(args, fvs, hs):
    for a in args:
        if isinstance(a, T):
            if a.fv:
                fvs.append(a.fv)
            hs.append(a.height)
        elif isinstance(a, tuple):
            _scan(a, fvs, hs)

def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.id = op, args, len(_table)
        fvs, hs = [], [0]
        _scan(args, fvs, hs)
        if op in BIND:
            bv = args[0]
            inner = frozenset().union(*fvs) if fvs else _EMPTY
            t.fv = inner - {bv}
            if op == 'fold':
                t.fv = t.fv - frozenset(args[5])
            t.height = max(hs) + 1
        else:
            if op in ('b', 'phi', 'bv'):
                t.fv = frozenset([t]).union(*fvs) if fvs else frozenset([t])
            elif not fvs:
                t.fv = _EMPTY
            elif len(fvs) == 1:
                t.fv = fvs[0]
            else:
                t.fv = frozenset().union(*fvs)
            t.height = max(hs)
        _table[k] = t
    return t

# operators whose first argument is a bound variable: (bv, lo, hi, body...)
BIND = {'rep', 'sum', 'prod', 'maparr', 'fold', 'each', 'loop'}

TRUE = mk('true')
FALSE = mk('false')
NONE = mk('none')
INF = mk('inf')

def boolT(b):
    return TRUE if b else FALSE

def unknown(why):
    return mk('unknown', str(why))

def string(s):
    return mk('str', s)

def fstr(*parts):
    """text made of parts: adjacent constants are joined"""
    out = []
    for x in parts:
        for y in (x.args if x.op == 'fstr' else (x,)):
            if y.op != 'str':
                c = cint(y)
                if c is not None:
                    y = string(str(c))
            if y.op == 'str' and out and out[-1].op == 'str':
                out[-1] = string(out[-1].args[0] + y.args[0])
            else:
                out.append(y)
    if len(out) == 1 and out[0].op == 'str':
        return out[0]
    return mk('fstr', *out) if out else string('')

# ---------------------------------------------------------------- variables
_cnt = [0]
def fresh(prefix=''):
    _cnt[0] += 1
    return _cnt[0]

DOM = {}      # binder -> (lo, hi) : lo <= b < hi
def binder(lo, hi):
    b = mk('b', fresh())
    DOM[b] = (lo, hi)
    return b

def phi(name):
    return mk('phi', fresh(), name)

# ---------------------------------------------------------------- polynomials
def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x == float('inf'):
            return INF
        if x == -float('inf'):
            return neg(INF)
        x = Fraction(repr(x))
    if isinstance(x, Fraction) and x.denominator == 1:
        x = x.numerator
    r = _nums.get(x)
    if r is None:
        r = _nums[x] = _poly({(): x})
    return r
_nums = {}

def _poly(d):
    d = {m: (c if c.__class__ is int or c.denominator != 1 else c.numerator) for m, c in d.items() if c != 0}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(d.items(), key=_mono_key)))

def _mono_key(mc):
    return (len(mc[0]), tuple((a.id, e) for a, e in mc[0]))

def pdict(t):
    if t.op == 'poly':
        return dict(t.args[0])
    if t is TRUE:
        return {(): 1}
    if t is FALSE:
        return {}
    return {((t, 1),): 1}

def const(t):
    """rational value of a constant term, else None"""
    if t.op == 'poly':
        d = t.args[0]
        if not d:
            return Fraction(0)
        if len(d) == 1 and d[0][0] == ():
            return d[0][1]
    if t is TRUE:
        return Fraction(1)
    if t is FALSE:
        return Fraction(0)
    return None

def cint(t):
    c = const(t)
    if c is not None and c.denominator == 1:
        return int(c)
    return None

ZERO = num(0)
ONE = num(1)

SCALAR_OPS = {'b', 'bv', 'len', 'inf', 'enum', 'dim', 'true', 'false', 'str'}
SCALAR_ATTR = set()     # (attribute names known to be scalar, filled by the domain)

def isvec(t):
    """True/False/None (unknown)"""
    o = t.op
    if o in ('fill', 'col', 'list', 'range', 'cumsum'):
        return True
    if o in SCALAR_OPS:
        return False
    if o == 'poly':
        r = False
        for m, _ in t.args[0]:
            for a, _e in m:
                v = isvec(a)
                if v:
                    return True
                if v is None:
                    r = None
        return r
    if o == 'sym':
        return False if t.args[2] is ONE else (None if cint(t.args[2]) is None else True)
    if o == 'attr':
        return False if t.args[1] in SCALAR_ATTR else None
    if o in ('sum', 'prod'):
        return isvec(t.args[3])
    if o == 'ite':
        a, b = isvec(t.args[1]), isvec(t.args[2])
        return a if a == b else None
    if o == 'ew':
        return isvec(t.args[1])
    if o == 'index':
        i = t.args[1]
        base = t.args[0]
        if base.op == 'attr' and base.args[1] in SCALAR_ELEM:
            if i.op in ('b', 'bv', 'attr') or isint(i):
                return False
            if i.op == 'tuple' and all(x.op != 'sl' and isvec(x) is False for x in i.args):
                return False
        if i.op in ('range', 'list', 'col', 'sl'):
            return True
        if isint(i) and (base.op == 'sym' or isvec(base) is True and base.op in ('col', 'fill')):
            return False
        if isint(i) and base.op == 'index' and base.args[0].op == 'call' and base.args[0].args[0] == 'horzsplit':
            return False
        if isint(i) and base.op == 'call' and base.args[0].__class__ is T and base.args[0].op == 'attr':
            return False
        return None
    if o == 'call' and t.args[0].__class__ is T and t.args[0].op == 'attr' and t.args[0].args[1] in SCALAR_FUN:
        return False
    return None

SCALAR_FUN = set()

SCALAR_ELEM = set()

def fill(v, n):
    return mk('fill', v, n)

def _unfill(t):
    if t.op == 'fill':
        return t.args[0], t.args[1]
    return None

_addm, _mulm, _negm = {}, {}, {}
def add(a, b):
    k = (a, b) if a.id < b.id else (b, a)
    r = _addm.get(k)
    if r is None:
        r = _addm[k] = _add(a, b)
    return r

def _add(a, b):
    fa, fb = _unfill(a), _unfill(b)
    if fa or fb:
        if fa and fb:
            return fill(add(fa[0], fb[0]), fa[1])
        f, o = (fa, b) if fa else (fb, a)
        if isvec(o) is False:
            return fill(add(f[0], o), f[1])
        return add(f[0], o)
    if a.op == 'list' or b.op == 'list':
        pass
    d = pdict(a).copy()
    for m, c in pdict(b).items():
        d[m] = d.get(m, 0) + c
    return _absorb(d)

def _absorb(d):
    """merge first/last terms into sums: S[lo..hi) + body(lo-1) -> S[lo-1..hi)"""
    d = {m: c for m, c in d.items() if c != 0}
    sums = [(m, a) for m in d for a, e in m if a.op == 'sum' and e == 1]
    if len(sums) > 1:
        # telescoping: S[lo..h+1) - S[lo..h) = body(h)
        for m, s in sums:
            c = d[m]
            rest = tuple(x for x in m if x[0] is not s)
            for m2, s2 in sums:
                if s2 is s or d.get(m2) != -c or s2.args[3] is not s.args[3] or s2.args[1] is not s.args[1]:
                    continue
                if tuple(x for x in m2 if x[0] is not s2) != rest:
                    continue
                if s.args[2] is add(s2.args[2], ONE):
                    e = mul(_poly({rest: c}), subst(s.args[3], {s.args[0]: s2.args[2]}))
                    nd = {k: v for k, v in d.items() if k != m and k != m2}
                    for k, v in pdict(e).items():
                        nd[k] = nd.get(k, 0) + v
                    return _absorb(nd)
    if sums and len(d) > 1:
        for m, s in sums:
            if m not in d:
                continue
            c = d[m]
            bv, lo, hi, body = s.args
            rest = tuple(x for x in m if x[0] is not s)
            restT = _poly({rest: 1})
            for nlo, nhi, at in ((sub(lo, ONE), hi, sub(lo, ONE)), (lo, add(hi, ONE), hi)):
                if nhi is hi and cint(lo) == 0:
                    continue
                e = mul(mul(num(c), restT), subst(body, {bv: at}))
                de = pdict(e)
                if de and all(d.get(k, 0) == v for k, v in de.items()) and m not in de:
                    nd = {k: v for k, v in d.items() if k not in de and k != m}
                    ns = mul(mul(num(c), restT), msum(bv, nlo, nhi, body))
                    for k, v in pdict(ns).items():
                        nd[k] = nd.get(k, 0) + v
                    return _absorb(nd)
    return _poly(d)

def neg(a):
    r = _negm.get(a)
    if r is None:
        r = _negm[a] = _neg(a)
    return r

def _neg(a):
    f = _unfill(a)
    if f:
        return fill(neg(f[0]), f[1])
    return _poly({m: -c for m, c in pdict(a).items()})

def sub(a, b):
    return add(a, neg(b))

def _mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))

def mul(a, b):
    k = (a, b) if a.id < b.id else (b, a)
    r = _mulm.get(k)
    if r is None:
        r = _mulm[k] = _mul(a, b)
    return r

def _mul(a, b):
    fa, fb = _unfill(a), _unfill(b)
    if fa or fb:
        if fa and fb:
            return fill(mul(fa[0], fb[0]), fa[1])
        f, o = (fa, b) if fa else (fb, a)
        if isvec(o) is False:
            return fill(mul(f[0], o), f[1])
        return mul(f[0], o)
    pa, pb = pdict(a), pdict(b)
    if len(pa) > 1 and len(pb) > 1 and len(pa) * len(pb) > 64:
        return mk('bigmul', *sorted((a, b)))
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mmul(m1, m2)
            if len(m) > 1 and any(x.op == 'ite' for x, _ in m):
                e = _push_ite(m, c1 * c2)
                if e is not None:
                    for mm, cc in pdict(e).items():
                        d[mm] = d.get(mm, 0) + cc
                    continue
            d[m] = d.get(m, 0) + c1 * c2
    return _poly(d)

def _push_ite(m, c):
    """n * (c ? k1 : k2) == (c ? n*k1 : n*k2) for sizes"""
    for x, e in m:
        if x.op == 'ite' and e == 1:
            k1, k2 = cint(x.args[1]), cint(x.args[2])
            if k1 is not None and k2 is not None:
                rest = tuple(y for y in m if y[0] is not x)
                if all(ee > 0 and isint(y) for y, ee in rest):
                    r = _poly({rest: 1})
                    # b + (a - b) * [c]
                    k = c * (k1 - k2)
                    return add(mul(num(c * k2), r), mul(num(k), mk('ite', x.args[0], r, ZERO)))
    return None

def inv(b):
    f = _unfill(b)
    if f:
        return fill(inv(f[0]), f[1])
    d = pdict(b)
    if len(d) == 1:
        (m, c), = d.items()
        return _poly({tuple((a, -e) for a, e in m): Fraction(1) / c})
    # content normalisation: factor leading coefficient
    if not d:
        return mk('call', 'div0')
    lead = sorted(d.items(), key=_mono_key)[0][1]
    at = _poly({m: Fraction(c) / lead for m, c in d.items()})
    return _poly({((at, -1),): Fraction(1) / lead})

def div(a, b):
    return mul(a, inv(b))

def power(a, e):
    c = const(e)
    ca = const(a)
    if c is not None and ca is not None and c.denominator == 1 and (ca != 0 or c > 0) and abs(c) < 64:
        return num(Fraction(ca) ** int(c))
    if c is not None and c.denominator == 1 and 0 <= c <= 4:
        r = ONE
        for _ in range(int(c)):
            r = mul(r, a)
        return r
    if c is not None and c.denominator == 1 and -4 <= c < 0:
        return inv(power(a, num(-c)))
    if c == Fraction(1, 2):
        return ew('sqrt', a)
    f = _unfill(a)
    if f:
        return fill(power(f[0], e), f[1])
    return mk('ew', 'pow', a, e)

def ew(name, *args):
    """elementwise function"""
    if len(args) == 1:
        f = _unfill(args[0])
        if f:
            return fill(ew(name, f[0]), f[1])
        if args[0].op == 'ite' and False:
            pass
    if name in ('fmax', 'fmin', 'max', 'min'):
        name = {'max': 'fmax', 'min': 'fmin'}.get(name, name)
        cs = [const(a) for a in args]
        if all(c is not None for c in cs):
            return num(max(cs) if name == 'fmax' else min(cs))
        args = tuple(sorted(set(args)))
        if len(args) == 1:
            return args[0]
    if name in ('fabs', 'abs', 'norm_abs'):
        name = 'abs'
        c = const(args[0])
        if c is not None:
            return num(abs(c))
        n = neg(args[0])
        if n.id < args[0].id:      # |x| = |-x|
            args = (n,)
    if name == 'sqrt':
        c = const(args[0])
        if c is not None and c in (0, 1, 4, 9):
            return num({0: 0, 1: 1, 4: 2, 9: 3}[int(c)])
    return mk('ew', name, *args)

# ---------------------------------------------------------------- sequences
def _segs(t):
    return t.args if t.op in ('list', 'col') else (mk('spread', t),)

def _drop_conj(c, lit):
    """conjunction without the given literal"""
    if c is lit:
        return TRUE
    if c.op == 'ite':
        if c.args[2] is FALSE:
            a, b = _drop_conj(c.args[0], lit), _drop_conj(c.args[1], lit)
            return c if a is c.args[0] and b is c.args[1] else mand(a, b)
        if c.args[1] is FALSE:
            b = _drop_conj(c.args[2], lit)
            if mnot(c.args[0]) is lit:
                return b
            return c if b is c.args[2] else mand(mnot(c.args[0]), b)
    return c

def _single(v):
    """array expressions of length-one arrays are their element"""
    m = {}
    for mono, _ in v.args[0]:
        for a, _e in mono:
            if a.op == 'col':
                if len(a.args) != 1 or a.args[0].op != 'el':
                    return None
                m[a] = a.args[0].args[0]
            elif isvec(a) is not False:
                return None
    if not m:
        return None
    r = {}
    out = ZERO
    for mono, c in v.args[0]:
        t = num(c)
        for a, e in mono:
            t = mul(t, power(m.get(a, a), num(e)))
        out = add(out, t)
    return out

def seq(kind, segs):
    out = []
    for s in segs:
        if s.op == 'spread':
            v = s.args[0]
            if v.op == kind or (v.op in ('list', 'col') and (kind == 'list' or all(x.op != 'el' for x in v.args))):
                out.extend(v.args)
                continue
            if v.op == 'fill' and cint(v.args[1]) is not None and 0 <= cint(v.args[1]) <= 1:
                if cint(v.args[1]) == 1:
                    out.append(mk('el', v.args[0]))
                continue
            if v.op == 'range':
                n = cint(sub(v.args[1], v.args[0]))
                if n is not None and n <= 4:
                    out.extend(mk('el', add(v.args[0], num(k))) for k in range(max(n, 0)))
                    continue
            if v.op == 'poly':
                if length(v) is ZERO:
                    continue
                w1 = _single(v)
                if w1 is not None:
                    out.append(mk('el', w1))
                    continue
            if v.op == 'list':
                out.extend(v.args)
                continue
            if v.op == 'poly' and const(v) is not None:
                out.append(mk('el', v)); continue
            if v.op == 'ite':
                c, a, b = v.args
                out.extend(seq(kind, [opt(c, mk(kind, mk('spread', a)) if a.op != kind else a),
                                      opt(mnot(c), mk(kind, mk('spread', b)) if b.op != kind else b)]).args)
                continue
        elif s.op == 'opt':
            c, body = s.args
            if c is TRUE:
                out.extend(body.args)
                continue
            if c is FALSE or not body.args:
                continue
            if any(x.op == 'opt' for x in body.args):
                # flat guards
                run = []
                for x in list(body.args) + [None]:
                    if x is None or x.op == 'opt':
                        if run:
                            out.extend(_segs(seq(kind, [mk('opt', c, mk(body.op, *run))])))
                            run = []
                        if x is not None:
                            out.extend(_segs(seq(kind, [mk('opt', mand(c, x.args[0]), x.args[1])])))
                    else:
                        run.append(x)
                continue
            if c.op == 'ite':
                L = length(body)
                e1 = lt(ZERO, L)
                c2 = _drop_conj(c, e1)
                if c2 is not c:
                    out.extend(_segs(seq(kind, [mk('opt', c2, body)])))
                    continue
            # opt(len(x) != 0, x) == x
            if c.op == 'ite' and c.args[0].op in ('eq', 'lt', 'le'):
                L = length(body)
                if c is mnot(eq(L, ZERO)) or c is lt(ZERO, L):
                    out.extend(body.args)
                    continue
        elif s.op == 'rep':
            bv, lo, hi, body = s.args
            if not body.args:
                continue
            if lo is hi:
                continue
            n = cint(sub(hi, lo))
            if n is not None and n <= 0:
                continue
            if n is not None and n <= 4 and cint(lo) is not None:
                for k in range(cint(lo), cint(hi)):
                    out.extend(subst(body, {bv: num(k)}).args)
                continue
            # rep(lo .. n + [c]) == rep(lo .. n), opt(c, last)
            sp = _split_bound(lo, hi)
            if sp is not None:
                a, c = sp
                b1 = binder(lo, a)
                out.extend(seq(kind, [mrep(b1, lo, a, subst(body, {bv: b1}))]).args)
                last = subst(body, {bv: a})
                last = subst(last, {c: TRUE, mnot(c): FALSE})
                out.extend(seq(kind, [opt(c, last)]).args)
                continue
            if len(body.args) == 1 and body.args[0].op == 'el':
                v = body.args[0].args[0]
                # [L[b] for b in range(len(L))] == L
                if (v.op == 'index' and v.args[1] is bv and bv not in v.args[0].fv and lo is ZERO
                        and hi is length(v.args[0])):
                    out.extend(seq(kind, [mk('spread', v.args[0])]).args)
                    continue
                # [c + b for b in range(n)] == range(c, c + n)
                if kind == 'list' and v.op == 'poly' and isint(v) is True:
                    c = sub(v, bv)
                    if bv not in c.fv:
                        out.append(mk('spread', mk('range', add(lo, c), add(hi, c))))
                        continue
        out.append(s)
    # merge adjacent reps: rep(lo..m) ++ rep(m..hi), el body(hi) etc.
    res = []
    for s in out:
        if res:
            p = res[-1]
            if p.op == 'opt' and s.op == 'opt' and p.args[0] is s.args[0] and p.args[1].op == s.args[1].op:
                res[-1] = mk('opt', p.args[0], seg_body(seq(p.args[1].op, p.args[1].args + s.args[1].args)))
                continue
            if p.op == 'rep' and s.op == 'rep' and p.args[2] is s.args[1] and p.args[3] is s.args[3] and p.args[0] is s.args[0]:
                res[-1] = mk('rep', p.args[0], p.args[1], s.args[2], p.args[3])
                continue
            if p.op == 'rep' and len(p.args[3].args) == 1 and subst(p.args[3].args[0], {p.args[0]: p.args[2]}) is s:
                res[-1] = mk('rep', p.args[0], p.args[1], add(p.args[2], ONE), p.args[3])
                continue
            if (s.op == 'rep' and len(s.args[3].args) == 1 and
                    subst(s.args[3].args[0], {s.args[0]: sub(s.args[1], ONE)}) is p and cint(s.args[1]) is not None):
                res[-1] = mk('rep', s.args[0], sub(s.args[1], ONE), s.args[2], s.args[3])
                continue
        res.append(s)
    if kind == 'col' and len(res) == 1 and res[0].op == 'spread' and isvec(res[0].args[0]) is not False \
            and res[0].args[0].op not in ('list',):
        return res[0].args[0]
    return mk(kind, *res)

def _split_bound(lo, hi):
    if hi.op != 'poly':
        return None
    for m, c in hi.args[0]:
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite':
            t = m[0][0]
            if t.args[1] is ONE and t.args[2] is ZERO:
                a = sub(hi, t)
                if nonneg(sub(a, lo)):
                    return a, t.args[0]
    return None

EMPTY_LIST = mk('list')
EMPTY_COL = mk('col')

def el(v):
    return mk('el', v)

def spread(v):
    return mk('spread', v)

def asseq(body):
    return body if body.op in ('list', 'col') else mk('col', mk('spread', body))

def opt(c, body):
    return mk('opt', c, asseq(body))

def segs_of(t):
    if t.op in ('list', 'col'):
        return t.args
    return (spread(t),)

def concat(kind, *parts):
    ss = []
    for p in parts:
        ss.extend(segs_of(p))
    return seq(kind, ss)

LEN_HOOKS = []    # functions t -> length term or None

def length(t):
    o = t.op
    if o in ('list', 'col'):
        r = ZERO
        for s in t.args:
            r = add(r, _seglen(s))
        return r
    if o == 'fill':
        return t.args[1]
    if o == 'sym':
        return t.args[2]
    if o == 'range':
        return sub(t.args[1], t.args[0])
    if o == 'poly':
        best = None
        for m, _ in t.args[0]:
            for a, _e in m:
                if isvec(a) is not False:
                    l = length(a)
                    if l is ZERO:
                        return ZERO
                    if best is None or _lenkey(l) < _lenkey(best):
                        best = l
        return ONE if best is None else best
    if o == 'ite':
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    if o == 'ew':
        if isvec(t.args[1]) is False:
            return ONE
        return length(t.args[1])
    if o in ('sum', 'prod'):
        l = length(t.args[3])
        if t.args[0] not in l.fv:
            return l
    if o == 'store':
        return length(t.args[0])
    if o == 'str':
        return num(len(t.args[0]))
    if o == 'index':
        i = t.args[1]
        if i.op in ('range', 'fill', 'list', 'col') or (i.op == 'call' and i.args[0] in ('flatten',)):
            return length(i)
        if i.op == 'index' or i.op == 'attr':
            return mk('len', i) if isinstance(i, T) and t.args[0].op == 'attr' and t.args[0].args[1] in ('w', 'w0', 'lbw', 'ubw', 'g') else mk('len', t)
    if o in ('true', 'false'):
        return ONE
    for f in LEN_HOOKS:
        r = f(t)
        if r is not None:
            return r
    return mk('len', t)

def _lenkey(l):
    c = const(l)
    return (2 if c == 1 else 0 if l.op == 'len' else 1, l.id)

def _seglen(s):
    if s.op == 'el':
        return ONE
    if s.op == 'spread':
        return length(s.args[0])
    if s.op == 'opt':
        return ite(s.args[0], length(s.args[1]), ZERO)
    if s.op == 'rep':
        bv, lo, hi, body = s.args
        return msum(bv, lo, hi, length(body))
    raise AssertionError(s.op)

# ---------------------------------------------------------------- binders
def bind(op, b, lo, hi, *body):
    """close a free binder variable b"""
    h = max([0] + [x.height for x in body if isinstance(x, T)])
    bv = mk('bv', h + 1)
    if b is not bv:
        if any(bv in x.fv for x in body):       # should not happen; pick an unused name
            k = h + 1
            while any(mk('bv', k) in x.fv for x in body):
                k += 1
            bv = mk('bv', k)
        body = tuple(subst(x, {b: bv}) for x in body)
    if op == 'rep':
        body = tuple(asseq(x) for x in body)
    return mk(op, bv, lo, hi, *body)

def mrep(b, lo, hi, body):
    # shift constant lower bounds into the body: canonical range starts at 0
    return bind('rep', b, lo, hi, asseq(body))

def msum(b, lo, hi, body):
    f = _unfill(body)
    if f and b not in f[1].fv:
        return fill(msum(b, lo, hi, f[0]), f[1])
    if lo is hi:
        return ZERO
    if b not in body.fv:
        return mul(sub(hi, lo), body)
    n = cint(sub(hi, lo))
    if n is not None and n <= 0:
        return ZERO
    if n is not None and n <= 4:
        r = ZERO
        for k in range(n):
            r = add(r, subst(body, {b: add(lo, num(k))}))
        return r
    d = pdict(body)
    r = {}
    for m, c in d.items():
        outm = tuple(x for x in m if b not in x[0].fv)
        inm = tuple(x for x in m if b in x[0].fv)
        if not inm:
            e = mul(_poly({outm: c}), sub(hi, lo))
        else:
            e = mul(_poly({outm: c}), bind('sum', b, lo, hi, _poly({inm: 1})))
        for k, v in pdict(e).items():
            r[k] = r.get(k, 0) + v
    return _poly(r)

def mprod(b, lo, hi, body):
    n = cint(sub(hi, lo))
    if n is not None and 0 <= n <= 4:
        r = ONE
        for k in range(n):
            r = mul(r, subst(body, {b: add(lo, num(k))}))
        return r
    if body is ONE:
        return ONE
    return bind('prod', b, lo, hi, body)

# ---------------------------------------------------------------- conditions
INT_ATTR = set()

def isint(t):
    o = t.op
    if o in ('b', 'bv', 'len'):
        return True
    if o == 'poly':
        return all(c.denominator == 1 and all(e > 0 and isint(a) for a, e in m) for m, c in t.args[0])
    if o == 'attr':
        return t.args[1] in INT_ATTR
    if o == 'index':
        return t.args[0].op == 'attr' and t.args[0].args[1] in INT_ATTR
    if o == 'sum':
        return isint(t.args[3])
    if o == 'ite':
        return isint(t.args[1]) and isint(t.args[2])
    if o == 'call':
        return _extremum(t) is not None
    return False

def _extremum(t):
    """the vector of integers a term is the minimum or maximum of"""
    if t.op == 'call' and t.args[0] in ('mfmin', 'mfmax') and len(t.args) == 2 and isinstance(t.args[1], T):
        v = t.args[1]
        if v.op == 'attr' and v.args[1] in INT_ATTR:
            return v
    return None

POS_FACTS = []   # functions t -> bool: t >= 1

def lower_bound(t, depth=0):
    """integer lower bound of a term (or None)"""
    c = const(t)
    if c is not None:
        return c
    o = t.op
    if o == 'b':
        if depth > 4:
            return None
        return lower_bound(DOM[t][0], depth + 1)
    for f in POS_FACTS:
        if f(t):
            return Fraction(1)
    if o == 'len':
        return Fraction(0)
    if o == 'poly':
        r = Fraction(0)
        for m, c in t.args[0]:
            if m == ():
                r += c
                continue
            if c > 0:
                p = Fraction(1)
                for a, e in m:
                    l = lower_bound(a, depth + 1)
                    if l is None or l < 0 or e < 0:
                        return None
                    p *= l ** e
                r += c * p
            else:
                return None
        return r
    if o == 'sum':
        l = lower_bound(t.args[3], depth + 1)
        return Fraction(0) if l is not None and l >= 0 else None
    if o == 'ite':
        a, b = lower_bound(t.args[1], depth + 1), lower_bound(t.args[2], depth + 1)
        return None if a is None or b is None else min(a, b)
    return None

def nonneg(p, depth=0):
    """True if p >= 0 is implied by binder domains and positivity facts"""
    l = lower_bound(p)
    if l is not None and l >= 0:
        return True
    if depth > 3:
        return False
    if p.op == 'poly':
        # a minimum is at most, a maximum at least, any member
        for m, c in pdict(p).items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'call':
                v = _extremum(m[0][0])
                if v is not None and (c < 0) == (m[0][0].args[0] == 'mfmin'):
                    for m2 in pdict(p):
                        for a, _ in m2:
                            if a.op == 'index' and a.args[0] is v and nonneg(subst(p, {m[0][0]: a}), depth + 1):
                                return True
    if p.op == 'poly' or p.op in ('b',):
        for m, c in pdict(p).items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'b' and m[0][0] in DOM:
                b = m[0][0]
                lo, hi = DOM[b]
                if c > 0:
                    q = subst(p, {b: lo})
                else:
                    q = subst(p, {b: sub(hi, ONE)})
                if nonneg(q, depth + 1):
                    return True
    return False

def le0(p):
    """p <= 0"""
    c = const(p)
    if c is not None:
        return boolT(c <= 0)
    if p is INF:
        return FALSE
    if nonneg(neg(p)):
        return TRUE
    if isint(p) and nonneg(sub(p, ONE)):
        return FALSE
    return mk('le', p)

def lt0(p):
    c = const(p)
    if c is not None:
        return boolT(c < 0)
    if isint(p):
        return le0(add(p, ONE))
    return mk('lt', p)

def lt(a, b):
    return lt0(sub(a, b))

def le(a, b):
    return le0(sub(a, b))

CONSTLIKE = ('enum', 'str', 'none', 'true', 'false', 'class')

def eq(a, b):
    if a is b:
        return TRUE
    if a.op in CONSTLIKE and b.op in CONSTLIKE:
        return FALSE
    if a.op == 'ite' and (b.op in CONSTLIKE or const(b) is not None):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and (a.op in CONSTLIKE or const(a) is not None):
        return eq(b, a)
    for x, y in ((a, b), (b, a)):
        if x.op == 'none' and (isint(y) or (y.op == 'phi' and len(y.args) > 1 and y.args[1] == '[]') or y.op in ('list', 'col', 'poly', 'new', 'obj', 'sym', 'fill', 'range', 'tuple', 'casfun', 'b', 'len', 'dict', 'inf')):
            return FALSE
        if x.op in CONSTLIKE:
            if y.op in ('list', 'col', 'fill', 'new'):
                return FALSE
            if x in (TRUE, FALSE) and isbool(y):
                return y if x is TRUE else mnot(y)
            return mk('is', y, x)
    p = sub(a, b)
    c = const(p)
    if c is not None:
        return boolT(c == 0)
    if p.op == 'poly':
        q = neg(p)
        lead = sorted(pdict(p).items(), key=_mono_key)[-1][1]
        if lead < 0:
            p = q
        # integer content
        if isint(p):
            if nonneg(sub(p, ONE)) or nonneg(sub(neg(p), ONE)):
                return FALSE
            # boundary of a binder domain: k == lo  <=>  k <= lo ; k == hi-1 <=> k >= hi-1
            if nonneg(p):
                return le0(p)
            if nonneg(neg(p)):
                return le0(neg(p))
    elif isint(p):
        if nonneg(sub(p, ONE)):
            return FALSE
        if nonneg(p):
            return le0(p)
    return mk('eq', p)

def isbool(t):
    return t.op in ('true', 'false', 'not', 'and', 'or', 'le', 'lt', 'eq', 'is', 'bcall')

def truth(t):
    """truth value of a term as condition"""
    if isbool(t):
        return t
    if t.op == 'none':
        return FALSE
    c = const(t)
    if c is not None:
        return boolT(c != 0)
    if t.op in ('list', 'col'):
        return mnot(eq(length(t), ZERO))
    if t.op == 'str':
        return boolT(bool(t.args[0]))
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op in ('enum', 'new', 'class', 'func', 'casfun', 'sym'):
        return TRUE
    return mk('bcall', 'truth', t)

def mnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'le':
        p = c.args[0]
        return lt0(neg(p))
    if c.op == 'lt':
        return le0(neg(c.args[0]))
    if c.op == 'ite':
        return ite(c.args[0], mnot(c.args[1]), mnot(c.args[2]))
    return mk('not', c)

def _implies(l, at):
    """does literal l decide atom at?  returns True/False/None"""
    if l is at:
        return True
    pos, a = (False, l.args[0]) if l.op == 'not' else (True, l)
    if a is at:
        return pos
    if pos and a.op == 'is' and at.op == 'is' and a.args[0] is at.args[0]:
        return False
    if mnot(l) is at:
        return False
    if l.op in ('le', 'lt') and at.op in ('le', 'lt'):
        # l: p<=0 ; at: q<=0. implied if q - p <= 0 const
        d = const(sub(at.args[0], l.args[0]))
        if d is not None:
            if d < 0 or (d == 0 and not (at.op == 'lt' and l.op == 'le')):
                return True
        # contradiction: q >= -p ... q + p >= something > 0
        d = const(add(at.args[0], l.args[0]))
        if d is not None:
            if d > 0 or (d == 0 and (at.op == 'lt' or l.op == 'lt')):
                return False
    if pos and a.op == 'eq' and at.op == 'eq':
        for s in (sub(at.args[0], a.args[0]), add(at.args[0], a.args[0])):
            d = const(s)
            if d is not None and d != 0:
                return False
    if pos and a.op == 'eq' and at.op in ('le', 'lt'):
        for p in (a.args[0], neg(a.args[0])):
            d = const(sub(at.args[0], p))
            if d is not None:
                return (d <= 0) if at.op == 'le' else (d < 0)
    if l.op in ('le', 'lt') and at.op == 'eq':
        for p in (at.args[0], neg(at.args[0])):
            d = const(sub(p, l.args[0]))     # p = l + d <= d  => p != 0 if d < 0
            if d is not None and (d < 0 or (d == 0 and l.op == 'lt')):
                return False
    return None

def top_atom(t):
    return t.args[0] if t.op == 'ite' else None

def _lit_atom(c):
    """split a condition into (atom, positive)"""
    if c.op == 'not':
        return c.args[0], True and False
    return c, True

def _canon_atom(c):
    """choose between c and its complement as decision atom"""
    n = mnot(c)
    if n.op == 'not':
        return c, True
    if c.op == 'not':
        return c.args[0], False
    return (c, True) if c.id < n.id else (n, False)

def cofactor(t, at, val):
    """t under the assumption atom==val (top-level decision structure only)"""
    lit = at if val else mnot(at)
    return assume(t, lit)

def assume(t, lit):
    if t is lit:
        return TRUE
    if isbool(t) and t.op not in ('true', 'false'):
        if t.op in ('and', 'or'):
            raise AssertionError
        a, p = _canon_atom(t)
        r = _implies(lit, t)
        if r is None:
            r2 = _implies(lit, a)
            if r2 is not None:
                r = r2 if p else not r2
        return t if r is None else boolT(r)
    if t.op == 'ite':
        r = _implies(lit, t.args[0])
        if r is True:
            return assume(t.args[1], lit)
        if r is False:
            return assume(t.args[2], lit)
        a, b = assume(t.args[1], lit), assume(t.args[2], lit)
        if a is t.args[1] and b is t.args[2]:
            return t
        return ite(t.args[0], a, b)
    return t

def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == 'ite':      # boolean decision tree
        return ite(c.args[0], ite(c.args[1], a, b), ite(c.args[2], a, b))
    at, pos = _canon_atom(c)
    if not pos:
        a, b = b, a
    return _node(at, a, b)

def _node(at, a, b):
    a = cofactor(a, at, True)
    b = cofactor(b, at, False)
    if a is b:
        return a
    ta, tb = top_atom(a), top_atom(b)
    if ta is None and a.op not in ('true', 'false') and isbool(a):
        ta = _canon_atom(a)[0]
    if tb is None and b.op not in ('true', 'false') and isbool(b):
        tb = _canon_atom(b)[0]
    v = at
    for x in (ta, tb):
        if x is not None and x.id < v.id:
            v = x
    if v is not at:
        return _node2(v, _node(at, cofactor(a, v, True), cofactor(b, v, True)),
                      _node(at, cofactor(a, v, False), cofactor(b, v, False)))
    return _node2(at, a, b)

def _zero_case(at, a, b):
    """(a if L == 0 else b) == b when b gives a at L == 0 (L >= 0 an atomic quantity)"""
    if at.op != 'le':
        return None
    L = at.args[0]
    swap = False
    if L.op == 'poly':
        L = sub(ONE, L)
        swap = True
        a, b = b, a
    if L.op in ('len', 'attr', 'sum', 'index') and isint(L) and nonneg(L) and b.op in ('poly', 'ite', 'len', 'attr', 'sum', 'index', 'fill', 'list', 'col'):
        if a.op == 'poly' and const(a) is None and b.op != 'poly':
            return None
        if _size(b, 60) < 60 and subst(b, {L: ZERO}) is a:
            return b
    return None

def _size(t, cap):
    n, todo = 0, [t]
    while todo and n < cap:
        x = todo.pop()
        n += 1
        todo.extend(subterms(x))
    return n

def _node2(at, a, b):
    if a is b:
        return a
    r = _zero_case(at, a, b)
    if r is not None:
        return r
    if a is TRUE and b is FALSE:
        return at
    if a is FALSE and b is TRUE:
        return mnot(at)
    if a.op == 'wr' and b.op == 'wr' and a.args[0] is b.args[0]:
        return mk('wr', a.args[0], _node2(at, a.args[1], b.args[1]))
    if a.op == 'poly' and b.op == 'poly' and b is not ONE:
        ca, cb = cint(a), cint(b)
        if ca is not None and cb is not None and (ca, cb) != (1, 0):
            return add(b, mul(num(ca - cb), mk('ite', at, ONE, ZERO)))
    return mk('ite', at, a, b)

def mand(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r

def mor(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r

# ---------------------------------------------------------------- substitution
REBUILD = {}

def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)

def _rb_poly(items):
    r = ZERO
    for m, c in items:
        e = num(c)
        for a, k in m:
            if k > 0:
                e = mul(e, power(a, num(k)) if k > 1 else a)
            else:
                e = mul(e, power(a, num(k)) if k >= -4 else mk('ew', 'pow', a, num(k)))
        r = add(r, e)
    return r

def subst(t, m):
    """capture-avoiding substitution of variables (dict T -> T), renormalising"""
    keys = frozenset(m)
    if not (t.fv & keys) and not any(k.op not in ('b', 'bv', 'phi') for k in keys):
        return t
    return _subst(t, m, keys, {})

_bindmemo = {}
def _subst(t, m, keys, memo):
    r = m.get(t)
    if r is not None:
        return r
    if not (t.fv & keys) and all(k.op in ('b', 'bv', 'phi') for k in keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in BIND:
        gk = (t, frozenset((k, v) for k, v in m.items() if k in t.fv or k.op not in ('b', 'bv', 'phi')))
        r = _bindmemo.get(gk)
        if r is not None:
            memo[t] = r
            return r
        bv = t.args[0]
        lo, hi = _subst(t.args[1], m, keys, memo), _subst(t.args[2], m, keys, memo)
        body = t.args[3:]
        b2 = binder(lo, hi)
        inner = {k: v for k, v in m.items() if k is not bv}
        inner[bv] = b2
        ik = frozenset(inner)
        mm = {}
        nb = tuple(_sub_arg(x, inner, ik, mm) for x in body)
        r = rebuild(t.op, (b2, lo, hi) + nb)
        DOM.pop(b2, None)
        _bindmemo[gk] = r
    elif t.op == 'ite':
        c = _subst(t.args[0], m, keys, memo)
        if c is TRUE:
            r = _subst(t.args[1], m, keys, memo)
        elif c is FALSE:
            r = _subst(t.args[2], m, keys, memo)
        else:
            r = ite(c, _subst(t.args[1], m, keys, memo), _subst(t.args[2], m, keys, memo))
    else:
        r = rebuild(t.op, tuple(_sub_arg(a, m, keys, memo) for a in t.args))
    memo[t] = r
    return r

def _sub_arg(a, m, keys, memo):
    if isinstance(a, T):
        return _subst(a, m, keys, memo)
    if isinstance(a, tuple):
        return tuple(_sub_arg(x, m, keys, memo) for x in a)
    return a

def _rb_seg(op):
    return lambda *a: mk(op, *a)

REBUILD.update({
    'poly': _rb_poly,
    'list': lambda *a: seq('list', a),
    'col': lambda *a: seq('col', a),
    'sum': lambda b, lo, hi, body: msum(b, lo, hi, body),
    'prod': lambda b, lo, hi, body: mprod(b, lo, hi, body),
    'rep': lambda b, lo, hi, body: mrep(b, lo, hi, body),
    'fold': lambda b, lo, hi, *body: bind('fold', b, lo, hi, *body),
    'maparr': lambda b, lo, hi, *body: bind('maparr', b, lo, hi, *body),
    'each': lambda b, lo, hi, *body: bind('each', b, lo, hi, *body),
    'loop': lambda b, lo, hi, *body: bind('loop', b, lo, hi, *body),
    'le': le0, 'lt': lt0, 'eq': lambda p: eq(p, ZERO), 'is': eq, 'not': mnot,
    'ite': ite, 'ew': lambda n, *a: power(*a) if n == 'pow' else ew(n, *a),
    'fill': fill, 'len': length,
    'bcall': lambda n, *a: truth(*a) if n == 'truth' else mk('bcall', n, *a),
})

def contains(t, pred, memo=None):
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    memo[t] = False
    r = pred(t) or any(contains(a, pred, memo) for a in subterms(t))
    memo[t] = r
    return r

def subterms(t):
    def go(args):
        for a in args:
            if isinstance(a, T):
                yield a
            elif isinstance(a, tuple):
                yield from go(a)
    return go(t.args)

# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    o, a = t.op, t.args
    if depth > 14:
        return '..'
    s = lambda x: show(x, depth + 1)
    if o == 'poly':
        if not a[0]:
            return '0'
        out = []
        for m, c in a[0]:
            ms = '*'.join((s(x) if e == 1 else f'{s(x)}^{e}') for x, e in m)
            if not ms:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append('-' + ms)
            else:
                out.append(f'{c}*{ms}')
        return '(' + ' + '.join(out).replace('+ -', '- ') + ')'
    if o == 'attr':
        return f'{s(a[0])}.{a[1]}'
    if o == 'index':
        return f'{s(a[0])}[{s(a[1])}]'
    if o == 'str':
        return repr(a[0])
    if o in ('true', 'false', 'none', 'inf'):
        return {'true': 'True', 'false': 'False', 'none': 'None', 'inf': 'inf'}[o]
    if o == 'enum':
        return f'{a[0]}.{a[1]}'
    if o == 'b':
        return f'i{a[0]}'
    if o == 'bv':
        return f'k{a[0]}'
    if o == 'param':
        return str(a[0])
    if o == 'sym':
        return f'sym<{s(a[1])}>[{s(a[2])}]'
    if o == 'new':
        return f'@{a[0]}' + ('(' + ','.join(s(x) for x in a[1]) + ')' if a[1] else '')
    if o == 'len':
        return f'len({s(a[0])})'
    if o == 'list':
        return '[' + ', '.join(s(x) for x in a) + ']'
    if o == 'col':
        return 'col(' + ', '.join(s(x) for x in a) + ')'
    if o == 'el':
        return s(a[0])
    if o == 'spread':
        return '*' + s(a[0])
    if o in ('rep', 'sum', 'prod', 'maparr'):
        return f'{o}({s(a[0])}={s(a[1])}..{s(a[2])}: ' + '; '.join(s(x) for x in a[3:]) + ')'
    if o == 'opt':
        return f'if({s(a[0])}){s(a[1])}'
    if o == 'ite':
        return f'({s(a[1])} if {s(a[0])} else {s(a[2])})'
    if o == 'le':
        return f'{s(a[0])}<=0'
    if o == 'lt':
        return f'{s(a[0])}<0'
    if o == 'eq':
        return f'{s(a[0])}==0'
    if o == 'is':
        return f'{s(a[0])} is {s(a[1])}'
    if o == 'not':
        return f'not {s(a[0])}'
    if o == 'ew':
        return f'{a[0]}(' + ','.join(s(x) for x in a[1:]) + ')'
    if o == 'call' or o == 'bcall':
        return f'{a[0] if not isinstance(a[0], T) else s(a[0])}(' + ', '.join(s(x) for x in a[1:]) + ')'
    def g(x):
        if isinstance(x, T):
            return s(x)
        if isinstance(x, tuple):
            return '(' + ','.join(g(y) for y in x) + ')'
        return str(x)
    return f'{o}(' + ', '.join(g(x) for x in a) + ')'

# ---------------------------------------------------------------- symbol identities
def rewrite(t, f, memo, post=None):
    """bottom-up reconstruction; f(t) may replace a term before its arguments are visited, post after"""
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        def go(a):
            if isinstance(a, T):
                return rewrite(a, f, memo, post)
            if isinstance(a, tuple):
                return tuple(go(x) for x in a)
            return a
        na = tuple(go(a) for a in t.args)
        r = t if na == t.args else rebuild(t.op, na)
        if post is not None:
            r = post(r)
    memo[t] = r
    return r

def key_numbers(t, out, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == 'key':
        out.setdefault(t.args[0], len(out))
    for a in subterms(t):
        key_numbers(a, out, seen)

def canon_keys(vals, order):
    """symbols are numbered in the order in which they appear in the given values"""
    nums, seen = {}, set()
    for a in order:
        if a in vals:
            key_numbers(vals[a], nums, seen)
    def f(t):
        if t.op == 'key':
            n = nums.get(t.args[0])
            return None if n is None or isinstance(t.args[0], str) else mk('key', f'K{n}', *t.args[1:])
        return None
    memo, m2 = {}, {}
    none = lambda t: None
    return {a: (rewrite(rewrite(v, f, memo), none, m2, _canon_node) if isinstance(v, T) else v) for a, v in vals.items()}

def _scalar_cols(t):
    """arrays of length one broadcast in elementwise expressions"""
    m = {}
    vec = False
    for mono, _ in t.args[0]:
        for a, _e in mono:
            if a.op == 'col' and len(a.args) == 1 and a.args[0].op == 'el' and isvec(a.args[0].args[0]) is not True:
                m[a] = a.args[0].args[0]
    if not m:
        return t
    out = ZERO
    for mono, c in t.args[0]:
        x = num(c)
        for a, e in mono:
            x = mul(x, power(m.get(a, a), num(e)))
        out = add(out, x)
    return out

def _under(c, body):
    """body under the assumption c"""
    if c.op == 'ite' or c.op in ('true', 'false'):
        return body
    n = mnot(c)
    seen, todo = set(), [body]
    while todo:
        t = todo.pop()
        if t is c or t is n:
            break
        if t not in seen:
            seen.add(t)
            todo.extend(subterms(t))
    else:
        return body
    r = subst(body, {c: TRUE, n: FALSE})
    return rewrite(r, lambda t: None, {}, _canon_node) if r is not body else body

def _canon_node(t):
    """guards: c ? a : b of vectors -> guarded segments; exclusive guarded segments grouped by content and sorted"""
    if t.op == 'ite':
        t = ite(*t.args)
    if t.op == 'poly':
        t = _scalar_cols(t)
    if t.op == 'ite' and _vecish(t.args[1]) and _vecish(t.args[2]):
        c, a, b = t.args
        t = seq('col', [opt(c, seg_body(a)), opt(mnot(c), seg_body(b))])
    if t.op in ('col', 'list') and any(x.op == 'opt' for x in t.args):
        n = [opt(x.args[0], _under(x.args[0], x.args[1])) if x.op == 'opt' else x for x in t.args]
        if any(a.args != b.args for a, b in zip(n, t.args)):
            t = seq(t.op, n)
    if t.op in ('col', 'list') and sum(1 for x in t.args if x.op == 'opt') > 1:
        out, i = [], 0
        args = t.args
        while i < len(args):
            if args[i].op != 'opt':
                out.append(args[i]); i += 1
                continue
            j = i + 1
            while j < len(args) and args[j].op == 'opt' and all(mand(args[k].args[0], args[j].args[0]) is FALSE for k in range(i, j)):
                j += 1
            if j - i > 1:
                g = {}
                for x in args[i:j]:
                    g[x.args[1]] = mor(g.get(x.args[1], FALSE), x.args[0])
                out.extend(mk('opt', c, b) for b, c in sorted(g.items(), key=lambda x: x[0].id))
            else:
                out.append(args[i])
            i = j
        if tuple(out) != args:
            t = seq(t.op, out)
    return t

def _vecish(t):
    if t.op == 'ite':
        return _vecish(t.args[1]) and _vecish(t.args[2])
    return t.op == 'sym' and isvec(t) is not False or isvec(t) is True

def seg_body(a):
    return a if a.op in ('col', 'list') else mk('col', mk('spread', a))

REBUILD['fstr'] = fstr
