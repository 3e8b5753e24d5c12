"""Abstract interpreter: turns functions of the analysed package into value graphs.

Nothing of the analysed package is executed.  Every expression is mapped to a term
(terms.py); branches become decision nodes, loops are summarised once with a bound
index (recurrences of the loop-carried variables are solved in closed form: last
value, append, sum, product, indexed store; everything else becomes a 'fold').
"""
import ast, sys, os
from .terms import *
from . import terms as TT

DEBUG = bool(os.environ.get('VG_DEBUG'))
UNDEF = mk('undef')
CONTAINERS = ('list', 'nd', 'dict', 'set')

KIND = {}        # allocation number -> kind
CLS = {}         # allocation number -> ClassInfo
ALLOCNAME = {}

MATRIX_ATTR = {'p_val_ctrl_stages', 'g_path_comp'}     # two-dimensional arrays among the attributes

class Undecided(Exception):
    """the analysis met a construct it cannot summarise"""

class Domain:
    """facts about the analysed library objects (overridable per unit)"""
    attr_types = {}
    def obj_class(self, t): return None
    def attr_value(self, obj, name): return None
    def islist(self, t): return False
    def call(self, it, st, f, args, kwargs, node): return None     # hook for calls of opaque values
    def is_kind(self, t, kind): return None
    def method(self, it, o, name, args, kwargs, node, st): return None    # hook for method calls on opaque values

class State:
    __slots__ = ('env', 'heap', 'facts', 'ret', 'retval', 'brk', 'cont', 'dead', 'binders', 'pc')
    def __init__(self):
        self.env, self.heap, self.facts = {}, {}, ()
        self.ret, self.retval, self.brk, self.cont = FALSE, NONE, FALSE, FALSE
        self.dead = False
        self.binders = ()
        self.pc = ()
    def clone(self):
        s = State()
        s.env, s.heap, s.facts = dict(self.env), dict(self.heap), self.facts
        s.ret, s.retval, s.brk, s.cont = self.ret, self.retval, self.brk, self.cont
        s.dead, s.binders, s.pc = self.dead, self.binders, self.pc
        return s
    def done(self):
        return mor(self.ret, self.brk, self.cont)
    def take(self, o):
        for f in State.__slots__:
            setattr(self, f, getattr(o, f))

def literals(c):
    """conjunctive literals of a condition"""
    if c.op == 'ite':
        at, a, b = c.args
        if b is FALSE:
            return [at] + literals(a)
        if a is FALSE:
            return [mnot(at)] + literals(b)
    return [c]

def phirooted(t):
    """element of a sequence that is carried around a loop by value"""
    if t.op != 'index':
        return False
    while t.op == 'index':
        t = t.args[0]
    return t.op in ('phi', 'store', 'fold')

class Frame:
    __slots__ = ('module', 'cls', 'self_t', 'qual', 'parent_env')
    def __init__(self, module, cls, qual, parent_env=None):
        self.module, self.cls, self.qual, self.parent_env = module, cls, qual, parent_env

class Interp:
    def __init__(self, program, domain=None):
        self.prog = program
        self.dom = domain or Domain()
        self.raises = []            # (condition literals..., description, site) inside each-binders
        self.events = None
        self.stack = []             # [(qual, callsite)]
        self.frames = []
        self.closures = {}
        self.effectful, self.comploops = set(), {}
        self.loopcache = {}
        self.prov = {}              # term id -> location
        self.stats = {'functions': set(), 'loops': 0, 'calls': 0, 'branches': 0, 'opaque': set()}
        self.primitives = {}        # qual -> fn(it, st, args, kwargs, node)
        self.opaque_funcs = set()
        self.unsupported = []
        self.cur = None
        self.maxdepth = 60

    # ------------------------------------------------------------ helpers
    def loc(self, node=None):
        f = self.frames[-1] if self.frames else None
        n = node if node is not None else self.cur
        return (f.module.path if f else '?', getattr(n, 'lineno', 0), f.qual if f else '?')

    def note(self, t, node):
        if isinstance(t, T) and t.args and t.id not in self.prov:
            self.prov[t.id] = self.loc(node)

    def giveup(self, why, node=None):
        l = self.loc(node)
        self.unsupported.append((why, l))
        return unknown(f'{why} @{l[0].split("/")[-1]}:{l[1]}')

    # ------------------------------------------------------------ heap
    def _key(self, addr):
        if addr.op == 'new':
            return addr.args[0], addr.args[1]
        bs = tuple(sorted((b for b in addr.fv if b.op in ('b', 'bv')), key=lambda x: x.id))
        if not bs:
            return addr, ()
        sk = subst(addr, {b: mk('hole', i) for i, b in enumerate(bs)})
        return sk, bs

    def hget(self, st, addr, attr):
        k, args = self._key(addr)
        ents = st.heap.get((k, attr))
        if ents is None:
            return None
        return self._lookup(ents, args)

    def _lookup(self, ents, args):
        if not ents:
            return None
        (formals, pat, dom, term), rest = ents[0], ents[1:]
        m, conds = {}, []
        for p, a in zip(pat, args):
            if p in formals:
                m[p] = a
            elif p is a:
                pass
            else:
                c = eq(p, a)
                if c is FALSE:
                    return self._lookup(rest, args)
                if c is not TRUE:
                    conds.append(c)
        if rest:
            for f, (lo, hi) in dom.items():
                if f in m:
                    a = m[f]
                    lo2, hi2 = subst(lo, m), subst(hi, m)
                    for c in (le(lo2, a), lt(a, hi2)):
                        if c is FALSE:
                            return self._lookup(rest, args)
                        if c is not TRUE:
                            conds.append(c)
        val = subst(term, m) if m else term
        if not conds:
            return val
        r = self._lookup(rest, args)
        if r is None:
            return val
        return self.gite(mand(*conds), val, r)

    def hset(self, st, addr, attr, term):
        if addr.op == 'ite':
            c, a, b = addr.args
            oa = self.getattr_raw(st, a, attr)
            self.hset(st, a, attr, self.gite(c, term, oa))
            ob = self.getattr_raw(st, b, attr)
            self.hset(st, b, attr, self.gite(c, ob, term))
            return
        k, args = self._key(addr)
        ents = st.heap.get((k, attr), ())
        ents = tuple(e for e in ents if e[1] != args or e[0])
        st.heap[(k, attr)] = ((frozenset(), args, {}, term),) + ents

    def getattr_raw(self, st, addr, attr):
        v = self.hget(st, addr, attr)
        if v is None:
            v = mk('attr', addr, attr) if attr != '[]' else addr
        return v

    def alloc(self, st, kind, cls=None, name=''):
        n = TT.fresh()
        KIND[n] = kind
        if cls is not None:
            CLS[n] = cls
        ALLOCNAME[n] = name
        return mk('new', n, st.binders)

    def box(self, st, kind, content):
        a = self.alloc(st, kind)
        self.hset(st, a, '[]', content)
        return a

    def kind_of(self, t):
        if t.op == 'new':
            return KIND.get(t.args[0])
        if t.op == 'ite':
            a = self.kind_of(t.args[1])
            return a if a == self.kind_of(t.args[2]) else None
        if t.op in ('list',):
            return 'list'
        if t.op in ('dict',):
            return 'dict'
        return None

    def V(self, st, t):
        """content of containers (one level)"""
        if t.op == 'new':
            if KIND.get(t.args[0]) in CONTAINERS:
                v = self.hget(st, t, '[]')
                return v if v is not None else t
            return t
        if t.op == 'ite':
            a, b = self.V(st, t.args[1]), self.V(st, t.args[2])
            if a is t.args[1] and b is t.args[2]:
                return t
            return self.gite(t.args[0], a, b)
        if t.op in ('attr', 'index', 'call', 'param'):
            v = self.hget(st, t, '[]')
            return t if v is None else v
        return t

    def reify(self, st, t, memo=None):
        """replace every container address inside t by its contents"""
        memo = {} if memo is None else memo
        if not contains(t, lambda x: x.op == 'new' and KIND.get(x.args[0]) in CONTAINERS):
            return self._reify_opaque(st, t)
        return self._reify(st, t, memo)

    def _reify_opaque(self, st, t):
        return self.V(st, t) if t.op in ('attr', 'index') else t

    def _reify(self, st, t, memo):
        if t in memo:
            return memo[t]
        if t.op == 'new':
            if KIND.get(t.args[0]) in CONTAINERS:
                v = self.hget(st, t, '[]')
                r = t if v is None or v is t else self._reify(st, v, memo)
            else:
                r = t
        elif t.op in BIND:
            bv, lo, hi = t.args[0], self._reify(st, t.args[1], memo), self._reify(st, t.args[2], memo)
            b = binder(lo, hi)
            def inner(x):
                if isinstance(x, tuple):
                    return tuple(inner(y) for y in x)
                return self._reify(st, subst(x, {bv: b}), {}) if isinstance(x, T) and x.op != 'phi' else x
            body = [inner(x) for x in t.args[3:]]
            r = rebuild(t.op, (b, lo, hi) + tuple(body))
        else:
            def go(a):
                if isinstance(a, T):
                    return self._reify(st, a, memo)
                if isinstance(a, tuple):
                    return tuple(go(x) for x in a)
                return a
            na = tuple(go(a) for a in t.args)
            r = t if na == t.args else rebuild(t.op, na)
        memo[t] = r
        return r

    # ------------------------------------------------------------ merging
    def gite(self, c, a, b):
        if a is b or c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if a.op in ('list', 'col') and b.op in ('list', 'col') and (a.args or b.args):
            kind = a.op if a.args else b.op
            x, y = list(a.args), list(b.args)
            pre, suf = [], []
            while x and y and x[0] is y[0]:
                pre.append(x.pop(0)); y.pop(0)
            while x and y and x[-1] is y[-1]:
                suf.insert(0, x.pop()); y.pop()
            mid = []
            # same shape segment: el/el -> conditional element
            if len(x) == 1 and len(y) == 1 and x[0].op == 'el' and y[0].op == 'el':
                mid = [el(self.gite(c, x[0].args[0], y[0].args[0]))]
            else:
                if x:
                    mid.append(opt(c, seq(kind, x)))
                if y:
                    mid.append(opt(mnot(c), seq(kind, y)))
            return seq(kind, pre + mid + suf)
        for p, q, cc in ((a, b, c), (b, a, mnot(c))):
            # list(spread p, ...) versus p
            if p.op in ('list', 'col') and p.args and p.args[0].op == 'spread' and p.args[0].args[0] is q:
                return seq(p.op, [p.args[0], opt(cc, seq(p.op, p.args[1:]))])
            if p.op == 'store' and q is p.args[0]:
                return mk_store(q, seq('list', [opt(cc, p.args[1])]))
        if a.op == 'store' and b.op == 'store' and a.args[0] is b.args[0]:
            return mk_store(a.args[0], self.gite(c, a.args[1], b.args[1]))
        if a.op == 'dict' and b.op == 'dict':
            r = merge_dict(self, c, a, b)
            if r is not None:
                return r
        if a.op == 'poly' and b.op == 'poly' or (a.op == 'poly' and b.op not in CONSTLIKE) or (b.op == 'poly' and a.op not in CONSTLIKE):
            if a.op not in ('list', 'col', 'new', 'dict', 'fill', 'store', 'ite') and b.op not in ('list', 'col', 'new', 'dict', 'fill', 'store', 'ite'):
                da, db = pdict(a), pdict(b)
                common = {m: k for m, k in da.items() if db.get(m) == k and m != ()}
                if common:
                    from .terms import _poly
                    cp = _poly(common)
                    return add(cp, ite(c, sub(a, cp), sub(b, cp)))
        return ite(c, a, b)

    def merge(self, c, a, b):
        """state holding a if c else b"""
        if a.dead and b.dead:
            r = a.clone(); r.dead = True
            return r
        if a.dead:
            b.facts = b.facts + tuple(literals(mnot(c)))
            return b
        if b.dead:
            a.facts = a.facts + tuple(literals(c))
            return a
        r = State()
        r.binders, r.pc = a.binders, a.pc
        r.facts = tuple(f for f in a.facts if f in b.facts)
        keys = list(a.env) + [k for k in b.env if k not in a.env]
        for k in keys:
            x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            r.env[k] = x if x is y else self.merge_val(c, x, y, a, b, r)
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            x, y = a.heap.get(k, ()), b.heap.get(k, ())
            r.heap[k] = x if x is y or x == y else self.merge_ents(c, k, x, y)
        # late: contents of freshly merged boxes
        for (box, x, y) in getattr(self, '_pending', []):
            pass
        r.ret = self.gite(c, a.ret, b.ret)
        r.retval = a.retval if a.retval is b.retval else (
            self.merge_val(c, a.retval, b.retval, a, b, r) if (a.ret is not FALSE and b.ret is not FALSE)
            else (a.retval if a.ret is not FALSE else b.retval))
        r.brk = self.gite(c, a.brk, b.brk)
        r.cont = self.gite(c, a.cont, b.cont)
        return r

    def merge_val(self, c, x, y, sa, sb, r):
        if x is UNDEF:
            return y
        if y is UNDEF:
            return x
        kx, ky = self.kind_of(x), self.kind_of(y)
        if kx in CONTAINERS and kx == ky and x.op == 'new' and y.op == 'new':
            # two different containers: keep a conditional address
            return ite(c, x, y)
        return self.gite(c, x, y)

    def before(self, k):
        """value of an attribute of an object that exists before the analysed call"""
        o, attr = k
        if not isinstance(o, T) or attr == '#last' or o.op not in ('param', 'attr', 'index'):
            return None
        if attr == '[]':
            return o
        v = self.dom.attr_value(o, attr)
        return mk('attr', o, attr) if v is None else v
    def merge_ents(self, c, k, x, y):
        if not x or not y:
            z = x or y
            if len(z) == 1 and not z[0][1]:
                old = self.before(k)
                if old is not None:
                    e = z[0]
                    return ((e[0], e[1], e[2], self.gite(c if x else mnot(c), e[3], old)),)
            return z
        out = []
        i = j = 0
        # common suffix (older entries)
        suf = []
        x, y = list(x), list(y)
        while x and y and x[-1] == y[-1]:
            suf.insert(0, x.pop()); y.pop()
        dx = {e[1]: e for e in x}
        dy = {e[1]: e for e in y}
        for pat in list(dx) + [p for p in dy if p not in dx]:
            ex, ey = dx.get(pat), dy.get(pat)
            if ex and ey and ex[0] == ey[0]:
                out.append((ex[0], pat, ex[2], self.gite(c, ex[3], ey[3])))
            else:
                e = ex or ey
                old = self._lookup(tuple(suf), pat) if suf else None
                if old is None:
                    out.append(e)
                else:
                    cc = c if ex else mnot(c)
                    out.append((e[0], pat, e[2], self.gite(cc, e[3], old)))
        # drop old entries with identical pattern
        pats = {(e[0], e[1]) for e in out}
        suf = [e for e in suf if (e[0], e[1]) not in pats]
        return tuple(out + suf)

    # ------------------------------------------------------------ conditions
    def simp(self, st, c):
        for f in st.facts:
            if c is TRUE or c is FALSE:
                break
            c = assume(c, f)
        return c

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        for i, s in enumerate(stmts):
            if st.dead:
                return
            d = st.done()
            if d is TRUE:
                return
            if d is not FALSE:
                d = self.simp(st, d)
            if d is TRUE:
                return
            if d is not FALSE:
                s2 = st.clone()
                s2.ret = s2.brk = s2.cont = FALSE
                s2.retval = NONE
                s2.facts = s2.facts + tuple(literals(mnot(d)))
                s2.pc = s2.pc + (mnot(d),)
                self.block(stmts[i:], s2)
                s1 = st.clone()
                pc = st.pc
                st.take(self.merge(d, s1, s2))
                st.pc = pc
                return
            self.cur = s
            self.stmt(s, st)

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided(f'statement {type(s).__name__} at {self.loc(s)}')
        m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st)
    def s_Pass(self, s, st): pass
    def s_Global(self, s, st): pass
    def s_Nonlocal(self, s, st): pass
    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
    def s_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = mk('mod', a.name if a.asname else a.name.split('.')[0])
    def s_ImportFrom(self, s, st):
        pkg = self.frames[-1].module.name.rsplit('.', 1)[0]
        base = s.module or ''
        if s.level:
            base = pkg + ('.' + base if base else '')
        for a in s.names:
            st.env[a.asname or a.name] = self.from_resolved(self.prog.resolve(base, a.name), st)
    def s_FunctionDef(self, s, st):
        st.env[s.name] = self.mk_closure(s, st)
    def s_ClassDef(self, s, st):
        raise Undecided('local class')
    def s_Assign(self, s, st):
        if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, ast.Tuple) \
                and len(s.targets[0].elts) == len(s.value.elts) and not any(isinstance(e, ast.Starred) for e in s.value.elts):
            vals = [self.boxed(self.ev(e, st), st) for e in s.value.elts]
            for t, v in zip(s.targets[0].elts, vals):
                self.assign(t, v, st)
            return
        v = self.boxed(self.ev(s.value, st), st)
        self.note(v, s)
        for t in s.targets:
            self.assign(t, v, st)
    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.boxed(self.ev(s.value, st), st)
            self.note(v, s)
            self.assign(s.target, v, st)
    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(o, t.attr, st)
        else:
            o = self.ev(t.value, st)
            i = self.ev_index(t.slice, st)
            cur = self.getitem(o, i, st)
        v = self.ev(s.value, st)
        k = self.kind_of(cur)
        if k == 'list' or (self.dom.islist(cur) and isinstance(s.op, ast.Add)):
            if isinstance(s.op, ast.Add):
                self.hset(st, cur, '[]', concat('list', self.V(st, cur), self.V(st, v)))
                return
        r = self.binop(s.op, cur, v, st)
        self.note(r, s)
        if k == 'nd':
            self.hset(st, cur, '[]', self.V(st, r))
            return
        if isinstance(t, ast.Name):
            self.assign(t, r, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, r, st)
        else:
            self.setitem(o, i, r, st, t)
    def s_Return(self, s, st):
        v = NONE if s.value is None else self.boxed(self.ev(s.value, st), st)
        st.retval = v
        st.ret = TRUE
    def s_Raise(self, s, st):
        d = ''
        if s.exc is not None:
            e = s.exc
            d = ast.unparse(e.func) if isinstance(e, ast.Call) else ast.unparse(e)
        self.do_raise(st, d, s)
    def do_raise(self, st, d, node):
        self.raises.append(mk('raise', mand(*st.pc), d, self.frames[-1].qual if self.frames else '?'))
        self.prov.setdefault(self.raises[-1].id, self.loc(node))
        st.dead = True
    def s_Assert(self, s, st):
        c = self.simp(st, self.cond(s.test, st))
        if c is FALSE:
            self.do_raise(st, 'AssertionError', s)
        elif c is not TRUE:
            s2 = st.clone(); s2.pc += (mnot(c),)
            self.do_raise(s2, 'AssertionError', s)
            st.facts += tuple(literals(c))
    def s_If(self, s, st):
        c = self.simp(st, self.cond(s.test, st))
        self.stats['branches'] += 1
        self.branch(c, lambda q: self.block(s.body, q), lambda q: self.block(s.orelse, q), st)
    def branch(self, c, f1, f2, st):
        if c is TRUE:
            return f1(st)
        if c is FALSE:
            return f2(st)
        a, b = st.clone(), st.clone()
        a.facts += tuple(literals(c)); a.pc += (c,)
        b.facts += tuple(literals(mnot(c))); b.pc += (mnot(c),)
        f1(a); f2(b)
        pc, facts = st.pc, st.facts
        r = self.merge(c, a, b)
        # keep facts that survive
        extra = tuple(f for f in r.facts if f not in facts)
        if a.dead != b.dead:
            r.facts = facts + extra
        else:
            r.facts = facts + tuple(f for f in a.facts if f not in facts and f in b.facts)
        st.take(r)
        st.pc = pc
    def s_Break(self, s, st):
        st.brk = TRUE
    def s_Continue(self, s, st):
        st.cont = TRUE
    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st)
        self.block(s.body, st)
    def s_Try(self, s, st):
        self.block(s.body, st)
        if s.orelse:
            self.block(s.orelse, st)
        if s.finalbody:
            self.block(s.finalbody, st)

    # loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        def bind_body(elem, q):
            self.assign(s.target, elem, q)
            self.block(s.body, q)
        self.iterate(s, it, bind_body, st)
        if s.orelse:
            self.block(s.orelse, st)

    def s_While(self, s, st):
        """counting loops:  while i < hi [and more]: ... i += 1; the rest of the test leaves the loop"""
        tests = list(s.test.values) if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) else [s.test]
        assigned = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for j, test in enumerate(tests):
            names = [n.id for n in ast.walk(test) if isinstance(n, ast.Name)]
            for n in dict.fromkeys(x for x in names if x in assigned and x in st.env):
                init = st.env[n]
                q = st.clone()
                var = {x: phi('w' + x) for x in sorted(assigned) if x in q.env}
                q.env.update(var)
                p = var[n]
                c = self.cond(test, q)
                if c.op not in ('le', 'lt') or p not in c.args[0].fv:
                    continue
                d = pdict(c.args[0])
                k = d.get(((p, 1),))
                rest = sub(c.args[0], mul(num(k), p)) if k is not None else None
                if k != 1 or any(x in rest.fv for x in var.values()):
                    continue
                # c: p + rest <= 0  ->  p < 1 - rest
                hi = sub(ONE if c.op == 'le' else ZERO, rest)
                body = s.body
                if len(tests) > 1:
                    more = tests[:j] + tests[j + 1:]
                    leave = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=more[0] if len(more) == 1 else ast.BoolOp(op=ast.And(), values=more)),
                                   body=[ast.Break()], orelse=[])
                    ast.copy_location(leave, s)
                    for x in ast.walk(leave):
                        if not hasattr(x, 'lineno') and isinstance(x, (ast.stmt, ast.expr)):
                            ast.copy_location(x, s)
                    if not hasattr(s, '_loop'):
                        s._loop = {}
                    body = s._loop.setdefault(j, [leave] + list(s.body))
                # trial run of the body for the step
                q2 = st.clone(); q2.env.update(var)
                nr = len(self.raises)
                try:
                    self.block(body, q2)
                finally:
                    del self.raises[nr:]
                v = q2.env.get(n, UNDEF)
                out = mor(q2.brk, q2.ret)
                if v is not UNDEF and out is not FALSE:
                    for lit in literals(mnot(out)):
                        v = TT.rewrite(v, lambda t: None, {}, lambda t: assume(t, lit) if t.op == 'ite' else t)
                if v is add(p, ONE) and q2.cont is FALSE:
                    def bind_body(elem, q, n=n, body=body):
                        q.env[n] = elem
                        self.block(body, q)
                    self.generic_loop(s, init, hi, lambda b: b, bind_body, st)
                    if out is FALSE:
                        st.env[n] = self.gite(lt(init, hi), hi, init)
                    st.brk = FALSE
                    st.cont = FALSE
                    if s.orelse:
                        raise Undecided('else of a while loop')
                    return
        raise Undecided(f'while loop without recognised counter at {self.loc(s)}')

    def iterate(self, node, it, bind_body, st):
        """run bind_body(elem, state) over the elements of an iterable"""
        if it.op != 'iter':
            v = self.V(st, it)
            if v.op == 'ite' and v.args[1].op not in ('poly',):
                return self.branch(self.simp(st, v.args[0]), lambda q: self.iterate(node, v.args[1], bind_body, q), lambda q: self.iterate(node, v.args[2], bind_body, q), st)
        for ch in self.chunks(it, st, node):
            if st.dead or st.done() is TRUE:
                break
            if ch[0] == 'one':
                c = ch[2] if len(ch) > 2 else TRUE
                def f(q, e=ch[1]):
                    bind_body(e, q)
                    q.cont = FALSE
                if st.brk is not FALSE or st.ret is not FALSE:
                    d = mor(st.brk, st.ret)
                    q = st.clone(); q.brk = q.ret = FALSE
                    q.facts += tuple(literals(mnot(d))); q.pc += (mnot(d),)
                    self.branch(c, f, lambda q: None, q)
                    pc = st.pc
                    st.take(self.merge(d, st.clone(), q)); st.pc = pc
                else:
                    self.branch(c, f, lambda q: None, st)
            elif ch[0] == 'gennest':
                if any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(node)):
                    raise Undecided('early exit from a loop over a nested sequence')
                self.generic_loop(node, ch[1], ch[2], ch[3], lambda e, q: self.iterate(node, e, bind_body, q), st)
            else:
                _, lo, hi, fn = ch
                self.generic_loop(node, lo, hi, fn, bind_body, st)
        st.brk = FALSE
        st.cont = FALSE

    def chunks(self, it, st, node=None):
        """decompose an iterable into ('one', elem) and ('gen', lo, hi, fn) chunks"""
        if it.op == 'iter':
            what = it.args[0]
            if what == 'enumerate':
                out, off = [], it.args[2]
                for ch in self.chunks(it.args[1], st, node):
                    if ch[0] == 'one':
                        if len(ch) > 2:
                            raise Undecided('enumerate over conditional sequence')
                        out.append(('one', mk('tuple', off, ch[1])))
                        off = add(off, ONE)
                    elif ch[0] == 'gennest':
                        _, lo, hi, fn = ch
                        def start(u, lo=lo, fn=fn, off=off):
                            k = binder(lo, u)
                            return add(off, msum(k, lo, u, self.iter_len(fn(k), st)))
                        out.append(('gennest', lo, hi, lambda b, fn=fn, start=start: mk('iter', 'enumerate', fn(b), start(b))))
                        off = start(hi)
                    else:
                        _, lo, hi, fn = ch
                        out.append(('gen', lo, hi, lambda b, fn=fn, lo=lo, off=off: mk('tuple', add(off, sub(b, lo)), fn(b))))
                        off = add(off, sub(hi, lo))
                return out
            if what == 'zip':
                parts = [self.chunks(x, st, node) for x in it.args[1:]]
                if all(all(c[0] == 'one' and len(c) == 2 for c in p) for p in parts):
                    return [('one', mk('tuple', *[c[1] for c in t])) for t in zip(*parts)]
                if all(len(p) == 1 and p[0][0] == 'gen' for p in parts):
                    ns = [sub(p[0][2], p[0][1]) for p in parts]
                    n = ns[0]
                    for m in ns[1:]:
                        if m is not n:
                            n = n if nonneg(sub(m, n)) else m if nonneg(sub(n, m)) else ew('fmin', n, m)
                    def f(b, parts=parts):
                        return mk('tuple', *[p[0][3](add(b, p[0][1])) for p in parts])
                    return [('gen', ZERO, n, f)]
                # index based zip
                seqs = [self.V(st, x) for x in it.args[1:]]
                n = length(seqs[0])
                for m in map(length, seqs[1:]):
                    if m is not n:
                        n = n if nonneg(sub(m, n)) else m if nonneg(sub(n, m)) else ew('fmin', n, m)
                return [('gen', ZERO, n, lambda b: mk('tuple', *[self.getitem(x, b, st) for x in it.args[1:]]))]
            if what == 'reversed':
                out = []
                for ch in reversed(self.chunks(it.args[1], st, node)):
                    if ch[0] == 'one':
                        out.append(ch)
                    elif ch[0] == 'gennest':
                        _, lo, hi, fn = ch
                        out.append(('gennest', lo, hi, lambda b, fn=fn, lo=lo, hi=hi: mk('iter', 'reversed', fn(sub(sub(add(lo, hi), ONE), b)))))
                    else:
                        _, lo, hi, fn = ch
                        out.append(('gen', lo, hi, lambda b, fn=fn, lo=lo, hi=hi: fn(sub(sub(add(lo, hi), ONE), b))))
                return out
            if what == 'map':
                out = []
                for ch in self.chunks(it.args[2], st, node):
                    if ch[0] == 'one':
                        out.append(('one', self.call(it.args[1], [ch[1]], {}, node, st)))
                    elif ch[0] == 'gennest':
                        _, lo, hi, fn = ch
                        out.append(('gennest', lo, hi, lambda b, fn=fn: mk('iter', 'map', it.args[1], fn(b))))
                    else:
                        _, lo, hi, fn = ch
                        out.append(('gen', lo, hi, lambda b, fn=fn: self.call(it.args[1], [fn(b)], {}, node, st)))
                return out
            raise Undecided('iterator ' + str(what))
        v = self.V(st, it)
        if v.op == 'tuple':
            return [('one', a) for a in v.args]
        if v.op == 'range':
            lo, hi = v.args
            n = cint(sub(hi, lo))
            if n is not None and n <= 8:
                return [('one', add(lo, num(k))) for k in range(max(n, 0))]
            return [('gen', lo, hi, lambda b: b)]
        if v.op in ('list', 'col'):
            out = []
            for s in v.args:
                out.extend(self.seg_chunks(s, st, node))
            return out
        if v.op == 'fill':
            return [('gen', ZERO, v.args[1], lambda b: v.args[0])]
        if v.op == 'dict':
            return [('one', k) for k, _ in v.args[0]]
        if v.op == 'setlit':
            return [('one', k) for k in v.args]
        if v.op == 'ite':
            return [('gen', ZERO, length(v), lambda b: self.getitem(v, b, st))]
        if v.op == 'tupn':
            return [('gen', ZERO, v.args[0], lambda b: index(v, b))]
        src = it if v is it or v.op == 'store' else v
        return [('gen', ZERO, length(v), lambda b: self.getitem(it, b, st))]

    def iter_len(self, it, st):
        """number of elements of an iterable"""
        while it.op == 'iter':
            if it.args[0] in ('enumerate', 'reversed'):
                it = it.args[1]
            elif it.args[0] == 'map':
                it = it.args[2]
            else:
                raise Undecided('length of an iterator')
        return length(self.V(st, it))

    def seg_chunks(self, s, st, node):
        if s.op == 'el':
            return [('one', s.args[0])]
        if s.op == 'spread':
            v = self.V(st, s.args[0])
            if v is s.args[0]:
                if isvec(v) is False:
                    return [('one', v)]
                return [('gen', ZERO, length(v), lambda b: index(v, b))]
            return self.chunks(v, st, node)
        if s.op == 'opt':
            out = []
            for q in s.args[1].args:
                for ch in self.seg_chunks(q, st, node):
                    if ch[0] == 'one':
                        c = s.args[0] if len(ch) == 2 else mand(s.args[0], ch[2])
                        out.append(('one', ch[1], c))
                    else:
                        raise Undecided('loop over conditional segment')
            return out
        if s.op == 'rep':
            bv, lo, hi, body = s.args
            if len(body.args) == 1 and body.args[0].op == 'el':
                v = body.args[0].args[0]
                return [('gen', lo, hi, lambda b: subst(v, {bv: b}))]
            # nested: rep of a spread / several elements -> nested generic loops
            return [('nest', lo, hi, bv, body)] if False else self._nest(s, st, node)
        raise Undecided('segment ' + s.op)

    def _nest(self, s, st, node):
        bv, lo, hi, body = s.args
        return [('gennest', lo, hi, lambda b: subst(body, {bv: b}))]

    def generic_loop(self, node, lo, hi, fn, bind_body, st, nested=False):
        n = cint(sub(hi, lo))
        if n is not None and n <= 0:
            return
        if n is not None and n <= 3:
            for k in range(n):
                if st.dead or st.done() is TRUE:
                    break
                def f(q, k=k):
                    bind_body(fn(add(lo, num(k))), q)
                    q.cont = FALSE
                d = mor(st.brk, st.ret)
                self.branch(d, lambda q: None, f, st)
            return
        self.stats['loops'] += 1
        if lt(lo, hi) is FALSE:
            return
        key = (id(node), tuple(x[0] for x in self.stack[-3:]))
        changed = {k: True for k in self.loopcache.get(key, {})
                   if k[0] != 'h' or all(x in st.binders for a in k[3] for x in a.fv if x.op == 'b')}
        lo_, hi_ = lo, hi
        for rnd in range(8):
            s = st.clone()
            s.brk = s.cont = s.ret = FALSE
            s.retval = NONE
            b = binder(lo_, hi_)
            s.binders = s.binders + (b,)
            s.pc = ()
            phis = {}
            boxes = {}
            order = []
            for k in changed:
                init = self.loc_get(st, k)
                if init is None:
                    continue
                if k[0] == 'e' and init.op in ('ite', 'attr', 'index') and init is not self.V(st, init):
                    init = st.env[k[1]] = self.V(st, init)      # a container or another value
                p = phi(str(k[1]) if k[0] == 'e' else str(k[2]))
                if k[0] == 'e' and init.op == 'new' and KIND.get(init.args[0]) in CONTAINERS:
                    a = self.alloc(s, KIND[init.args[0]])
                    self.hset(s, a, '[]', p)
                    s.env[k[1]] = a
                    boxes[k] = a
                else:
                    self.loc_set(s, k, p)
                phis[k] = p
                order.append(k)
            snap_env = dict(s.env)
            snap_heap = dict(s.heap)
            nr = len(self.raises)
            # lo < hi inside the body
            f0 = lt(lo_, hi_)
            if f0 not in (TRUE, FALSE):
                s.facts += tuple(literals(f0))
            nfacts = len(s.facts)
            bp = rp = None
            if changed.get(('brk',)):
                bp = phi('brk')
                q = s.clone(); q.facts += tuple(literals(mnot(bp2(bp)))); q.pc = (mnot(bp2(bp)),)
                bind_body(fn(b), q)
                q.cont = FALSE
            else:
                q = s
                bind_body(fn(b), q)
                q.cont = FALSE
            if q.dead:
                # the body always raises when executed
                self.raises[nr:] = [self.wrap_each(r, b, lo_, hi_, st) for r in self.raises[nr:]]
                c = lt(lo_, hi_)
                if c is TRUE:
                    st.dead = True
                else:
                    st.facts += tuple(literals(mnot(c)))
                return
            if (q.brk is not FALSE or q.ret is not FALSE) and not changed.get(('brk',)):
                changed[('brk',)] = True
                del self.raises[nr:]
                continue
            # which locations changed?
            newc = {}
            for k, v in q.env.items():
                if v is not snap_env.get(k, UNDEF):
                    newc[('e', k)] = True
            bset = b
            for hk, ents in q.heap.items():
                old = snap_heap.get(hk, ())
                if ents is old:
                    continue
                for e in ents:
                    if any(e is o or e == o for o in old):
                        continue
                    if e[0]:
                        # generalised entry of an inner loop
                        if not any(bset in a.fv for a in e[1]):
                            if any(o[1] == e[1] for o in old):
                                pass
                            newc[('h', hk[0], hk[1], e[1], e[0])] = True
                        continue
                    if any(bset in a.fv for a in e[1]):
                        continue
                    newc[('h', hk[0], hk[1], e[1])] = True
            gen = [k for k in newc if len(k) == 5]
            if bp is not None:
                # after a break every name keeps the value of the iteration that stopped
                for k in newc:
                    if k[0] == 'e' and k not in changed and st.env.get(k[1], UNDEF) is UNDEF:
                        st.env[k[1]] = mk('unset')
            miss = [k for k in newc if k not in changed and len(k) < 5 and self.needs_phi(k, st)]
            if not miss:
                break
            if DEBUG: print('round',rnd,[(k[0],)+tuple(str(x)[:80] for x in k[1:]) for k in miss][:12], file=sys.stderr)
            for k in miss:
                changed[k] = True
            del self.raises[nr:]
        else:
            raise Undecided('loop fixpoint')
        self.loopcache[key] = {k: True for k in changed}
        # ---- solve recurrences
        keys = [k for k in order]
        nxt, init = {}, {}
        for k in keys:
            p = phis[k]
            if k in boxes:
                e = q.env.get(k[1], UNDEF)
                if e is boxes[k]:
                    c = self.hget(q, boxes[k], '[]')
                    if c is p:
                        continue
                    # mutated in place: the original container was mutated
                    nxt[p] = c
                else:
                    nxt[p] = self.V(q, e)
                init[p] = self.V(st, st.env[k[1]])
            else:
                v = self.loc_get(q, k)
                if v is p:
                    nxt[p] = p; init[p] = self.loc_get(st, k)
                    continue
                init[p] = self.loc_get(st, k)
                nxt[p] = self.reify(q, self.V(q, v)) if init[p].op == 'unset' else v
        if bp is not None:
            bt = bp2(bp)
            stop = mor(q.brk, q.ret)
            # guarded next values
            for p in list(nxt):
                nxt[p] = self.gite(bt, p, nxt[p])
            nxt[bp] = ite(bt, mk('one'), ite(stop, mk('one'), mk('zero')))
            init[bp] = mk('zero')
            rp = rv = None
            if q.ret is not FALSE:
                rp = phi('ret'); rv = phi('retval')
                nxt[rp] = ite(bt, rp, ite(q.ret, mk('one'), mk('zero')))
                init[rp] = mk('zero')
                nxt[rv] = self.gite(bt, rv, q.retval)
                init[rv] = NONE
        sol = self.solve(b, lo_, hi_, init, nxt)
        at = {p: f(b) for p, f in sol.items()}
        fin = {p: f(hi_) for p, f in sol.items()}
        # ---- raises of the body
        nr_events = []
        for r in self.raises[nr:]:
            r2 = subst(r, at)
            self._cp(r, r2)
            nr_events.append(self.wrap_each(r2, b, lo_, hi_, st))
        self.raises[nr:] = nr_events
        # ---- rebuild the state
        guard = None
        if bp is not None:
            guard = bp2(at[bp])
        res = st.clone()
        # heap
        for hk, ents in q.heap.items():
            old = snap_heap.get(hk, ())
            base = st.heap.get(hk, ())
            if ents is old and not any(e[3].fv & set(at) for e in ents):
                if hk in snap_heap and hk not in st.heap and any(b in a.fv for e in ents for a in e[1]):
                    pass
                else:
                    if hk not in st.heap:
                        pass
                    continue
            out = []
            done_pat = set()
            for e in ents:
                if any(e is o or e == o for o in base) and not (e[3].fv & set(at)):
                    if ('h', hk[0], hk[1], e[1]) not in phis:
                        out.append(e)
                    continue
                formals, pat, dom, term = e
                term = subst(term, at)
                if any(b in a.fv for a in pat):
                    # per-iteration location: b becomes a formal parameter
                    oldv = self._lookup(tuple(o for o in base), pat) if base else None
                    if guard is not None and oldv is not None:
                        term = self.gite(guard, oldv, term)
                    pat2, term2, nf = pat, term, b
                    hit = [i for i, a in enumerate(pat) if b in a.fv]
                    ok = False
                    for i in hit:
                        if pat[i] is b:
                            ok = True
                    if not ok:
                        i = hit[0]
                        off = sub(pat[i], b)
                        if b in off.fv:
                            raise Undecided('irregular element update in loop')
                        nb = binder(add(lo_, off), add(hi_, off))
                        m = {b: sub(nb, off)}
                        pat2 = tuple(nb if j == i else subst(a, m) for j, a in enumerate(pat))
                        term2 = subst(term, m)
                        dom = {f: tuple(subst(x, m) for x in d) for f, d in dom.items()}
                        nf = nb
                        d = (add(lo_, off), add(hi_, off))
                    else:
                        d = (lo_, hi_)
                        # pat like (b, b, ...): keep
                    dom = dict(dom); dom[nf] = d
                    out.append((formals | {nf}, pat2, dom, term2))
                    continue
                k = ('h', hk[0], hk[1], pat)
                if formals:
                    # generalised inner entry at a location that is rewritten in every iteration: last value
                    oldv = None
                    t_last = subst(term, {b: sub(hi_, ONE)})
                    out.append((formals, pat, dom, t_last))
                    continue
                if k in phis:
                    p = phis[k]
                    out.append((formals, pat, dom, fin[p] if p in fin else self.loc_get(st, k)))
                else:
                    # written before read, value of the last iteration
                    t_last = subst(term, {b: sub(hi_, ONE)})
                    iv = self.loc_get(st, k)
                    c = lt(lo_, hi_)
                    if iv is not None and c is not TRUE:
                        t_last = self.gite(c, t_last, iv)
                    out.append((formals, pat, dom, t_last))
            res.heap[hk] = prune(tuple(out))
        # env
        for name, v in q.env.items():
            k = ('e', name)
            if k in boxes:
                p = phis[k]
                if p not in fin:
                    res.env[name] = st.env[name]
                    continue
                e = q.env[name]
                if e is boxes[k]:
                    # same container mutated
                    self.hset(res, st.env[name], '[]', fin[p])
                    res.env[name] = st.env[name]
                else:
                    res.env[name] = self.box(res, KIND[boxes[k].args[0]], fin[p])
                continue
            if k in phis:
                res.env[name] = fin.get(phis[k], st.env.get(name, UNDEF))
                continue
            if v is st.env.get(name, UNDEF):
                continue
            v = subst(v, at)
            last = subst(v, {b: sub(hi_, ONE)})
            if guard is not None:
                last = mk('lastof', *[last]) if False else last
            res.env[name] = last
        res.facts, res.pc, res.binders = st.facts, st.pc, st.binders
        if bp is not None:
            if rp is not None:
                rc = bp2(fin[rp])
                res.ret = rc
                res.retval = fin[rv]
            res.brk = FALSE
        res.dead = False
        st.take(res)

    def _cp(self, a, b):
        if a.id in self.prov:
            self.prov.setdefault(b.id, self.prov[a.id])

    def wrap_each(self, r, b, lo, hi, st):
        if b in r.fv:
            w = bind('each', b, lo, hi, r)
        else:
            c = lt(lo, hi)
            w = mk('guarded', c, r) if c is not TRUE else r
        if st.pc:
            w = mk('guarded', mand(*st.pc), w)
        self._cp(r, w)
        return w

    def needs_phi(self, k, st):
        if k[0] == 'e':
            return st.env.get(k[1], UNDEF) is not UNDEF
        return self.loc_get(st, k) is not None

    def loc_get(self, st, k):
        if k[0] == 'e':
            v = st.env.get(k[1], UNDEF)
            return None if v is UNDEF else v
        if k[0] == 'h':
            ents = st.heap.get((k[1], k[2]))
            if ents is None:
                if k[1].__class__ is T and k[2] != '[]':
                    return mk('attr', k[1], k[2])
                if k[1].__class__ is T:
                    return k[1]
                return None
            return self._lookup(ents, k[3])
        return None
    def loc_set(self, st, k, v):
        if k[0] == 'e':
            st.env[k[1]] = v
        else:
            ents = st.heap.get((k[1], k[2]), ())
            ents = tuple(e for e in ents if e[1] != k[3] or e[0])
            st.heap[(k[1], k[2])] = ((frozenset(), k[3], {}, v),) + ents

    # ------------------------------------------------------------ recurrences
    def solve(self, b, lo, hi, init, nxt):
        """returns phi -> function(upper bound) giving the value after iterations lo..u-1"""
        sol = {}
        rest = dict(nxt)
        allp = set(nxt)
        progress = True
        while rest and progress:
            progress = False
            for p in list(rest):
                n = rest[p]
                at = {x: f(b) for x, f in sol.items() if x in n.fv}
                if at:
                    n = subst(n, at)
                dep = n.fv & allp - {p}
                if dep:
                    rest[p] = n
                    continue
                f = self.solve1(p, b, lo, hi, init[p], n)
                if f is None:
                    f = self.foldsol([p], b, lo, init, {p: n})[p]
                sol[p] = f
                del rest[p]
                progress = True
        if rest:
            # mutually recursive: one fold
            for p in list(rest):
                n = rest[p]
                at = {x: f(b) for x, f in sol.items() if x in n.fv}
                rest[p] = subst(n, at) if at else n
            sol.update(self.foldsol(list(rest), b, lo, init, rest))
        return sol

    def solve1(self, p, b, lo, hi, i, n):
        if n is p:
            return lambda u: i
        if p not in n.fv:
            def f(u, n=n):
                c = lt(lo, u)
                v = subst(n, {b: sub(u, ONE)})
                return self.gite(c, v, i)
            return f
        # append
        if n.op in ('list', 'col') and n.args and n.args[0].op == 'spread' and n.args[0].args[0] is p:
            tail = seq(n.op, n.args[1:])
            if p not in tail.fv:
                def f(u):
                    k = binder(lo, u)
                    return seq(n.op, list(segs_of(i)) + [mrep(k, lo, u, subst(tail, {b: k}))])
                return f
            # the tail uses only len(p)
            return None
        if n.op in ('list', 'col') and n.args and n.args[-1].op == 'spread' and n.args[-1].args[0] is p:
            head = seq(n.op, n.args[:-1])
            if p not in head.fv:
                def f(u):
                    k = binder(lo, u)
                    return seq(n.op, [mrep(k, lo, u, subst(head, {b: sub(sub(add(lo, u), ONE), k)}))] + list(segs_of(i)))
                return f
        # indexed stores
        if n.op == 'store' and n.args[0] is p:
            r = self.solve_store(p, b, lo, hi, i, n.args[1])
            if r is not None:
                return r
            return None
        # additive / multiplicative
        n2 = push_ite(self, n, p)
        d = pdict(n2)
        if n2.op in ('poly', 'phi') or n2 is not n:
            k = d.get(((p, 1),))
            if k == 1:
                t = sub(n2, p)
                if p not in t.fv:
                    def f(u):
                        kk = binder(lo, u)
                        return add(i, msum(kk, lo, u, subst(t, {b: kk})))
                    return f
            if len(d) == 1:
                (m, c), = d.items()
                ex = dict(m)
                if ex.get(p) == 1:
                    from .terms import _poly
                    t = _poly({tuple(x for x in m if x[0] is not p): c})
                    if p not in t.fv:
                        def f(u):
                            kk = binder(lo, u)
                            return mul(i, mprod(kk, lo, u, subst(t, {b: kk})))
                        return f
        return None

    def solve_store(self, p, b, lo, hi, i, log):
        """n = store(p, log)"""
        def idxs(l):
            r = []
            for s in l.args:
                if s.op == 'el':
                    r.append(s.args[0].args[0])
                elif s.op in ('opt',):
                    r.extend(idxs(s.args[1]))
                elif s.op == 'rep':
                    r.extend(idxs(s.args[3]))
                else:
                    r.append(None)
            return r
        ix = idxs(log)
        if None in ix:
            return None
        # constant location accumulation: every write hits the same index free of b
        if p in log.fv:
            if len(set(ix)) == 1 and b not in ix[0].fv and len(log.args) == 1 and log.args[0].op == 'el':
                v = log.args[0].args[0].args[1]
                q = phi('cell')
                v2 = subst(v, {mk('index', p, ix[0]): q})
                if p in v2.fv:
                    return None
                f = self.solve1(q, b, lo, None, index(i, ix[0]), v2)
                if f is None:
                    f = self.foldsol([q], b, lo, {q: index(i, ix[0])}, {q: v2})[q]
                return lambda u: mk_store(i, seq('list', [el(mk('wr', ix[0], f(u)))]))
            # injective index b + c: reads of p at the written index see the initial value
            reads = set()
            def coll(t):
                if t.op == 'index' and t.args[0] is p:
                    reads.add(t.args[1])
            walk(log, coll)
            inj = all(x is not None and (self._strides(x, b)) for x in ix)
            if inj and len(set(ix)) == 1 and reads <= set(ix):
                log = subst(log, {mk('index', p, ix[0]): index(i, ix[0])})
                if p in log.fv:
                    return None
            elif hi is not None and self._reads_untouched(b, lo, hi, ix, reads):
                # earlier iterations write elsewhere; reads within an iteration were resolved already
                log = subst(log, {mk('index', p, r): index(i, r) for r in reads})
                if p in log.fv:
                    return None
            else:
                return None
        def f(u):
            k = binder(lo, u)
            return mk_store(i, seq('list', [mrep(k, lo, u, subst(log, {b: k}))]))
        return f

    def _reads_untouched(self, b, lo, hi, ix, reads):
        for r in reads:
            c = sub(r, b)
            if b in c.fv:
                return False
            for w in set(ix):
                d = sub(w, b)
                if b in d.fv:
                    return False
                # positions lo+d .. b-1+d have been written; b+c is none of them
                if nonneg(sub(c, d)) or nonneg(sub(d, add(c, sub(sub(hi, ONE), lo)))):
                    continue
                return False
        return True

    def _strides(self, x, b):
        if x.op == 'tuple':
            return any(self._strides(a, b) for a in x.args)
        d = pdict(x)
        k = d.get(((b, 1),))
        return k in (1, -1) and b not in sub(x, mul(num(k), b)).fv

    def foldsol(self, ps, b, lo, init, nxt):
        out = {}
        for p in ps:
            def f(u, p=p):
                group = []
                def visit(x):
                    if x in group:
                        return
                    group.append(x)
                    # deterministic order: by first occurrence in a traversal of the next value
                    seen = []
                    walk_ordered(nxt[x], lambda t: seen.append(t) if t in nxt and t not in seen else None)
                    for y in seen:
                        visit(y)
                visit(p)
                h = max([0] + [nxt[x].height for x in group] + [init[x].height for x in group])
                fps = {x: mk('phi', -(h + 1), f'f{j}') for j, x in enumerate(group)}
                k = binder(lo, u)
                inits = tuple(init[x] for x in group)
                nexts = tuple(subst(nxt[x], {**fps, b: k}) for x in group)
                return mkfold(k, lo, u, inits, nexts, tuple(fps[x] for x in group))
            out[p] = f
        return out

    # ------------------------------------------------------------ assignment
    def boxed(self, v, st):
        """values of container display expressions get an identity when bound"""
        if v.op in ('list', 'dict'):
            return self.box(st, v.op, v)
        return v

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, st), self.ev_index(t.slice, st), v, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Undecided('starred assignment')
            vv = self.V(st, v)
            if vv.op == 'tuple' and len(vv.args) == n:
                for e, x in zip(t.elts, vv.args):
                    self.assign(e, x, st)
                return
            for k, e in enumerate(t.elts):
                self.assign(e, self.getitem(v, num(k), st), st)
        else:
            raise Undecided('assignment target')

    def setattr(self, o, name, v, st):
        if o.op == 'ite':
            c, a, b = o.args
            self.branch(c, lambda q: self.setattr(a, name, v, q), lambda q: self.setattr(b, name, v, q), st)
            return
        ci = self.class_of(o)
        if ci is not None:
            p = self.class_attr(ci, name)
            if p is not None and p[0] == 'const':
                call = p[2]
                if isinstance(call, ast.Call) and isinstance(call.func, ast.Name) and call.func.id == 'property':
                    for kw in call.keywords:
                        if kw.arg == 'fset':
                            fr = Frame(p[1].module, p[1], p[1].name + '.' + name)
                            self.frames.append(fr)
                            try:
                                f = self.mk_closure(kw.value, State())
                            finally:
                                self.frames.pop()
                            self.call(f, [o, v], {}, call, st)
                            return
        self.hset(st, o, name, v)

    def setitem(self, o, i, v, st, node=None):
        if o.op == 'ite' and (self.kind_of(o) in CONTAINERS):
            c, a, b = o.args
            self.branch(c, lambda q: self.setitem(a, i, v, q), lambda q: self.setitem(b, i, v, q), st)
            return
        if o.op == 'index' and o.args[0].op == 'attr' and o.args[0].args[1] in MATRIX_ATTR and o.args[1].op not in ('sl', 'tuple') and i.op != 'tuple':
            # a row is a view of its matrix
            return self.setitem(o.args[0], mk('tuple', o.args[1], self.V(st, i)), v, st)
        base = self.V(st, o)
        if base.op == 'dict':
            self.hset(st, o, '[]', dict_set(base, i, v))
            return
        if self.kind_of(o) not in ('list', 'dict') and self.kind_of(v) in CONTAINERS:
            v = self.V(st, v)
        nv = mk_store(base, seq('list', [el(mk('wr', self.V(st, i), v))]))
        self.note(nv, node)
        if o.op in ('new', 'attr', 'index', 'param', 'call', 'bcall', 'sym') and not (o.op == 'call' and o.args[0] in ('horzcat', 'T', 'casop', 'mtimes', 'reshape') and isinstance(node, ast.Subscript) and isinstance(node.value, (ast.Subscript, ast.Attribute))) \
                and not (phirooted(o) and isinstance(node, ast.Subscript) and isinstance(node.value, ast.Subscript)):
            self.hset(st, o, '[]', nv)
        elif node is not None and isinstance(node.value, (ast.Name, ast.Attribute)):
            # pure value held by a place: update the place
            self.assign(node.value, nv, st)
        elif node is not None and isinstance(node.value, ast.Subscript):
            self.setitem(self.ev(node.value.value, st), self.ev_index(node.value.slice, st), nv, st, node.value)
        else:
            raise Undecided('store into a temporary')

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided(f'expression {type(e).__name__} at {self.loc(e)}')
        return m(e, st)

    def evs(self, es, st):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.V(st, self.ev(e.value, st))
                if v.op == 'tuple':
                    out.extend(v.args)
                else:
                    out.append(mk('star', v))
            else:
                out.append(self.ev(e, st))
        return out

    def e_Constant(self, e, st):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return boolT(v)
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return string(v)
        return mk('const', repr(v))
    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.V(st, self.ev(v.value, st)))
            else:
                parts.append(self.ev(v, st))
        return TT.fstr(*parts)
    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)
    def e_Name(self, e, st):
        return self.name(e.id, st)
    def name(self, n, st):
        v = st.env.get(n)
        if v is not None and v is not UNDEF:
            return v
        fr = self.frames[-1]
        pe = fr.parent_env
        while pe is not None:
            if n in pe and pe[n] is not UNDEF:
                return pe[n]
            pe = pe.get('\0parent')
        r = self.prog.resolve(fr.module.name, n)
        if r is not None:
            return self.from_resolved(r, st)
        return mk('builtin', n)
    def from_resolved(self, r, st):
        if r is None:
            return mk('undefname')
        if r[0] == 'func':
            q = r[1].name + ':' + r[2].name
            self.closures[q] = (r[2], None, r[1], None)
            return mk('func', q)
        if r[0] == 'class':
            return mk('class', r[1].qual)
        if r[0] == 'mod':
            return mk('mod', r[1])
        if r[0] == 'const':
            self.frames.append(Frame(r[1], None, r[1].name))
            try:
                return self.ev(r[2], State())
            finally:
                self.frames.pop()
        return mk('ext', r[1])
    def cls_by_qual(self, q):
        mod, name = q.rsplit('.', 1)
        return self.prog.modules[mod].classes[name]

    def e_Tuple(self, e, st):
        xs = [self.boxed(x, st) for x in self.evs(e.elts, st)]
        if any(x.op == 'star' for x in xs):
            segs = []
            for x in xs:
                segs.extend(segs_of(x.args[0]) if x.op == 'star' else [el(x)])
            return seq('list', segs)
        return mk('tuple', *xs)
    def e_List(self, e, st):
        segs = []
        for x in self.evs(e.elts, st):
            if x.op == 'star':
                segs.extend(segs_of(x.args[0]))
            else:
                segs.append(el(self.boxed(x, st)))
        return seq('list', segs)
    def e_Set(self, e, st):
        return mk('setlit', *[self.V(st, x) for x in self.evs(e.elts, st)])
    def e_Dict(self, e, st):
        d = mk('dict', ())
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.V(st, self.ev(v, st))
                if x.op != 'dict':
                    raise Undecided('dict unpacking')
                for kk, vv in x.args[0]:
                    d = dict_set(d, kk, vv)
            else:
                d = dict_set(d, self.V(st, self.ev(k, st)), self.boxed(self.ev(v, st), st))
        return d
    def e_Starred(self, e, st):
        return mk('star', self.V(st, self.ev(e.value, st)))
    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v
    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return mnot(self.cond(e.operand, st))
        v = self.V(st, self.ev(e.operand, st))
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk('call', 'invert', v)
    def e_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        r = self.binop(e.op, a, b, st)
        self.note(r, e)
        return r
    def is_list(self, t, v):
        return self.kind_of(t) == 'list' or v.op == 'list' or self.dom.islist(t) or self.dom.islist(v) or \
            (v.op in ('col', 'rep') and False)
    def binop(self, op, a, b, st):
        va, vb = self.V(st, a), self.V(st, b)
        if isinstance(op, ast.Add):
            if va.op in ('str', 'fstr') or vb.op in ('str', 'fstr'):
                return TT.fstr(va, vb)
            if self.is_list(a, va) or self.is_list(b, vb):
                return concat('list', va, vb)
            if va.op == 'tuple' and vb.op == 'tuple':
                return mk('tuple', *(va.args + vb.args))
            return add(va, vb)
        if isinstance(op, ast.Sub):
            return sub(va, vb)
        if isinstance(op, ast.Mult):
            for x, vx, n in ((a, va, vb), (b, vb, va)):
                if self.is_list(x, vx) and vx.op == 'list':
                    k = binder(ZERO, n)
                    return seq('list', [mrep(k, ZERO, n, vx)])
            return mul(va, vb)
        if isinstance(op, ast.Div):
            return div(va, vb)
        if isinstance(op, ast.Pow):
            return power(va, vb)
        if isinstance(op, ast.MatMult):
            return matmul(va, vb)
        if isinstance(op, ast.FloorDiv):
            ca, cb = cint(va), cint(vb)
            if ca is not None and cb:
                return num(ca // cb)
            return mk('call', 'floordiv', va, vb)
        if isinstance(op, ast.Mod) and va.op == 'str':
            return percent(va.args[0], list(vb.args) if vb.op == 'tuple' else [vb])
        if isinstance(op, ast.Mod):
            ca, cb = cint(va), cint(vb)
            if ca is not None and cb:
                return num(ca % cb)
            return mk('call', 'mod', va, vb)
        n = type(op).__name__
        if va.op == 'setlit' and vb.op == 'setlit' and n in ('BitOr', 'BitAnd', 'Sub'):
            xs = va.args + vb.args if n == 'BitOr' else [x for x in va.args if (x in vb.args) == (n == 'BitAnd')]
            return mk('setlit', *dict.fromkeys(xs))
        B = ('true', 'false', 'not', 'is', 'eq', 'le', 'lt', 'bcall', 'in')
        isb = lambda x: x.op in B or x.op == 'ite' and isb(x.args[1]) and isb(x.args[2])
        if n in ('BitXor', 'BitAnd', 'BitOr') and isb(va) and isb(vb):
            if n == 'BitAnd':
                return mand(va, vb)
            if n == 'BitOr':
                return mor(va, vb)
            return mor(mand(va, mnot(vb)), mand(mnot(va), vb))
        return mk('call', n, va, vb)
    def cond(self, e, st):
        return self.truth(self.ev(e, st), st)
    def truth(self, v, st):
        v = self.V(st, v)
        if v.op == 'tuple':
            return boolT(bool(v.args))
        if v.op == 'dict':
            return boolT(bool(v.args[0]))
        if v.op == 'new':
            return TRUE
        return truth(v)
    def e_BoolOp(self, e, st):
        # short circuit with value semantics only where needed
        vals = []
        q = st
        res = None
        first = self.ev(e.values[0], st)
        acc = first
        for x in e.values[1:]:
            c = self.simp(st, self.truth(acc, st))
            stop = c if isinstance(e.op, ast.Or) else mnot(c)
            if stop is TRUE:
                return acc
            q = st.clone()
            if stop is not FALSE:
                q.facts += tuple(literals(mnot(stop))); q.pc += (mnot(stop),)
            v = self.ev(x, q)
            if stop is FALSE:
                st.heap = q.heap
            if isbool_t(acc) or isbool_t(v):
                cv = self.simp(q, self.truth(v, q))
                acc = ite(stop, c, cv)
            else:
                acc = v if stop is FALSE else self.gite(stop, acc, v)
        return acc
    def e_IfExp(self, e, st):
        c = self.simp(st, self.cond(e.test, st))
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        out = {}
        def f1(q): out[1] = self.ev(e.body, q)
        def f2(q): out[2] = self.ev(e.orelse, q)
        self.branch(c, f1, f2, st)
        a, b = out[1], out[2]
        if a.op in ('list', 'col') or b.op in ('list', 'col') or self.kind_of(a) in CONTAINERS or self.kind_of(b) in CONTAINERS:
            if not (a.op == 'new' and b.op == 'new'):
                return self.gite(c, self.V(st, a), self.V(st, b))
            return ite(c, a, b)
        return self.gite(c, a, b)
    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        r = TRUE
        for op, rt in zip(e.ops, e.comparators):
            right = self.ev(rt, st)
            r = mand(r, self.simp(st, self.compare(op, left, right, st)))
            left = right
        return r
    def compare(self, op, a, b, st):
        va, vb = self.V(st, a), self.V(st, b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = self.eqv(va, vb, st)
            return c if isinstance(op, ast.Is) else mnot(c)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            c = self.eqv(va, vb, st)
            return c if isinstance(op, ast.Eq) else mnot(c)
        if isinstance(op, ast.Lt):
            return lt(va, vb)
        if isinstance(op, ast.LtE):
            return le(va, vb)
        if isinstance(op, ast.Gt):
            return lt(vb, va)
        if isinstance(op, ast.GtE):
            return le(vb, va)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(va, vb, st)
            return c if isinstance(op, ast.In) else mnot(c)
        raise Undecided('comparison')
    def eqv(self, a, b, st):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x is NONE and y.op != 'new' and self.class_of(y) is not None:
                return FALSE
        if a.op == 'tuple' and b.op == 'tuple':
            if len(a.args) != len(b.args):
                return FALSE
            return mand(*[self.eqv(x, y, st) for x, y in zip(a.args, b.args)])
        for x, y in ((a, b), (b, a)):
            if x.op == 'shape' and y.op == 'tuple':
                v = x.args[0]
                if len(y.args) == 1:
                    return mand(mk('bcall', 'ndim', v, num(1)) if isvec(v) is not True else TRUE, eq(length(v), y.args[0]))
                if len(y.args) == 2:
                    return mand(eq(length(v), y.args[0]), eq(ncols(v), y.args[1]))
        for x, y in ((a, b), (b, a)):
            if x.op in ('tuple', 'shape', 'dict', 'setlit') or (x.op in ('list',) and y.op in ('list',)):
                if y.op == 'none':
                    return FALSE
                return mk('bcall', 'eqobj', *sorted((a, b)))
        return eq(a, b)
    def contains(self, x, c, st):
        if c.op in ('tuple', 'setlit'):
            return mor(*[self.eqv(x, self.V(st, a), st) for a in c.args])
        if c.op == 'list' and all(s.op == 'el' for s in c.args):
            return mor(*[self.eqv(x, self.V(st, s.args[0]), st) for s in c.args])
        if c.op == 'dict':
            return mor(*[self.eqv(x, k, st) for k, _ in c.args[0]])
        if c.op == 'range':
            return mand(le(c.args[0], x), lt(x, c.args[1]))
        return mk('bcall', 'in', x, self.reify(st, c))
    def e_Lambda(self, e, st):
        return self.mk_closure(e, st)
    def mk_closure(self, node, st):
        k = TT.fresh()
        env = dict(st.env)
        fr = self.frames[-1] if self.frames else None
        if fr is not None and fr.parent_env is not None:
            env['\0parent'] = fr.parent_env
        self.closures[k] = (node, env, fr.module if fr else None, fr.cls if fr else None)
        return mk('func', k, tuple(st.env.values()) if False else ())

    # comprehensions
    def e_ListComp(self, e, st):
        return self.comprehension(e, st)
    def e_GeneratorExp(self, e, st):
        return self.comprehension(e, st)
    def e_SetComp(self, e, st):
        v = self.reify(st, self.V(st, self.comprehension(e, st)))
        if v.op == 'list' and all(s.op == 'el' for s in v.args):
            return mk('setlit', *dict.fromkeys(s.args[0] for s in v.args))
        return mk('call', 'set', v)
    def comprehension(self, e, st):
        if id(e) in self.effectful:
            return self.comp_loop(e, st)
        mark = TT.fresh()
        q = st.clone()
        heap0 = st.heap
        nr, nu = len(self.raises), len(self.unsupported)
        r = seq('list', self.comp(e, e.generators, 0, q))
        for (k, attr), ents in q.heap.items():
            if ents is not heap0.get((k, attr)) and (not isinstance(k, int) or k < mark):
                # the elements change existing objects: evaluate as a loop
                self.effectful.add(id(e))
                del self.raises[nr:]
                del self.unsupported[nu:]
                return self.comp_loop(e, st)
        st.take(q)
        return r
    def comp_loop(self, e, st):
        nodes = self.comploops.get(id(e))
        name = f'\0comp{id(e)}'
        if nodes is None:
            body = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(name, ast.Load()), attr='append', ctx=ast.Load()), args=[e.elt], keywords=[]))
            for g in reversed(e.generators):
                for t in reversed(g.ifs):
                    body = ast.If(test=t, body=[body], orelse=[])
                body = ast.For(target=g.target, iter=g.iter, body=[body], orelse=[])
            ast.copy_location(body, e)
            ast.fix_missing_locations(body)
            nodes = self.comploops[id(e)] = body
        saved = dict(st.env)
        st.env[name] = self.box(st, 'list', seq('list', ()))
        self.stmt(nodes, st)
        r = st.env[name]
        st.env = saved
        return self.V(st, r)
    def e_DictComp(self, e, st):
        gens = e.generators
        if len(gens) != 1:
            raise Undecided('dict comprehension')
        it = self.ev(gens[0].iter, st)
        d = mk('dict', ())
        chs = self.chunks(it, st, e)
        if not all(c[0] == 'one' and len(c) == 2 for c in chs):
            segs = self.comp(ast.GeneratorExp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=gens), gens, 0, st)
            return mk('dictcomp', seq('list', segs))
        saved = dict(st.env)
        for c in chs:
            self.assign(gens[0].target, c[1], st)
            ok = mand(*[self.cond(i, st) for i in gens[0].ifs]) if gens[0].ifs else TRUE
            if ok is FALSE:
                continue
            if ok is not TRUE:
                raise Undecided('conditional dict comprehension')
            d = dict_set(d, self.V(st, self.ev(e.key, st)), self.boxed(self.ev(e.value, st), st))
        st.env = saved
        return d
    def comp(self, e, gens, i, st):
        if i == len(gens):
            return [el(self.boxed(self.ev(e.elt, st), st))]
        g = gens[i]
        it = self.ev(g.iter, st)
        segs = []
        saved = st.env
        def inner(q):
            c = TRUE
            facts = q.facts
            for t in g.ifs:
                c = mand(c, self.simp(q, self.cond(t, q)))
                q.facts = q.facts + tuple(literals(c)) if c not in (TRUE, FALSE) else q.facts
            if c is FALSE:
                q.facts = facts
                return []
            pc = q.pc
            if c is not TRUE:
                q.pc = q.pc + (c,)
            r = self.comp(e, gens, i + 1, q)
            q.facts, q.pc = facts, pc
            return r if c is TRUE else [opt(c, seq('list', r))]
        def gen(lo, hi, fn):
            n = cint(sub(hi, lo))
            if n is not None and n <= 3:
                for k in range(max(n, 0)):
                    st.env = dict(saved)
                    self.assign(g.target, fn(add(lo, num(k))), st)
                    segs.extend(inner(st))
                return
            b = binder(lo, hi)
            st.env = dict(saved)
            st.binders += (b,)
            heap0 = dict(st.heap)
            facts0 = st.facts
            f0 = lt(lo, hi)
            if f0 not in (TRUE, FALSE):
                st.facts += tuple(literals(f0))
            nr = len(self.raises)
            pc0 = st.pc
            st.pc = ()
            self.assign(g.target, fn(b), st)
            body = inner(st)
            st.pc = pc0
            st.facts = facts0
            self.raises[nr:] = [self.wrap_each(r, b, lo, hi, st) for r in self.raises[nr:]]
            st.binders = st.binders[:-1]
            self.close_family(st, heap0, b, lo, hi)
            segs.append(mrep(b, lo, hi, seq('list', body)))
        def run(chs):
            for ch in chs:
                if ch[0] == 'one':
                    st.env = dict(saved)
                    self.assign(g.target, ch[1], st)
                    r = inner(st)
                    if len(ch) > 2:
                        r = [opt(ch[2], seq('list', r))]
                    segs.extend(r)
                elif ch[0] == 'gen':
                    gen(ch[1], ch[2], ch[3])
                else:
                    _, lo, hi, fn = ch
                    # nested repetition
                    b = binder(lo, hi)
                    st.binders += (b,)
                    heap0 = dict(st.heap)
                    mark = len(segs)
                    sub_it = fn(b)
                    run(self.chunks(sub_it, st, e))
                    body = segs[mark:]
                    del segs[mark:]
                    st.binders = st.binders[:-1]
                    self.close_family(st, heap0, b, lo, hi)
                    segs.append(mrep(b, lo, hi, seq('list', body)))
        run(self.chunks(it, st, e))
        st.env = saved
        return segs
    def close_family(self, st, heap0, b, lo, hi):
        for hk, ents in list(st.heap.items()):
            if ents is heap0.get(hk):
                continue
            out = []
            for (formals, pat, dom, term) in ents:
                if b in pat and b not in formals:
                    dom = dict(dom); dom[b] = (lo, hi)
                    formals = formals | {b}
                out.append((formals, pat, dom, term))
            st.heap[hk] = tuple(out)

    # attributes
    def class_of(self, o):
        if o.op == 'new':
            return CLS.get(o.args[0])
        n = self.dom.obj_class(o)
        if n is None and o.op == 'attr':
            n = self.dom.attr_types.get(o.args[1])
        if n is None:
            return None
        return self.prog.find_class(n)
    def class_attr(self, ci, name):
        for c in self.prog.mro(ci):
            if name in c.methods:
                return ('method', c, c.methods[name])
            if name in c.consts:
                return ('const', c, c.consts[name])
        return None
    def e_Attribute(self, e, st):
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == 'super' and not e.value.args:
            fr = self.frames[-1]
            s = st.env.get('self')
            own = CLS.get(s.args[0]) if s is not None and s.op == 'new' else None
            mro = self.prog.mro(own or self.class_of(s) or fr.cls)
            i = [c.qual for c in mro].index(fr.cls.qual)
            for c in mro[i + 1:]:
                if e.attr in c.methods:
                    return self.bound(s, c, e.attr)
            return mk('builtin', 'object.' + e.attr)
        return self.getattr(self.ev(e.value, st), e.attr, st, e)
    def bound(self, s, c, name):
        q = c.qual + '.' + name
        self.closures[q] = (c.methods[name], None, c.module, c)
        return mk('bound', s, mk('func', q))
    def getattr(self, o, name, st, node=None):
        if o.op == 'ite':
            o = self.simp(st, o)
        if o.op == 'mod':
            r = self.prog.resolve(o.args[0], name) if o.args[0] in self.prog.modules else None
            if r is not None:
                return self.from_resolved(r, st)
            return self.ext_attr(o.args[0] + '.' + name)
        if o.op == 'ext':
            return self.ext_attr(o.args[0] + '.' + name)
        if o.op == 'class':
            ci = self.cls_by_qual(o.args[0])
            if self.prog.is_enum(ci) and name in ci.consts:
                return mk('enum', ci.name, name)
            a = self.class_attr(ci, name)
            if a is None:
                return mk('attr', o, name)
            if a[0] == 'method':
                q = a[1].qual + '.' + name
                self.closures[q] = (a[2], None, a[1].module, a[1])
                return mk('func', q)
            self.frames.append(Frame(a[1].module, a[1], a[1].name))
            try:
                return self.ev(a[2], State())
            finally:
                self.frames.pop()
        if o.op == 'ite':
            c, a, b = o.args
            x, y = self.getattr(a, name, st, node), self.getattr(b, name, st, node)
            if x.op == 'bound' and y.op == 'bound':
                return mk('bounds', c, x, y)
            if x.op == 'bounds' or y.op == 'bounds':
                return mk('bounds', c, x, y)
            return self.gite(c, x, y)
        if o.op == 'call' and o.args[0] == 'super':
            pass
        if o.op == 'new' and KIND.get(o.args[0]) == 'obj' or o.op not in ('new',) and self.class_of(o) is not None:
            v = self.hget(st, o, name)
            if v is not None:
                return v
            ci = self.class_of(o)
            if ci is not None:
                a = self.class_attr(ci, name)
                if a is not None and a[0] == 'method':
                    decos = [ast.unparse(d) for d in a[2].decorator_list]
                    b = self.bound(o, a[1], name)
                    if 'property' in decos:
                        return self.call(b, [], {}, node, st)
                    if 'staticmethod' in decos:
                        return b.args[1]
                    return b
                if a is not None and a[0] == 'const':
                    cexp = a[2]
                    if isinstance(cexp, ast.Call) and isinstance(cexp.func, ast.Name) and cexp.func.id == 'property':
                        for kw in cexp.keywords:
                            if kw.arg == 'fget':
                                self.frames.append(Frame(a[1].module, a[1], a[1].name + '.' + name))
                                try:
                                    f = self.mk_closure(kw.value, State())
                                finally:
                                    self.frames.pop()
                                return self.call(f, [o], {}, cexp, st)
            v = self.dom.attr_value(o, name)
            if v is not None:
                return v
            if name == '__dict__':
                return mk('objdict', o)
            if o.op == 'new' and ci is not None and a is not None and a[0] == 'const':
                self.frames.append(Frame(a[1].module, a[1], a[1].name))
                try:
                    return self.ev(a[2], State())
                finally:
                    self.frames.pop()
            return mk('attr', o, name)
        v = self.hget(st, o, name) if o.op in ('new', 'attr', 'param', 'index', 'call') else None
        if v is not None:
            return v
        if name == 'shape':
            return mk('shape', self.V(st, o))
        if name == 'size':
            return length(self.V(st, o))
        if name == 'T':
            return transpose(self.V(st, o))
        if name in METHODS:
            return mk('meth', o, name)
        v = self.dom.attr_value(o, name)
        if v is not None:
            return v
        return mk('attr', o, name)
    def ext_attr(self, dotted):
        d = norm_ext(dotted)
        if d in EXT_CONST:
            return EXT_CONST[d]
        return mk('ext', d)

    # subscripts
    def ev_index(self, e, st):
        if isinstance(e, ast.Slice):
            f = lambda x: NONE if x is None else self.V(st, self.ev(x, st))
            if e.step is not None:
                return mk('sl', f(e.lower), f(e.upper), f(e.step))
            lo, hi = f(e.lower), f(e.upper)
            if lo is NONE:
                lo = ZERO
            return mk('sl', lo, hi)
        if isinstance(e, ast.Tuple):
            return mk('tuple', *[self.ev_index(x, st) for x in e.elts])
        v = self.V(st, self.ev(e, st))
        if v.op == 'slice':
            return mk('sl', *v.args)
        return v
    def e_Slice(self, e, st):
        return self.ev_index(e, st)
    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        r = self.getitem(o, self.ev_index(e.slice, st), st)
        self.note(r, e)
        return r
    def getitem(self, o, i, st):
        if o.op == 'class' or o.op == 'ext' or o.op == 'builtin':
            return o
        v = self.V(st, o)
        i = self.V(st, i)
        if i.op == 'slice':
            i = mk('sl', *i.args)
        if v.op == 'dict':
            fac = self.hget(st, o, '#factory') if o.op == 'new' else None
            if fac is not None and all(k is not i for k, _ in v.args[0]):
                if i.op != 'str' or any(k.op != 'str' for k, _ in v.args[0]):
                    raise Undecided('computed key of a defaultdict')
                x = self.boxed(self.call(fac, [], {}, None, st), st)
                self.hset(st, o, '[]', dict_set(v, i, x))
                return x
            return dict_get(self, v, i, st)
        if o.op == 'ite' and self.kind_of(o) is None and v is o and i.op not in ('ite',):
            pass
        if i.op == 'sl' and self.kind_of(o) == 'list' and i.args[0] is ZERO and i.args[1] is NONE:
            return v      # copy (boxed on binding)
        if v.op == 'shape':
            k = cint(i)
            if k == 0:
                return length(v.args[0])
            if k == 1:
                return ncols(v.args[0])
        return index(v, self.reify(st, i))

    # calls
    def e_Call(self, e, st):
        self.stats['calls'] += 1
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return mk('call', 'super')
        f = self.ev(e.func, st)
        args = self.evs(e.args, st)
        if any(a.op == 'star' for a in args):
            na = []
            for a in args:
                if a.op == 'star' and a.args[0].op == 'list' and all(s.op == 'el' for s in a.args[0].args):
                    na.extend(s.args[0] for s in a.args[0].args)
                else:
                    na.append(a)
            args = na
        kwargs = {}
        for kw in e.keywords:
            if kw.arg is None:
                d = self.V(st, self.ev(kw.value, st))
                if d.op != 'dict':
                    raise Undecided('**kwargs of unknown dict')
                for k, v in d.args[0]:
                    kwargs[k.args[0]] = v
            else:
                kwargs[kw.arg] = self.ev(kw.value, st)
        self.cur = e
        r = self.call(f, args, kwargs, e, st)
        self.note(r, e)
        return r

    def call(self, f, args, kwargs, node, st):
        if f.op == 'ite':
            f = self.simp(st, f)
        if f.op == 'bounds':
            c = self.simp(st, f.args[0])
            if c is TRUE or c is FALSE:
                return self.call(f.args[1] if c is TRUE else f.args[2], args, kwargs, node, st)
        op = f.op
        if op == 'bounds':
            c = f.args[0]
            out = {}
            def f1(q): out[1] = self.call(f.args[1], args, kwargs, node, q)
            def f2(q): out[2] = self.call(f.args[2], args, kwargs, node, q)
            self.branch(c, f1, f2, st)
            return self.gite(c, out[1], out[2])
        if op == 'ite':
            out = {}
            def f1(q): out[1] = self.call(f.args[1], args, kwargs, node, q)
            def f2(q): out[2] = self.call(f.args[2], args, kwargs, node, q)
            self.branch(f.args[0], f1, f2, st)
            return self.gite(f.args[0], out[1], out[2])
        if op == 'bound':
            return self.call_func(f.args[1].args[0], [f.args[0]] + args, kwargs, node, st)
        if op == 'func':
            return self.call_func(f.args[0], args, kwargs, node, st)
        if op == 'class':
            return self.instantiate(self.cls_by_qual(f.args[0]), args, kwargs, node, st)
        if op == 'meth':
            return self.method(f.args[0], f.args[1], args, kwargs, node, st)
        if op == 'partial':
            return self.call(f.args[0], list(f.args[1]) + args, {**dict(f.args[2]), **kwargs}, node, st)
        if op == 'ext':
            return self.external(f.args[0], args, kwargs, node, st)
        if op == 'builtin':
            return self.external('builtins.' + f.args[0], args, kwargs, node, st)
        if op == 'casfun':
            return self.apply_casfun(f, args, kwargs, st)
        r = self.dom.call(self, st, f, args, kwargs, node)
        if r is not None:
            return r
        rargs = [self.reify(st, self.V(st, a)) for a in args]
        kw = tuple((mk('kw', k, self.reify(st, self.V(st, v)))) for k, v in sorted(kwargs.items()))
        self.stats['opaque'].add(show(f)[:60])
        return mk('call', f, *rargs, *kw)

    def apply_casfun(self, f, args, kwargs, st):
        name, ins, outs = f.args[0], f.args[1], f.args[2]
        rargs = [self.reify(st, self.V(st, a)) for a in args]
        if len(outs) == 1 and len(rargs) == len(ins) and all(i.op == 'sym' for i in ins):
            m = {}
            for i, a in zip(ins, rargs):
                if length(i) is ONE and isvec(a) is None:
                    pass
                m[i] = a
            return subst(outs[0], m)
        return mk('call', f, *rargs, *[mk('kw', k, self.reify(st, self.V(st, v))) for k, v in sorted(kwargs.items())])

    def bindargs(self, node, args, kwargs, st, defenv):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        for i, n in enumerate(names):
            if i < len(args):
                env[n] = args[i]
        if len(args) > len(names):
            if a.vararg is None:
                raise Undecided(f'too many arguments for {getattr(node, "name", "lambda")}')
            env[a.vararg.arg] = mk('tuple', *args[len(names):])
        elif a.vararg is not None:
            env[a.vararg.arg] = mk('tuple')
        rest = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg is not None:
            d = mk('dict', ())
            for k, v in rest.items():
                d = dict_set(d, string(k), v)
            env[a.kwarg.arg] = self.box(st, 'dict', d)
        elif rest:
            raise Undecided(f'unexpected keyword {list(rest)}')
        defs = a.defaults
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n not in env:
                env[n] = ('def', d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = ('def', d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                raise Undecided(f'missing argument {n} for {getattr(node, "name", "lambda")}')
        return env

    def call_func(self, q, args, kwargs, node, st):
        fnode, cenv, module, cls = self.closures[q]
        if any(a.op == 'star' for a in args):
            raise Undecided('star arguments')
        qual = q if isinstance(q, str) else f'{module.name if module else ""}:<local {getattr(fnode, "name", "lambda")}>'
        prim = self.primitives.get(qual)
        if prim is not None:
            r = prim(self, st, args, kwargs, node)
            if r is not NotImplemented:
                return r
        nrec = sum(s[0] == q for s in self.stack)
        if nrec and nrec < 7 and any(cint(a) is not None for a in list(args) + list(kwargs.values()) if isinstance(a, T)):
            nrec = 0        # recursion over a constant depth
        if qual in self.opaque_funcs or nrec:
            return mk('call', mk('ext', qual), *[self.reify(st, self.V(st, a)) for a in args],
                      *[mk('kw', k, self.reify(st, self.V(st, v))) for k, v in sorted(kwargs.items())])
        if len(self.stack) > self.maxdepth:
            raise Undecided('call depth')
        args = [self.boxed(a, st) for a in args]
        kwargs = {k: self.boxed(v, st) for k, v in kwargs.items()}
        env = self.bindargs(fnode, args, kwargs, st, cenv)
        self.stats['functions'].add(qual)
        fr = Frame(module, cls, qual, cenv)
        s = State()
        s.heap, s.facts, s.binders, s.pc = st.heap, st.facts, st.binders, st.pc
        self.frames.append(fr)
        self.stack.append((q, node))
        try:
            for k, v in list(env.items()):
                if isinstance(v, tuple):
                    env[k] = self.boxed(self.ev(v[1], s), s)
            s.env = env
            if isinstance(fnode, ast.Lambda):
                r = self.ev(fnode.body, s)
                st.heap = s.heap
                return r
            for n in ast.walk(fnode):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    raise Undecided('generator function')
            self.block(fnode.body, s)
        finally:
            self.frames.pop()
            self.stack.pop()
        st.heap = s.heap
        # facts established by the callee (checks that raise) remain valid
        st.facts = s.facts
        if s.dead:
            st.dead = True
            return NONE
        if s.ret is TRUE:
            return s.retval
        if s.ret is FALSE:
            return NONE
        if s.retval is NONE:
            return NONE
        return self.gite(s.ret, s.retval, NONE)

    def instantiate(self, ci, args, kwargs, node, st):
        if self.prog.is_enum(ci):
            return mk('call', mk('class', ci.qual), *args)
        prim = self.primitives.get('new:' + ci.name)
        if prim is not None:
            r = prim(self, st, args, kwargs, node)
            if r is not NotImplemented:
                return r
        o = self.alloc(st, 'obj', ci, ci.name)
        for c in self.prog.mro(ci):
            if '__init__' in c.methods:
                b = self.bound(o, c, '__init__')
                self.call(b, args, kwargs, node, st)
                return o
        if any('dataclass' in d for d in ci.decorators):
            fields = list(ci.anns)
            vals = dict(zip(fields, args))
            vals.update(kwargs)
            for f in fields:
                if f in vals:
                    self.hset(st, o, f, self.boxed(vals[f], st))
                elif f in ci.consts:
                    self.frames.append(Frame(ci.module, ci, ci.name))
                    try:
                        d = ci.consts[f]
                        v = self.ev(d, st) if not (isinstance(d, ast.Call) and ast.unparse(d.func).endswith('field')) else None
                        if v is None:
                            for kw in d.keywords:
                                if kw.arg == 'default_factory':
                                    v = self.call(self.ev(kw.value, st), [], {}, d, st)
                        self.hset(st, o, f, self.boxed(v, st))
                    finally:
                        self.frames.pop()
        return o

    def log(self, st, ev):
        a = mk('param', 'LOG')
        cur = self.hget(st, a, '[]')
        if cur is None:
            cur = EMPTY_LIST
        self.hset(st, a, '[]', concat('list', cur, seq('list', [el(ev)])))
        self.note(ev, self.cur)

    # method calls on values are in externals.py
    def method(self, o, name, args, kwargs, node, st):
        r = self.dom.method(self, o, name, args, kwargs, node, st)
        if r is not None:
            return r
        from .externals import method
        return method(self, o, name, args, kwargs, node, st)
    def external(self, name, args, kwargs, node, st):
        from .externals import external
        return external(self, norm_ext(name), args, kwargs, node, st)

# ---------------------------------------------------------------- helpers
def bp2(p):
    """truth of a 0/1 flag term"""
    if p.op == 'zero':
        return FALSE
    if p.op == 'one':
        return TRUE
    if p.op == 'ite':
        return ite(p.args[0], bp2(p.args[1]), bp2(p.args[2]))
    return mk('bcall', 'flag', p)
REBUILD['bcall'] = lambda n, *a: (truth(*a) if n == 'truth' else bp2(*a) if n == 'flag' else mk('bcall', n, *a))

def isbool_t(t):
    return isbool(t) or (t.op == 'ite' and isbool_t(t.args[1]) and isbool_t(t.args[2]))

def walk(t, f, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    f(t)
    for a in subterms(t):
        walk(a, f, seen)

walk_ordered = walk

def prune(ents):
    out, seen = [], set()
    for e in ents:
        formals, pat, dom, term = e
        sig = []
        for a in pat:
            if a in formals:
                d = dom.get(a)
                sig.append(('F', d))
            else:
                sig.append(a)
        sig = tuple(sig)
        if sig in seen:
            continue
        seen.add(sig)
        out.append(e)
    return tuple(out)

def push_ite(it, n, p):
    """c ? p+x : p+y  ->  p + (c ? x : y)"""
    if n.op != 'ite':
        return n
    c, a, b = n.args
    a, b = push_ite(it, a, p), push_ite(it, b, p)
    da, db = pdict(a), pdict(b)
    k = ((p, 1),)
    if da.get(k) == 1 and db.get(k) == 1:
        return add(p, ite(c, sub(a, p), sub(b, p)))
    from .terms import _poly
    if len(da) == 1 and len(db) == 1:
        (ma, ka), (mb, kb) = list(da.items())[0], list(db.items())[0]
        if dict(ma).get(p) == 1 and dict(mb).get(p) == 1:
            ta = _poly({tuple(x for x in ma if x[0] is not p): ka})
            tb = _poly({tuple(x for x in mb if x[0] is not p): kb})
            return mul(p, ite(c, ta, tb))
    return n

def mkfold(k, lo, hi, inits, nexts, fps):
    if lo is hi:
        return inits[0]
    return mk_fold(k, lo, hi, inits, nexts, fps)

def mk_fold(b, lo, hi, inits, nexts, fps):
    h = max([0] + [x.height for x in nexts + inits])
    bv = mk('bv', h + 1)
    while any(bv in x.fv for x in nexts):
        h += 1
        bv = mk('bv', h + 1)
    if b is not bv:
        nexts = tuple(subst(x, {b: bv}) for x in nexts)
    return mk('fold', bv, lo, hi, inits, nexts, fps)

def _rb_fold(b, lo, hi, inits, nexts, fps):
    if lo is hi:
        return inits[0]
    # re-canonicalise the placeholders
    h = max([0] + [x.height for x in nexts + inits])
    nf = tuple(mk('phi', -(h + 1), f'f{j}') for j in range(len(fps)))
    if nf != fps:
        m = dict(zip(fps, nf))
        nexts = tuple(subst(x, m) for x in nexts)
    return mk_fold(b, lo, hi, inits, nexts, nf)
REBUILD['fold'] = _rb_fold

def percent(s, args):
    """'...%s...' % args"""
    out, k = [], 0
    import re
    for x in re.split(r'(%[sd]|%%)', s):
        if x in ('%s', '%d'):
            if k >= len(args):
                raise Undecided('text formatting')
            out.append(args[k]); k += 1
        elif '%' in x.replace('%%', ''):
            return mk('fstr', string(s), *args)
        else:
            out.append(string(x.replace('%%', '%')))
    return TT.fstr(*out)

def braces(s, args):
    """'...{}...'.format(args)"""
    out, k = [], 0
    import re
    for x in re.split(r'(\{\d*\})', s):
        if re.fullmatch(r'\{\d*\}', x):
            j = int(x[1:-1]) if len(x) > 2 else k
            k += 1
            if j >= len(args):
                raise Undecided('text formatting')
            out.append(args[j])
        elif '{' in x or '}' in x:
            return mk('fstr', string(s), *args)
        else:
            out.append(string(x))
    return TT.fstr(*out)

def _len_fold(t):
    # elementwise updates keep the length
    if t.op == 'fold':
        n, p = t.args[4][0], t.args[5][0]
        while n.op == 'store':
            n = n.args[0]
        if n is p:
            return length(t.args[3][0])
    return None
LEN_HOOKS.append(_len_fold)

def merge_dict(it, c, a, b):
    da, db = list(a.args[0]), list(b.args[0])
    ka, kb = [k for k, _ in da], [k for k, _ in db]
    xa, xb = dict(da), dict(db)
    out = []
    for k in ka + [k for k in kb if k not in ka]:
        x, y = xa.get(k), xb.get(k)
        if x is None:
            x = mk('absent')
        if y is None:
            y = mk('absent')
        out.append((k, x if x is y else ite(c, x, y)))
    return mk('dict', tuple(out))

def dict_set(d, k, v):
    items = list(d.args[0])
    for i, (kk, _) in enumerate(items):
        if kk is k:
            items[i] = (k, v)
            return mk('dict', tuple(items))
    items.append((k, v))
    return mk('dict', tuple(items))

def dict_get(it, d, k, st):
    for kk, v in d.args[0]:
        if kk is k:
            return v
    if k.op == 'ite':
        return it.gite(k.args[0], dict_get(it, d, k.args[1], st), dict_get(it, d, k.args[2], st))
    if k.op in CONSTLIKE or const(k) is not None:
        if all(kk.op in CONSTLIKE or const(kk) is not None for kk, _ in d.args[0]):
            return mk('call', 'keyerror', k)
    r = mk('call', 'keyerror', k)
    for kk, v in reversed(d.args[0]):
        r = it.gite(it.eqv(k, kk, st), v, r)
    return r

def ncols(v):
    if v.op in ('fill', 'col'):
        return ONE
    if v.op == 'call' and v.args[0] == 'zeros2':
        return v.args[2]
    return mk('call', 'ncols', v)

def transpose(v):
    if v.op == 'call' and v.args[0] == 'T':
        return v.args[1]
    return mk('call', 'T', v)
REBUILD['call'] = lambda f, *a: (rebuild_call(f, *a))

def rebuild_call(f, *a):
    if isinstance(f, str):
        if f == 'T' and len(a) == 1:
            return transpose(*a)
        if f == 'mtimes':
            return matmul(*a)
        if f == 'ncols':
            return ncols(*a)
        if f == 'flatten':
            return flat_pure(a[0])
        if f == 'incr':
            from .prims import inc
            return inc(*a)
    return mk('call', f, *a)

def flat_pure(v):
    """flatten of a value that contains no addresses"""
    if v.op == 'list':
        segs = []
        for s in v.args:
            segs.extend(_flat_seg(s))
        return seq('list', segs)
    if v.op == 'range':
        return v
    if v.op == 'fill':
        return v
    return mk('call', 'flatten', v)

def _flat_seg(s):
    if s.op == 'el':
        x = s.args[0]
        if x.op == 'list':
            return list(flat_pure(x).args)
        if isvec(x) is False or x.op == 'new':
            return [s]
        return [spread(flat_pure(x))]
    if s.op == 'spread':
        if s.args[0].op == 'range':
            return [s]
        return [spread(flat_pure(s.args[0]))]
    if s.op == 'rep':
        bv, lo, hi, body = s.args
        b = binder(lo, hi)
        return [mrep(b, lo, hi, flat_pure(subst(body, {bv: b})))]
    if s.op == 'opt':
        return [opt(s.args[0], flat_pure(s.args[1]))]
    return [s]

def matmul(a, b):
    if a.op == 'diag':
        return mul(a.args[0], b)
    if b.op == 'diag':
        return mul(a, b.args[0])
    if a.op == 'poly' and len(a.args[0]) == 1:
        (m, c), = a.args[0]
        if c != 1:
            from .terms import _poly
            return mul(num(c), matmul(_poly({m: 1}), b))
    if a.op == 'call' and a.args[0] == 'T' and not (b.op == 'call' and b.args[0] == 'T'):
        x, y = a.args[1], b
        if x.op in ('poly', 'fill', 'col') or True:
            return mk('call', 'vdot', *sorted((x, y)))
    return mk('call', 'mtimes', a, b)

# ---------------------------------------------------------------- stores
def _intervals(base):
    """[(length, function of the position within the interval)] of a sequence, or None"""
    if base.op == 'fill':
        v = base.args[0]
        return [(base.args[1], lambda j: v)] if isvec(v) is False else None
    if base.op not in ('list', 'col'):
        return None
    out = []
    for s in base.args:
        if s.op == 'el':
            if base.op == 'col' and isvec(s.args[0]) is not False:
                return None
            out.append((ONE, lambda j, x=s.args[0]: x))
        elif s.op == 'rep':
            bv, lo, hi, body = s.args
            if len(body.args) != 1 or body.args[0].op != 'el' or not nonneg(sub(hi, lo)):
                return None
            if base.op == 'col' and isvec(body.args[0].args[0]) is not False:
                return None
            out.append((sub(hi, lo), lambda j, bv=bv, lo=lo, x=body.args[0].args[0]: subst(x, {bv: add(lo, j)})))
        else:
            return None
    return out

def _write_ranges(s):
    """[(first position, count, function of the offset)] of one write segment, or None"""
    if s.op == 'el':
        wr = s.args[0]
        i = wr.args[0]
        if i.op in ('sl', 'tuple') or isvec(i) or i.op in ('list', 'col', 'range'):
            return None
        return [(i, ONE, lambda j: wr.args[1])]
    if s.op != 'rep':
        return None
    bv, lo, hi, body = s.args
    if not nonneg(sub(hi, lo)):
        return None
    out = []
    for x in body.args:
        if x.op != 'el':
            return None
        wr = x.args[0]
        if wr.args[0].op in ('sl', 'tuple', 'list', 'col', 'range'):
            return None
        off = sub(wr.args[0], bv)
        if bv in off.fv or not isint(off):
            return None
        out.append((add(lo, off), sub(hi, lo), lambda j, v=wr.args[1]: subst(v, {bv: add(lo, j)})))
    for a in range(len(out)):
        for b in range(a):
            pa, pb, n = out[a][0], out[b][0], out[a][1]
            if not (pa is pb or nonneg(sub(pa, add(pb, n))) or nonneg(sub(pb, add(pa, n)))):
                return None
    return out

def _apply_writes(base, segs):
    if not (base.op == 'fill' or base.op in ('list', 'col')):
        return None
    if not segs or _write_ranges(segs[0]) is None:
        return None
    iv = _intervals(base)
    if iv is None:
        return None
    total = ZERO
    for n, f in iv:
        total = add(total, n)
    def cut(iv, pos):
        """(iv', k): iv'[k] starts at pos"""
        at = ZERO
        for k, (n, f) in enumerate(iv):
            if at is pos:
                return iv, k
            o = sub(pos, at)
            if n is not ONE and o is not n and nonneg(o) and nonneg(sub(n, o)):
                return iv[:k] + [(o, f), (sub(n, o), lambda j, f=f, o=o: f(add(o, j)))] + iv[k + 1:], k + 1
            at = add(at, n)
        return (iv, len(iv)) if at is pos else None
    done = 0
    for s in segs:
        ws = _write_ranges(s)
        if ws is None:
            break
        cur = iv
        for first, n, f in ws:
            c0 = cint(first)
            if n is ONE and c0 is not None and c0 < 0:
                first = add(total, first)
                if not nonneg(first):
                    cur = None
                    break
            r = cut(cur, first)
            if r is None:
                cur = None
                break
            cur, a = r
            r = cut(cur, add(first, n))
            if r is None:
                cur = None
                break
            cur2, e = r
            if e < a:
                cur = None
                break
            # a stays valid: cutting at a later position never moves it
            cur = cur2[:a] + [(n, f)] + cur2[e:]
        if cur is None:
            break
        iv = cur
        done += 1
    if not done:
        return None
    kind = 'list' if base.op == 'list' else 'col'
    out = []
    for n, f in iv:
        if n is ZERO:
            continue
        if n is ONE:
            out.append(el(f(ZERO)))
        else:
            b = binder(ZERO, n)
            out.append(mrep(b, ZERO, n, mk(kind, el(f(b)))))
    return seq(kind, out), segs[done:]

def mk_store(base, log):
    if not log.args:
        return base
    if base.op == 'store':
        return mk_store(base.args[0], concat('list', base.args[1], log))
    segs = list(log.args)
    r = _apply_writes(base, segs)
    if r is not None:
        base, segs = r
        if not segs:
            return base
    # explicit writes to explicit lists
    while segs and segs[0].op == 'el' and base.op in ('list', 'col'):
        wr = segs[0].args[0]
        k = cint(wr.args[0])
        if k is None or not all(s.op == 'el' for s in base.args) or not (-len(base.args) <= k < len(base.args)):
            break
        l = list(base.args)
        l[k] = el(wr.args[1])
        base = mk(base.op, *l)
        segs.pop(0)
    if not segs:
        return base
    # full slice assignment
    last = segs[-1]
    if last.op == 'el' and last.args[0].args[0].op == 'sl':
        i = last.args[0].args[0]
        if i.args[0] is ZERO and i.args[1] is NONE and len(i.args) == 2:
            v = last.args[0].args[1]
            return v if isvec(v) is not False else fill(v, length(base))
    # overwritten writes
    out = []
    for s in segs:
        if s.op == 'el' and out and out[-1].op == 'el' and out[-1].args[0].args[0] is s.args[0].args[0]:
            out[-1] = s
        else:
            out.append(s)
    segs = out
    # a repetition that writes every element
    if len(segs) == 1 and segs[0].op == 'rep':
        bv, lo, hi, body = segs[0].args
        if len(body.args) == 1 and body.args[0].op == 'el' and lo is ZERO and hi is length(base):
            wr = body.args[0].args[0]
            if wr.args[0] is bv:
                b = binder(lo, hi)
                v = subst(wr.args[1], {bv: b})
                kind = 'list' if base.op == 'list' else 'col'
                return seq(kind, [mrep(b, lo, hi, mk(kind, el(v)))])
    # writes at the last position of a one-element-longer list
    if base.op in ('list', 'col') and base.args and segs and segs[0].op == 'el':
        wr = segs[0].args[0]
        if cint(wr.args[0]) == -1 and base.args[-1].op == 'el':
            return mk_store(mk(base.op, *(base.args[:-1] + (el(wr.args[1]),))), seq('list', segs[1:]))
    return mk('store', base, seq('list', segs))
REBUILD['store'] = mk_store
REBUILD['opt'] = opt
REBUILD['diag'] = lambda x: mk('diag', x)
REBUILD['dict'] = lambda items: mk('dict', tuple((k, v) for k, v in items if v.op != 'absent'))
REBUILD['index'] = lambda b, i: index(b, i)

def _opt_atom(t):
    """first atomic condition guarding a top-level part of a sequence"""
    if t.op in ('list', 'col'):
        for s in t.args:
            if s.op == 'opt':
                c = s.args[0]
                while c.op == 'ite':
                    c = c.args[0]
                return c.args[0] if c.op == 'not' else c
    return None

def _restrict(t, lit):
    from .terms import assume
    if t.op in ('list', 'col'):
        return seq(t.op, [opt(assume(s.args[0], lit), s.args[1]) if s.op == 'opt' else s for s in t.args])
    return assume(t, lit)

def index(base, i):
    if i.op in ('b', 'bv') and base.op == 'col' and base.args and base.args[0].op == 'rep':
        body = base.args[0].args[3]
        if any(x.op == 'rep' for x in body.args):
            return mk('index', base, i)     # any position of nested blocks: nothing to locate
    at = _opt_atom(base)
    if at is None:
        at = _opt_atom(i)
    if at is not None:
        r = _index(base, i)
        if r.op != 'index' or r.args[0] is not base:
            return r
        n = mnot(at)
        return ite(at, index(_restrict(base, at), _restrict(i, at)), index(_restrict(base, n), _restrict(i, n)))
    return _index(base, i)

def _index(base, i):
    o = base.op
    if o == 'ite':
        return ite(base.args[0], index(base.args[1], i), index(base.args[2], i))
    if i.op == 'ite' and o in ('list', 'col', 'range', 'tuple', 'store'):
        return ite(i.args[0], index(base, i.args[1]), index(base, i.args[2]))
    if i.op == 'tuple':
        if len(i.args) == 2 and all(x.op != 'sl' for x in i.args) :
            if o == 'store':
                r = _store_read(base, i)
                if r is not None:
                    return r
            return mk('index', base, i)
        if o == 'store':
            r = _store_read(base, i)
            if r is not None:
                return r
        # m[i, :] is m[i]
        if len(i.args) == 2 and i.args[1].op == 'sl' and i.args[1].args[0] is ZERO and i.args[1].args[1] is NONE and i.args[0].op != 'sl':
            return index(base, i.args[0])
        return mk('index', base, i)
    if o == 'tuple':
        k = cint(i)
        if k is not None and -len(base.args) <= k < len(base.args):
            return base.args[k]
        if i.op == 'sl':
            lo, hi = cint(i.args[0]), (None if i.args[1] is NONE else cint(i.args[1]))
            if lo is not None and (i.args[1] is NONE or hi is not None):
                return mk('tuple', *base.args[lo:hi])
    if o == 'fill':
        if i.op == 'sl':
            return fill(base.args[0], slice_len(base.args[1], i))
        if isvec(i) is True or i.op in ('range', 'list', 'col'):
            return fill(base.args[0], length(i))
        return base.args[0]
    if o == 'range':
        lo, hi = base.args
        if i.op == 'sl':
            a, e = i.args[0], i.args[1]
            if cint(a) is not None and cint(a) >= 0 and (e is NONE):
                return mk_range(add(lo, a), hi)
            return mk('index', base, i)
        k = cint(i)
        if k is not None and k < 0:
            return add(hi, i)
        return add(lo, i)
    if i.op in ('list', 'col'):
        # gather: element by element
        return seq('col', [_gather(base, s) for s in i.args])
    if o in ('list', 'col'):
        r = _seq_index(base, i)
        if r is not None:
            return r
    if o == 'store':
        r = _store_read(base, i)
        if r is not None:
            return r
    if i.op == 'sl' and i.args[0] is ZERO and i.args[1] is NONE and len(i.args) == 2:
        return base
    if o in ('sum',) and i.op != 'sl' and isvec(i) is False:
        pass
    if o == 'index' and base.args[1].op in ('range',) and isvec(i) is False and cint(i) is not None and cint(i) >= 0:
        return index(base.args[0], add(base.args[1].args[0], i))
    if o == 'shape':
        k = cint(i)
        if k == 0:
            return length(base.args[0])
        if k == 1:
            return ncols(base.args[0])
    return mk('index', base, i)

def _gather(base, s):
    if s.op in ('el', 'spread'):
        return mk(s.op, index(base, s.args[0]))
    if s.op == 'opt':
        return opt(s.args[0], seq('col', [_gather(base, x) for x in s.args[1].args]))
    if s.op == 'rep':
        bv, lo, hi, body = s.args
        b = binder(lo, hi)
        return mrep(b, lo, hi, seq('col', [_gather(base, x) for x in subst(body, {bv: b}).args]))
    raise AssertionError(s.op)

_loc_memo = {}
def locate(segs, want, n, depth=0):
    key = (segs, want, n)
    if key in _loc_memo:
        return _loc_memo[key]
    r = _locate(tuple(segs), want, n, depth)
    _loc_memo[key] = r
    return r

def _locate(segs, want, n, depth):
    """segments making up entries want .. want+n of a concatenation (None: unknown)"""
    from .terms import _seglen
    if n is ZERO:
        return []
    off = ZERO
    for k, s in enumerate(segs):
        l = _seglen(s)
        if off is want:
            got, rem, j = [], n, k
            while rem is not ZERO and j < len(segs):
                lj = _seglen(segs[j])
                nr = sub(rem, lj)
                if nr is ZERO or (nonneg(nr) and const(nr) != 0):
                    got.append(segs[j]); rem = nr; j += 1
                elif segs[j].op == 'rep' or segs[j].op == 'opt' or segs[j].op == 'spread':
                    break
                else:
                    break
            if rem is ZERO:
                return got
        d = sub(want, off)
        if s.op == 'rep' and depth < 6:
            bv, lo, hi, body = s.args
            lb = length(body)
            for K in _cands(d, lo, hi):
                b = binder(lo, K)
                pre = msum(b, lo, K, subst(lb, {bv: b}))
                inner = subst(body, {bv: K})
                r = locate(segs_of(inner), sub(d, pre), n, depth + 1)
                if r is not None:
                    return r
        elif s.op == 'opt' and len(segs) == 1:
            r = locate(segs_of(s.args[1]), d, n, depth + 1)
            if r is not None:
                return [opt(s.args[0], seq('col', r))]
        elif s.op == 'spread' and s.args[0].op != 'ite':
            # a proper part of a block
            if d is not ZERO or True:
                if nonneg(d) and nonneg(sub(sub(l, d), n)) and (l is not n):
                    if n is ONE:
                        return [el(index(s.args[0], d))]
                    return [spread(index(s.args[0], mk_range(d, add(d, n))))]
        off = add(off, l)
    return None

def _cands(d, lo, hi):
    out = []
    def put(x):
        if x not in out:
            out.append(x)
    for b in sorted((x for x in d.fv if x.op in ('b', 'bv')), key=lambda x: x.id):
        put(b)
    def coll(t):
        if t.op == 'sum' and not any(x.op == 'bv' and x not in d.fv for x in t.args[2].fv):
            put(t.args[2])
            put(sub(t.args[2], ONE))
    walk(d, coll)
    for b in list(out):
        if b.op in ('b', 'bv'):
            put(sub(b, ONE))
    if cint(d) is not None:
        put(lo)
    put(sub(hi, ONE))
    put(lo)
    return out

def mk_range(lo, hi):
    return mk('range', lo, hi)

def slice_len(n, sl):
    lo, hi = sl.args[0], sl.args[1]
    if hi is NONE:
        hi = n
    elif cint(hi) is not None and cint(hi) < 0:
        hi = add(n, hi)
    return sub(hi, lo)

def _seq_index(base, i):
    segs = base.args
    k = cint(i)
    if k is not None:
        order = segs if k >= 0 else tuple(reversed(segs))
        pos = k if k >= 0 else -k - 1
        for n, s in enumerate(order):
            if s.op == 'el':
                if pos == 0:
                    return s.args[0]
                pos -= 1
                continue
            if s.op == 'rep':
                bv, lo, hi, body = s.args
                if len(body.args) == 1 and body.args[0].op == 'el':
                    m = sub(hi, lo)
                    inside = nonneg(sub(m, num(pos + 1))) or n == len(order) - 1
                    if inside:
                        at = add(lo, num(pos)) if k >= 0 else sub(sub(hi, ONE), num(pos))
                        return subst(body.args[0].args[0], {bv: at})
                    if pos == 0 and n + 1 < len(order):
                        at = lo if k >= 0 else sub(hi, ONE)
                        rest = seq(base.op, list(order[n + 1:]) if k >= 0 else list(reversed(order[n + 1:])))
                        return ite(lt(lo, hi), subst(body.args[0].args[0], {bv: at}), index(rest, num(0) if k >= 0 else num(-1)))
                return None
            if s.op == 'spread':
                v = s.args[0]
                if n == len(order) - 1:
                    return index(v, num(pos) if k >= 0 else num(-pos - 1))
                if isvec(v) is False:
                    if pos == 0:
                        return v
                    pos -= 1
                    continue
                l = length(v)
                if nonneg(sub(l, num(pos + 1))):
                    return index(v, num(pos) if k >= 0 else num(-pos - 1))
                return None
            if s.op == 'opt':
                l = cint(length(s.args[1]))
                if l is not None and pos < l:
                    rest = seq(base.op, list(order[n + 1:]) if k >= 0 else list(reversed(order[n + 1:])))
                    a = index(s.args[1], num(pos) if k >= 0 else num(-pos - 1))
                    b = index(rest, num(pos) if k >= 0 else num(-pos - 1))
                    return ite(s.args[0], a, b)
                return None
        return None
    if i.op == 'sl' and len(i.args) == 2:
        lo, hi = i.args
        cl = cint(lo)
        ch = None if hi is NONE else cint(hi)
        if cl is not None and cl >= 0 and (hi is NONE or (ch is not None and ch < 0)):
            segs = list(segs)
            drop = cl
            while drop and segs:
                s = segs[0]
                if s.op == 'el':
                    segs.pop(0); drop -= 1
                elif s.op == 'rep' and len(s.args[3].args) == 1 and s.args[3].args[0].op == 'el':
                    bv, a, b, body = s.args
                    segs[0] = mk('rep', bv, add(a, ONE), b, body)
                    drop -= 1
                else:
                    return None
            drop = 0 if hi is NONE else -ch
            while drop and segs:
                s = segs[-1]
                if s.op == 'el':
                    segs.pop(); drop -= 1
                elif s.op == 'rep' and len(s.args[3].args) == 1 and s.args[3].args[0].op == 'el':
                    bv, a, b, body = s.args
                    segs[-1] = mk('rep', bv, a, sub(b, ONE), body)
                    drop -= 1
                else:
                    return None
            return seq(base.op, segs)
        return None
    if i.op == 'range':
        r = locate(segs, i.args[0], length(i))
        if r is None:
            return None
        return seq(base.op, r)
    if isvec(i) is False or i.op in ('b', 'bv', 'poly', 'len'):
        if isvec(i) is not False and not isint(i):
            return None
        r = _seq_index_sym(base, segs, i)
        if r is None and base.op == 'col' and isint(i):
            l = locate(segs, i, ONE)
            if l is not None and len(l) == 1:
                if l[0].op == 'el':
                    return l[0].args[0]
                if l[0].op == 'spread':
                    return index(l[0].args[0], ZERO)
        return r
    return None

def _seq_index_sym(base, segs, i):
    if True:
        off = ZERO
        from .terms import _seglen
        for n, s in enumerate(segs):
            l = _seglen(s)
            rel = sub(i, off)
            last = n == len(segs) - 1
            if (nonneg(rel) or n == 0) and (last or nonneg(sub(sub(l, ONE), rel))):
                if s.op == 'el':
                    return s.args[0]
                if s.op == 'rep' and len(s.args[3].args) == 1 and s.args[3].args[0].op == 'el':
                    bv, lo, hi, body = s.args
                    return subst(body.args[0].args[0], {bv: add(lo, rel)})
                if s.op == 'spread':
                    return index(s.args[0], rel)
                return None
            if nonneg(sub(rel, l)):
                off = add(off, l)
                continue
            # two candidates
            if s.op == 'el' and not last and nonneg(rel):
                rest = seq(base.op, segs[n + 1:])
                return ite(eq(rel, ZERO), s.args[0], index(rest, sub(rel, ONE)))
            return None
    return None

def _store_read(base, i):
    b, log = base.args
    segs = list(log.args)
    while segs:
        s = segs[-1]
        if s.op == 'el':
            wr = s.args[0]
            if wr.args[0] is i:
                return wr.args[1]
            if _disjoint(wr.args[0], i):
                segs.pop(); continue
            if isvec(wr.args[0]) is False and isvec(i) is False and wr.args[0].op not in ('sl', 'tuple') and i.op not in ('sl', 'tuple') \
                    and cint(wr.args[0]) is not None and cint(wr.args[0]) < 0:
                return None
            if isint(wr.args[0]) and isint(i):
                c = eq(wr.args[0], i)
                return ite(c, wr.args[1], index(mk_store(b, seq('list', segs[:-1])), i))
            return None
        if s.op == 'rep':
            bv, lo, hi, body = s.args
            if len(body.args) == 1 and body.args[0].op == 'el':
                wr = body.args[0].args[0]
                ix = wr.args[0]
                if ix.op != 'tuple' and isint(i):
                    off = sub(ix, bv)
                    if bv not in off.fv:
                        k = sub(i, off)
                        cin = mand(le(lo, k), lt(k, hi))
                        if cin is FALSE:
                            segs.pop(); continue
                        val = subst(wr.args[1], {bv: k})
                        if cin is TRUE:
                            return val
                        return ite(cin, val, index(mk_store(b, seq('list', segs[:-1])), i))
                if ix.op == 'tuple' and i.op == 'tuple' and len(ix.args) == len(i.args):
                    m = {}
                    ok = True
                    for x, y in zip(ix.args, i.args):
                        if x is bv and y.op not in ('sl',):
                            m[bv] = y
                        elif x is not y:
                            ok = False
                    if ok and bv in m:
                        k = m[bv]
                        cin = mand(le(lo, k), lt(k, hi))
                        if cin is TRUE:
                            return subst(wr.args[1], m)
            return None
        if s.op == 'opt' and len(s.args[1].args) == 1 and s.args[1].args[0].op == 'el':
            wr = s.args[1].args[0].args[0]
            if wr.args[0] is i:
                return ite(s.args[0], wr.args[1], index(mk_store(b, seq('list', segs[:-1])), i))
            if _disjoint(wr.args[0], i):
                segs.pop(); continue
        return None
    return index(b, i)

def _disjoint(a, b):
    if a.op == 'tuple' and b.op == 'tuple' and len(a.args) == len(b.args):
        return any(_disjoint(x, y) for x, y in zip(a.args, b.args))
    if a.op == 'sl' and b.op == 'sl' and len(a.args) == 2 and len(b.args) == 2:
        for x, y in ((a, b), (b, a)):
            if x.args[1] is not NONE and (x.args[1] is y.args[0] or nonneg(sub(y.args[0], x.args[1]))):
                return True
        return False
    if a.op in ('sl', 'tuple') or b.op in ('sl', 'tuple'):
        return False
    if isint(a) and isint(b):
        ca, cb = cint(a), cint(b)
        if (ca is not None and ca < 0) != (cb is not None and cb < 0):
            return False
        return eq(a, b) is FALSE
    return False

METHODS = {'append', 'extend', 'copy', 'flatten', 'full', 'tolist', 'items', 'keys', 'values', 'get', 'insert', 'pop',
           'reshape', 'numel', 'sum', 'astype', 'ravel', 'update', 'setdefault', 'index', 'sort', 'join', 'format',
           'any', 'all', 'max', 'min', 'split', 'nonzero', 'squeeze', 'dot', 'is_empty', 'size1', 'size2', 'rows', 'columns',
           'add', 'union', 'difference', 'clear', 'startswith', 'endswith', 'item', 'name', 'write', 'str', 'stats'}

def norm_ext(d):
    if d.startswith('np.'):
        d = 'numpy.' + d[3:]
    if d.startswith('ca.'):
        d = 'casadi.' + d[3:]
    return d

EXT_CONST = {'numpy.inf': INF, 'casadi.inf': INF, 'math.inf': INF, 'numpy.newaxis': NONE}
