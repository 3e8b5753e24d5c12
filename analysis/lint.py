"""Name, member, call-shape and result-key resolution over the syntax trees of the package.

Types are inferred only where they are certain (annotations, constructors, self); everything else is unknown
and only checked against the union of all member names.  Definite assignment is decided by a predicated
dataflow analysis: for every variable the condition under which it is bound is kept as a formula over the
branch conditions, an option is a variable over the members of its enumeration."""
import ast, json, os
from .program import ClassInfo

TAB = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'libnames.json')))
MODS = {k: set(v) for k, v in TAB['modules'].items()}
CLS = {k: set(v) for k, v in TAB['classes'].items()}
BUILTINS = set(TAB['builtins']) | {'__file__', '__name__', '__doc__', '__builtins__', '__path__', '__package__', '__spec__', '__class__'}
LIBATTRS = set().union(*CLS.values()) | set().union(*MODS.values())

class Finding:
    def __init__(self, rule, mod, node, fn, text):
        self.rule, self.mod, self.line, self.fn, self.text = rule, mod, getattr(node, 'lineno', 0), fn, text
    def site(self):
        return f'{self.mod.replace(".", "/")}.py:{self.fn}'

# ------------------------------------------------------------------ formulas over branch conditions
TRUE, FALSE = ('T',), ('F',)
def f_not(f):
    if f is TRUE or f == TRUE: return FALSE
    if f == FALSE: return TRUE
    if f[0] == '!': return f[1]
    return ('!', f)
def f_nary(op, unit, zero, fs):
    s = []
    for f in fs:
        if f == zero: return zero
        if f == unit: continue
        for g in (f[1] if f[0] == op else (f,)):
            if g not in s: s.append(g)
    for g in s:
        if f_not(g) in s: return zero
    if not s: return unit
    if len(s) == 1: return s[0]
    return (op, tuple(s))
def f_and(*fs): return f_nary('&', TRUE, FALSE, fs)
def f_or(*fs): return f_nary('|', FALSE, TRUE, fs)
def atom(var, val, dom): return ('a', var, val, dom)
def f_vars(f, acc):
    if f[0] == 'a': acc[f[1]] = acc.get(f[1], ()) + tuple(x for x in f[3] if x not in acc.get(f[1], ()))
    elif f[0] == '!': f_vars(f[1], acc)
    elif f[0] in '&|':
        for g in f[1]: f_vars(g, acc)
    return acc
def f_set(f, var, val):
    if f[0] == 'a':
        return (TRUE if f[2] == val else FALSE) if f[1] == var else f
    if f[0] == '!': return f_not(f_set(f[1], var, val))
    if f[0] == '&': return f_and(*[f_set(g, var, val) for g in f[1]])
    if f[0] == '|': return f_or(*[f_set(g, var, val) for g in f[1]])
    return f
def f_drop(f, vs):
    """there are values of vs that make f true"""
    out = []
    for g in (f[1] if f[0] == '&' else (f,)):
        av = f_vars(g, {})
        dv = [v for v in av if vs(v)]
        if len(dv) == len(av) and g != FALSE: continue
        if len(dv) > 4: continue
        for v in dv:
            g = f_or(*[f_set(g, v, x) for x in av[v]])
        out.append(g)
    return f_and(*out)
def witness(f, budget=None):
    """an assignment that makes f true, None if there is none, False if too large"""
    budget = budget or [20000]
    budget[0] -= 1
    if budget[0] < 0: return False
    if f == TRUE: return {}
    if f == FALSE: return None
    v, dom = next(iter(f_vars(f, {}).items()))
    for x in dom:
        r = witness(f_set(f, v, x), budget)
        if r is False: return False
        if r is not None:
            r[v] = x
            return r
    return None

# ------------------------------------------------------------------ index of the package
class Index:
    def __init__(self, prog):
        self.prog = prog
        self.attrs = {}          # class qual -> set of attribute names defined by the class itself
        self.pkgattrs = set()
        self.dynamic = set()     # classes with __getattr__ / setattr
        self.classes = [c for m in prog.modules.values() for c in m.classes.values()]
        self.sub = {}
        for c in self.classes:
            for b in prog.mro(c)[1:]:
                self.sub.setdefault(b.qual, []).append(c)
        for c in self.classes:
            s = set(c.methods) | set(c.consts) | set(c.anns) | {'__class__', '__dict__', '__doc__', '__module__', '__name__', '__init__', '__annotations__'}
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls'):
                    s.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'vars') or isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.ctx, ast.Store):
                    self.dynamic.add(c.qual)
                if isinstance(n, ast.ClassDef) and n is not c.node:
                    s.add(n.name)
            if '__getattr__' in c.methods or '__getattribute__' in c.methods:
                self.dynamic.add(c.qual)
            for s_ in c.node.body:      # anything else bound in the class body
                for n in ast.walk(s_):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        s.add(n.id)
            self.attrs[c.qual] = s
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.pkgattrs.add(n.attr)
        for s in self.attrs.values():
            self.pkgattrs |= s
        self.extern_store = {}   # attribute -> stored on something other than self
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                    self.extern_store.setdefault(n.attr, []).append(n)
        self.types = Types(self)
    def external_base(self, c):
        for k in self.prog.mro(c):
            for b in k.bases:
                n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
                if n in ('object', 'ABC'): continue
                r = self.prog.resolve(k.module.name, b.id) if isinstance(b, ast.Name) else None
                if not (r and r[0] == 'class'): return True
        return False
    def class_attrs(self, c):
        """attributes an instance of c may have, None: unknown"""
        if any(k.qual in self.dynamic for k in self.prog.mro(c) + self.sub.get(c.qual, [])): return None
        ext = self.external_base(c)
        out = set()
        if ext:
            if self.prog.is_enum(c): out |= CLS['enum.Enum'] | {'name', 'value', '_name_', '_value_'} | CLS['enum.EnumMeta'] | {'__members__'}
            else: return None
        for k in self.prog.mro(c) + self.sub.get(c.qual, []):
            out |= self.attrs[k.qual]
        return out | set(self.extern_store) | CLS['builtins.object']

# ------------------------------------------------------------------ types
class Types:
    def __init__(self, ix):
        self.ix, self.prog = ix, ix.prog
        self.attr_cache, self.env_cache, self.busy = {}, {}, set()
    def ann(self, a, mod):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try: a = ast.parse(a.value, mode='eval').body
            except SyntaxError: return None
        if isinstance(a, (ast.Name, ast.Attribute)):
            t = self.static(a, mod)
            if t and t[0] == 'cls': return ('inst', t[1])
            return None
        if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id in ('List', 'list'):
            return ('list', self.ann(a.slice, mod))
        return None
    def static(self, e, mod):
        """type of a name or dotted name at module level"""
        if isinstance(e, ast.Name):
            r = self.prog.resolve(mod, e.id)
            if r is None: return None
            if r[0] == 'class': return ('cls', r[1])
            if r[0] == 'func': return ('fn', r[1].name, r[2])
            if r[0] == 'mod': return ('mod', r[1])
            if r[0] == 'ext': return ('mod', r[1]) if r[1] in MODS else ('ext', r[1])
            return None
        if isinstance(e, ast.Attribute):
            b = self.static(e.value, mod)
            return self.member(b, e.attr)
        return None
    def member(self, b, name):
        if b is None: return None
        if b[0] == 'mod':
            if b[1] in self.prog.modules:
                r = self.prog.resolve(b[1], name)
                if r is None: return None
                if r[0] == 'class': return ('cls', r[1])
                if r[0] == 'func': return ('fn', r[1].name, r[2])
                if r[0] == 'mod': return ('mod', r[1])
                return None
            d = b[1] + '.' + name
            return ('mod', d) if d in MODS else ('ext', d)
        if b[0] == 'cls':
            c = b[1]
            if self.prog.is_enum(c) and name in c.consts: return ('inst', c)
            for k in self.prog.mro(c):
                if name in k.methods: return ('meth', k, k.methods[name], False)
            return None
        if b[0] == 'inst':
            return self.attr(b[1], name)
        if b[0] == 'super':
            for k in self.prog.mro(b[1])[1:]:
                if name in k.methods: return ('meth', k, k.methods[name], True)
            return None
        return None
    def attr(self, c, name):
        k = (c.qual, name)
        if k in self.attr_cache: return self.attr_cache[k]
        if k in self.busy: return None
        self.busy.add(k)
        try:
            t = self._attr(c, name)
        finally:
            self.busy.discard(k)
        self.attr_cache[k] = t
        return t
    def _attr(self, c, name):
        for q in self.prog.mro(c):
            if name in q.methods:
                m = q.methods[name]
                decs = [ast.unparse(d) for d in m.decorator_list]
                # overridden in subclasses with another shape: unknown
                if any(name in s.methods and s.qual != q.qual for s in self.ix.sub.get(c.qual, [])):
                    return None
                if not decs or decs == ['abstractmethod']: return ('meth', q, m, True)
                if decs == ['staticmethod']: return ('fn', q.module.name, m)
                return None
        ts = []
        for q in self.prog.mro(c) + self.ix.sub.get(c.qual, []):
            if name in q.anns:
                t = self.ann(q.anns[name], q.module.name)
                if t is None: return None
                ts.append(t); continue
            for m in q.methods.values():
                for n in ast.walk(m):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)):
                        tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                        for x in tg:
                            for y in ast.walk(x):
                                if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == name and isinstance(y.value, ast.Name) and y.value.id == 'self':
                                    if y is not x: return None
                                    t = self.ann(n.annotation, q.module.name) if isinstance(n, ast.AnnAssign) else self.expr(n.value, self.env(m, q), q.module.name)
                                    if t is None: return None
                                    ts.append(t)
                    elif isinstance(n, (ast.AugAssign, ast.For, ast.With)):
                        for y in ast.walk(n.target if not isinstance(n, ast.With) else n.items[0]):
                            if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == name: return None
        for n in self.ix.extern_store.get(name, []):
            return None
        if not ts or any(t != ts[0] for t in ts): return None
        return ts[0]
    def env(self, fn, ci):
        """types of the parameters and locals of a function"""
        k = id(fn)
        if k in self.env_cache: return self.env_cache[k]
        mod = ci.module.name if ci else self._mod(fn)
        e = {}
        self.env_cache[k] = e
        a = fn.args
        ps = a.posonlyargs + a.args + a.kwonlyargs
        stat = any(ast.unparse(d) == 'staticmethod' for d in fn.decorator_list)
        for i, p in enumerate(ps):
            if i == 0 and ci and not stat:
                cm = any(ast.unparse(d) == 'classmethod' for d in fn.decorator_list)
                e[p.arg] = ('cls', ci) if cm else ('inst', ci)
            else:
                e[p.arg] = self.ann(p.annotation, mod) if p.annotation is not None else None
                # a None default makes the type uncertain only in its nullness
        if a.vararg: e[a.vararg.arg] = None
        if a.kwarg: e[a.kwarg.arg] = None
        stores = {}
        def bind(t, v):
            if isinstance(t, ast.Name): stores.setdefault(t.id, []).append(v)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for i, x in enumerate(t.elts):
                    bind(x, ('el', v, i) if v is not None else None)
            elif isinstance(t, ast.Starred): bind(t.value, None)
        for n in walk_scope(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets: bind(t, n.value if not isinstance(t, (ast.Tuple, ast.List)) else None)
            elif isinstance(n, ast.AnnAssign): bind(n.target, ('ann', n.annotation))
            elif isinstance(n, ast.AugAssign): bind(n.target, None)
            elif isinstance(n, (ast.For,)):
                bind(n.target, ('iter', n.iter) if isinstance(n.target, ast.Name) else None)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None: bind(i.optional_vars, None)
            elif isinstance(n, ast.NamedExpr): bind(n.target, n.value)
            elif isinstance(n, ast.ExceptHandler) and n.name: stores.setdefault(n.name, []).append(None)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names: stores.setdefault(x.asname or x.name.split('.')[0], []).append(('import', n, x))
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and n is not fn: stores.setdefault(n.name, []).append(None)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names: stores.setdefault(x, []).append(None)
            elif hasattr(ast, 'MatchAs') and isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: stores.setdefault(n.name, []).append(None)
        for n in stores:
            e.setdefault(n, None)
        params = {p.arg for p in ps}
        for _ in range(2):
            for n, vs in stores.items():
                if n in params: e[n] = None; continue
                ts = []
                for v in vs:
                    if v is None: ts.append(None)
                    elif isinstance(v, tuple):
                        if v[0] == 'ann': ts.append(self.ann(v[1], mod))
                        elif v[0] == 'iter':
                            t = self.expr(v[1], e, mod)
                            ts.append(t[1] if t and t[0] == 'list' else None)
                        elif v[0] == 'import':
                            i, x = v[1], v[2]
                            if isinstance(i, ast.Import): ts.append(('mod', x.name if x.asname else x.name.split('.')[0]))
                            else: ts.append(None)
                        else: ts.append(None)
                    else: ts.append(self.expr(v, e, mod))
                e[n] = ts[0] if ts and all(t == ts[0] for t in ts) else None
        return e
    def _mod(self, fn):
        n = fn
        while getattr(n, '_parent', None) is not None: n = n._parent
        for m in self.prog.modules.values():
            if m.tree is n: return m.name
        return ''
    def expr(self, x, env, mod):
        if isinstance(x, ast.Name):
            if x.id in env: return env[x.id]
            return self.static(x, mod)
        if isinstance(x, ast.Attribute):
            return self.member(self.expr(x.value, env, mod), x.attr)
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Name) and x.func.id == 'super' and not x.args:
                s = env.get('self')
                return ('super', s[1]) if s and s[0] == 'inst' else None
            f = self.expr(x.func, env, mod)
            if f and f[0] == 'cls' and not self.prog.is_enum(f[1]): return ('inst', f[1])
            if f and f[0] in ('fn', 'meth'):
                n = f[2]
                m = f[1] if f[0] == 'fn' else f[1].module.name
                if n.returns is not None: return self.ann(n.returns, m)
            return None
        if isinstance(x, ast.Subscript):
            t = self.expr(x.value, env, mod)
            if t and t[0] == 'list':
                return t if isinstance(x.slice, ast.Slice) else t[1]
        return None

def walk_scope(fn):
    """nodes of a function without those of nested functions, classes, lambdas (their headers are included)"""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))

def functions(mod):
    """(name, node, class or None) of every function of a module, nested ones included"""
    def go(body, ci, pre):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield pre + n.name, n, ci
                for m in ast.walk(n):
                    if m is not n and isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield pre + n.name + '.' + m.name, m, None
            elif isinstance(n, ast.ClassDef):
                yield from go(n.body, mod.classes.get(n.name), pre + n.name + '.')
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                yield from go(n.body, ci, pre)
    yield from go(mod.tree.body, None, '')

# ------------------------------------------------------------------ scopes: every name is bound somewhere
def bound_names(fn):
    out = set()
    if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        a = fn.args
        out |= {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg: out.add(a.vararg.arg)
        if a.kwarg: out.add(a.kwarg.arg)
    nodes = walk_scope(fn) if not isinstance(fn, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) else ()
    for n in nodes:
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {x.asname or x.name.split('.')[0] for x in n.names}
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            out |= set(n.names)
        elif hasattr(ast, 'MatchAs') and isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif hasattr(ast, 'MatchMapping') and isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
    return out

COMPS = (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)

def undefined_names(ix, mod, add, count):
    m = mod
    top = set(m.funcs) | set(m.classes) | set(m.imports) | bound_names(m.tree) | BUILTINS
    if any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(m.tree)):
        return
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global): top |= set(n.names)
    def visit(n, scopes, fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = n.args
            for d in a.defaults + [x for x in a.kw_defaults if x is not None] + (n.decorator_list if not isinstance(n, ast.Lambda) else []):
                visit(d, scopes, fn)
            if not isinstance(n, ast.Lambda):
                for p in a.posonlyargs + a.args + a.kwonlyargs:
                    if p.annotation is not None: visit(p.annotation, scopes, fn)
                if n.returns is not None: visit(n.returns, scopes, fn)
            inner = [s for s in scopes if s[0] != 'class'] + [('fn', bound_names(n))]
            name = (fn + '.' if fn else '') + getattr(n, 'name', 'lambda')
            for s in (n.body if isinstance(n.body, list) else [n.body]): visit(s, inner, name)
            return
        if isinstance(n, ast.ClassDef):
            for s in n.bases + n.decorator_list + [k.value for k in n.keywords]: visit(s, scopes, fn)
            inner = scopes + [('class', bound_names(n))]
            for s in n.body: visit(s, inner, (fn + '.' if fn else '') + n.name)
            return
        if isinstance(n, COMPS):
            t = set()
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name): t.add(x.id)
            visit(n.generators[0].iter, scopes, fn)
            inner = scopes + [('comp', t)]
            for k, g in enumerate(n.generators):
                if k: visit(g.iter, inner, fn)
                for c in g.ifs: visit(c, inner, fn)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]): visit(x, inner, fn)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            count[0] += 1
            if n.id not in top and not any(n.id in s[1] for s in scopes):
                add(Finding('every name is bound in an enclosing scope', m.name, n, fn or 'module', f'name {n.id!r} is not defined (line {n.lineno})'))
        for c in ast.iter_child_nodes(n): visit(c, scopes, fn)
    visit(m.tree, [], '')
    # imported names exist
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
            pkg = m.name if m.path.endswith('__init__.py') else m.name.rsplit('.', 1)[0]
            base = n.module or ''
            if n.level:
                for _ in range(n.level - 1): pkg = pkg.rsplit('.', 1)[0]
                base = pkg + ('.' + base if base else '')
            for a in n.names:
                count[0] += 1
                if base in ix.prog.modules:
                    if ix.prog.resolve(base, a.name) is None:
                        add(Finding('imported names exist', m.name, n, 'module', f'{base} has no name {a.name!r}'))
                elif base in MODS:
                    if a.name not in MODS[base] and base + '.' + a.name not in MODS:
                        add(Finding('imported names exist', m.name, n, 'module', f'{base} has no name {a.name!r}'))
                elif base.split('.')[0] == ix.prog.package:
                    add(Finding('imported names exist', m.name, n, 'module', f'there is no module {base}'))

# ------------------------------------------------------------------ attributes, calls, unpacking
def guarded_attr(n):
    """inside try/except or under hasattr"""
    p = n
    while p is not None:
        q = getattr(p, '_parent', None)
        if isinstance(q, ast.Try) and p in q.body and any(h.type is None or 'AttributeError' in ast.unparse(h.type) or ast.unparse(h.type) in ('Exception', 'BaseException') for h in q.handlers):
            return True
        if isinstance(q, (ast.If, ast.IfExp)) and 'hasattr' in ast.unparse(q.test):
            return True
        if isinstance(q, (ast.FunctionDef, ast.ClassDef)):
            return False
        p = q
    return False

def comp_names(n):
    """names bound by comprehensions and lambdas around n"""
    out, p = set(), getattr(n, '_parent', None)
    while p is not None and not isinstance(p, (ast.FunctionDef, ast.ClassDef, ast.Module)):
        if isinstance(p, COMPS):
            for g in p.generators:
                out |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        if isinstance(p, ast.Lambda):
            out |= bound_names(p)
        p = getattr(p, '_parent', None)
    return out

def tname(t):
    return t[1].name if t[0] in ('inst', 'cls') else t[1]

def signature_error(node, args, kwargs, skip_first, name):
    """does the call fit the parameters?  args: number, or None if starred"""
    a = node.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    if skip_first:
        if not pos and not a.vararg: return f'{name}() has no parameter for its object'
        pos = pos[1:]
    nd = len(a.defaults)
    npos, kws = args, kwargs
    if npos is None or kws is None: return None
    if npos > len(pos) and not a.vararg:
        return f'{name}() takes {len(pos)} positional arguments, {npos} are given'
    filled = set(pos[:npos])
    ko = {p.arg for p in a.kwonlyargs}
    for k in kws:
        if k in filled: return f'{name}() gets two values for {k}'
        if k not in pos and k not in ko and not a.kwarg: return f'{name}() has no parameter {k}'
        if k in {p.arg for p in a.posonlyargs}: return None
        filled.add(k)
    req = pos[:len(pos) - nd] if nd <= len(pos) else []
    if skip_first and nd > len(pos): req = []
    miss = [p for p in req if p not in filled] + [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and p.arg not in filled]
    if miss: return f'{name}() lacks the argument {", ".join(miss)}'
    return None

def fields(prog, c):
    """dataclass fields in order: (name, has default, init)"""
    out = {}
    for k in reversed(prog.mro(c)):
        if not any(d.startswith(('dataclass', 'dataclasses.dataclass')) for d in k.decorators): continue
        for n, a in k.anns.items():
            if 'ClassVar' in ast.unparse(a): continue
            v = k.consts.get(n)
            init = True
            if isinstance(v, ast.Call) and ast.unparse(v.func).endswith('field'):
                init = not any(q.arg == 'init' and isinstance(q.value, ast.Constant) and q.value.value is False for q in v.keywords)
                has = any(q.arg in ('default', 'default_factory') for q in v.keywords)
            else:
                has = v is not None
            out[n] = (has, init)
    return out

def call_error(ix, f, call):
    npos = None if any(isinstance(a, ast.Starred) for a in call.args) else len(call.args)
    kws = None if any(k.arg is None for k in call.keywords) else [k.arg for k in call.keywords]
    if f[0] == 'fn':
        if any(ast.unparse(d) not in ('staticmethod',) for d in f[2].decorator_list): return None
        return signature_error(f[2], npos, kws, False, f[2].name)
    if f[0] == 'meth':
        decs = [ast.unparse(d) for d in f[2].decorator_list]
        if decs and decs != ['abstractmethod']:
            return None
        return signature_error(f[2], npos, kws, f[3], f[1].name + '.' + f[2].name)
    if f[0] == 'cls':
        c = f[1]
        if ix.prog.is_enum(c) : return None
        for k in ix.prog.mro(c):
            if '__init__' in k.methods:
                return signature_error(k.methods['__init__'], npos, kws, True, c.name)
            if any(d.startswith(('dataclass', 'dataclasses.dataclass')) for d in k.decorators):
                if npos is None or kws is None: return None
                fs = [(n, h) for n, (h, i) in fields(ix.prog, c).items() if i]
                if npos > len(fs): return f'{c.name}() takes {len(fs)} arguments, {npos} are given'
                fill = {n for n, _ in fs[:npos]}
                for q in kws:
                    if q in fill: return f'{c.name}() gets two values for {q}'
                    if q not in dict(fs): return f'{c.name}() has no field {q}'
                    fill.add(q)
                miss = [n for n, h in fs if not h and n not in fill]
                return f'{c.name}() lacks {", ".join(miss)}' if miss else None
        if ix.external_base(c): return None
        if npos or kws: return f'{c.name}() takes no arguments'
    return None

def tuple_lens(ix, v, env, mod, depth=0):
    """numbers of values an expression provides on its paths, as far as known"""
    if isinstance(v, (ast.Tuple, ast.List)):
        return set() if any(isinstance(x, ast.Starred) for x in v.elts) else {len(v.elts)}
    if isinstance(v, ast.IfExp):
        return tuple_lens(ix, v.body, env, mod, depth) | tuple_lens(ix, v.orelse, env, mod, depth)
    if isinstance(v, ast.Call) and depth < 4:
        f = ix.types.expr(v.func, env, mod)
        if f and f[0] in ('fn', 'meth'):
            n = f[2]
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_scope(n)): return set()
            if any(ast.unparse(d) not in ('staticmethod',) for d in n.decorator_list): return set()
            ci = f[1] if f[0] == 'meth' else None
            out = set()
            for x in walk_scope(n):
                if isinstance(x, ast.Return) and x.value is not None:
                    out |= tuple_lens(ix, x.value, ix.types.env(n, ci), ci.module.name if ci else f[1], depth + 1)
            return out
    return set()

def members(ix, mod, add, count):
    m = mod
    T = ix.types
    scopes = list(functions(m))
    def owner(n):
        p = n
        while p is not None:
            p = getattr(p, '_parent', None)
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)): return p
        return None
    names = {id(f): (nm, ci) for nm, f, ci in scopes}
    def envof(n):
        fn = owner(n)
        nested = []
        while fn is not None and id(fn) not in names:
            fn = owner(fn)
        if fn is None: return {}, 'module'
        nm, ci = names[id(fn)]
        e = dict(T.env(fn, ci))
        p = owner(fn)
        while p is not None:
            q = T.env(p, names.get(id(p), ('', None))[1])
            e = {**q, **e}
            p = owner(p)
        for x in comp_names(n): e[x] = None
        return e, nm
    allattrs = ix.pkgattrs | LIBATTRS
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            env, nm = envof(n)
            count[0] += 1
            b = T.expr(n.value, env, m.name)
            bad = None
            if b and b[0] == 'mod':
                if b[1] in MODS and n.attr not in MODS[b[1]] and b[1] + '.' + n.attr not in MODS:
                    bad = f'module {b[1]} has no member {n.attr!r}'
                elif b[1] in ix.prog.modules and ix.prog.resolve(b[1], n.attr) is None and not n.attr.startswith('__') and b[1] + '.' + n.attr not in ix.prog.modules:
                    bad = f'module {b[1]} has no name {n.attr!r}'
            elif b and b[0] == 'ext' and b[1] in CLS:
                if n.attr not in CLS[b[1]]: bad = f'{b[1]} has no member {n.attr!r}'
            elif b and b[0] == 'cls':
                c = b[1]
                s = ix.class_attrs(c)
                if ix.prog.is_enum(c):
                    mem = set(c.consts) | set(c.methods) | CLS['enum.EnumMeta'] | CLS['enum.Enum'] | {'__members__'}
                    for k in ix.prog.mro(c): mem |= set(k.consts) | set(k.methods)
                    if n.attr not in mem: bad = f'enumeration {c.name} has no member {n.attr!r}'
                elif s is not None and n.attr not in s and not n.attr.startswith('__'): bad = f'class {c.name} has no attribute {n.attr!r}'
            elif b and b[0] == 'inst':
                s = ix.class_attrs(b[1])
                if s is not None and n.attr not in s and not (n.attr.startswith('__') and n.attr.endswith('__')):
                    q = n.attr
                    bad = f'{b[1].name} objects have no attribute {q!r}'
            elif b and b[0] == 'super':
                s = ix.class_attrs(b[1])
                if s is not None and n.attr not in s: bad = f'no base class of {b[1].name} has {n.attr!r}'
            elif b is None or b[0] == 'list':
                if n.attr not in allattrs and not (n.attr.startswith('__') and n.attr.endswith('__')):
                    bad = f'no object of the package or its libraries has an attribute {n.attr!r}'
            if bad and not guarded_attr(n):
                add(Finding('attributes and members exist', m.name, n, nm, f'{bad}: {ast.unparse(n)} (line {n.lineno})'))
        elif isinstance(n, ast.Call):
            env, nm = envof(n)
            f = T.expr(n.func, env, m.name)
            if f and f[0] in ('fn', 'meth', 'cls'):
                count[0] += 1
                e = call_error(ix, f, n)
                if e: add(Finding('calls fit the parameters of the called function', m.name, n, nm, f'{e}: {ast.unparse(n)[:120]} (line {n.lineno})'))
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts):
                    env, nm = envof(n)
                    count[0] += 1
                    for k in sorted(tuple_lens(ix, n.value, env, m.name) - {len(t.elts)}):
                        add(Finding('values are unpacked into as many names', m.name, n, nm, f'{k} values are unpacked into {len(t.elts)} names: {ast.unparse(n)[:120]} (line {n.lineno})'))
        elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in n.target.elts):
            it, k = n.iter, None
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and not any(isinstance(x, ast.Starred) for x in it.args):
                if it.func.id == 'enumerate': k = 2
                elif it.func.id == 'zip': k = len(it.args)
            elif isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and not it.args: k = 2
            elif isinstance(it, (ast.List, ast.Tuple)):
                ks = {len(x.elts) if isinstance(x, (ast.Tuple, ast.List)) and not any(isinstance(y, ast.Starred) for y in x.elts) else None for x in it.elts}
                k = ks.pop() if len(ks) == 1 else None
            count[0] += 1
            if k is not None and k != len(n.target.elts):
                _, nm = envof(it)
                add(Finding('values are unpacked into as many names', m.name, it, nm, f'{k} values are unpacked into {len(n.target.elts)} names: {ast.unparse(n.target)} in {ast.unparse(it)[:80]} (line {it.lineno})'))

# ------------------------------------------------------------------ definite assignment
class Flow:
    """walks one function; B maps a variable to the condition under which it is bound"""
    def __init__(self, ix, mod, fn, ci, name, add, count):
        self.ix, self.mod, self.fn, self.ci, self.name, self.add, self.count = ix, mod, fn, ci, name, add, count
        self.env = ix.types.env(fn, ci)
        self.locals = bound_names(fn)
        for n in walk_scope(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)): self.locals -= set(n.names)
        a = fn.args
        self.params = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        self.nstore, self.alias = {}, {}
        for n in walk_scope(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): self.nstore[n.id] = self.nstore.get(n.id, 0) + 1
        for n in walk_scope(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and self.nstore[n.targets[0].id] == 1 and isinstance(n.value, (ast.Attribute, ast.Name)):
                self.alias[n.targets[0].id] = n.value
        self.flag = {}           # locals that name a condition
        for n in walk_scope(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and self.nstore[n.targets[0].id] == 1:
                v = n.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'bool' and len(v.args) == 1: v = v.args[0]
                if isinstance(v, (ast.Compare, ast.BoolOp)) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) or v is not n.value and isinstance(v, (ast.Attribute, ast.Name)):
                    self.flag[n.targets[0].id] = v
        self.version = {}
        self.loops = []          # names assigned in the enclosing loops
        self.fresh = 0
        self.B = {v: TRUE for v in self.params}
        self.exits = []
        self.keys = {}           # dictionary variable -> {key: condition}
        self.keyopen = set()
        self.returned = []       # (condition, name of the returned variable)
        self.reported = set()
    # -------------------------------------------------------------- conditions
    def text(self, e):
        class S(ast.NodeTransformer):
            def visit_Name(s, n):
                if n.id in self.alias: return s.visit(fresh(self.alias[n.id]))
                if n.id in self.version and isinstance(n.ctx, ast.Load): return ast.Name(f'{n.id}@{self.version[n.id]}', ast.Load())
                return n
        t = ast.unparse(S().visit(fresh(e)))
        return t[5:] if t.startswith('self.') else t
    def enum(self, e):
        t = self.ix.types.expr(e, self.env, self.mod.name)
        if isinstance(e, ast.Attribute) and t and t[0] == 'inst' and self.ix.prog.is_enum(t[1]) and e.attr in t[1].consts:
            b = self.ix.types.expr(e.value, self.env, self.mod.name)
            if b and b[0] == 'cls': return t[1], e.attr
        return None
    def cond(self, e):
        if isinstance(e, ast.BoolOp):
            fs = [self.cond(x) for x in e.values]
            return f_and(*fs) if isinstance(e.op, ast.And) else f_or(*fs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return f_not(self.cond(e.operand))
        if isinstance(e, ast.Constant): return TRUE if e.value else FALSE
        if isinstance(e, ast.NamedExpr): return self.cond(e.value)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, o, r = e.left, e.ops[0], e.comparators[0]
            if isinstance(o, (ast.In, ast.NotIn)) and isinstance(r, (ast.List, ast.Tuple, ast.Set)):
                f = f_or(*[self.eq(l, x) for x in r.elts])
                return f if isinstance(o, ast.In) else f_not(f)
            if isinstance(o, (ast.Eq, ast.Is)): return self.eq(l, r)
            if isinstance(o, (ast.NotEq, ast.IsNot)): return f_not(self.eq(l, r))
            if isinstance(o, ast.Lt): return self.bool(f'{self.text(l)} < {self.text(r)}')
            if isinstance(o, ast.GtE): return f_not(self.bool(f'{self.text(l)} < {self.text(r)}'))
            if isinstance(o, ast.Gt): return self.bool(f'{self.text(r)} < {self.text(l)}')
            if isinstance(o, ast.LtE): return f_not(self.bool(f'{self.text(r)} < {self.text(l)}'))
            if isinstance(o, ast.NotIn): return f_not(self.bool(f'{self.text(l)} in {self.text(r)}'))
            return self.bool(self.text(e))
        if isinstance(e, ast.Compare):
            fs, l = [], e.left
            for o, r in zip(e.ops, e.comparators):
                fs.append(self.cond(ast.Compare(l, [o], [r]))); l = r
            return f_and(*fs)
        if isinstance(e, ast.Name) and e.id in self.flag: return self.cond(self.flag[e.id])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(e.args) == 1: return self.cond(e.args[0])
        return self.bool(self.text(e))
    def bool(self, t): return atom(t, True, (True, False))
    def eq(self, l, r):
        for a, b in ((l, r), (r, l)):
            m = self.enum(b)
            if m:
                return atom(self.text(a), m[1], tuple(n for n in m[0].consts if not n.startswith('_')))
        for a, b in ((l, r), (r, l)):
            if isinstance(b, ast.Constant) and isinstance(b.value, bool):
                f = self.cond(a)
                return f if b.value else f_not(f)
        a, b = sorted((self.text(l), self.text(r)))
        return self.bool(f'{a} == {b}')
    def variant(self, v):
        """does a condition mention something that changes in an enclosing loop?"""
        if not self.loops: return False
        names = set().union(*self.loops)
        try: t = ast.parse(v.replace('@', '__v'), mode='eval')
        except SyntaxError: return True
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and n.id.split('__v')[0] in names: return True
            if isinstance(n, ast.Attribute) and n.attr in names: return True
            if isinstance(n, ast.Call): return True
        return False
    # -------------------------------------------------------------- statements
    def bind(self, v, P):
        if self.loops: P = f_drop(P, self.variant)
        self.B[v] = f_or(self.B.get(v, FALSE), P)
        if self.nstore.get(v, 0) > 1:
            self.version[v] = self.version.get(v, 0) + 1
        if v in self.keys and v not in getattr(self, 'now', ()):
            pass
    def use(self, n, P):
        v = n.id
        self.count[0] += 1
        if v not in self.locals: return
        b = self.B.get(v, FALSE)
        if b == TRUE: return
        bad = f_and(P, f_not(b))
        w = witness(bad)
        if w is None or w is False: return
        if b == FALSE and any(v in l for l in self.loops) and any(self.variant(q) for q in f_vars(P, {})): return       # bound in an earlier round
        if v in self.reported: return
        self.reported.add(v)
        when = ', '.join(f'{k} is {x}' for k, x in w.items() if not k.startswith('#')) or 'always'
        self.add(Finding('locals are assigned on every path before they are used', self.mod.name, n, self.name, f'{v!r} is used but not assigned (line {n.lineno}) when: {when}'))
    def expr(self, e, P, skip=frozenset()):
        if e is None: return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in skip: self.use(e, P)
            return
        if isinstance(e, COMPS):
            s = skip | {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            self.expr(e.generators[0].iter, P, skip)
            for k, g in enumerate(e.generators):
                if k: self.expr(g.iter, P, s)
                for c in g.ifs: self.expr(c, P, s)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]): self.expr(x, P, s)
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults: self.expr(d, P, skip)
            return
        if isinstance(e, ast.BoolOp):
            q = P
            for x in e.values:
                self.expr(x, q, skip)
                c = self.cond(x)
                q = f_and(q, c if isinstance(e.op, ast.And) else f_not(c))
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, P, skip)
            c = self.cond(e.test)
            self.expr(e.body, f_and(P, c), skip); self.expr(e.orelse, f_and(P, f_not(c)), skip)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, P, skip); self.bind(e.target.id, P); return
        for c in ast.iter_child_nodes(e): self.expr(c, P, skip)
    def target(self, t, P):
        if isinstance(t, ast.Name): self.bind(t.id, P)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: self.target(x, P)
        elif isinstance(t, ast.Starred): self.target(t.value, P)
        else:
            for c in ast.iter_child_nodes(t): self.expr(c, P)
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name): self.setkey(t.value.id, t.slice, P)
    def setkey(self, d, k, P):
        if isinstance(k, ast.Constant) and isinstance(k.value, str):
            q = f_drop(P, self.variant) if self.loops else P
            s = self.keys.setdefault(d, {})
            s[k.value] = f_or(s.get(k.value, FALSE), q)
        elif not isinstance(k, (ast.Constant, ast.Slice)):
            self.keyopen.add(d)
    def initkeys(self, d, v, P):
        if isinstance(v, ast.Dict):
            for k in v.keys:
                if k is None: self.keyopen.add(d)
                else: self.setkey(d, k, P)
            self.keys.setdefault(d, {})
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict':
            if v.args: self.keyopen.add(d)
            self.keys.setdefault(d, {})
            for k in v.keywords:
                if k.arg is None: self.keyopen.add(d)
                else: self.setkey(d, ast.Constant(k.arg), P)
        else:
            r = self.ix.keys_of(v, self.env, self.mod.name)
            if r is None: self.keyopen.add(d)
            else:
                s = self.keys.setdefault(d, {})
                for k, f in r.items(): s[k] = f_or(s.get(k, FALSE), f_and(P, f))
    def block(self, body, P):
        """returns R: the end is reached under P and R"""
        R = TRUE
        for s in body:
            Q = f_and(P, R)
            if Q == FALSE: return FALSE
            R = f_and(R, self.stmt(s, Q))
        return R
    def stmt(self, s, P):
        if isinstance(s, ast.Assign):
            self.expr(s.value, P)
            for t in s.targets:
                self.target(t, P)
                if isinstance(t, ast.Name): self.initkeys(t.id, s.value, P)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, P); self.target(s.target, P)
                if isinstance(s.target, ast.Name): self.initkeys(s.target.id, s.value, P)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value, P)
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), P); self.bind(s.target.id, P)
            else: self.target(s.target, P)
        elif isinstance(s, ast.Expr):
            self.expr(s.value, P)
            v = s.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name):
                d, me = v.func.value.id, v.func.attr
                if me == 'update' and d in self.keys:
                    if len(v.args) == 1 and isinstance(v.args[0], ast.Dict):
                        for k in v.args[0].keys:
                            if k is None: self.keyopen.add(d)
                            else: self.setkey(d, k, P)
                    elif v.args: self.keyopen.add(d)
                    for k in v.keywords:
                        if k.arg: self.setkey(d, ast.Constant(k.arg), P)
                elif me in ('setdefault',) and v.args: self.setkey(d, v.args[0], P)
            if isinstance(v, ast.Call):
                for a in v.args:        # handed out: anybody may add keys
                    if isinstance(a, ast.Name) and a.id in self.keys and not (isinstance(v.func, ast.Name) and v.func.id in ('print', 'len')): self.keyopen.add(a.id)
        elif isinstance(s, ast.If):
            self.expr(s.test, P)
            c = self.cond(s.test)
            v0 = dict(self.version)
            a = self.block(s.body, f_and(P, c))
            b = self.block(s.orelse, f_and(P, f_not(c)))
            return TRUE if a == TRUE and b == TRUE else f_or(f_and(c, a), f_and(f_not(c), b))
        elif isinstance(s, (ast.For, ast.While)):
            names = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.attr for x in ast.walk(s) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
            # objects changed by method calls or stores into them
            names |= {root(x.value) for x in ast.walk(s) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and root(x.value)}
            if isinstance(s, ast.For): self.expr(s.iter, P)
            self.loops.append(names)
            self.jumps = getattr(self, 'jumps', [])
            self.jumps.append([])
            Q = P
            if isinstance(s, ast.For): self.target(s.target, P)
            else:
                self.expr(s.test, P)
            e = self.block(s.body, Q)
            j = self.jumps.pop()
            self.loops.pop()
            end = TRUE if e == TRUE else f_or(e, *j)
            always = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            ls = set(names)
            self.loops.append(ls)
            R = f_drop(end, self.variant)
            self.loops.pop()
            if s.orelse: R = f_and(R, self.block(s.orelse, f_and(P, R)))
            return R
        elif isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s): self.expr(c, P)
            if isinstance(s, ast.Return): self.returned.append((P, s.value))
            return FALSE
        elif isinstance(s, (ast.Continue, ast.Break)):
            if getattr(self, 'jumps', None): self.jumps[-1].append(P)
            return FALSE
        elif isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            self.fresh += 1
            ok = atom(f'#{self.fresh}', True, (True, False))
            B0 = dict(self.B)
            a = self.block(s.body, f_and(P, ok) if s.handlers else P)
            if s.orelse: a = f_and(a, self.block(s.orelse, f_and(P, ok, a)))
            outs = [f_and(ok, a) if s.handlers else a]
            for h in s.handlers:
                q = f_and(P, f_not(ok))
                if h.type is not None: self.expr(h.type, q)
                if h.name: self.bind(h.name, q)
                outs.append(f_and(f_not(ok), self.block(h.body, q)))
            P2 = TRUE if all(o == q for o, q in zip(outs, [ok] + [f_not(ok)] * len(s.handlers))) and s.handlers else f_or(*outs)
            if s.finalbody:
                before = self.reported | set()
                self.reported |= self.locals        # reached from anywhere: not decided
                r = self.block(s.finalbody, P)
                self.reported = before
                if r == FALSE: return FALSE
            return P2
        elif isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, P)
                if i.optional_vars is not None: self.target(i.optional_vars, P)
            return self.block(s.body, P)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list: self.expr(d, P)
            self.bind(s.name, P)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names: self.bind(a.asname or a.name.split('.')[0], P)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(t.slice, ast.Constant):
                    self.keys.get(t.value.id, {}).pop(t.slice.value, None)
                for c in ast.iter_child_nodes(t):
                    self.expr(c, P)
        elif isinstance(s, ast.Assert):
            self.expr(s.test, P)
            if s.msg is not None: self.expr(s.msg, P)
            return self.cond(s.test)
        elif s.__class__.__name__ == 'Match':
            self.expr(s.subject, P)
            rest, outs = TRUE, []
            for c in s.cases:
                pats = c.pattern.patterns if c.pattern.__class__.__name__ == 'MatchOr' else [c.pattern]
                fs = []
                for p in pats:
                    if p.__class__.__name__ == 'MatchValue': fs.append(self.eq(s.subject, p.value))
                    elif p.__class__.__name__ == 'MatchAs' and p.pattern is None: fs.append(TRUE)
                    else:
                        self.fresh += 1
                        fs.append(atom(f'#{self.fresh}', True, (True, False)))
                f = f_or(*fs)
                for p in ast.walk(c.pattern):
                    if p.__class__.__name__ in ('MatchAs', 'MatchStar') and p.name: self.bind(p.name, f_and(P, rest, f))
                if c.guard is not None:
                    self.expr(c.guard, f_and(P, rest, f)); f = f_and(f, self.cond(c.guard))
                outs.append(f_and(rest, f, self.block(c.body, f_and(P, rest, f))))
                rest = f_and(rest, f_not(f))
            return f_or(rest, *outs)
        return TRUE
    def run(self):
        end = self.block(self.fn.body, TRUE)
        if end != FALSE: self.returned.append((end, None))
        return self

def fresh(e):
    return ast.parse(ast.unparse(e), mode='eval').body

def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)): e = e.value
    return e.id if isinstance(e, ast.Name) else None

# ------------------------------------------------------------------ attributes assigned by the constructor
class CtorFlow(Flow):
    """walks a method together with the methods it calls on self; attributes are variables"""
    def __init__(self, ix, ci, q, fn, shared, depth):
        super().__init__(ix, q.module, fn, q, f'{q.name}.{fn.name}', lambda f: None, [0])
        self.obj, self.shared, self.depth = ci, shared, depth
        a = fn.args.posonlyargs + fn.args.args
        self.me = a[0].arg if a else None
    def text(self, e):
        t = super().text(e)
        import re
        t = re.sub(r'\b(?:\w+\.)+(opts|model|ocp)\.', r'\1.', t)
        # locals of different methods are different
        return re.sub(r'@', f'@{self.fn.name}_', t) if '@' in t else t
    def attr(self, name):
        return name in self.shared['attrs']
    def expr(self, e, P, skip=frozenset()):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.me and self.me not in skip:
            if isinstance(e.ctx, ast.Load) and self.attr(e.attr):
                self.shared['count'][0] += 1
                b = self.shared['B'].get(e.attr, FALSE)
                if b == TRUE: return
                if b == FALSE and any(e.attr in l for l in self.loops) and any(self.variant(q) for q in f_vars(P, {})): return
                w = witness(f_and(P, f_not(b)))
                if w is not None and w is not False and not guarded_attr(e):
                    self.shared['bad'].setdefault(e.attr, (self, e, w))
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            o = e.func.value
            sup = isinstance(o, ast.Call) and isinstance(o.func, ast.Name) and o.func.id == 'super'
            if sup or isinstance(o, ast.Name) and o.id == self.me:
                for a in e.args: self.expr(a, P, skip)
                for k in e.keywords: self.expr(k.value, P, skip)
                mro = self.ix.prog.mro(self.obj)
                if sup:
                    i = [k.qual for k in mro].index(self.ci.qual) if self.ci.qual in [k.qual for k in mro] else -1
                    mro = mro[i + 1:]
                for q in mro:
                    if e.func.attr in q.methods:
                        n = q.methods[e.func.attr]
                        if self.depth < 8 and id(n) not in self.shared['stack'] and not any(ast.unparse(d) in ('staticmethod', 'classmethod', 'property') for d in n.decorator_list):
                            self.shared['stack'].add(id(n)); self.shared['seen'].add(id(n))
                            f = CtorFlow(self.ix, self.obj, q, n, self.shared, self.depth + 1)
                            f.loops = list(self.loops)
                            f.block(n.body, P)
                            self.shared['stack'].discard(id(n))
                        return
                return
            if isinstance(o, ast.Name) and False: return
        super().expr(e, P, skip)
    def target(self, t, P):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.me:
            Q = f_drop(P, self.variant) if self.loops else P
            self.shared['B'][t.attr] = f_or(self.shared['B'].get(t.attr, FALSE), Q)
            return
        super().target(t, P)
    def stmt(self, s, P):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Attribute):
            self.expr(s.value, P)
            self.expr(ast.copy_location(ast.Attribute(s.target.value, s.target.attr, ast.Load()), s.target), P)
            return TRUE
        return super().stmt(s, P)
    def use(self, n, P): pass

def constructors(ix, mod, add, count):
    prog = ix.prog
    done = set()
    for c in mod.classes.values():
        if prog.is_enum(c) or ix.class_attrs(c) is None: continue
        ctor = next((q for q in prog.mro(c) if '__init__' in q.methods), None)
        if ctor is None or c.qual in ix.sub: continue         # bases are walked as part of their subclasses
        cls = set()
        for q in prog.mro(c): cls |= set(q.methods) | set(q.consts) | set(q.anns)
        stored = {}
        for q in prog.mro(c):
            for m in q.methods.values():
                for n in ast.walk(m):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                        stored.setdefault(n.attr, set()).add(id(m))
        attrs = {a for a in stored if a not in cls and a not in ix.extern_store}
        sh = dict(B={}, attrs=attrs, bad={}, stack=set(), seen=set(), count=count)
        n = ctor.methods['__init__']
        sh['stack'].add(id(n)); sh['seen'].add(id(n))
        R = CtorFlow(ix, c, ctor, n, sh, 0).block(n.body, TRUE)
        # uses in the other methods
        later = {a for a in attrs if stored[a] <= sh['seen']}
        sh2 = dict(sh, attrs=later, stack=set(), B=dict(sh['B']))
        for q in prog.mro(c):
            for nm, m in q.methods.items():
                if id(m) in sh['seen'] or any(q2.methods.get(nm) is not m and nm in q2.methods for q2 in prog.mro(c)[:prog.mro(c).index(q)]): continue
                sh2['stack'] = {id(x) for k in prog.mro(c) for x in k.methods.values()}
                CtorFlow(ix, c, q, m, sh2, 8).block(m.body, R)
        for a, (f, e, w) in sh['bad'].items():
            k = (a, f.name)
            if k in done: continue
            done.add(k)
            when = ', '.join(f'{x} is {y}' for x, y in w.items() if not x.startswith('#')) or 'always'
            add(Finding('attributes are assigned on every path before they are used', f.mod.name, e, f.name, f'self.{a} is used but not assigned (line {e.lineno}) when: {when}'))

# ------------------------------------------------------------------ keys of returned dictionaries
def enum_tables(ix, mod, add, count):
    """a table keyed by the members of an enumeration and indexed by a value of it has every member"""
    T = ix.types
    for n in ast.walk(mod.tree):
        if not isinstance(n, ast.Dict) or len(n.keys) < 1 or any(k is None for k in n.keys): continue
        cs, mem = set(), set()
        for k in n.keys:
            t = T.static(k, mod.name) if isinstance(k, ast.Attribute) else None
            if not (t and t[0] == 'inst' and ix.prog.is_enum(t[1])): cs = None; break
            cs.add(t[1].qual); mem.add(k.attr); c = t[1]
        if not cs or len(cs) != 1: continue
        par = getattr(n, '_parent', None)
        names = [ast.unparse(t) for t in par.targets] if isinstance(par, ast.Assign) else []
        direct = isinstance(par, ast.Subscript) and par.value is n
        used = direct
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and ast.unparse(x.value) in names and not isinstance(x.slice, ast.Attribute) or \
               isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and ast.unparse(x.value) in names and T.static(x.slice, mod.name) is None:
                fn, h = x, False
                while fn is not None and not isinstance(fn, ast.FunctionDef):
                    q = getattr(fn, '_parent', None)
                    if isinstance(q, (ast.If, ast.IfExp, ast.Try)): h = True
                    fn = q
                inside = fn is None or any(isinstance(y, ast.Raise) and y.lineno < x.lineno for y in ast.walk(fn))
                if not h and not inside: used = True
        count[0] += 1
        miss = [q for q in c.consts if not q.startswith('_') and q not in mem]
        if used and miss:
            add(Finding('tables indexed by an option have every member', mod.name, n, 'module', f'no entry for {c.name}.{", ".join(miss)} (line {n.lineno}): {ast.unparse(n)[:120]}'))

def keys_of_call(ix):
    cache, busy = {}, set()
    def of(v, env, mod):
        """keys of the dictionary an expression provides: {key: condition}, None if unknown"""
        if not isinstance(v, ast.Call): return None
        f = ix.types.expr(v.func, env, mod)
        if not f or f[0] not in ('fn', 'meth'): return None
        n, ci = f[2], (f[1] if f[0] == 'meth' else None)
        if id(n) in cache: return cache[id(n)]
        if id(n) in busy: return None
        busy.add(id(n))
        r = None
        m = ci.module if ci else ix.prog.modules.get(f[1])
        if m is not None and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_scope(n)):
            fl = Flow(ix, m, n, ci, n.name, lambda x: None, [0]).run()
            outs = []
            for P, val in fl.returned:
                if isinstance(val, ast.Name) and val.id in fl.keys and val.id not in fl.keyopen:
                    outs.append({k: (TRUE if witness(f_and(P, f_not(c))) is None else c) for k, c in fl.keys[val.id].items()})
                elif isinstance(val, ast.Dict) and all(isinstance(k, ast.Constant) for k in val.keys):
                    outs.append({k.value: TRUE for k in val.keys})
                else:
                    q = of(val, fl.env, m.name) if val is not None else None
                    outs.append(q)
            if outs and all(o is not None for o in outs):
                r = {k: f_and(*[o.get(k, FALSE) for o in outs]) for k in set().union(*outs)}
        busy.discard(id(n))
        cache[id(n)] = r
        return r
    return of

def result_keys(ix, mod, add, count):
    for nm, fn, ci in functions(mod):
        env = ix.types.env(fn, ci)
        fl = Flow(ix, mod, fn, ci, nm, lambda x: None, [0]).run()
        vars_ = {}
        for n in walk_scope(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                vars_.setdefault(n.targets[0].id, []).append(n.value)
        for d in fl.keys:
            if d in fl.keyopen or d in fl.params: continue
            if d not in vars_ or fl.nstore.get(d, 0) != len(vars_[d]): continue
            have = fl.keys[d]
            for n in walk_scope(fn):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == d and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                    count[0] += 1
                    k = n.slice.value
                    if k not in have or have[k] == FALSE:
                        add(Finding('result keys exist', mod.name, n, nm, f'{d}[{k!r}] is read (line {n.lineno}) but no such key is ever provided; keys: {", ".join(sorted(have))[:200]}'))
                    elif have[k] != TRUE and not guarded_any(n, fn) and not any(isinstance(v, (ast.Dict,)) for v in vars_[d]):
                        w = witness(f_not(have[k]))
                        if w: add(Finding('result keys exist', mod.name, n, nm, f'{d}[{k!r}] is read on every path (line {n.lineno}) but not provided when: ' + ', '.join(f'{a} is {b}' for a, b in w.items())))

def guarded_any(n, fn):
    """under a condition, after an early exit, or in a handler"""
    p = n
    while p is not fn and p is not None:
        q = getattr(p, '_parent', None)
        if isinstance(q, (ast.If, ast.IfExp, ast.Try, ast.BoolOp)): return True
        p = q
    return any(isinstance(x, (ast.Return, ast.Raise, ast.Assert)) and x.lineno < n.lineno for x in walk_scope(fn))

def run(prog):
    ix = Index(prog)
    ix.keys_of = keys_of_call(ix)
    out = []
    counts = {}
    def rule(name, f):
        c = [0]
        for m in prog.modules.values():
            f(m, c)
        counts[name] = c[0]
    rule('names bound', lambda m, c: undefined_names(ix, m, out.append, c))
    rule('members, calls, unpacking', lambda m, c: members(ix, m, out.append, c))
    def flow(m, c):
        for nm, fn, ci in functions(m):
            Flow(ix, m, fn, ci, nm, out.append, c).run()
    rule('definite assignment', flow)
    rule('tables of options', lambda m, c: enum_tables(ix, m, out.append, c))
    rule('attributes assigned', lambda m, c: constructors(ix, m, out.append, c))
    rule('result keys', lambda m, c: result_keys(ix, m, out.append, c))
    return ix, out, counts
