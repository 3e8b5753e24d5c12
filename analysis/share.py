"""Ownership: what is changed in place belongs to the object that changes it.

For every attribute that is changed in place anywhere in the package the values assigned to it must be owned
up to the depth of the change: not a parameter, a default argument, a class-level or module-level object or
an attribute of another object.  Parameters of the public interface are never changed in place."""
import ast
from .lint import Index, Finding, functions, walk_scope, bound_names, COMPS

INF = 99
MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'sort', 'reverse', 'setdefault', 'add', 'discard', 'fill', 'resize', 'popitem', 'partition', 'put', 'itemset', 'setflags', 'difference_update', 'intersection_update', 'symmetric_difference_update'}
VIEW = {'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'ravel', 'squeeze', 'reshape', 'transpose', 'view', 'flat', 'T', 'ascontiguousarray', 'asfarray', 'broadcast_to'}

def alternatives(e):
    if isinstance(e, ast.IfExp): return alternatives(e.body) + alternatives(e.orelse)
    if isinstance(e, ast.BoolOp): return [x for v in e.values for x in alternatives(v)]
    return [e]

class Own:
    def __init__(self, prog):
        self.ix = Index(prog)
        self.prog, self.T = prog, self.ix.types
        self.out, self.sites, self.checked = [], 0, 0
        self.busy = set()
    def add(self, *a):
        f = Finding(*a)
        if (f.site(), f.text) not in {(x.site(), x.text) for x in self.out}:
            self.out.append(f)
    # ---------------------------------------------------------- places
    def local_values(self, fn):
        """assignments to each local"""
        d = {}
        for n in walk_scope(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name): d.setdefault(t.id, []).append(n.value)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): d.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None: d.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.NamedExpr): d.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.For):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name): d.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        for x in ast.walk(i.optional_vars):
                            if isinstance(x, ast.Name): d.setdefault(x.id, []).append(None)
        return d
    def place(self, e, c, depth=0, seen=frozenset()):
        """(root, depth): what an in-place change of e changes; root is an attribute node or a parameter or global name"""
        if isinstance(e, ast.Subscript): return self.place(e.value, c, depth + 1, seen)
        if isinstance(e, ast.Attribute):
            if e.attr == 'T': return self.place(e.value, c, depth, seen)
            return [(e, depth)]
        if isinstance(e, ast.Call):
            f = e.func
            n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if n in VIEW and isinstance(f, ast.Attribute):
                t = self.T.expr(f.value, c['env'], c['mod'])
                if t and t[0] == 'mod': return self.place(e.args[0], c, depth, seen) if e.args else []
                return self.place(f.value, c, depth, seen)
            if n in ('get', 'setdefault') and isinstance(f, ast.Attribute): return self.place(f.value, c, depth + 1, seen)
            return []
        if isinstance(e, ast.Name):
            if e.id in seen: return []
            vs = c['vals'].get(e.id)
            if vs is None:
                if e.id in c['params']: return [(('param', e.id), depth)]
                if e.id not in c['locals']: return [(('global', e.id), depth)]
                return []
            out = []
            if e.id in c['params'] and not any(self.top(v, c) for v in vs): out.append((('param', e.id), depth))
            for v in vs:
                if v is not None and isinstance(v, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)):
                    # a slice or an element of numbers is not known to be a view
                    if isinstance(v, ast.Subscript) and isinstance(v.slice, (ast.Slice, ast.Tuple)): continue
                    out += self.place(v, c, depth, seen | {e.id})
            return out
        return []
    def top(self, v, c):
        """a rebinding at the beginning of the function"""
        return v is not None and self.fresh(v, c) > 0 and v in c['early']
    # ---------------------------------------------------------- ownership of values
    def fresh(self, e, c, seen=frozenset()):
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr, ast.BinOp, ast.UnaryOp, ast.Compare, ast.Lambda)): return INF
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return 1 + min([self.fresh(x.value if isinstance(x, ast.Starred) else x, c, seen) for x in e.elts] + [INF])
        if isinstance(e, ast.Dict):
            return 1 + min([self.fresh(x, c, seen) for x in e.values] + [INF])
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return 1 + (self.fresh(e.elt, c, seen | {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}) if not isinstance(e.elt, ast.Name) else
                        0 if any(self.fresh(g.iter, c, seen) < 2 for g in e.generators if isinstance(g.target, ast.Name) and g.target.id == e.elt.id) else INF)
        if isinstance(e, ast.DictComp):
            return 1 + (INF if not isinstance(e.value, ast.Name) else
                        0 if any(self.fresh(g.iter.func.value if isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) else g.iter, c, seen) < 2 for g in e.generators) else INF)
        if isinstance(e, ast.IfExp): return min(self.fresh(e.body, c, seen), self.fresh(e.orelse, c, seen))
        if isinstance(e, ast.BoolOp): return min(self.fresh(x, c, seen) for x in e.values)
        if isinstance(e, ast.NamedExpr): return self.fresh(e.value, c, seen)
        if isinstance(e, ast.Name):
            if e.id in seen: return INF
            vs = c['vals'].get(e.id)
            if vs is None:
                if e.id in c['params']: return 0
                if e.id in c['locals']: return INF
                r = self.prog.resolve(c['mod'], e.id)
                return 0 if r and r[0] == 'const' and self.mutable(r[2]) else INF
            fs = [self.fresh(v, c, seen | {e.id}) for v in vs]
            if e.id in c['params'] and not any(v in c['early'] for v in vs):
                fs.append(0)
            return min(fs)
        if isinstance(e, ast.Attribute):
            t = self.T.expr(e.value, c['env'], c['mod'])
            if t and t[0] == 'inst' and isinstance(e.value, ast.Name) and e.value.id == 'self':
                for k in self.prog.mro(t[1]):
                    if e.attr in k.consts and self.mutable(k.consts[e.attr]) and not any(d.startswith('dataclass') and e.attr in k.anns for d in k.decorators): return 0
                return INF      # another attribute of the same object
            if t and t[0] == 'cls':
                for k in self.prog.mro(t[1]):
                    if e.attr in k.consts and self.mutable(k.consts[e.attr]): return 0
                return INF
            if t and t[0] in ('mod', 'ext'): return INF
            return 0
        if isinstance(e, ast.Subscript):
            f = self.fresh(e.value, c, seen)
            if isinstance(e.slice, (ast.Slice, ast.Tuple)): return INF if f else INF
            return max(0, f - 1) if f < INF else INF
        if isinstance(e, ast.Call):
            f = e.func
            n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
            t = self.T.expr(f, c['env'], c['mod'])
            if n == 'deepcopy': return INF
            if n == 'copy' and (isinstance(f, ast.Name) or t and t[0] == 'ext') and e.args: return 1 + self.inner(e.args[0], c, seen)
            if n == 'copy' and isinstance(f, ast.Attribute): return 1 + self.inner(f.value, c, seen)
            if n in ('dict', 'list', 'set', 'tuple', 'OrderedDict') and isinstance(f, ast.Name):
                return 1 + min([self.inner(a, c, seen) for a in e.args] + [self.inner(k.value, c, seen) if k.arg is None else self.fresh(k.value, c, seen) for k in e.keywords] + [INF])
            if n in VIEW and isinstance(f, ast.Attribute):
                b = self.T.expr(f.value, c['env'], c['mod'])
                if b and b[0] == 'mod': return self.fresh(e.args[0], c, seen) if e.args else INF
                return self.fresh(f.value, c, seen)
            if n == 'array' and t and t[0] == 'ext' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords):
                return self.fresh(e.args[0], c, seen) if e.args else INF
            if n == 'get' and isinstance(f, ast.Attribute) and e.args:
                b = self.fresh(f.value, c, seen)
                return max(0, b - 1) if b < INF else INF
            if t and t[0] in ('fn', 'meth'):
                return self.returned(t, e, c, seen)
            return INF
        return INF
    def inner(self, e, c, seen):
        """ownership of the elements of e"""
        if isinstance(e, (ast.List, ast.Tuple, ast.Set, ast.Dict, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            return self.fresh(e, c, seen) - 1
        return max(0, self.fresh(e, c, seen) - 1) if self.fresh(e, c, seen) < INF else INF
    def returned(self, t, call, c, seen):
        n, ci = t[2], (t[1] if t[0] == 'meth' else None)
        if id(n) in self.busy: return INF
        self.busy.add(id(n))
        mod = ci.module.name if ci else t[1]
        q = self.context(n, ci, mod)
        r = INF
        ps = [p.arg for p in n.args.posonlyargs + n.args.args]
        if t[0] == 'meth' and t[3]: ps = ps[1:]
        args = dict(zip(ps, call.args))
        args.update({k.arg: k.value for k in call.keywords if k.arg})
        cached = any('cache' in ast.unparse(d) for d in n.decorator_list)
        for x in walk_scope(n):
            if isinstance(x, ast.Return) and x.value is not None:
                v = x.value
                if isinstance(v, ast.Name) and v.id in q['params'] and v.id not in q['vals']:
                    f = self.fresh(args[v.id], c, seen) if v.id in args else INF
                else:
                    f = self.fresh(v, q)
                r = min(r, 0 if cached and self.container(v, q) else f)
        self.busy.discard(id(n))
        return r
    def container(self, v, c):
        return not isinstance(v, (ast.Constant, ast.Compare, ast.JoinedStr))
    def mutable(self, e):
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)): return True
        if isinstance(e, ast.Call):
            n = ast.unparse(e.func)
            if n in ('field', 'dataclasses.field'):
                return False
            if n.split('.')[-1] in ('list', 'dict', 'set', 'defaultdict', 'OrderedDict', 'deque', 'Counter', 'bytearray'): return True
            if n.split('.')[0] in ('np', 'numpy') and n.split('.')[-1] in ('array', 'zeros', 'ones', 'full', 'eye', 'empty', 'arange', 'linspace'):
                # arrays without elements have no state
                a = e.args[0] if e.args else None
                return not (isinstance(a, (ast.List, ast.Tuple)) and n.endswith('array') and not a.elts or isinstance(a, ast.Constant) and a.value == 0 or isinstance(a, ast.Tuple) and any(isinstance(x, ast.Constant) and x.value == 0 for x in a.elts))
        return False
    def context(self, fn, ci, mod):
        a = fn.args
        params = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} - ({'self'} if ci else set())
        vals = self.local_values(fn)
        early, body = [], fn.body
        for s in body:          # unconditional rebindings
            if isinstance(s, ast.Assign): early.append(s.value)
        return dict(fn=fn, ci=ci, mod=mod, env=self.T.env(fn, ci), params=params, vals=vals, locals=bound_names(fn), early=early)
    # ---------------------------------------------------------- changes in place
    def changes(self, fn):
        """(expression changed in place, its node, extra depth)"""
        for n in walk_scope(fn):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)) else []
            for t in ts:
                for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                    if isinstance(x, ast.Subscript): yield x, n
                    elif isinstance(x, (ast.Name, ast.Attribute)) and isinstance(n, ast.AugAssign): yield ast.copy_location(ast.Subscript(x, ast.Constant(0), ast.Load()), x), n
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                yield ast.copy_location(ast.Subscript(n.func.value, ast.Constant(0), ast.Load()), n), n
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg == 'out': yield ast.copy_location(ast.Subscript(k.value, ast.Constant(0), ast.Load()), n), n
                if ast.unparse(n.func) in ('np.copyto', 'np.put', 'np.place', 'np.fill_diagonal', 'numpy.copyto', 'random.shuffle', 'np.random.shuffle') and n.args:
                    yield ast.copy_location(ast.Subscript(n.args[0], ast.Constant(0), ast.Load()), n), n
    def owner(self, e, c):
        """classes whose attribute an attribute node denotes"""
        t = self.T.expr(e.value, c['env'], c['mod'])
        if t and t[0] == 'inst': return self.prog.mro(t[1]) + self.ix.sub.get(t[1].qual, [])
        if t and t[0] == 'cls': return self.prog.mro(t[1])
        if t is not None and t[0] in ('mod', 'ext'): return []
        return [k for k in self.ix.classes if e.attr in self.ix.attrs[k.qual]]
    def inplace_aug(self, ks, attr):
        """is += on this attribute a change in place?  only if some value of it is a list or an array"""
        for k in ks:
            if attr in k.consts and self.mutable(k.consts[attr]): return True
        for m in self.prog.modules.values():
            for nm, fn, ci in functions(m):
                for n in walk_scope(fn):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr == attr and any(isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Call) and ast.unparse(v.func).startswith(('np.', 'numpy.', 'list')) for v in alternatives(n.value)): return True
        return False
    def run(self):
        ctxs = []
        for m in self.prog.modules.values():
            for nm, fn, ci in functions(m):
                c = self.context(fn, ci, m.name)
                c['name'] = nm; c['m'] = m
                ctxs.append(c)
        changed = {}            # (class, attr) -> max depth, example
        self.calls = {}
        for c in ctxs:
            for n in walk_scope(c['fn']):
                if isinstance(n, ast.Call):
                    f = n.func
                    nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
                    if nm: self.calls.setdefault(nm, []).append((c, n))
        self.callnames = set(self.calls)
        public = self.public()
        for c in ctxs:
            for e, n in self.changes(c['fn']):
                self.sites += 1
                self.effect(e, n, c, 0, changed, public, set())
        # default arguments
        for c in ctxs:
            a = c['fn'].args
            ps = a.posonlyargs + a.args
            for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if not self.mutable(d): continue
                self.checked += 1
                for e, n in self.changes(c['fn']):
                    if any(r == ('param', p.arg) for r, _ in self.place(e, c)):
                        self.add('default arguments are not shared', c['mod'], n, c['name'], f'the default of {p.arg} is one object for all calls and is changed in place: {ast.unparse(n)[:100]} (line {n.lineno})')
                for n in walk_scope(c['fn']):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            if isinstance(t, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p.arg and p.arg not in c['vals']:
                                self.add('default arguments are not shared', c['mod'], n, c['name'], f'the default of {p.arg} is one object for all calls and is kept: {ast.unparse(n)[:100]} (line {n.lineno})')
        # class-level objects
        for k in self.ix.classes:
            for a, v in k.consts.items():
                if self.prog.is_enum(k): continue
                dc = any(d.startswith(('dataclass', 'dataclasses.dataclass')) for d in k.decorators)
                if dc and a in k.anns:
                    if isinstance(v, ast.Call) and ast.unparse(v.func).endswith('field'):
                        for q in v.keywords:
                            if q.arg == 'default_factory' and isinstance(q.value, ast.Lambda):
                                b = q.value.body
                                self.checked += 1
                                if isinstance(b, (ast.Name, ast.Attribute)):
                                    self.add('defaults of fields are not shared', k.module.name, v, k.name, f'field {a}: the factory returns the same object {ast.unparse(b)} every time (line {v.lineno})')
                            if q.arg == 'default' and self.mutable(q.value):
                                self.add('defaults of fields are not shared', k.module.name, v, k.name, f'field {a}: one default object for all instances (line {v.lineno})')
                    continue
                if not self.mutable(v): continue
                self.checked += 1
                # users and methods may change it through an instance: each instance needs its own
                own = self.rebound(k, a)
                need = self.nesting(k, a)
                if own < need:
                    why = 'no instance has its own copy' if own < 0 else f'instances share it (copied {own} of {need} levels deep)'
                    self.add('class-level objects are copied per instance', k.module.name, v, k.name, f'{k.name}.{a} is one object for all instances and {why} (line {v.lineno})')
        # attributes changed in place
        for (q, a), (d, c0, n0, k) in sorted(changed.items(), key=lambda x: x[0]):
            for c in ctxs:
                for n in walk_scope(c['fn']):
                    if not isinstance(n, (ast.Assign, ast.AnnAssign)) or n.value is None: continue
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Attribute) and t.attr == a and any(x.qual == q for x in self.owner(t, c)):
                            self.checked += 1
                            f = self.fresh(n.value, c)
                            if f < d:
                                self.add('what is changed in place is owned', c['mod'], n, c['name'],
                                         f'{ast.unparse(n)[:100]} (line {n.lineno}) keeps an object that belongs to somebody else, and {c0["name"]} changes it in place: {ast.unparse(n0)[:100]} (line {n0.lineno})')
        return self
    def effect(self, e, n, c, extra, changed, public, seen):
        """n changes e in place, at this depth"""
        for root, d in self.place(e, c):
            d += extra
            if isinstance(root, ast.Attribute):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and not self.inplace_aug(self.owner(root, c), root.attr): continue
                for k in self.owner(root, c):
                    if d > changed.get((k.qual, root.attr), (0,))[0]: changed[(k.qual, root.attr)] = (d, c, n, k)
            elif root[0] == 'param':
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    if d != 1 or not self.arrayish(root[1], c): continue
                if (id(c['fn']), root[1], d) in seen or d > 6: continue
                seen.add((id(c['fn']), root[1], d))
                if self.called(c):
                    for c2, call in self.calls[c['fn'].name]:
                        t = self.T.expr(call.func, c2['env'], c2['mod'])
                        if t and t[0] in ('fn', 'meth') and t[2] is not c['fn']: continue
                        ps = [p.arg for p in c['fn'].args.posonlyargs + c['fn'].args.args]
                        if c['ci'] is not None and isinstance(call.func, ast.Attribute): ps = ps[1:]
                        args = dict(zip(ps, call.args))
                        args.update({k.arg: k.value for k in call.keywords if k.arg})
                        if root[1] in args:
                            self.effect(args[root[1]], n, c2, d, changed, public, seen)
                if id(c['fn']) in public and (not self.called(c) or self.arrayish(root[1], c, False)):
                    self.add('arguments of the public interface are not changed in place', c['mod'], n, c['name'], f'argument {root[1]} is changed in place: {ast.unparse(n)[:100]} (line {n.lineno})')
            elif root[0] == 'global':
                r = self.prog.resolve(c['mod'], root[1])
                if r and r[0] == 'const' and self.mutable(r[2]) and not self.memo(n, root[1], c):
                    self.add('no object of a module is changed in place', c['mod'], n, c['name'], f'{root[1]} belongs to the module and is shared by all objects: {ast.unparse(n)[:100]} (line {n.lineno})')
    def called(self, c):
        """the package itself calls this function: its arguments are judged where they come from"""
        nm = c['fn'].name
        return nm != '__init__' and nm in self.callnames
    def memo(self, n, name, c):
        """a table filled with values that depend only on its key"""
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Name):
            key = {x.id for x in ast.walk(n.targets[0].slice) if isinstance(x, ast.Name)}
            for k in list(key):
                for v in c['vals'].get(k, []):
                    if v is not None: key |= {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
            return bool(c['params']) and c['params'] <= key
        return False
    def arrayish(self, p, c, lists=True):
        ann = next((x.annotation for x in c['fn'].args.args if x.arg == p), None)
        return ann is not None and ('ndarray' in ast.unparse(ann) or lists and 'ist' in ast.unparse(ann))
    def public(self):
        out = set()
        init = self.prog.modules.get(self.prog.package)
        for nm in (init.imports if init else {}):
            r = self.prog.resolve(init.name, nm)
            if r and r[0] == 'func': out.add(id(r[2]))
            if r and r[0] == 'class':
                for k in self.prog.mro(r[1]):
                    for n, m in k.methods.items():
                        if not n.startswith('_') or n in ('__init__', '__call__'): out.add(id(m))
        # constructors of dataclass-free public classes only keep what they get; changes are judged per attribute
        return out
    def rebound(self, k, a):
        """how deep an instance's own copy is after construction; -1: none"""
        best = None
        for q in [k] + self.ix.sub.get(k.qual, []):
            for mn in ('__init__', '__post_init__'):
                m = next((x.methods[mn] for x in self.prog.mro(q) if mn in x.methods), None)
                if m is None: continue
                ci = next(x for x in self.prog.mro(q) if mn in x.methods)
                c = self.context(m, ci, ci.module.name)
                for s in m.body:
                    for n in ([s] if isinstance(s, (ast.Assign, ast.AnnAssign)) else []):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            if isinstance(t, ast.Attribute) and t.attr == a and isinstance(t.value, ast.Name) and t.value.id == 'self' and n.value is not None:
                                f = self.fresh(n.value, c)
                                best = f if best is None else max(best, f)
                    # a helper called on self
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == 'self':
                        h = next((x.methods[s.value.func.attr] for x in self.prog.mro(q) if s.value.func.attr in x.methods), None)
                        if h is not None:
                            c2 = self.context(h, ci, ci.module.name)
                            for n in h.body:
                                if isinstance(n, ast.Assign):
                                    for t in n.targets:
                                        if isinstance(t, ast.Attribute) and t.attr == a and isinstance(t.value, ast.Name) and t.value.id == 'self':
                                            f = self.fresh(n.value, c2)
                                            best = f if best is None else max(best, f)
        return -1 if best is None else best
    def nesting(self, k, a):
        """levels of containers in a class-level object"""
        def lev(e):
            if isinstance(e, ast.Dict): return 1 + max([lev(v) for v in e.values] + [0])
            if isinstance(e, (ast.List, ast.Tuple, ast.Set)): return 1 + max([lev(v) for v in e.elts] + [0])
            return 1 if self.mutable(e) else 0
        n = lev(k.consts[a])
        for s in k.node.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    d, x = 0, t
                    while isinstance(x, ast.Subscript): d, x = d + 1, x.value
                    if isinstance(x, ast.Name) and x.id == a and d: n = max(n, d + lev(s.value))
        return n
