"""Parsed program: modules, functions, classes and name resolution of the analysed package."""
import ast, os, hashlib

class ClassInfo:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.qual = module.name + '.' + node.name
        self.methods, self.consts, self.bases, self.anns = {}, {}, [], {}
        for b in node.bases:
            self.bases.append(b)
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        for s in node.body:
            if isinstance(s, (ast.FunctionDef,)):
                self.methods[s.name] = s
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.anns[s.target.id] = s.annotation
                if s.value is not None:
                    self.consts[s.target.id] = s.value

class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        pkg = name.rsplit('.', 1)[0] if '.' in name else name
        for s in ast.walk(self.tree):
            for c in ast.iter_child_nodes(s):
                c._parent = s
        for s in self.tree.body:
            self._top(s, pkg)
    def _top(self, s, pkg):
        if isinstance(s, ast.FunctionDef):
            self.funcs[s.name] = s
        elif isinstance(s, ast.ClassDef):
            self.classes[s.name] = ClassInfo(self, s)
        elif isinstance(s, ast.Import):
            for a in s.names:
                self.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
        elif isinstance(s, ast.ImportFrom):
            base = s.module or ''
            if s.level:
                base = pkg + ('.' + base if base else '')
            for a in s.names:
                self.imports[a.asname or a.name] = ('from', base, a.name)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.consts[t.id] = s.value
                elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                    for x, v in zip(t.elts, s.value.elts):
                        if isinstance(x, ast.Name):
                            self.consts[x.id] = v
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
            self.consts[s.target.id] = s.value
        elif isinstance(s, (ast.If, ast.Try)):
            for x in s.body:
                self._top(x, pkg)

class Program:
    def __init__(self, root, package='nosnoc'):
        self.root, self.package = root, package
        self.modules = {}
        self.digest = hashlib.sha256()
        d = os.path.join(root, package)
        for dp, dn, fs in sorted(os.walk(d)):
            dn.sort()
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.add(rel, p)
    def add(self, name, path):
        src = open(path, encoding='utf-8').read()
        self.digest.update(src.encode())
        m = Module(name, path, src)
        if path.endswith('__init__.py'):
            # relative imports of a package resolve against itself
            m = Module.__new__(Module)
            m.name, m.path, m.src = name, path, src
            m.tree = ast.parse(src, path)
            m.funcs, m.classes, m.imports, m.consts = {}, {}, {}, {}
            for s in ast.walk(m.tree):
                for c in ast.iter_child_nodes(s):
                    c._parent = s
            for s in m.tree.body:
                m._top(s, name)
        self.modules[name] = m
        return m
    def resolve(self, modname, name, depth=0):
        """resolve a global name -> ('func', module, node) | ('class', ClassInfo) | ('mod', dotted)
        | ('const', module, expr) | ('ext', dotted) | None"""
        m = self.modules.get(modname)
        if m is None or depth > 8:
            return ('ext', modname + '.' + name)
        if name in m.funcs:
            return ('func', m, m.funcs[name])
        if name in m.classes:
            return ('class', m.classes[name])
        if name in m.consts:
            return ('const', m, m.consts[name])
        if name in m.imports:
            i = m.imports[name]
            if i[0] == 'mod':
                return ('mod', i[1])
            full = i[1] + '.' + i[2]
            if full in self.modules:
                return ('mod', full)
            if i[1] in self.modules:
                return self.resolve(i[1], i[2], depth + 1)
            return ('ext', full)
        if modname + '.' + name in self.modules:
            return ('mod', modname + '.' + name)
        return None
    def mro(self, ci):
        out, seen = [], set()
        def go(c):
            if c.qual in seen:
                return
            seen.add(c.qual)
            out.append(c)
            for b in c.bases:
                if isinstance(b, ast.Name):
                    r = self.resolve(c.module.name, b.id)
                    if r and r[0] == 'class':
                        go(r[1])
        go(ci)
        return out
    def is_enum(self, ci):
        for c in self.mro(ci):
            for b in c.bases:
                n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else ''
                if n in ('Enum', 'IntEnum', 'Flag', 'IntFlag', 'StrEnum'):
                    return True
        return False
    def find_class(self, name):
        for m in self.modules.values():
            if name in m.classes:
                return m.classes[name]
        return None
    def find_func(self, qual):
        """'Class.method' or 'module:function'"""
        if ':' in qual:
            mod, f = qual.split(':')
            return self.modules[mod].funcs.get(f)
        c, f = qual.split('.')
        ci = self.find_class(c)
        return ci.methods.get(f) if ci else None
