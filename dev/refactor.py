"""Development aid: behaviour-preserving rewrites of the whole package; every check must stay quiet on them.

usage: refactor.py T1,T2,... [checks] [--tests] [--keep DIR]"""
import ast, sys, os, shutil, tempfile, subprocess, time, copy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Fn(ast.NodeTransformer):
    """base: transforms each function separately"""
    n = 0
    def fresh(self, p='tmp'):
        Fn.n += 1
        return f'_{p}_{Fn.n}'

def name(i, st=False): return ast.Name(i, ast.Store() if st else ast.Load())

class Noop(Fn):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        i = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        if not any(isinstance(d, ast.Name) and d.id == 'abstractmethod' for d in f.decorator_list):
            f.body.insert(i, ast.Assign([name('_unused', True)], ast.Constant(None), lineno=0))
        return f

class FlipIf(Fn):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            t = n.test
            t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
            n.test, n.body, n.orelse = t, n.orelse, n.body
        return n

class SwapCmp(Fn):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M and not isinstance(n.comparators[0], ast.Constant):
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.List, ast.Tuple)) and n.comparators[0].elts and isinstance(n.left, (ast.Name, ast.Attribute)):
            r = ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [x]) for x in n.comparators[0].elts])
            return r if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r)
        return n

class Rename(Fn):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        inner = [x for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f]
        glob = any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(f))
        if inner or glob: return f
        a = {x.arg for x in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - a
        fs = {x for y in ast.walk(f) if isinstance(y, ast.JoinedStr) for x in ast.unparse(y) if False}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc: x.id = x.id + '_r'
        for x in ast.walk(f):
            if isinstance(x, ast.ExceptHandler) and x.name: pass
        return f

class RetTmp(Fn):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)): return n
        t = self.fresh('ret')
        return [ast.Assign([name(t, True)], n.value, lineno=0), ast.Return(name(t))]

def stmts(f, tr):
    """apply tr(stmt) -> list to every statement list of node f"""
    for x in ast.walk(f):
        for fld in ('body', 'orelse', 'finalbody'):
            l = getattr(x, fld, None)
            if isinstance(l, list) and l and isinstance(l[0], ast.stmt):
                out = []
                for s in l: out += tr(s)
                setattr(x, fld, out)

class ArgTmp(Fn):
    """the first call argument which is itself a call is computed first"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        def tr(s):
            if isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign, ast.Return)) and isinstance(s.value, ast.Call) and s.value.args and isinstance(s.value.func, (ast.Name, ast.Attribute)):
                if isinstance(s, ast.AugAssign): return [s]
                if isinstance(s.value.func, ast.Attribute) and any(isinstance(x, ast.Call) for x in ast.walk(s.value.func)): return [s]
                if isinstance(s.value.func, ast.Name) and s.value.func.id == 'super': return [s]
                a = s.value.args[0]
                if isinstance(a, (ast.Name, ast.Constant, ast.Starred)): return [s]
                t = self.fresh('arg')
                s.value.args[0] = name(t)
                return [ast.Assign([name(t, True)], a, lineno=0), s]
            return [s]
        stmts(f, tr)
        return f

class Delegate(Fn):
    """every method delegates to an implementation method"""
    def visit_ClassDef(self, k):
        out = []
        for s in k.body:
            out.append(s)
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.name.startswith('__') and not s.args.vararg and not s.args.kwarg \
                    and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(s)):
                i = copy.deepcopy(s)
                i.name = '_impl_' + s.name
                i.args.defaults = []
                i.args.kw_defaults = [None] * len(i.args.kwonlyargs)
                i.returns = None
                ps = [a.arg for a in s.args.args[1:]]
                s.body = [ast.Return(ast.Call(ast.Attribute(name('self'), i.name, ast.Load()), [name(p) for p in ps], []))]
                out.append(i)
        k.body = out
        return k

class Enum2Range(Fn):
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and len(it.args) == 1 and isinstance(it.args[0], (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Tuple):
            i, x = n.target.elts
            n.body = [ast.Assign([x], ast.Subscript(copy.deepcopy(it.args[0]), ast.Name(i.id, ast.Load()), ast.Load()), lineno=0)] + n.body
            n.target = i
            n.iter = ast.Call(name('range'), [ast.Call(name('len'), [it.args[0]], [])], [])
        return n

class While(Fn):
    """for i in range(..) becomes a while loop (no continue inside)"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) in (1, 2) and isinstance(n.target, ast.Name) and not n.orelse \
                and not any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            c, e = self.fresh('i'), self.fresh('n')
            lo = it.args[0] if len(it.args) == 2 else ast.Constant(0)
            return [ast.Assign([name(c, True)], lo, lineno=0), ast.Assign([name(e, True)], it.args[-1], lineno=0),
                    ast.While(ast.Compare(name(c), [ast.Lt()], [name(e)]),
                              [ast.Assign([name(n.target.id, True)], name(c), lineno=0)] + n.body + [ast.AugAssign(name(c, True), ast.Add(), ast.Constant(1))], [])]
        return n

class CompLoop(Fn):
    """x = [e for a in b] becomes a loop"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        names = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        def tr(s):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.ListComp) and not any(g.is_async for g in s.value.generators):
                t = self.fresh('acc')
                ren = {}
                v = s.value
                b = [ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [v.elt], []))]
                for g in reversed(v.generators):
                    for c in reversed(g.ifs): b = [ast.If(c, b, [])]
                    b = [ast.For(g.target, g.iter, b, [], lineno=0)]
                tg = {x.id for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                m = {x: self.fresh(x) for x in tg}
                for q in b:
                    for x in ast.walk(q):
                        if isinstance(x, ast.Name) and x.id in m: x.id = m[x.id]
                return [ast.Assign([name(t, True)], ast.List([], ast.Load()), lineno=0)] + b + [ast.Assign(s.targets, name(t), lineno=0)]
            return [s]
        stmts(f, tr)
        return f

class TupleSplit(Fn):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        def tr(s):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts):
                ts = [self.fresh('t') for _ in s.value.elts]
                return [ast.Assign([name(t, True)], v, lineno=0) for t, v in zip(ts, s.value.elts)] + [ast.Assign([x], name(t), lineno=0) for t, x in zip(ts, s.targets[0].elts)]
            return [s]
        stmts(f, tr)
        return f

class IfExpStmt(Fn):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        def tr(s):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                v = s.value
                return [ast.If(v.test, [ast.Assign(s.targets, v.body, lineno=0)], [ast.Assign(copy.deepcopy(s.targets), v.orelse, lineno=0)])]
            return [s]
        stmts(f, tr)
        return f

class AugNum(Fn):
    """x += e becomes x = x + e for attributes cost and numbers; list += becomes extend"""
    def visit_AugAssign(self, n):
        if isinstance(n.op, ast.Add) and isinstance(n.value, (ast.List, ast.ListComp)) and isinstance(n.target, (ast.Name, ast.Attribute)):
            t = copy.deepcopy(n.target); t.ctx = ast.Load()
            return ast.Expr(ast.Call(ast.Attribute(t, 'extend', ast.Load()), [n.value], []))
        if isinstance(n.op, (ast.Mult, ast.Sub)) or isinstance(n.target, ast.Attribute) and n.target.attr == 'cost':
            t = copy.deepcopy(n.target); t.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value), lineno=0)
        return n

class SelfAlias(Fn):
    """attributes of self read several times in a method without being assigned anywhere in the method or by a call before are read once: only opts, model, ocp, problem"""
    def visit_FunctionDef(self, f):
        if f.name == '__init__' or not f.args.args or f.args.args[0].arg != 'self': return f
        st = {x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        use = {x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr in ('opts', 'model', 'ocp', 'problem')} - st
        if not use: return f
        m = {a: '_my_' + a for a in use}
        class R(ast.NodeTransformer):
            def visit_Attribute(s, n):
                if isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr in m: return name(m[n.attr])
                s.generic_visit(n); return n
        f.body = [R().visit(s) for s in f.body]
        i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body[i:i] = [ast.Assign([name(v, True)], ast.Attribute(name('self'), a, ast.Load()), lineno=0) for a, v in sorted(m.items())]
        return f

class BodyHelper(Fn):
    """every for loop body without control flow out becomes a nested function? only loops whose body stores no names"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        def tr(s):
            if isinstance(s, ast.For) and not s.orelse and not any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.Raise)) for b in s.body for x in ast.walk(b)):
                stored = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                inside = [n for b in s.body for n in ast.walk(b)]
                ids = {id(n) for n in inside}
                usedout = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and id(x) not in ids}
                if stored & usedout or '__class__' in stored: return [s]
                for v in stored:
                    top = next((i for i, b in enumerate(s.body) if any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(b))))
                    b = s.body[top]
                    if not (isinstance(b, ast.Assign) and not any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(b.value)) or isinstance(b, ast.For)): return [s]
                h = self.fresh('body')
                ps = [x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)]
                d = ast.FunctionDef(h, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), s.body, [], None, lineno=0)
                d.type_params = []
                s.body = [ast.Expr(ast.Call(name(h), [name(p) for p in ps], []))]
                return [d, s]
            return [s]
        # outermost loops only
        out = []
        def rec(l):
            o = []
            for s in l:
                if isinstance(s, ast.For): o += tr(s)
                else:
                    for fld in ('body', 'orelse'):
                        q = getattr(s, fld, None)
                        if isinstance(q, list) and q and isinstance(q[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)): setattr(s, fld, rec(q))
                    o.append(s)
            return o
        f.body = rec(f.body)
        return f

class Early(Fn):
    """trailing if/else of a function: the branch returns early"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if f.body and isinstance(f.body[-1], ast.If) and f.body[-1].orelse:
            s = f.body[-1]
            f.body = f.body[:-1] + [ast.If(s.test, s.body + [ast.Return(None)], [])] + s.orelse
        return f

class Kw(Fn):
    """module functions and methods called by position are called by keyword"""
    def __init__(self, sigs): self.sigs = sigs
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        k = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' else None
        if k in self.sigs and not any(isinstance(a, ast.Starred) for a in n.args) and not any(q.arg is None for q in n.keywords):
            ps = self.sigs[k]
            if len(n.args) <= len(ps):
                n.keywords = [ast.keyword(p, a) for p, a in list(zip(ps, n.args))[1:]][::-1] + n.keywords
                n.args = n.args[:1]
        return n

class Dict(Fn):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'dict' and not n.args and all(k.arg for k in n.keywords):
            return ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords])
        return n

T = dict(noop=Noop, flip=FlipIf, swap=SwapCmp, rename=Rename, ret=RetTmp, arg=ArgTmp, delegate=Delegate, enum=Enum2Range, loop=While, comp=CompLoop, tuple=TupleSplit, ifexp=IfExpStmt, aug=AugNum, alias=SelfAlias, body=BodyHelper, early=Early, kw=Kw, dict=Dict)

def make(ts, d):
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'build'), symlinks=True)
    sigs, dup = {}, set()
    for f in sorted(os.listdir(d + '/nosnoc')):
        if f.endswith('.py'):
            for x in ast.walk(ast.parse(open(f'{d}/nosnoc/{f}').read())):
                if isinstance(x, ast.FunctionDef):
                    ps = [a.arg for a in x.args.args]
                    if ps[:1] == ['self']: ps = ps[1:]
                    if x.name in sigs: dup.add(x.name)
                    if not x.args.vararg: sigs[x.name] = ps
    for x in dup: sigs.pop(x, None)
    for f in sorted(os.listdir(d + '/nosnoc')):
        if not f.endswith('.py') or f == '__init__.py': continue
        p = f'{d}/nosnoc/{f}'
        t = ast.parse(open(p).read())
        for k in ts:
            if not k: continue
            t = ast.fix_missing_locations((T[k](sigs) if k == 'kw' else T[k]()).visit(t))
        s = ast.unparse(t)
        compile(s, f, 'exec')
        open(p, 'w').write(s + '\n')

def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    ts = a[0].split(',')
    base = tempfile.mkdtemp(prefix='refac')
    d = base + '/repo'
    make(ts, d)
    if '--keep' in sys.argv: print(d)
    if '--tests' in sys.argv:
        r = subprocess.run(f'. /opt/vp/env.sh; cd {d} && PYTHONPATH={d} python -m pytest -q -x -n 8 test 2>&1 | tail -5 || true', shell=True, capture_output=True, text=True, executable='/bin/bash')
        print('tests', r.stdout[-400:], r.stderr[-200:])
    import json
    ids = a[1].split(',') if len(a) > 1 else [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    if ids != ['none']:
        for i in ids:
            t = time.time()
            e = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=base)
            r = subprocess.run([sys.executable, V + '/check.py', i], cwd=V, env=e, capture_output=True, text=True)
            bad = [l for l in r.stdout.splitlines() if 'violations,' not in l]
            try:
                ev = json.load(open(f'{base}/{i}.json'))
                und = [len(x.get('undecided', [])) for x in ev['coverage'].values() if isinstance(x, dict)]
                us = [u for x in ev['coverage'].values() if isinstance(x, dict) for u in x.get('undecided', [])]
            except Exception as ex:
                und, us = str(ex), []
            print(f"{a[0]} {i} rc={r.returncode} {time.time()-t:.0f}s undecided={und}", *([] if r.returncode == 0 else bad[:6] + r.stderr.splitlines()[-3:]), *[u[:200] for u in us[:2]], sep='\n   ' if r.returncode or us else ' ')
            sys.stdout.flush()
    if '--keep' not in sys.argv: shutil.rmtree(base)
if __name__ == '__main__':
    main()
