"""Development aid: mutation sweep.  sweep.py gen FILE N SEED -> /tmp/sweep/FILE.json; sweep.py test FILE; sweep.py check FILE
Generates small syntactic changes, keeps those that pass the tests, and lists which properties report them."""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('SWEEP', '/tmp/sweep')
NEAR = [('lam', 'theta'), ('lambda_n', 'lambda_p'), ('ind_lambda_n', 'ind_lambda_p'), ('lbw', 'ubw'), ('lbg', 'ubg'), ('n_x', 'n_u'), ('n_x', 'n_z'), ('n_f_sys', 'n_c_sys'),
        ('ind_theta', 'ind_lam'), ('ind_x', 'ind_z'), ('ind_x', 'ind_v'), ('lbx', 'ubx'), ('lbu', 'ubu'), ('prev_fe', 'self'), ('n_s', 'N_stages'), ('x', 'z'), ('n_p_glob', 'n_p_time_var'),
        ('sigma_0', 'sigma_N'), ('w0', 'lbw'), ('x0', 'x'), ('z0', 'z'), ('fe_idx', 'ctrl_idx'), ('append', 'extend'), ('zeros', 'ones'), ('vertcat', 'horzcat'), ('min', 'max'),
        ('any', 'all'), ('ctrl_idx', 'fe_idx'), ('norm_inf', 'norm_1'), ('mmin', 'mmax'), ('sum1', 'sum2'), ('fmin', 'fmax'), ('i', 'j'), ('ii', 'jj'), ('lbz', 'ubz'), ('hstack', 'vstack'), ('lbv_global', 'ubv_global')]
SW = {}
for a, b in NEAR:
    SW.setdefault(a, []).append(b)
    SW.setdefault(b, []).append(a)

def mutants(path):
    src = open(path).read()
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    at = lambda l, c: off[l - 1] + len(lines[l - 1].encode()[:c].decode())
    pos = lambda n: (at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset))
    seg = lambda n: src[pos(n)[0]:pos(n)[1]]
    tree = ast.parse(src)
    out = []
    funcs = {}
    def add(n, new, kind):
        a, b = pos(n)
        if src[a:b] != new:
            out.append(dict(a=a, b=b, new=new, old=src[a:b], line=n.lineno, kind=kind))
    enums = {}
    for n in ast.walk(ast.parse(open('/repo/nosnoc/nosnoc_types.py').read())):
        if isinstance(n, ast.ClassDef):
            enums[n.name] = [t.targets[0].id for t in n.body if isinstance(t, ast.Assign)]
    def visit(n, infun):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in ('__repr__',):
            return
        if isinstance(n, ast.FunctionDef):
            infun = True
        if isinstance(n, (ast.JoinedStr,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            return
        if isinstance(n, ast.Raise):
            return
        if infun:
            if isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and 'print' not in seg(n):
                add(n, 'pass', 'delete')
            if isinstance(n, ast.AugAssign):
                add(n, seg(n).replace('+=', '=', 1) if isinstance(n.op, ast.Add) else seg(n), 'aug')
            if isinstance(n, ast.If):
                add(n.test, 'not (' + seg(n.test) + ')', 'negate')
                if seg(n.test)[:4] != 'True':
                    add(n.test, 'True', 'true'); add(n.test, 'False', 'false')
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                o = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}.get(type(n.ops[0]))
                if o:
                    add(n, f'{seg(n.left)} {o} {seg(n.comparators[0])}', 'cmp')
            if isinstance(n, ast.BoolOp):
                for i in range(len(n.values)):
                    rest = [seg(v) for j, v in enumerate(n.values) if j != i]
                    add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')', 'dropbool')
                add(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join(seg(v) for v in n.values) + ')', 'andor')
            if isinstance(n, ast.BinOp):
                o = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}.get(type(n.op))
                if o and not isinstance(n.left, ast.List) and not isinstance(n.right, ast.List) and not isinstance(n.left, (ast.JoinedStr,)):
                    add(n, f'{seg(n.left)} {o} {seg(n.right)}', 'arith')
                add(n, '(' + seg(n.left) + ')', 'left')
                if not isinstance(n.op, ast.Sub):
                    add(n, '(' + seg(n.right) + ')', 'right')
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
                add(n, seg(n.operand), 'sign')
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                add(n, repr(n.value + 1), 'plus')
                if n.value:
                    add(n, repr(n.value - 1), 'minus')
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(n, repr(not n.value), 'bool')
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
                add(n, '0', 'zero')
            if isinstance(n, ast.Attribute):
                for o in SW.get(n.attr, []):
                    add(n, seg(n.value) + '.' + o, 'attr')
                if isinstance(n.value, ast.Name) and n.value.id in enums and n.attr in enums[n.value.id]:
                    for o in enums[n.value.id]:
                        add(n, n.value.id + '.' + o, 'enum')
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for o in SW.get(n.id, []):
                    add(n, o, 'name')
            if isinstance(n, ast.Call):
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                    for i in range(len(n.args) - 1):
                        a, b = n.args[i], n.args[i + 1]
                        t = src[pos(n)[0]:pos(a)[0]] + seg(b) + src[pos(a)[1]:pos(b)[0]] + seg(a) + src[pos(b)[1]:pos(n)[1]]
                        add(n, t, 'swapargs')
                if len(n.args) == 1 and isinstance(n.func, ast.Name) and n.func.id in ('flatten', 'list', 'np.array', 'sorted', 'reversed', 'flatten_layer'):
                    add(n, seg(n.args[0]), 'unwrap')
                if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
                    add(n, seg(n.func.value), 'nocopy')
                if len(n.args) == 1 and isinstance(n.func, ast.Attribute) and n.func.attr in ('deepcopy', 'copy', 'simplify', 'flatten', 'array'):
                    add(n, seg(n.args[0]), 'unwrap')
            if isinstance(n, ast.Slice):
                if n.lower is not None:
                    a, b = pos(n.lower)
                    out.append(dict(a=a, b=b, new='', old=src[a:b], line=n.lower.lineno, kind='slice'))
            if isinstance(n, ast.IfExp):
                add(n, seg(n.body), 'ifexp'); add(n, seg(n.orelse), 'ifexp')
            if isinstance(n, (ast.For,)) and len(n.body) == 1 and False:
                pass
            if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple):
                pass
        for c in ast.iter_child_nodes(n):
            visit(c, infun)
    visit(tree, False)
    ok, seen = [], set()
    for m in out:
        t = src[:m['a']] + m['new'] + src[m['b']:]
        if t in seen:
            continue
        seen.add(t)
        try:
            compile(t, path, 'exec')
        except SyntaxError:
            continue
        ok.append(m)
    return src, ok

def tests(job):
    f, src, m = job
    tmp = tempfile.mkdtemp(prefix='swp', dir=W)
    try:
        shutil.copytree('/repo/nosnoc', tmp + '/nosnoc')
        shutil.copytree('/repo/test', tmp + '/test')
        if os.path.isdir('/repo/examples'):
            os.symlink('/repo/examples', tmp + '/examples')
        open(f'{tmp}/nosnoc/{f}', 'w').write(src[:m['a']] + m['new'] + src[m['b']:])
        r = subprocess.run(f'. /opt/vp/env.sh; cd {tmp}; PYTHONPATH={tmp} timeout 240 python -m pytest test -x -q -p no:cacheprovider --timeout=60', shell=True, executable='/bin/bash', capture_output=True, text=True)
        return r.returncode == 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    cmd, f = sys.argv[1], sys.argv[2]
    src, ms = mutants('/repo/nosnoc/' + f)
    P = f'{W}/{f}.json'
    if cmd == 'count':
        print(f, len(ms)); return
    if cmd == 'test':
        n, seed = int(sys.argv[3]), int(sys.argv[4])
        old = json.load(open(P)) if os.path.exists(P) else []
        done = {(m['a'], m['b'], m['new']) for m in old}
        ms = [m for m in ms if (m['a'], m['b'], m['new']) not in done]
        random.Random(seed).shuffle(ms)
        ms = ms[:n]
        with ThreadPoolExecutor(int(os.environ.get('J', '7'))) as ex:
            for i, (m, r) in enumerate(zip(ms, ex.map(tests, [(f, src, m) for m in ms]))):
                m['survives'] = r
                old.append(m)
                if i % 20 == 0:
                    json.dump(old, open(P, 'w'))
        json.dump(old, open(P, 'w'))
        print(f, len(ms), 'tested', sum(m['survives'] for m in old), 'survive in total')
    if cmd == 'check':
        R = f'{W}/{f}.res.json'
        res = json.load(open(R)) if os.path.exists(R) else {}
        redo = '--missed' in sys.argv
        for m in json.load(open(P)):
            key = f'{m["line"]} {m["a"]} {m["b"]} {m["new"]}'
            if not m['survives'] or key in res and not (redo and not res[key]['hits']):
                continue
            tmp = tempfile.mkdtemp(prefix='swc', dir=W)
            shutil.copytree('/repo/nosnoc', tmp + '/nosnoc')
            open(f'{tmp}/nosnoc/{f}', 'w').write(src[:m['a']] + m['new'] + src[m['b']:])
            r = subprocess.run([sys.executable, V + '/dev/union.py', f], env=dict(os.environ, VERIF_REPO=tmp), capture_output=True, text=True)
            shutil.rmtree(tmp)
            try:
                x = json.loads(r.stdout.splitlines()[-1])
            except Exception:
                x = dict(hits=None, err=(r.stdout + r.stderr)[-500:])
            res[key] = dict(m, **x)
            json.dump(res, open(R, 'w'))
            print('caught' if x['hits'] else 'MISSED', x.get('wall'), f'{f}:{m["line"]}', m['kind'], repr(m['old'][:70]), '->', repr(m['new'][:70]), sorted(set(x['hits'] or [])), x.get('und', [])[:1], x.get('err', ''), flush=True)

if __name__ == '__main__':
    main()
