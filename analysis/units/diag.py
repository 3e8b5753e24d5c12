"""Diagnostics: NosnocProblem.print (text produced for sampled problems) and the parameter block of dump."""
from .. import run
from ..terms import *
from . import fn
from .fn import P, EvalError, Mat, hreal_v

FILE = 'nosnoc/problem.py'

class PrintEv(fn.FunEv):
    """text is built from the printed parts; a number is written as «value»"""
    def part(self, v):
        if isinstance(v, Mat):
            v = [x for r in v.rows for x in r]
        if isinstance(v, (list, tuple)):
            if len(v) == 1:
                return self.part(v[0])
            return '[' + ', '.join(self.part(x) for x in v) + ']'
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return str(v)
        if isinstance(v, (int, float)):
            return self.names.get(('expr', v)) or f'«{float(v):.9g}»'
        raise EvalError(f'printing of {type(v).__name__}')
    def o_fstr(self, t, b):
        return ''.join(self.part(self.ev(a, b)) for a in t.args)
    def o_event(self, t, b):
        if t.args[0] == 'print':
            kw = {a.args[0]: self.ev(a.args[1], b) for a in t.args[1:] if isinstance(a, T) and a.op == 'kw'}
            sep = kw.get('sep', ' ')
            return ['event', 'print', sep.join(self.part(self.ev(a, b)) for a in t.args[1:] if not (isinstance(a, T) and a.op == 'kw')) + kw.get('end', '\n')]
        return super().o_event(t, b)
    def o_method(self, t, b):
        raise EvalError('method value')
    def m_name(self, v, *a):
        while isinstance(v, list) and len(v) == 1:
            v = v[0]
        n = self.names.get(('expr', v)) if isinstance(v, float) else None
        if n is None:
            raise EvalError('name of a value that is no variable')
        return n

def instances():
    for n_g in (0, 1, 3, 12):
        for n_w in (1, 2, 13):
            for seed in range(4):
                r = lambda *k: round(hreal_v(seed, n_g, n_w, *k, lo=-5, hi=5), 6)
                lbw, ubw, w0, kinds = [], [], [], []
                for i in range(n_w):
                    kind = ['ok', 'bound', 'low', 'high', 'eqlow', 'eqhigh', 'fixed', 'inf', 'both', 'neginf', 'fixedoff', 'posinf'][int(12 * hreal_v(seed, n_g, n_w, 'kind', i))] if seed else 'ok'
                    a = r('a', i)
                    d = 1.5 + abs(r('d', i))
                    lo, hi, g = a, a + d, a + d / 3
                    if kind == 'bound':
                        lo, hi = a + d, a
                    elif kind == 'both':
                        lo, hi, g = a + d, a, a - 1.25
                    elif kind == 'low':
                        g = a - d / 7
                    elif kind == 'high':
                        g = a + d + d / 7
                    elif kind == 'eqlow':
                        g = lo
                    elif kind == 'eqhigh':
                        g = hi
                    elif kind == 'fixed':
                        hi = g = lo
                    elif kind == 'fixedoff':
                        hi, g = lo, lo + 0.75
                    elif kind == 'inf':
                        lo, hi = -float('inf'), float('inf')
                    elif kind == 'neginf':
                        lo, g = -float('inf'), hi + 0.5
                    elif kind == 'posinf':
                        hi, g = float('inf'), lo - 0.5
                    lbw.append(lo); ubw.append(hi); w0.append(g); kinds.append(kind)
                g = [r('g', i) for i in range(n_g)]
                lbg = [r('lg', i) if i % 3 else 0.0 for i in range(n_g)]
                ubg = [r('ug', i) if i % 2 else float('inf') for i in range(n_g)]
                w = [hreal_v(seed, n_w, 'w', i) + 7 for i in range(n_w)]
                names = {('expr', float(x)): f'<w{i}>' for i, x in enumerate(w)}
                names.update({('expr', float(x)): f'<g{i}>' for i, x in enumerate(g)})
                cost = hreal_v(seed, 'cost') + 9
                names[('expr', cost)] = '<cost>'
                yield seed, {'self.w': w, 'self.w0': w0, 'self.lbw': lbw, 'self.ubw': ubw, 'self.g': g, 'self.lbg': lbg, 'self.ubg': ubg, 'self.cost': cost, 'LOG': []}, names

def check_print(cls='NosnocProblem', meth='print'):
    out = fn.Out('NosnocProblem.print', FILE)
    g = fn.graph(('method', 'NosnocProblem', 'print'), [], types={'self': 'NosnocProblem'})
    site = 'NosnocProblem.print'
    for u in g.unsupported[:5]:
        out.und(str(u)[:160])
    if g.unsupported:
        return out.d
    for seed, at, names in instances():
        ev = PrintEv(fn.env({}, seed, arrays1=['self.w0', 'self.lbw', 'self.ubw', 'self.lbg', 'self.ubg']), {}, at)
        ev.names = names
        n_w, n_g = len(at['self.w']), len(at['self.g'])
        tag = f'{n_w} variables, {n_g} constraints'
        try:
            ra = fn.raised(g, ev)
            log = fn.value(ev, g.log) if g.log is not None else []
            text = ''.join(x[2] for x in log if x[1] == 'print')
        except EvalError as e:
            out.und(f'{tag}: {e}')
            continue
        out.d['compared'] += 1
        if ra:
            out.find('C29', site, f'printing a consistent problem raises {ra}', tag)
            continue
        num = lambda x: f'«{float(x):.9g}»'
        lines = text.split('\n')
        bad = 0
        for i in range(n_g):
            l = [x for x in lines if f'<g{i}>' in x]
            if not l:
                out.find('C29', site, f'constraint {i} is not listed', tag)
            elif not any(num(at['self.lbg'][i]) in x and num(at['self.ubg'][i]) in x for x in l):
                out.find('C29', site, f'constraint {i} is listed without its bounds {at["self.lbg"][i]}, {at["self.ubg"][i]}: {l[0]}', tag)
        for i in range(n_w):
            l = [x for x in lines if f'<w{i}>' in x and '<cost>' not in x]
            lo, hi, w0 = at['self.lbw'][i], at['self.ubw'][i], at['self.w0'][i]
            wrong = lo > hi or w0 < lo or w0 > hi
            bad += wrong
            what = f'variable {i} with guess {w0}, bounds {lo}, {hi}'
            if not l:
                out.find('C29', site, f'{what} is not listed', tag)
                continue
            if not all(num(x) in l[0] for x in (lo, hi, w0)):
                out.find('C29', site, f'{what}: the line does not show them: {l[0]}', tag)
            marked = any('ERROR' in x.upper() for x in l)
            if marked != wrong:
                out.find('C29', site, f'{what} is {"" if marked else "not "}marked as an error', tag)
            elif lo > hi and not any('BOUND' in x.upper() for x in l):
                out.find('C29', site, f'{what}: the lower bound exceeds the upper bound but the mark is {l[0]!r}', tag)
            elif wrong and lo <= hi and any('BOUND' in x.upper() for x in l):
                out.find('C29', site, f'{what}: the guess is outside but the bounds are marked', tag)
        tot = [x for x in lines if 'ERROR' in x.upper() and '<w' not in x and '«' in x]
        if not tot:
            out.find('C29', site, 'the number of errors is not printed', tag)
        elif not any(num(bad) in x for x in tot):
            out.find('C29', site, f'{bad} inconsistent variables, printed: {tot[-1].strip()!r}', tag)
        if not any('<cost>' in x for x in lines):
            out.find('C29', site, 'the cost is not printed', tag)
    return out.d

def check_solver_print():
    """print_problem prints the problem of the solver"""
    out = fn.Out('NosnocSolver.print_problem', 'nosnoc/solver.py')
    g = fn.graph(('method', 'NosnocSolver', 'print_problem'), [], types={'self': 'NosnocSolver'})
    r = fn.graph(('method', 'NosnocProblem', 'print'), [], types={'self': 'NosnocProblem'})
    if g.unsupported or r.unsupported or r.log is None:
        out.und(str((g.unsupported + r.unsupported)[:1])[:160])
        return out.d
    ref = subst(r.log, {P('self'): mk('attr', P('self'), 'problem')})
    out.d['compared'] += 1
    if g.log is None:
        out.find('C29', 'NosnocSolver.print_problem', 'nothing is printed')
    elif g.log is ref:
        out.d['identical'] = True
    elif not mentions(g.log):
        out.find('C29', 'NosnocSolver.print_problem', 'the bounds of the problem are not printed')
    return out.d

def mentions(t):
    """does the text depend on the bounds of the problem?"""
    stack, seen, got = [t], set(), set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        if not isinstance(x, T) or id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == 'attr':
            got.add(x.args[1])
        stack.extend(x.args)
    return {'lbw', 'ubw', 'w0', 'lbg', 'ubg'} <= got

def wrs(t, key, acc):
    """values stored under a key in the written object"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                stack.extend(x)
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == 'wr' and isinstance(x.args[0], T) and x.args[0].op == 'str' and x.args[0].args[0] == key:
            acc.append(x.args[1])
        if x.op == 'dict':
            for k, v in x.args[0]:
                if k.op == 'str' and k.args[0] == key:
                    acc.append(v)
        stack.extend(x.args)
    return acc

def check_dump():
    from . import model as MU
    out = fn.Out('NosnocProblem.dump', FILE)
    site = 'NosnocProblem.dump'
    written = []
    def hook(it, st, f, args, kwargs, node):
        if f.op == 'ext' and f.args[0] in ('pickle.dumps', 'pickle.dump', 'json.dump', 'json.dumps', 'numpy.savez'):
            for a in list(args) + list(kwargs.values()):
                written.append(it.reify(st, it.V(st, a)))
            return None
        if f.op in ('attr', 'meth') and f.args[1] in ('write', 'dump'):
            for a in args:
                written.append(it.reify(st, it.V(st, a)))
        return None
    ty = {'self': 'NosnocProblem'}
    a = fn.graph(('method', 'NosnocProblem', 'dump'), ['file'], types=ty, hooks=hook)
    if a.unsupported:
        out.und(str(a.unsupported[0])[:160])
        return out.d
    p0 = []
    for w in written:
        wrs(w, 'p0', p0)
    p0 = [x for i, x in enumerate(p0) if x not in p0[:i]]
    if len(p0) != 1:
        out.und(f'{len(p0)} values are written as p0')
        return out.d
    b = fn.graph(('func', 'spec_diag_spec', 'dump_p0'), ['self'], types=ty)
    for si, s in enumerate(MU.SIZES):
        for seed in range(3):
            n_p = s['npt'] + s['npg']
            r = lambda *k: hreal_v(seed, *k)
            at = {'self.model.x0': [r('x0', i) for i in range(s['n_x'])], 'self.model.z0': [r('z0', i) for i in range(s['n_z'])],
                  'self.model.p_val_ctrl_stages': Mat([[r('p', i, k) for k in range(n_p)] for i in range(s['N'])]),
                  'self.opts.rootfinder_for_initial_z': bool(seed % 2), 'LOG': []}
            def ev():
                e = fn.FunEv(fn.env({}, seed, arrays1=['self.model.x0', 'self.model.z0']), {}, at)
                e.env.funlen.update({'self.model.lambda00_fun': sum(s['nf']), 'self.model.z0_rootfinder': s['n_z']})
                return e
            y = ev().ev(b.ret, {})
            try:
                ea = ev()
                ra = fn.raised(a, ea)
                x = fn.value(ea, p0[0])
            except EvalError as e:
                out.und(str(e)); continue
            out.d['compared'] += 1
            if ra:
                out.find('C08', site, f'dumping raises {ra}', si); continue
            k = s['N'] * n_p
            flat = ea.flat(x, [])
            if len(flat) == len(y):
                flat = flat[:k] + list(y[k:k + 2]) + flat[k + 2:]       # any values of sigma and tau
            d = fn.diff(flat, list(y), 'p0', 0)
            if d:
                out.find('C08', site, d, si)
    return out.d
