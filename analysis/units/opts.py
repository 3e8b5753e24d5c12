"""NosnocOpts.preprocess and the type check of the options."""
import ast, itertools
from .. import run, interp as I
from ..terms import *
from . import fn
from .fn import en, P, EvalError, Mat, hreal_v, UNSET

FILE = 'nosnoc/nosnoc_opts.py'
BUTCHER = ['B_irk', 'C_irk', 'D_irk', 'A_irk', 'b_irk', 'irk_time_points', 'right_boundary_point_explicit']
OWN = ['max_iter_homotopy', 'Nfe_list']
TOL = ['tol', 'dual_inf_tol', 'compl_inf_tol', 'mu_target']
ENUMS = dict(cross_comp_mode='CrossComplementarityMode', mpcc_mode='MpccMode', constraint_handling='ConstraintHandling',
             step_equilibration='StepEquilibrationMode', irk_representation='IrkRepresentation', irk_scheme='IrkSchemes')

def opaque(name):
    def f(it, st, args, kw, node):
        a = [it.reify(st, it.V(st, x)) for x in args] + [it.reify(st, it.V(st, kw[k])) for k in ('n_s', 'irk_scheme') if k in kw]
        return mk('call', 'butcher', name, *a)
    return f
PR = {'nosnoc.rk_utils:generate_butcher_tableu': opaque('differential'), 'nosnoc.rk_utils:generate_butcher_tableu_integral': opaque('integral')}

class OptEv(fn.FunEv):
    last = 1.0
    def o_call(self, t, b):
        if t.args[0] == 'butcher':
            kind, n, sch = t.args[1], self.iev(t.args[2], b), self.ev(t.args[3], b)
            if str(sch) != str(self.ev(en('IrkSchemes', 'RADAU_IIA'), b)) and str(sch) != str(self.ev(en('IrkSchemes', 'GAUSS_LEGENDRE'), b)):
                raise EvalError('scheme')
            r = lambda *k: hreal_v(kind, n, sch, *k)
            tp = sorted(r('t', k) for k in range(n - 1)) + [self.last]
            if kind == 'integral':
                return [[r('B', k) for k in range(n + 1)], Mat([[r('C', j, k) for k in range(n + 1)] for j in range(n + 1)]), [r('D', k) for k in range(n + 1)], [0.0] + tp]
            return [Mat([[r('A', j, k) for k in range(n)] for j in range(n)]), [r('b', k) for k in range(n)], tp, 2 * n - 1]
        return super().o_call(t, b)
    def o_bcall(self, t, b):
        if t.args[0] == 'isinstance':
            v, ty = t.args[1], t.args[2]
            v = self.ev(v, b)
            if ty.op == 'type':
                w = 'class ' + ty.args[0]
            else:
                w = self.ev(ty, b)
            ws = w if isinstance(w, list) else [w]
            if any(not (isinstance(x, str) and x.startswith('class ')) for x in ws):
                raise EvalError('isinstance of ' + repr(w))
            return any(isa(v, x[6:]) for x in ws)
        return super().o_bcall(t, b)
    def f_items(self, v):
        return [[k, x] for k, x in v.items()]
    def f_keys(self, v):
        return list(v)
    def f_getattr(self, o, n):
        return self.vals[n]
    def o_len(self, t, b):
        v = self.ev(t.args[0], b)
        return len(v) if isinstance(v, dict) else super().o_len(t, b)
    vals = {}
    def o_ext(self, t, b):
        return self.SPECIAL.get(t.args[0]) or super().o_ext(t, b)
    SPECIAL = {}

def isa(v, n):
    k = v[7:] if isinstance(v, str) and v.startswith('member ') else 'bool' if isinstance(v, bool) else 'int' if isinstance(v, int) else 'float' if isinstance(v, float) else \
        'list' if isinstance(v, list) else 'dict' if isinstance(v, dict) else 'str'
    return k == n or (k == 'bool' and n == 'int')

def members(c):
    ci = run.program().find_class(c)
    return [t.id for s in ci.node.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)]

def graphs():
    at = {('opts', 'Nfe_list'): P('Nfe_given')}
    a = fn.graph(('method', 'NosnocOpts', 'preprocess'), [], {}, {'opts': 'NosnocOpts'}, attrs=at, obj='opts', want=BUTCHER + OWN,
                 prims_=dict(PR, **{'nosnoc.utils:validate': lambda it, st, args, kw, node: NONE}))
    b = fn.graph(('func', 'spec_opts_spec', 'preprocess'), ['opts'], {}, {'opts': 'NosnocOpts'}, attrs=at, obj='opts', want=BUTCHER + OWN, prims_=PR)
    return a, b

def nwarn(ev, g):
    if g.log is None:
        return 0
    v = fn.value(ev, g.log)
    return sum(1 for x in v if isinstance(x, list) and x[:2] == ['event', 'warn'])

def check_preprocess():
    out = fn.Out('NosnocOpts.preprocess', FILE)
    site = 'NosnocOpts.preprocess'
    a, b = graphs()
    if b.unsupported:
        raise RuntimeError('reference: ' + str(b.unsupported[:3]))
    for u in a.unsupported[:5]:
        out.und(str(u)[:160])
    if a.unsupported:
        return out.d
    def data(**k):
        d = dict(comp_tol=1e-7, sigma_0=2.0, homotopy_update_slope=0.2, max_iter_homotopy=0, N_stages=3, N_finite_elements=4, n_s=2, time_freezing=False,
                 cross_comp_mode='COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER', mpcc_mode='SCHOLTES_INEQ', constraint_handling='EXACT',
                 step_equilibration='HEURISTIC_MEAN', irk_representation='INTEGRAL', irk_scheme='RADAU_IIA', Nfe=[], tol=None, last=1.0, B_irk=0.125, C_irk=0.25,
                 D_irk=0.5, A_irk=0.75, b_irk=0.375)
        d.update(k)
        return d
    def mkev(d):
        e0 = OptEv(fn.env({}, 0), {}, {})
        at = {'opts.' + k: (e0.ev(en(ENUMS[k], v), {}) if k in ENUMS else v) for k, v in d.items() if k not in ('Nfe', 'tol', 'last')}
        at['Nfe_given'] = at['opts.Nfe_list'] = d['Nfe']
        at['opts.opts_casadi_nlp'] = {'ipopt': dict({k: d['tol'] for k in TOL}, other=5.5)}
        at['LOG'] = []
        e = OptEv(fn.env({}, 0, arrays1=['opts.irk_time_points']), {}, at)
        e.last = d['last']
        return e
    cases = []
    for irk in members('IrkRepresentation'):
        for sch in members('IrkSchemes'):
            for n_s, last in ((1, 1.0), (2, 0.8), (3, 1.0 + 1e-12), (2, 1 - 1e-6), (3, 1 - 1e-10)):
                cases.append(('', data(irk_representation=irk, irk_scheme=sch, n_s=n_s, last=last)))
    for mi in (0, 3, 17):
        for ct, s0, sl in ((1e-7, 2.0, 0.2), (1e-3, 0.5, 0.7), (1e-9, 10.0, 0.05), (3e-4, 1.0, 0.5)):
            cases.append(('', data(max_iter_homotopy=mi, comp_tol=ct, sigma_0=s0, homotopy_update_slope=sl)))
            cases.append(('', data(tol=1e-5, comp_tol=ct, sigma_0=s0, max_iter_homotopy=mi)))
    for N, F, L in ((1, 2, []), (3, 4, [2, 3, 5]), (4, 1, []), (2, 3, [1, 1])):
        cases.append(('', data(N_stages=N, N_finite_elements=F, Nfe=L)))
    for cc, mm, ch, se in itertools.product(*(members(ENUMS[k]) for k in ('cross_comp_mode', 'mpcc_mode', 'constraint_handling', 'step_equilibration'))):
        cases.append(('w', data(cross_comp_mode=cc, mpcc_mode=mm, constraint_handling=ch, step_equilibration=se)))
    for tf in (False, True):
        for n_s in (1, 2, 3, 4):
            cases.append(('w', data(time_freezing=tf, n_s=n_s, constraint_handling='LEAST_SQUARES')))
    prop_of = {n: 'C02' for n in BUTCHER}
    prop_of.update(max_iter_homotopy='C17', Nfe_list='C09')
    key = ("opts.opts_casadi_nlp['ipopt']", '[]', ())
    for what, d in cases:
        ea, eb = mkev(d), mkev(d)
        tag = ', '.join(f'{k}={v}' for k, v in d.items() if v != data().get(k, 0)) or 'defaults'
        ra = None
        try:
            ra = fn.raised(a, ea)
        except EvalError as e:
            out.und(f'raise conditions: {e}')
        if ra:
            out.find('C22', site, f'valid options are rejected: {ra}', tag); continue
        if what == 'w':
            try:
                x = nwarn(ea, a)
            except EvalError as e:
                out.und(f'warnings: {e}'); continue
            y = nwarn(eb, b)
            out.d['compared'] += 1
            if bool(x) != bool(y):
                out.find('C22', site, 'an unsupported combination of options is accepted silently' if y else 'a supported combination of options raises a warning', tag)
            continue
        names = list(OWN) + ['irk_time_points', 'right_boundary_point_explicit'] + (['B_irk', 'C_irk', 'D_irk'] if d['irk_representation'] == 'INTEGRAL' else ['A_irk', 'b_irk'])
        for n in names:
            try:
                y = fn.value(eb, b.attrs[n])
            except EvalError as e:
                raise RuntimeError(f'reference {n}: {e}')
            try:
                x = fn.value(ea, a.attrs[n])
            except EvalError as e:
                out.und(f'{n} ({tag}): {e}'); continue
            out.d['compared'] += 1
            if n == 'right_boundary_point_explicit':
                x, y = bool(x), bool(y)
            m = fn.diff(x, y, n, 3)
            if m:
                for p in {'C02': ('C02', 'C01'), 'C17': ('C17', 'C22'), 'C09': ('C09',)}[prop_of[n]]:
                    out.find(p, site, m, tag)
        try:
            y = fn.value(eb, b.heap[key])
            x = fn.value(ea, a.heap[key]) if key in a.heap else {k: d['tol'] for k in TOL}
            out.d['compared'] += 1
            for k in TOL:
                if fn.diff(x.get(k), y.get(k)):
                    out.find('C17', site, f'IPOPT option {k}: {x.get(k)} instead of {y.get(k)}', tag)
            if not isinstance(x, dict) or x.get('other', 5.5) != 5.5:
                out.find('C22', site, 'other IPOPT options are overwritten', tag)
        except (EvalError, AttributeError) as e:
            out.und(f'ipopt options: {e}')
    return out.d

# ---- type check -----------------------------------------------------------------------------

def check_validate():
    """a value that is no instance of the annotated type is rejected, any other accepted; preprocess checks every annotated option"""
    out = fn.Out('utils.validate', 'nosnoc/utils.py')
    a = fn.graph(('func', 'nosnoc.utils', 'validate'), ['obj'], {}, {})
    for u in a.unsupported[:5]:
        out.und(str(u)[:160])
    if a.unsupported:
        return out.d
    C = lambda n: 'class ' + n
    U, L = 1001.5, 1002.5
    ann = {'plain': C('int'), 'flag': C('bool'), 'mode': C('Mode'), 'both': 'union float int', 'seq': C('list'), 'last': C('float')}
    good = {'plain': 3, 'flag': True, 'mode': 'member Mode', 'both': 2.5, 'seq': [1, 2], 'last': 0.5}
    bad = {'plain': [2.5, 'text', [1]], 'flag': ['text', 2], 'mode': ['text', 3, 'member Other'], 'both': ['text', [1.0]], 'seq': [3, 'text'], 'last': ['text', [0.1], 2]}
    def mkev(vals):
        at = {'obj.' + k: v for k, v in vals.items()}
        at['obj.__annotations__'] = dict(ann)
        e = OptEv(fn.env({}, 0), {}, at)
        e.vals = vals
        e.EXT = dict(e.EXT)
        e.EXT['typing.get_origin'] = lambda ev, x: U if x.startswith('union') else 0.25
        e.EXT['typing.get_args'] = lambda ev, x: [C(n) for n in x.split()[1:]]
        e.SPECIAL = {'typing.Union': U, 'typing.List': L}
        return e
    for name, vals in [('', good), ('', dict(good, both=4))] + [(n, dict(good, **{n: v})) for n, l in bad.items() for v in l]:
        try:
            r = fn.raised(a, mkev(vals))
        except EvalError as e:
            out.und(f'{name}: {e}'); continue
        out.d['compared'] += 1
        if name and not r:
            out.find('C22', 'validate', f'a value of type {typename(vals[name])} is accepted for an option declared as {ann[name]}', name)
        if not name and r:
            out.find('C22', 'validate', 'correctly typed options are rejected')
    return out.d

def typename(v):
    return v if isinstance(v, str) and v.startswith('member ') else type(v).__name__

def check_validated():
    """preprocess runs the type check on the object itself, on every path"""
    out = fn.Out('NosnocOpts.preprocess type check', FILE)
    log = []
    def prim(it, st, args, kw, node):
        it.log(st, mk('event', 'validate', *[it.reify(st, it.V(st, x)) for x in list(args) + list(kw.values())]))
        return NONE
    g = fn.graph(('method', 'NosnocOpts', 'preprocess'), [], {}, {'opts': 'NosnocOpts'}, obj='opts', prims_=dict(PR, **{'nosnoc.utils:validate': prim}))
    out.d['compared'] += 1
    def always(t):
        """some event on every alternative"""
        if t.op == 'event':
            return t.args[0] == 'validate' and len(t.args) > 1 and t.args[1] is P('opts')
        if t.op == 'list':
            return any(always(x) for x in t.args)
        if t.op in ('el', 'spread'):
            return always(t.args[0])
        if t.op == 'ite':
            return always(t.args[1]) and always(t.args[2])
        return False
    if g.log is None or not always(g.log):
        # 'if' segments of the log depend on conditions
        def some(t):
            return t.op == 'event' and t.args[0] == 'validate' or any(some(x) for x in t.args if isinstance(x, T))
        if g.unsupported:
            out.und(str(g.unsupported[:2]))
        elif g.log is None or not some(g.log):
            out.find('C22', 'NosnocOpts.preprocess', 'the option types are not checked')
        else:
            out.find('C22', 'NosnocOpts.preprocess', 'the option types are checked under a condition only')
    return out.d

def check_read():
    """every declared option is read somewhere, other than where options are printed or validated"""
    out = fn.Out('declared options', FILE)
    prog = run.program()
    k = prog.find_class('NosnocOpts')
    fields = [s.target.id for s in k.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)] + \
             [t.id for s in k.node.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)]
    reads, words = {}, set()
    for m in prog.modules.values():
        if m.name.startswith('spec_'):
            continue
        skip = set()
        for c in ast.walk(m.tree):
            if isinstance(c, ast.FunctionDef) and (c.name in ('__repr__', 'validate') or c.name == '__post_init__'):
                skip |= {id(x) for x in ast.walk(c)}
        for x in ast.walk(m.tree):
            if id(x) in skip:
                continue
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                reads[x.attr] = reads.get(x.attr, 0) + 1
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                words.add(x.value)
        # a property built on the field inside the class
        if m is k.module:
            for x in ast.walk(k.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    reads[x.id] = reads.get(x.id, 0) + 1
    for f in fields:
        v = k.consts.get(f)
        out.d['compared'] += 1
        if isinstance(v, ast.Call) and ast.unparse(v.func) == 'property':
            continue
        if not reads.get(f) and f not in words:
            out.find('C22', f'NosnocOpts.{f}', f'the option {f} is declared but no function reads it: its value has no influence', f)
    return out.d
