"""Discretised problem: value graph of NosnocProblem against the reference formulation.

Tier 1: the normal forms are identical - the problem agrees with the reference for all sizes.
Tier 2: otherwise both graphs are interpreted at sampled sizes and values; rows, variables, cost
and index sets that differ are reported and attributed to the property that states them.
"""
import math, time
from .. import run, configs, sizes, evalt
from ..evalt import EvalError
from ..terms import T

TAGS = {1: 'stage equation', 2: 'stage algebraic equation', 3: 'end state equation', 4: 'lifted stage state', 5: 'algebraic equation at the element boundary',
        6: 'path constraint at the boundary', 7: 'path constraint at a stage', 8: 'terminal constraint', 9: 'stage path complementarity',
        10: 'control stage path complementarity', 11: 'global path complementarity', 12: 'cross complementarity', 13: 'step equilibration',
        14: 'sum of the steps of a control stage', 15: 'sum of all steps', 16: 'clock constraint',
        21: 'stage state', 22: 'end state', 23: 'stage derivative', 24: 'theta', 25: 'lambda', 26: 'mu', 27: 'alpha', 28: 'lambda_n', 29: 'lambda_p',
        30: 'algebraic variable', 31: 'step size', 32: 'control', 33: 'speed of time', 34: 'global variable', 35: 'elastic slack', 36: 'binary'}
ROWPROP = {1: 'C01', 2: 'C01', 3: 'C01', 4: 'C01', 5: 'C01', 6: 'C13', 7: 'C13', 8: 'C13', 9: 'C14', 10: 'C14', 11: 'C14', 12: 'C04', 13: 'C10',
           14: 'C09', 15: 'C09', 16: 'C30'}
BOUNDPROP = {21: 'C13', 22: 'C13', 23: 'C01', 24: 'C05', 25: 'C05', 26: 'C05', 27: 'C05', 28: 'C05', 29: 'C05', 30: 'C13', 31: 'C09', 32: 'C13', 33: 'C15',
             34: 'C13', 35: 'C05', 36: 'C05'}
GUESSPROP = {21: 'C16', 22: 'C16', 30: 'C16', 31: 'C09', 32: 'C16', 33: 'C15', 34: 'C16'}
VARPROP = {21: 'C01', 22: 'C03', 23: 'C01', 24: 'C01', 25: 'C01', 26: 'C01', 27: 'C01', 28: 'C01', 29: 'C01', 30: 'C13', 31: 'C09', 32: 'C13', 33: 'C15', 34: 'C13',
           35: 'C05', 36: 'C05'}
# function of the package in which the rows / variables of a kind are assembled (reported with a violation)
SITE = {1: 'FiniteElement.forward_simulation', 2: 'FiniteElement.forward_simulation', 3: 'FiniteElement.forward_simulation', 4: 'FiniteElement.X_fe',
        5: 'FiniteElement.forward_simulation', 6: 'FiniteElement.forward_simulation', 7: 'FiniteElement.forward_simulation', 8: 'NosnocProblem.__init__',
        9: 'FiniteElement.create_complementarity_constraints', 10: 'FiniteElement.create_complementarity_constraints', 11: 'NosnocProblem.create_global_compl_constraints',
        12: 'FiniteElement.create_complementarity_constraints', 13: 'FiniteElement.step_equilibration', 14: 'NosnocProblem.__init__', 15: 'NosnocProblem.__init__', 16: 'NosnocProblem.__init__',
        21: 'FiniteElement.__init__', 22: 'FiniteElement.__init__', 23: 'FiniteElement.__init__', 24: 'FiniteElement.__init__', 25: 'FiniteElement.__init__', 26: 'FiniteElement.__init__',
        27: 'FiniteElement.__init__', 28: 'FiniteElement.__init__', 29: 'FiniteElement.__init__', 30: 'FiniteElement.__init__', 31: 'FiniteElement.add_step_size_variable',
        32: 'NosnocProblem.__create_control_stage', 33: 'NosnocProblem.__create_control_stage', 34: 'NosnocProblem.__create_primal_variables',
        35: 'NosnocProblem.__create_primal_variables', 36: 'NosnocFormulationObject.create_complementarity',
        'cost': 'NosnocProblem.__init__', 'comp_res': 'FiniteElement.get_complementarity_vector', 'ind': 'NosnocProblem.__collect_final_element',
        'lsq': 'NosnocProblem.__init__', 'p': 'NosnocProblem.__create_primal_variables', 'raise': 'NosnocProblem.__init__'}
INDS = ('ind_x', 'ind_x_cont', 'ind_v', 'ind_theta', 'ind_lam', 'ind_mu', 'ind_alpha', 'ind_lambda_n', 'ind_lambda_p', 'ind_bool', 'ind_z', 'ind_elastic',
        'ind_u', 'ind_sot', 'ind_h', 'ind_v_global')
SEEDS = (0, 1)

def where(key):
    """file:line of the function that assembles a kind of row"""
    prog = run.program()
    q = SITE.get(key, 'NosnocProblem.__init__')
    c, f = q.split('.', 1)
    ci = prog.find_class(c)
    if ci is None:
        return 'nosnoc/problem.py'
    import os
    rel = os.path.relpath(ci.module.path, prog.root)
    n = ci.methods.get(f)
    if n is None:
        return f'{rel}:{ci.node.lineno} ({c})'
    return f'{rel}:{n.lineno} ({c}.{f})'

def close(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, float) and math.isnan(a):
        return isinstance(b, float) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))

def vclose(u, v):
    return len(u) == len(v) and all(close(a, b) for a, b in zip(u, v))

class Side:
    """one value graph interpreted under given data; per-attribute errors are kept"""
    def __init__(self, graph, cfg, size, alias=None, fixed=None, zero=(), none=(), default=None):
        self.g, self.err = graph, {}
        self.num = []
        for s in SEEDS:
            e = sizes.make_env(size, cfg, s, fixed, zero, alias, none)
            e.default = default
            self.num.append(evalt.Ev(e))
        e = sizes.make_env(size, cfg, 0, fixed, zero, alias, none)
        self.sup = evalt.Ev(e, evalt.Sup())
        self.cache = {}
    def get(self, a, k=0):
        """value of attribute a with seed k ('s': supports); None if it cannot be interpreted"""
        key = (a, k)
        if key in self.cache:
            return self.cache[key]
        r = None
        t = self.g.get(a)
        if isinstance(t, T):
            try:
                ev = self.sup if k == 's' else self.num[k]
                r = ev.ev(t, {})
            except EvalError as e:
                self.err[a] = str(e)
            except RecursionError:
                self.err[a] = 'recursion'
        else:
            self.err[a] = 'absent'
        self.cache[key] = r
        return r
    def vec(self, a, k=0):
        v = self.get(a, k)
        if v is None:
            return None
        return self.num[0].vec(v) if not isinstance(v, list) else v

def ids(side):
    v = side.vec('w', 's')
    if v is None:
        return None
    out = []
    for x in v:
        if not isinstance(x, frozenset) or len(x) != 1:
            return None
        out.append(next(iter(x)))
    return out

def struct(ind, w):
    """nested index set -> nested variable ids"""
    if isinstance(ind, list):
        return [struct(i, w) for i in ind]
    if isinstance(ind, float) and ind == int(ind):
        ind = int(ind)
    if not isinstance(ind, int) or not 0 <= ind < len(w):
        return ('?', ind)
    return w[ind]

def flat(x):
    out = []
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, list):
            todo.extend(reversed(y))
        else:
            out.append(y)
    return out

class Row:
    __slots__ = ('kind', 'sig', 'tag', 'sup')
    def __init__(self, kind, sig, tag, sup):
        self.kind, self.sig, self.tag, self.sup = kind, sig, tag, sup

def rows_of(side, lsq=False):
    """canonical constraints: ('eq', values up to sign) or ('ge', values of the nonnegative expression); values over the seeds"""
    if lsq:
        gs = [side.vec('g_lsq', k) for k in range(len(SEEDS))]
        if any(g is None for g in gs):
            return None
        lbs = ubs = [[0] * len(gs[0])] * len(SEEDS)
        sp = side.vec('g_lsq', 's')
    else:
        gs = [side.vec('g', k) for k in range(len(SEEDS))]
        lbs = [side.vec('lbg', k) for k in range(len(SEEDS))]
        ubs = [side.vec('ubg', k) for k in range(len(SEEDS))]
        sp = side.vec('g', 's')
        if any(x is None for x in gs + lbs + ubs) or sp is None:
            return None
    if any(len(x) != len(gs[0]) for x in gs + lbs + ubs):
        return 'lengths %d %d %d' % (len(gs[0]), len(lbs[0]), len(ubs[0]))
    tags = side.vec('g_tag') if not lsq else None
    out = []
    for i in range(len(gs[0])):
        v = [g[i] for g in gs]
        lo = [x[i] for x in lbs]
        up = [x[i] for x in ubs]
        tag = int(tags[i]) if tags is not None and i < len(tags) else None
        s = sp[i] if i < len(sp) else frozenset()
        try:
            if all(close(a, b) and math.isfinite(a) for a, b in zip(lo, up)):
                d = [a - b for a, b in zip(v, lo)]
                f = next((x for x in d if not math.isnan(x) and abs(x) > 1e-9), 1)
                out.append(Row('eq', [x if f > 0 else -x for x in d], tag, s))
            else:
                if any(x != math.inf for x in up):
                    out.append(Row('ge', [b - a for a, b in zip(v, up)], tag, s))
                if any(x != -math.inf for x in lo):
                    out.append(Row('ge', [a - b for a, b in zip(v, lo)], tag, s))
        except TypeError:
            return 'bounds that are no numbers'
    return out

def match(code, spec):
    """unmatched rows of both sides"""
    buckets = {}
    def key(r):
        x = r.sig[0]
        return (r.kind, 'x' if math.isnan(x) or math.isinf(x) else round(x, 3))
    for r in code:
        buckets.setdefault(key(r), []).append(r)
    un = []
    used = set()
    for r in spec:
        k = key(r)
        ks = [k] if k[1] == 'x' else [(k[0], round(k[1] + d, 3)) for d in (0, -0.001, 0.001)]
        hit = None
        for q in ks:
            for c in buckets.get(q, ()):
                if id(c) not in used and vclose(c.sig, r.sig):
                    hit = c
                    break
            if hit:
                break
        if hit:
            used.add(id(hit))
        else:
            un.append(r)
    return [r for r in code if id(r) not in used], un

def rowkey(g, i):
    if isinstance(i, float) and i == int(i):
        i = int(i)
    if not isinstance(i, int) or not 0 <= i < len(g) or not isinstance(g[i], frozenset):
        return '?'
    return repr(sorted(map(repr, g[i])))

def coarse(s):
    return frozenset((x[1], x[2]) if x and x[0] == 'call' else x for x in s)

def nearest(s, rows):
    best, bs = None, -1
    s = coarse(s)
    for r in rows:
        q = coarse(r.sup)
        j = len(s & q) / max(1, len(s | q))
        if j > bs:
            best, bs = r, j
    return best

RELAX = ('sigma_p', 'tau', 's_elastic', 'z')
def pairsup(r):
    return frozenset(x for x in r.sup if x[0] not in RELAX)

def describe(r):
    s = sorted('call ' + x[1] if x[0] == 'call' else f'{x[0]}[{x[1]}]' for x in r.sup)
    return f"{TAGS.get(r.tag, '?')} over {{{', '.join(s[:8])}{', ...' if len(s) > 8 else ''}}}"

def fixed_for(cfg, lsq_ok=True):
    f = {}
    if cfg['constraint_handling'] == 'LEAST_SQUARES':
        f.update({'ocp.lbg': 0.0, 'ocp.ubg': 0.0, 'opts.time_freezing_tolerance': 0.0})
    return f

def ablated(code, spec, cfg, size, alias, fix, zero=(), lsq=False):
    """unmatched rows under additional fixed values"""
    f = dict(fixed_for(cfg)); f.update(fix)
    a = rows_of(Side(code, cfg, size, alias, f, zero), lsq)
    s = Side(spec, cfg, size, None, f, zero)
    b = rows_of(s, lsq)
    if not isinstance(a, list) or not isinstance(b, list):
        return None
    return match(a, b)

def sot_names(cfg, size):
    return {n: 1.0 for n in ['sot'] + [f's_sot_{k}' for k in range(len(size['Nfe']))]}

def start_fix(cfg, size):
    f = {}
    for k in range(size['n_x']):
        names = ['X0'] + [f'X_end_{i}_{j + 1}' for i, n in enumerate(size['Nfe']) for j in range(n)]
        if cfg['right_boundary_point_explicit'] and cfg['irk_representation'] != 'DIFFERENTIAL':
            names += [f'X_{i}_{j}_{size["n_s"]}' for i, n in enumerate(size['Nfe']) for j in range(n)]
        for n in names:
            f[(n, k)] = 0.61 + 0.17 * k
    return f

def raises_true(side):
    """does some raise of the construction fire under this data?  None: not decided"""
    r = []
    for t in side.g['_raises']:
        try:
            if fires(side.num[0], t, {}):
                r.append(t)
        except EvalError as e:
            return None, str(e)
    return r, None

def fires(ev, t, b):
    if t.op == 'raise':
        return ev.cond(t.args[0], b)
    if t.op == 'guarded':
        return ev.cond(t.args[0], b) and fires(ev, t.args[1], b)
    if t.op == 'each':
        bv, lo, hi, body = t.args
        for k in range(ev.iev(lo, b), ev.iev(hi, b)):
            b2 = dict(b); b2[bv] = k
            if fires(ev, body, b2):
                return True
        return False
    raise EvalError('raise ' + t.op)

def compare(code, spec, cfg, size, out):
    """findings [(property, key for the site, text)] at one size; out['undecided'] collects what could not be compared"""
    F = []
    und = out['undecided']
    fx = fixed_for(cfg)
    lsq = cfg['constraint_handling'] == 'LEAST_SQUARES'
    S = Side(spec, cfg, size, None, fx)
    C = Side(code, cfg, size, None, fx)
    ws, wc = ids(S), ids(C)
    if ws is None:
        raise AssertionError('reference not interpretable: ' + str(S.err))
    alias = None
    if wc is not None:
        # a variable under another name is identified by its place in the index sets
        known = {n for n, _ in ws}
        if any(n not in known for n, _ in wc):
            m = {}
            for a in INDS:
                ic, is_ = C.get(a), S.get(a)
                if ic is None or is_ is None:
                    continue
                xc, xs = struct(ic, wc), struct(is_, ws)
                fc, fs = flat(xc), flat(xs)
                if len(fc) == len(fs):
                    for u, v in zip(fc, fs):
                        if u[0] not in known and u[0] != '?':
                            m.setdefault(u, v)
            pc, ps = C.vec('p', 's'), S.vec('p', 's')
            if pc and ps and len(pc) == len(ps):
                for u, v in zip(pc, ps):
                    if len(u) == len(v) == 1:
                        u, v = next(iter(u)), next(iter(v))
                        if u[0] != v[0]:
                            m.setdefault(u, v)
            if m:
                alias = lambda k: m.get(k, k)
                C = Side(code, cfg, size, alias, fx)
                wc = [alias(x) for x in wc]
    # ------------------------------------------------ rejection
    rs, _ = raises_true(S)
    rc, e = raises_true(C)
    if rc is None:
        und.append('raise conditions: ' + e)
    elif rc and not rs:
        loc = code['_it'].prov.get(rc[0].id)
        F.append(('C25' if lsq else 'C22', 'raise', f'construction is rejected at {loc}, the reference accepts this configuration'))
        return F
    elif rs and not rc:
        F.append(('C25', 'raise', 'construction is accepted although the reference rejects it'))
        return F
    elif rs:
        return F
    # ------------------------------------------------ variables
    if wc is None:
        und.append('w: ' + str(C.err.get('w')))
    else:
        wt = [int(x) for x in S.vec('w_tag')]
        nm = {}
        for i, x in enumerate(ws):
            nm.setdefault(x, []).append(i)
        nc = {}
        for i, x in enumerate(wc):
            nc.setdefault(x, []).append(i)
        tagof = {x: wt[v[0]] for x, v in nm.items()}
        for x, v in nm.items():
            n = len(nc.get(x, ()))
            if n < len(v):
                F.append((VARPROP[tagof[x]], tagof[x], f'variable {x[0]}[{x[1]}] ({TAGS[tagof[x]]}) is missing'))
            elif n > len(v):
                F.append(('C11', tagof[x], f'variable {x[0]}[{x[1]}] appears {n} times'))
        for x in nc:
            if x not in nm:
                F.append(('C11', 'ind', f'variable {x[0]}[{x[1]}] is not part of the formulation'))
        for a, props in (('lbw', BOUNDPROP), ('ubw', BOUNDPROP), ('w0', GUESSPROP)):
            vc = [C.vec(a, k) for k in range(len(SEEDS))]
            vs = [S.vec(a, k) for k in range(len(SEEDS))]
            if any(v is None for v in vc):
                und.append(f'{a}: {C.err.get(a)}')
                continue
            if any(len(v) != len(wc) for v in vc):
                F.append(('C11', 'ind', f'{a} has {len(vc[0])} entries for {len(wc)} variables'))
                continue
            seen = set()
            for x, v in nm.items():
                if x not in nc:
                    continue
                i, j = nc[x][0], v[0]
                if not all(close(p[i], q[j]) for p, q in zip(vc, vs)):
                    t = tagof[x]
                    p = props.get(t)
                    if p and (p, t, a) not in seen:
                        seen.add((p, t, a))
                        F.append((p, t, f'{a} of {x[0]}[{x[1]}] ({TAGS[t]}): {vc[0][i]:.6g}, reference {vs[0][j]:.6g}'))
        # index sets
        for a in INDS:
            vc, vs = C.get(a), S.get(a)
            if vc is None:
                und.append(f'{a}: {C.err.get(a)}')
                continue
            xc, xs = struct(vc, wc), struct(vs, ws)
            if flat(xc) != flat(xs) or shape(xc) != shape(xs):
                d = next(((u, v) for u, v in zip(flat(xc), flat(xs)) if u != v), None)
                F.append(('C11', 'ind', f'{a} addresses {d[0] if d else "another layout"}, reference {d[1] if d else ""}'))
        cnt = {}
        ok = True
        for a in INDS:
            if a == 'ind_x_cont':
                continue
            vc = C.get(a)
            if vc is None:
                ok = False
                break
            for i in flat(vc):
                cnt[i] = cnt.get(i, 0) + 1
        if ok:
            bad = [i for i in range(len(wc)) if cnt.get(i, 0) != 1]
            if bad:
                F.append(('C11', 'ind', f'variable {wc[bad[0]]} belongs to {cnt.get(bad[0], 0)} index sets'))
    # ------------------------------------------------ parameters
    pc, ps = C.vec('p', 's'), S.vec('p', 's')
    if pc is None:
        und.append('p: ' + str(C.err.get('p')))
    else:
        if sorted(map(sorted, pc)) != sorted(map(sorted, ps)):
            F.append(('C08', 'p', 'the parameter vector consists of other symbols than the reference'))
    # ------------------------------------------------ constraints
    rowdiff = False
    rs_ = rows_of(S, lsq)
    rc_ = rows_of(C, lsq)
    if lsq:
        gx = C.vec('g')
        if gx is None:
            und.append('g: ' + str(C.err.get('g')))
        elif gx:
            F.append(('C25', 'lsq', f'{len(gx)} constraints remain besides the least squares terms'))
    if rc_ is None:
        und.append('g: ' + str(C.err))
    elif isinstance(rc_, str):
        F.append(('C11', 'ind', 'constraints and bounds do not fit: ' + rc_))
    else:
        uc, us = match(rc_, rs_)
        rowdiff = bool(uc or us)
        if rowdiff and lsq:
            # rows carry no tags in this mode; the exact configuration attributes them
            if len(rc_) != len(rs_):
                F.append(('C25', 'lsq', f'{len(rc_)} rows are squared, the problem has {len(rs_)}'))
            else:
                und.append('rows differ, see the configuration with exact handling')
        elif rowdiff:
            cand = us or rs_
            for r in uc:
                q = nearest(r.sup, cand)
                r.tag = q.tag if q else None
            bytag = {}
            for r in us:
                bytag.setdefault(r.tag, ([], []))[0].append(r)
            for r in uc:
                bytag.setdefault(r.tag, ([], []))[1].append(r)
            abl = {}
            def residual_agrees():
                f, u = [], []
                residual(code, spec, cfg, size, C, S, alias, f, u)
                return not f
            def mode_specific():
                # another relaxation of the same pairs is right: the pairing is not what is wrong
                if 'mode' not in abl:
                    c2 = dict(cfg, mpcc_mode='SCHOLTES_INEQ' if cfg['mpcc_mode'] != 'SCHOLTES_INEQ' else 'SCHOLTES_EQ')
                    try:
                        abl['mode'] = run.problem(c2)['g'] is run.reference(c2)['g']
                    except Exception:
                        abl['mode'] = False
                return abl['mode']
            def vanishes(name, fix, tag):
                if name not in abl:
                    abl[name] = ablated(code, spec, cfg, size, alias, fix)
                m = abl[name]
                return m is not None and not any(r.tag == tag for r in m[1]) and not any(
                    nearest(r.sup, m[1] or rs_).tag == tag for r in m[0])
            for tag, (ms, mc) in sorted(bytag.items(), key=lambda x: str(x[0])):
                if tag is None:
                    continue
                text = f'{len(ms)} rows of the reference are missing, {len(mc)} other rows instead; '
                text += (f'missing: {describe(ms[0])}' if ms else '') + (f'; found: {describe(mc[0])}' if mc else '')
                props = set()
                if tag in (9, 10, 11, 12) or (tag == 13 and cfg['step_equilibration'] in ('DIRECT_COMPLEMENTARITY', 'HEURISTIC_DELTA_H_COMP')):
                    a = sorted(map(sorted, map(pairsup, ms)), key=str)
                    b = sorted(map(sorted, map(pairsup, mc)), key=str)
                    supc, sups = {pairsup(x) for x in rc_}, {pairsup(x) for x in rs_}
                    same = all(pairsup(x) in supc for x in ms) and all(pairsup(x) in sups for x in mc)
                    if same and (tag != 12 or residual_agrees()) and enc_rows(ms, mc, rc_, rs_):
                        # the same quantities are paired: another relaxation
                        props.add('C05')
                        if tag == 13:
                            props.add('C10')
                    else:
                        props.add(ROWPROP[tag])
                        if mode_specific():
                            props.add('C05')
                elif tag in (1, 2, 3, 4, 5, 6, 7, 8, 16):
                    p = ROWPROP[tag]
                    props.add(p)
                    if tag == 1 and cfg['speed_of_time_variables'] != 'NONE' and vanishes('sot', sot_names(cfg, size), 1):
                        props = {'C15'}
                    elif tag in (1, 3, 4, 6, 8, 16) and ms and mc and size['n_s'] > 1 and vanishes('start', start_fix(cfg, size), tag):
                        props.add('C03')
                else:
                    props.add(ROWPROP[tag])
                for p in props:
                    F.append((p, tag, text))
    # ------------------------------------------------ complementarity index set
    if not lsq and not rowdiff and isinstance(rc_, list) and isinstance(rs_, list):
        ic, is_ = C.get('ind_comp'), S.get('ind_comp')
        gc, gs = C.vec('g', 's'), S.vec('g', 's')
        if ic is None:
            und.append(f"ind_comp: {C.err.get('ind_comp')}")
        elif is_ is not None and gc is not None and gs is not None:
            xc = [rowkey(gc, i) for i in flat(ic)]
            xs = [rowkey(gs, i) for i in flat(is_)]
            if sorted(xc) != sorted(xs):
                bad = next((i for i, x in zip(flat(ic), xc) if x not in xs), None)
                F.append(('C11', 'ind', 'ind_comp addresses ' + (f'constraint {bad}, no complementarity row' if bad is not None else f'{len(xc)} rows, reference {len(xs)}')))
    # ------------------------------------------------ cost
    cost(code, spec, cfg, size, C, S, alias, lsq, rowdiff, F, und)
    # ------------------------------------------------ residual
    residual(code, spec, cfg, size, C, S, alias, F, und)
    return F

def enc_rows(ms, mc, rc, rs):
    """the difference lies in the encoding, not in the number of imposed pairs"""
    if len(ms) == len(mc):
        return True
    # every pair has lost (or gained) the same number of rows
    def count(rows):
        n = {}
        for r in rows:
            n[pairsup(r)] = n.get(pairsup(r), 0) + 1
        return n
    nc, ns = count(rc), count(rs)
    return all(nc.get(p, 0) > 0 for p in map(pairsup, ms)) and len({(nc.get(pairsup(x), 0), ns[pairsup(x)]) for x in ms}) <= 2 and any(
        nc.get(p, 0) != k for p, k in ns.items())

def shape(x):
    return [shape(i) for i in x] if isinstance(x, list) else 0

def costs(side, lsq):
    out = []
    for k in range(len(SEEDS)):
        v = side.get('cost', k)
        if v is None:
            return None
        try:
            v = side.num[k].one(v)
        except EvalError as e:
            side.err['cost'] = str(e)
            return None
        if lsq:
            g = side.vec('g_lsq', k)
            if g is None:
                return None
            v = v - sum(x * x for x in g)
        out.append(v)
    return out

def cost(code, spec, cfg, size, C, S, alias, lsq, rowdiff, F, und):
    a, b = costs(C, False), costs(S, False)
    if a is None:
        und.append('cost: ' + str(C.err.get('cost')))
        return
    if vclose(a, b):
        return
    if lsq:
        x, y = costs(C, True), costs(S, True)
        if x is None:
            und.append('cost: least squares rows')
            return
        if vclose(x, y):
            return          # the rows differ, not the way they are moved
        # the same without constraints: is the objective itself wrong?
        z = 'cost'
        F.append(('C25', 'lsq', f'objective {a[0]:.6g}, reference {b[0]:.6g} (least squares terms of the same rows)'))
        return
    text = f'objective {a[0]:.6g}, reference {b[0]:.6g} at sampled data'
    def diff(fix=None, zero=()):
        f = fixed_for(cfg); f.update(fix or {})
        u = costs(Side(code, cfg, size, alias, f, zero), lsq)
        v = costs(Side(spec, cfg, size, None, f, zero), lsq)
        return None if u is None or v is None else not vclose(u, v)
    step = diff(zero=('ocp.f_q_fun', 'ocp.f_q_T_fun'))          # persists without user cost
    user = diff({'opts.rho_h': 0.0})                            # persists without step equilibration weight
    props = set()
    if user is not False:
        props.add('C12')
        if cfg['speed_of_time_variables'] != 'NONE' and diff({**sot_names(cfg, size), 'opts.rho_h': 0.0}) is False:
            props.add('C15')
    if step and (diff({'opts.rho_h': 0.0}, ('ocp.f_q_fun', 'ocp.f_q_T_fun')) is False or not is_elastic(cfg)):
        props.add('C10')
        props.add('C12')
    for p in props:
        F.append((p, 13 if p == 'C10' else 'cost', text))

def is_elastic(cfg):
    return cfg['mpcc_mode'].startswith('ELASTIC')

def products(side, k):
    t = side.g.get('comp_res')
    if not isinstance(t, T) or t.op != 'casfun' or len(t.args[2]) != 1:
        return None
    e = t.args[2][0]
    if e.op != 'call' or e.args[0] != 'mfmax':
        return None
    try:
        return side.num[k].vec(side.num[k].ev(e.args[1], {}))
    except EvalError:
        return None

def residual(code, spec, cfg, size, C, S, alias, F, und):
    a, b = products(C, 0), products(S, 0)
    if a is not None and b is not None:
        miss = [x for x in b if not any(close(x, y) for y in a)]
        extra = [x for x in a if not any(close(x, y) for y in b) and x != 0]
        if miss or extra:
            F.append(('C06', 'comp_res', f'{len(miss)} of {len(b)} required products are missing from the residual, {len(extra)} others are included'))
        return
    # general form: probe every pair of multipliers separately
    ws = ids(S)
    wt = [int(x) for x in S.vec('w_tag')]
    th = [x for x, t in zip(ws, wt) if t in (24, 27)]
    la = [x for x, t in zip(ws, wt) if t in (25, 28, 29)]
    pn = [next(iter(x)) for x in S.vec('p', 's') if len(x) == 1]
    la += [x for x in pn if x[0].startswith('lambda00')]
    n = 0
    for x in th:
        for y in la:
            for val in ((1.0, 1.0), (0.5, 1.0)):
                fix = {x: val[0], y: val[1]}
                u = one(code, cfg, size, alias, fix)
                v = one(spec, cfg, size, None, fix)
                if u is None or v is None:
                    und.append('comp_res: not interpretable')
                    return
                if not close(u, v):
                    F.append(('C06', 'comp_res', f'residual with only {x} and {y} active: {u:.6g}, reference {v:.6g}'))
                    return
            n += 1
            if n > 400:
                return

def one(graph, cfg, size, alias, fix):
    e = sizes.make_env(size, cfg, 0, fix, (), alias)
    e.default = 0.0
    ev = evalt.Ev(e)
    t = graph.get('comp_res')
    if not isinstance(t, T):
        return None
    try:
        return ev.one(ev.ev(t, {}))
    except EvalError:
        return None

ATTRS = [a for a in run.ATTRS]

def check_config(cfg, deep=False):
    """one configuration: dict with identical, undecided, findings"""
    t0 = time.time()
    out = {'config': configs.name(cfg), 'identical': False, 'undecided': [], 'findings': [], 'attrs': 0, 'sizes': 0}
    spec = run.reference(cfg)
    code = run.problem(cfg)
    out['unsupported'] = [str(x)[:200] for x in code['_unsupported'][:5]]
    exact = cfg['constraint_handling'] == 'EXACT'
    diff = [a for a in ATTRS if code[a] is not spec[a] and not (a == 'g_lsq' and exact)]
    out['attrs'] = len(ATTRS) - len(diff)
    out['differ'] = diff
    rejects_differ = False
    out['identical'] = not diff
    out['stats'] = {k: code['_stats'][k] for k in code['_stats']} if isinstance(code['_stats'], dict) else {}
    if not diff and not deep:
        # rejections are not part of the identity
        for i, s in enumerate(sizes.SIZES[:2]):
            fx = fixed_for(cfg)
            rs, e1 = raises_true(Side(spec, cfg, s, None, fx))
            rc, e2 = raises_true(Side(code, cfg, s, None, fx))
            if rs is None or rc is None:
                out['undecided'].append(f'raise conditions: {e1 or e2}')
            elif bool(rs) != bool(rc):
                loc = code['_it'].prov.get(rc[0].id) if rc else None
                out['findings'].append(dict(prop='C25' if not exact else 'C22', site=where('raise'), config=out['config'], size=i,
                                            text=f'construction is rejected at {loc}' if rc else 'construction is no longer rejected'))
    else:
        szs = sizes.SIZES
        for i, s in enumerate(szs):
            try:
                fs = compare(code, spec, cfg, s, out)
            except EvalError as e:
                out['undecided'].append(str(e))
                continue
            out['sizes'] += 1
            for p, key, text in fs:
                out['findings'].append(dict(prop=p, site=where(key), text=text, config=out['config'], size=i))
    out['undecided'] = sorted(set(out['undecided']))[:20]
    out['wall'] = round(time.time() - t0, 1)
    return out
