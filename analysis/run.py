"""Runs the value-graph interpreter on the entry points of the package."""
import os, sys, time
sys.setrecursionlimit(6000)
from .terms import *
from .program import Program
from . import interp as I
from . import prims
from .domain import PkgDomain
from . import configs

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')

_prog = {}
def program(repo=None):
    repo = repo or REPO
    if repo not in _prog:
        p = Program(repo)
        sd = os.path.join(HERE, 'spec')
        for f in sorted(os.listdir(sd)):
            if f.endswith('.py'):
                p.add('spec_' + f[:-3], os.path.join(sd, f))
        _prog[repo] = p
    return _prog[repo]

def interp(pins=None, domain=None):
    it = I.Interp(program(), domain or PkgDomain(pins or {}))
    prims.install(it)
    return it

P = lambda n: mk('param', n)

ATTRS = ('w', 'w0', 'lbw', 'ubw', 'g', 'lbg', 'ubg', 'cost', 'p', 'ind_x', 'ind_x_cont', 'ind_v', 'ind_theta', 'ind_lam',
         'ind_mu', 'ind_alpha', 'ind_lambda_n', 'ind_lambda_p', 'ind_bool', 'ind_z', 'ind_elastic', 'ind_u', 'ind_sot',
         'ind_h', 'ind_v_global', 'ind_comp', 'comp_res', 'cost_fun', 'g_fun', 'w0_original', 'g_lsq')

def problem(c):
    """value graph of NosnocProblem(opts, model, ocp)"""
    t0 = time.time()
    it = interp(configs.pins(c))
    it.primitives['nosnoc.ocp.NosnocOcp.preprocess_ocp'] = lambda it, st, args, kw, node: NONE
    st = I.State()
    ci = it.prog.find_class('NosnocProblem')
    it.frames.append(I.Frame(ci.module, None, 'check'))
    o = it.instantiate(ci, [P('opts'), P('model'), P('ocp')], {}, ci.node, st)
    out = {}
    for a in ATTRS:
        try:
            v = it.getattr(o, a, st)
            out[a] = it.reify(st, it.V(st, v))
        except I.Undecided as e:
            out[a] = unknown(str(e))
    out = canon_keys(out, ('p', 'w'))
    out['_raises'] = list(it.raises)
    out['_unsupported'] = list(it.unsupported)
    out['_stats'] = it.stats
    out['_wall'] = time.time() - t0
    out['_it'] = it
    return out

def reference(c):
    """value graph of the reference formulation"""
    t0 = time.time()
    it = interp(configs.pins(c))
    st = I.State()
    ci = it.prog.modules['spec_problem_spec'].classes['Reference'] if hasattr(it.prog.modules['spec_problem_spec'], 'classes') else it.prog.find_class('Reference')
    it.frames.append(I.Frame(ci.module, None, 'check'))
    o = it.instantiate(ci, [P('opts'), P('model'), P('ocp')], {}, ci.node, st)
    out = {}
    for a in ATTRS + ('w_tag', 'g_tag'):
        n = {'ind_comp': 'ind_comp_all', 'ind_bool': 'ind_bool_all'}.get(a, a)
        try:
            v = it.getattr(o, n, st)
            out[a] = it.reify(st, it.V(st, v))
        except I.Undecided as e:
            out[a] = unknown(str(e))
    out = canon_keys(out, ('p', 'w'))
    out['_raises'] = list(it.raises)
    out['_unsupported'] = list(it.unsupported)
    out['_wall'] = time.time() - t0
    out['_it'] = it
    return out
