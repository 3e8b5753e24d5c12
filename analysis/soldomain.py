"""Facts about the objects a solver works on: the assembled problem with its nested index
sets is opaque, but the nesting of the index sets and the entries of the option object are
typed (the problem unit decides what they contain)."""
from .terms import *
from . import terms as TT
from .interp import index
from . import interp as I
from .domain import PkgDomain

# nesting of the index sets of the assembled problem
DEPTH = {'ind_x': 4, 'ind_v': 4, 'ind_z': 4, 'ind_theta': 5, 'ind_lam': 5, 'ind_mu': 5, 'ind_alpha': 5, 'ind_lambda_n': 5, 'ind_lambda_p': 5,
         'ind_bool': 3, 'ind_x_cont': 3, 'ind_u': 2, 'ind_sot': 1, 'ind_elastic': 1, 'ind_h': 1, 'ind_v_global': 1}

def O(name):
    return mk('attr', mk('param', 'opts'), name)
def Dm(name):
    return mk('attr', mk('attr', mk('param', 'model'), 'dims'), name)

class SolverDomain(PkgDomain):
    param_types = dict(PkgDomain.param_types, self='NosnocSolver', prob='NosnocProblem', solver='NosnocSolver')
    def __init__(self, pins=None):
        super().__init__(pins)
        self.skel = {}
    def depth(self, t):
        n = 0
        while t.op == 'index':
            if t.args[1].op in ('sl', 'tuple'):
                return None
            n += 1
            t = t.args[0]
        if t.op == 'attr' and t.args[1] in DEPTH:
            d = DEPTH[t.args[1]]
            if t.args[1] == 'ind_sot' and self.pins.get('speed_of_time_variables') is mk('enum', 'SpeedOfTimeVariableMode', 'LOCAL'):
                d = 2
            return d - n
        return None
    def islist(self, t):
        d = self.depth(t)
        return d is not None and d >= 1
    def is_kind(self, v, n):
        d = self.depth(v)
        if d is None:
            return None
        if n == 'list':
            return d >= 1
        if n == 'int':
            return d == 0
        return None
    def attr_value(self, obj, name):
        r = super().attr_value(obj, name)
        if r is not None:
            return r
        if name in DEPTH and obj.op in ('param', 'attr'):
            t = mk('attr', obj, name)
            d = self.depth(t)
            if d >= 2:
                if t not in self.skel:
                    self.skel[t] = self.skeleton(t, t, d, 0)
                return self.skel[t]
        # canonical names of the shared objects
        if obj.op == 'attr' and obj.args[1] in ('problem', 'prob') or obj.op == 'param' and obj.args[0] in ('self', 'prob', 'problem', 'solver'):
            if name in ('opts', 'model', 'ocp'):
                return mk('param', name)
            if name == 'problem':
                return mk('param', 'problem')
        return None
    def is_nlp(self, f):
        return f.op == 'attr' and f.args[1] == 'solver' and f.args[0].op == 'param' or f.op == 'param' and f.args[0] == 'nlp'
    def call(self, it, st, f, args, kwargs, node):
        if not self.is_nlp(f):
            return None
        r = mk('call', f, *[it.reify(st, it.V(st, a)) for a in args], *[mk('kw', k, it.reify(st, it.V(st, v))) for k, v in sorted(kwargs.items())])
        it.hset(st, f, '#last', r)
        it.log(st, mk('event', 'nlp', r))
        return r
    def method(self, it, o, name, args, kwargs, node, st):
        if self.is_nlp(o) and name == 'stats':
            last = it.hget(st, o, '#last')
            return mk('call', 'nlpstats', last if last is not None else mk('attr', o, '#last'))
        return None
    def skeleton(self, root, t, d, lvl):
        """nested list whose innermost lists are opaque"""
        if d == 1:
            return t
        name = root.args[1]
        if lvl == 0:
            n = O('N_stages')
        elif lvl == 1:
            n = index(O('Nfe_list'), t.args[1])
        elif lvl == 3:
            n = Dm('n_sys')
        elif lvl == 2 and name in ('ind_z', 'ind_v', 'ind_theta', 'ind_alpha'):
            n = O('n_s')
        else:
            n = mk('len', mk('attr', root.args[0], name + '_stages'))
        b = binder(ZERO, n)
        return mk('list', mrep(b, ZERO, n, mk('list', el(self.skeleton(root, index(t, b), d - 1, lvl + 1)))))

def _pos(t):
    return t.op == 'len' and t.args[0].op == 'attr' and t.args[0].args[1].endswith('_stages') and t.args[0].args[1].startswith('ind_') 
TT.POS_FACTS.append(_pos)
