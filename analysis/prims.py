"""Summaries of the package's small recursive list helpers.

Each summary is itself an obligation: rules/c11 checks the helper's body (with the
recursive call left opaque) against the inductive definition used here."""
from .terms import *
from . import terms as TT
from . import interp as I

def inc(v, off):
    if v.op == 'list':
        return seq('list', [_incseg(s, off) for s in v.args])
    if v.op == 'range':
        return I.mk_range(add(v.args[0], off), add(v.args[1], off))
    if v.op == 'ite':
        return ite(v.args[0], inc(v.args[1], off), inc(v.args[2], off))
    if isvec(v) is False or isint(v):
        return add(v, off)
    return mk('call', 'incr', v, off)
def _incseg(s, off):
    if s.op in ('el', 'spread'):
        return mk(s.op, inc(s.args[0], off))
    if s.op == 'opt':
        return opt(s.args[0], seq('list', [_incseg(x, off) for x in s.args[1].args]))
    if s.op == 'rep':
        bv, lo, hi, body = s.args
        b = binder(lo, hi)
        return mrep(b, lo, hi, seq('list', [_incseg(x, off) for x in subst(body, {bv: b}).args]))
    raise AssertionError(s.op)
TT_inc = lambda v, off: inc(v, off)

def p_increment(it, st, args, kw, node):
    v = it.reify(st, it.V(st, args[0]))
    off = it.V(st, args[1])
    return it.boxed(inc(v, off), st)

def flatobj(v):
    """flatten of nested lists whose leaves are objects or numbers"""
    return I.flat_pure(v)

def p_flatten(it, st, args, kw, node):
    v = it.reify(st, it.V(st, args[0]))
    if v.op == 'list':
        return I.flat_pure(v)
    if isvec(v) is False or v.op == 'new':
        return mk('list', el(v))
    return mk('call', 'flatten', v)

def p_flat_layer(it, st, args, kw, node):
    """flatten_outer_layers(L, n)"""
    v = it.reify(st, it.V(st, args[0]))
    n = it.V(st, args[1]) if len(args) > 1 else it.V(st, kw.get('n_layers'))
    return mk('call', 'flat_outer', v, n)

def install(it):
    it.primitives['nosnoc.utils:increment_indices'] = p_increment
    it.primitives['nosnoc.utils:flatten'] = p_flatten
