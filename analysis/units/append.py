"""Appending variables and constraints on their own: values, bounds, index sets, and lengths that do not fit."""
from ..terms import *
from . import fn
from .fn import EvalError, hreal_v

FILE = 'nosnoc/problem.py'
V8 = ['a', 'la', 'ua', 'ia', 'b', 'lb', 'ub', 'ib']
CASES = [('plain', 'add_variable', V8), ('stage', 'add_variable', V8), ('sys', 'add_variable', V8),
         ('con', 'add_constraint', ['a', 'la', 'ua', 'b', 'lb', 'ub']), ('con_default', 'add_constraint', ['a', 'b', 'ub', 'c', 'lc'])]
NAMES = {'plain': ['w', 'lbw', 'ubw', 'w0', 'index set'], 'con': ['g', 'lbg', 'ubg', 'index set']}
SIZES = [dict(a=2, b=3, c=1), dict(a=1, b=1, c=2), dict(a=4, b=2, c=3)]

def data(args, s, seed, **over):
    # symbols are a, b, c; everything else belongs to the symbol of its last letter
    at = {x: [2 * hreal_v(seed, x, k) - 0.9 for k in range(s[x[-1]])] for x in args}
    at.update(over)
    return at

def ev(args, at):
    return fn.FunEv(fn.env({}, 0, arrays1=[x for x in args if len(x) == 2]), {}, dict(at))

def check_append():
    out = fn.Out('add_variable, add_constraint', FILE)
    ci = fn.run.program().find_class('NosnocFormulationObject')
    for case, meth, args in CASES:
        if ci is None or meth not in ci.methods:
            out.und(f'no method {meth}'); continue
        site = 'NosnocFormulationObject.' + meth
        a = fn.graph(('func', 'spec_append_spec', 'code_' + case), args)
        b = fn.graph(('func', 'spec_append_spec', 'ref_' + case), args)
        if b.unsupported:
            raise RuntimeError('reference: ' + str(b.unsupported[:3]))
        if a.unsupported:
            out.und(f'{case}: ' + str(a.unsupported[0])[:160]); continue
        names = NAMES['con' if case.startswith('con') else 'plain']
        for si, s in enumerate(SIZES):
            at = data(args, s, si)
            ea, eb = ev(args, at), ev(args, at)
            ra, rb = fn.raised(a, ea, True), fn.raised(b, eb, True)
            if rb:
                raise RuntimeError(f'reference rejects {case}: {rb}')
            if ra:
                if str(ra).startswith('error: '):
                    out.und(f'{case}: {ra}')
                else:
                    out.find('C11', site, f'fitting lengths are rejected: {ra}', si)
                continue
            try:
                y = fn.value(eb, b.ret)
            except EvalError as e:
                raise RuntimeError(f'reference: {e}')
            try:
                x = fn.value(ea, a.ret)
            except EvalError as e:
                out.und(f'{case}: {e}'); continue
            for n, p, q in zip(names, x, y):
                out.d['compared'] += 1
                d = fn.diff(p, q, n, 3)
                if d:
                    out.find('C11', site, f'{case}: {d}', si)
            for n in args:
                if len(n) == 1:
                    continue
                for what, v in (('longer', at[n] + [0.3]), ('shorter', at[n][:-1])):
                    bad = data(args, s, si, **{n: v})
                    ea, eb = ev(args, bad), ev(args, bad)
                    if not fn.raised(b, eb, True):
                        raise RuntimeError(f'reference accepts {n} {what}')
                    out.d['compared'] += 1
                    if not fn.raised(a, ea, True):
                        try:
                            fn.value(ea, a.ret)
                        except EvalError:
                            continue
                        kind = {'l': 'lower bounds', 'u': 'upper bounds', 'i': 'initial values'}[n[0]]
                        out.find('C11', site, f'{case}: {kind} {what} than the symbols are accepted', si)
    return out.d
