PROPERTY = 'C26'
EDITS = [('nosnoc/auto_model.py', "                    f_ij[0] += f[0]\n                    f_ij[1] += f[1]\n", "                    f_ij = [f[0], f_ij[1] + f[1]]\n")]
NEEDS = 'an additive right-hand side in the linear reformulation where one state equation holds two terms with the same switching function'
BREAKS = 'in one region all but the last of the terms with the same switching function are lost'
DEMO = '''
from nosnoc.auto_model import NosnocAutoModel
x = ca.SX.sym('x', 2)
f = ca.vertcat(ca.sin(x[1]) * ca.sign(x[0]) * 2 + ca.cos(x[1]) * 3 * ca.sign(x[0]), 1 + x[1])
a = NosnocAutoModel(x=x, x0=np.zeros(2), u=ca.SX.sym('u', 0), f_nonsmooth_ode=f)
a._reformulate_linear()
val = ca.Function('F', [x], a.F)
ref = ca.Function('f', [x], [f])
cf = ca.Function('c', [x], a.c)
for xv in ([0.4, 0.7], [-0.4, 0.7]):
    Fs = val(xv); cs = cf(xv)
    Fs = Fs if isinstance(Fs, (tuple, list)) else [Fs]
    cs = cs if isinstance(cs, (tuple, list)) else [cs]
    tot = ca.DM.zeros(2, 1)
    for F, c, S in zip(Fs, cs, a.S):
        k = [i for i in range(2) if float(S[i][0]) * float(c) > 0][0]
        tot = tot + F[:, k]
    if float(ca.norm_inf(tot - ref(xv))) > 1e-9:
        fail(f'dynamics at {xv}: {tot} instead of {ref(xv)}')
'''
