PROPERTY = 'C05'
EDITS = [('nosnoc/problem.py', "        elif opts.mpcc_mode == MpccMode.FISCHER_BURMEISTER:\n            g_comp = ca.SX.zeros(n, 1)\n            for j in range(n):\n                for x_i in x:\n                    g_comp[j] += x_i[j]",
 "        elif opts.mpcc_mode == MpccMode.FISCHER_BURMEISTER:\n            g_comp = ca.SX.zeros(n, 1)\n            for j in range(n):\n                for x_i in x:\n                    g_comp[j] = x_i[j]")]
NEEDS = 'Fischer-Burmeister mode together with the cross complementarity mode that collects several multipliers per stage'
BREAKS = 'only the last multiplier of the list is related to the convex multiplier of the stage'
DEMO = '''
import warnings; warnings.simplefilter('ignore')
o = options(n_s=2, mpcc_mode=nosnoc.MpccMode.FISCHER_BURMEISTER, cross_comp_mode=nosnoc.CrossComplementarityMode.SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA)
p = problem(o, model())
fe = p.stages[0][1]
rows = [fe.g[i] for i in fe.ind_comp[-1]]
lams = {s.name() for s in ca.symvar(ca.vertcat(*[fe.Lambda(stage=k) for k in range(len(fe.ind_lam))]))}
lam_prev = {s.name() for s in ca.symvar(fe.prev_fe.Lambda(stage=-1))}
seen = set().union(*[syms(r) for r in rows])
if not (lams | lam_prev) <= seen:
    fail(f'multipliers {sorted((lams | lam_prev) - seen)} are not in the complementarity rows')
'''
