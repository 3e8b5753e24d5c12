PROPERTY = 'C14'
EDITS = [('nosnoc/problem.py',
 "p_global = self.p[self.model.dims.n_p_time_var:self.model.dims.n_p_time_var + self.model.dims.n_p_glob]",
 "p_global = self.p[:self.model.dims.n_p_glob]")]
NEEDS = 'a global path complementarity that uses global parameters in a model which also has time-varying parameters'
BREAKS = 'the globally imposed complementarity is evaluated with the time-varying parameters of the first stage instead of the global ones'
DEMO = '''
pg = ca.SX.sym('pg', 1); pt = ca.SX.sym('pt', 1); v = ca.SX.sym('v', 2)
m = model(n_u=1, p_global=pg, p_global_val=np.array([5.0]), p_time_var=pt, p_time_var_val=np.array([[7.0]]), v_global=v)
ocp = nosnoc.NosnocOcp(g_path_comp=ca.horzcat(v[0] - pg, v[1]))
p = problem(options(), m, ocp)
rows = [p.g[i] for i in range(p.g.shape[0]) if 'v_0' in syms(p.g[i])]
if not rows:
    fail('global complementarity missing')
for r in rows:
    f = ca.Function('f', [p.w, p.p], [r])
    w = np.zeros(p.w.shape[0]); w[p.ind_v_global[0]] = [2.0, 3.0]
    pv = np.zeros(p.p.shape[0]); n = names(p.p)
    pv[0], pv[1] = 7.0, 5.0
    if abs(float(f(w, pv)) - (2.0 - 5.0) * 3.0) > 1e-9:
        fail(f'global complementarity row has value {float(f(w, pv))} instead of -9')
'''
