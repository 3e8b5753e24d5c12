PROPERTY = 'C30'
EDITS = [('nosnoc/problem.py', "            t0 = model.t_fun(self.fe0.w[self.fe0.ind_x[-1]])", "            t0 = model.t_fun(model.x0)")]
NEEDS = 'time freezing in a problem that is solved again from a later clock value, as the simulation or receding-horizon loop does'
BREAKS = 'the physical clock is tied to the initial clock value at construction instead of the current initial state'
DEMO = '''
x = ca.SX.sym('x', 2)
m = nosnoc.NosnocModel(x=x, x0=np.array([-0.3, 0.0]), F=[ca.horzcat(ca.vertcat(1, 1), ca.vertcat(3, 1))], c=[x[0]], S=[np.array([[1], [-1]])], t_var=x[1])
p = problem(options(n_s=3, N_stages=2, Nfe_list=[2, 2], time_freezing=True), m, nosnoc.NosnocOcp())
rows = [p.g[i] for i in range(p.g.shape[0]) if p.ubg[i] == p.opts.time_freezing_tolerance]
if len(rows) != 2:
    fail('clock constraints missing')
for r in rows:
    f = ca.Function('f', [p.w, p.p], [r])
    w = np.zeros(p.w.shape[0]); pv = np.zeros(p.p.shape[0])
    a = float(f(w, pv)); pv[-1] = 0.8
    if abs(float(f(w, pv)) - a + 0.8) > 1e-9:
        fail('the clock constraint does not follow the initial clock value')
'''
