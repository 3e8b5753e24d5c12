PROPERTY = 'C08'
EDITS = [('nosnoc/solver.py', "            for i in range(self.opts.N_stages):\n                self.model.p_val_ctrl_stages[i, dims.n_p_time_var:] = value\n", "            self.model.p_val_ctrl_stages[:, -dims.n_p_glob:] = value\n")]
NEEDS = 'set("p_global", ...) on a model without global parameters but with time-varying ones (the simulation loop does it with an empty row)'
BREAKS = 'an empty global parameter value addresses the whole row: the call fails (or would overwrite the time-varying parameters)'
DEMO = '''
pt = ca.SX.sym('pt', 2)
m = model(p_time_var=pt, p_time_var_val=np.array([[7.0, 8.0]]))
s = nosnoc.NosnocSolver(options(), m)
try:
    s.set('p_global', np.zeros((0,)))
except Exception as e:
    fail(f'setting the empty global parameter raises {e!r}')
if np.abs(m.p_val_ctrl_stages - [[7.0, 8.0]]).max() > 0:
    fail('time varying parameters changed')
'''
