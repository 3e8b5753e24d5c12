PROPERTY = 'C23'
EDITS = [('nosnoc/model.py', "        if not self.p_time_var_val.shape == (opts.N_stages, n_p_time_var):", "        if self.p_time_var_val.shape[1] != n_p_time_var:")]
NEEDS = 'time-varying parameter values with more rows than control stages'
BREAKS = 'a table of parameter values that does not fit the control stages is accepted and silently cut'
DEMO = '''
pt = ca.SX.sym('pt', 1)
m = model(p_time_var=pt, p_time_var_val=np.array([[1.0], [2.0], [3.0]]))
o = options(N_stages=2, Nfe_list=[2, 2]); o.preprocess()
try:
    m.preprocess_model(o)
except Exception as e:
    sys.exit(0)
fail('three rows of parameter values accepted for two control stages')
'''
