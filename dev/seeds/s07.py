PROPERTY = 'C07'
EDITS = [('nosnoc/model.py', "                        if S_temp[j, k] != 0:\n", "                        if S_temp[j, k] != 0 and (k == 0 or S_temp[j, k - 1] != 0):\n")]
NEEDS = 'step mode with a sign matrix that has a zero entry directly before a nonzero one'
BREAKS = 'a switching function behind a zero entry of the sign matrix no longer distinguishes the regions'
DEMO = '''
x = ca.SX.sym('x', 3)
S = np.array([[1, 1, 0], [1, -1, 0], [-1, 0, 1], [-1, 0, -1]])
F = ca.horzcat(ca.DM([1, 0, 0]), ca.DM([0, 1, 0]), ca.DM([0, 0, 1]), ca.DM([1, 1, 1]))
m = nosnoc.NosnocModel(x=x, F=[F], c=[x], S=[S], x0=np.zeros(3))
o = options(pss_mode=nosnoc.PssMode.STEP)
o.preprocess(); m.preprocess_model(o)
al = np.array([0.2, 0.7, 0.4])
z = np.concatenate((al, np.zeros(6)))
f = np.array(m.f_x_fun(np.zeros(3), z, [], [], [])).flatten()
w = [np.prod([(a if s > 0 else 1 - a) for a, s in zip(al, row) if s != 0]) for row in S]
want = np.array([w[0] + w[3], w[1] + w[3], w[2] + w[3]])
if np.abs(f - want).max() > 1e-12:
    fail(f'dynamics {f}, expected {want}')
'''
