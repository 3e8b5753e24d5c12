JOBS = [('share', 'check_share', ())]
N = 'nosnoc/'
S, P, M, O, H, U, A, T = [N + x for x in ('solver.py', 'problem.py', 'model.py', 'nosnoc_opts.py', 'helpers.py', 'utils.py', 'auto_model.py', 'ocp.py')]
M_ = N + 'model.py'
DC = '        self.opts_casadi_nlp = deepcopy(self.opts_casadi_nlp)\n'
M = [
 ('no deepcopy', 'C21', O, DC, '        pass\n'),
 ('shallow', 'C21', O, DC, '        self.opts_casadi_nlp = dict(self.opts_casadi_nlp)\n'),
 ('shallow2', 'C21', O, DC, '        self.opts_casadi_nlp = {**self.opts_casadi_nlp}\n'),
 ('self copy', 'C21', O, DC, '        self.opts_casadi_nlp = self.opts_casadi_nlp.copy()\n'),
 ('late deepcopy', 'C21', O, DC, '        if self.print_level > 0:\n            self.opts_casadi_nlp = deepcopy(self.opts_casadi_nlp)\n'),
 ('asarray', 'C21', S, 'prob.w0 = np.array(value, dtype=float)', 'prob.w0 = np.asarray(value, dtype=float)'),
 ('alias', 'C21', S, 'prob.w0 = np.array(value, dtype=float)', 'prob.w0 = value if isinstance(value, np.ndarray) else np.array(value)'),
 ('alias var', 'C21', S, 'prob.w0 = np.array(value, dtype=float)', 'w_new = value\n            prob.w0 = w_new'),
 ('copy False', 'C21', S, 'prob.w0 = np.array(value, dtype=float)', 'prob.w0 = np.array(value, copy=False)'),
 ('flat', 'C21', S, 'prob.w0 = np.array(value, dtype=float)', 'prob.w0 = value.ravel()'),
 ('looper state', 'C21', H, '        self.X_sim = [x0]\n', '        self.X_sim = x0 if isinstance(x0, list) else [x0]\n'),
 ('looper inplace', 'C21', H, '            self.xcurrent = self.X_sim[-1]\n', '            self.xcurrent[:] = self.X_sim[-1]\n'),
 ('default list', 'C21', H, '                 print_level: Optional[int] = None\n', '                 print_level: Optional[int] = None,\n                 switch_times: list = []\n', 'self.switch_times = []', 'self.switch_times = switch_times'),
 ('default idx', 'C21', P, '                 p_vec: Optional[ca.SX] = None) -> None:', '                 p_vec: Optional[ca.SX] = None, acc=[]) -> None:') if False else
 ('class list', 'C21', P, 'class NosnocFormulationObject(ABC):\n', 'class NosnocFormulationObject(ABC):\n    g_names = []\n'),
 ('p_global alias', 'C21', S, "            for i in range(self.opts.N_stages):\n                self.model.p_val_ctrl_stages[i, dims.n_p_time_var:] = value\n", "            value *= 1.0\n            for i in range(self.opts.N_stages):\n                self.model.p_val_ctrl_stages[i, dims.n_p_time_var:] = value\n"),
 ('x in place', 'C21', S, "        prob = self.problem\n        dims = prob.model.dims\n        if field == 'x0':\n            prob.model.x0 = value", "        prob = self.problem\n        dims = prob.model.dims\n        if field == 'x0':\n            value[np.isnan(value)] = 0.0\n            prob.model.x0 = value"),
 ('module cache', 'C21', U, 'def casadi_length(', '_LEN = {}\n\n\ndef casadi_length(', '    return x.shape[0]', "    _LEN['last'] = x.shape[0]\n    return _LEN['last']") ,
 ('param append', 'C21', M_, '        self.x: ca.SX = x\n', '        self.x: ca.SX = x\n        S.append(S[0])\n') ,
 ('- helper', '-', O, DC, '        self._own()\n', '    def preprocess(self', '    def _own(self):\n        self.opts_casadi_nlp = deepcopy(self.opts_casadi_nlp)\n\n    def preprocess(self'),
 ('- copy', '-', S, 'prob.w0 = np.array(value, dtype=float)', 'prob.w0 = np.asarray(value, dtype=float).copy()'),
 ('- copy2', '-', S, 'prob.w0 = np.array(value, dtype=float)', 'w_new = np.array(value, dtype=float)\n            prob.w0 = w_new'),
 ('- copy3', '-', S, 'prob.w0 = np.array(value, dtype=float)', 'prob.w0 = 1.0 * value'),
 ('- copy4', '-', S, 'prob.w0 = np.array(value, dtype=float)', 'prob.w0 = np.copy(value)'),
 ('- deepcopy', '-', S, 'prob.w0 = np.array(value, dtype=float)', 'prob.w0 = copy.deepcopy(value)', 'import time\n', 'import copy\nimport time\n'),
 ('- slice', '-', S, 'prob.w0 = np.array(value, dtype=float)', 'prob.w0[:] = value'),
 ('- plus', '-', H, '            self.X_sim += results["x_list"]\n', '            self.X_sim.extend(results["x_list"])\n'),
 ('- plus2', '-', H, '            self.X_sim += results["x_list"]\n', '            self.X_sim = self.X_sim + list(results["x_list"])\n'),
 ('- local', '-', H, '            self.theta_sim.append(results["theta_list"])\n', '            th = self.theta_sim\n            th.append(results["theta_list"])\n'),
 ('- const table', '-', U, 'def casadi_length(', '_NAMES = ["a", "b"]\n\n\ndef casadi_length('),
 ('- class const', '-', P, 'class NosnocFormulationObject(ABC):\n', 'class NosnocFormulationObject(ABC):\n    FIELDS = ("w", "g")\n'),
 ('- norm x0', '-', H, '        self.X_sim = [x0]\n', '        self.X_sim = list([x0])\n'),
 ('- x0 rebind', '-', H, '        self.xcurrent = x0\n', '        x0 = np.array(x0)\n        self.xcurrent = x0\n'),
 ('- helper out', '-', S, "            for i in range(self.opts.N_stages):\n                self.model.p_val_ctrl_stages[i, dims.n_p_time_var:] = value\n", "            self._put_p(self.model.p_val_ctrl_stages, value)\n", "    def print_problem(self)", "    def _put_p(self, p_all, value):\n        n = self.model.dims.n_p_time_var\n        for p in p_all:\n            p[n:] = value\n\n    def print_problem(self)"),
 ('- pub helper', '-', S, "            for i in range(self.opts.N_stages):\n                self.model.p_val_ctrl_stages[i, dims.n_p_time_var:] = value\n", "            self.put_p(self.model.p_val_ctrl_stages, value)\n", "    def print_problem(self)", "    def put_p(self, p_all, value):\n        p_all[:, self.model.dims.n_p_time_var:] = value\n\n    def print_problem(self)"),
]
