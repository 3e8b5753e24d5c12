JOBS = [('ocp', 'check_ocp', ()), ('ocp', 'check_init', ())]
F = 'nosnoc/ocp.py'
M = [
 ('dep', 'C14', F, "rk_stage_vars = ca.vertcat(model.x, model.z)", "rk_stage_vars = model.x"),
 ('dep2', 'C14', F, "control_stage_vars = ca.vertcat(model.u, model.p_time_var)", "control_stage_vars = ca.vertcat(model.u, model.p_global)"),
 ('elif', 'C14', F, "            elif any(ca.which_depends(expr, control", "            if any(ca.which_depends(expr, control"),
 ('ow', 'C14', F, "self.g_ctrl_comp = ca.vertcat(self.g_ctrl_comp, expr)", "self.g_ctrl_comp = expr"),
 ('glob', 'C14', F, "[model.p_global, model.v_global], [self.g_global_comp]", "[model.v_global, model.p_global], [self.g_global_comp]"),
 ('ubu', 'C23', F, "self.ubu = np.inf * np.ones((dims.n_u,))", "self.ubu = np.inf * np.ones((dims.n_x,))"),
 ('ubg', 'C23', F, "self.ubg = np.zeros((n_g_path,))", "self.ubg = np.inf * np.ones((n_g_path,))"),
 ('lbg', 'C23', F, "elif len(self.lbg) != n_g_path:", "elif len(self.lbg) < n_g_path:"),
 ('ubx', 'C23', F, "elif len(self.ubx) != dims.n_x:", "elif len(self.lbx) != dims.n_x:"),
 ('vg', 'C23', F, "if self.v_global_guess.shape != (n_v_global,):", "if self.ubv_global.shape != (n_v_global,):"),
 ('width', 'C23', F, "if self.g_path_comp.shape[1] != 2:", "if self.g_path_comp.shape[1] < 2:"),
 ('fT', 'C12', F, "[self.f_terminal])", "[self.f_q])"),
 ('r_full', '-', F, "self.ubx = np.inf * np.ones((dims.n_x,))", "self.ubx = np.full((dims.n_x,), np.inf)"),
 ('r_loop', '-', F, """        if self.lbu is None:
            self.lbu = -np.inf * np.ones((dims.n_u,))
        elif len(self.lbu) != dims.n_u:
            raise ValueError("lbu should be empty or of length n_u.")
        if self.ubu is None:
            self.ubu = np.inf * np.ones((dims.n_u,))
        elif len(self.ubu) != dims.n_u:
            raise ValueError("ubu should be empty or of length n_u.")
""", """        for name, fill in (('lbu', -np.inf), ('ubu', np.inf)):
            if getattr(self, name) is None:
                setattr(self, name, fill * np.ones((dims.n_u,)))
            elif len(getattr(self, name)) != dims.n_u:
                raise ValueError(f"{name} should be empty or of length n_u.")
"""),
 ('r_lists', '-', F, """        for ii in range(self.g_path_comp.shape[0]):
            expr = self.g_path_comp[ii, :]
            if any(ca.which_depends(expr, rk_stage_vars)):
                self.g_stage_comp = ca.vertcat(self.g_stage_comp, expr)
            elif any(ca.which_depends(expr, control_stage_vars)):
                self.g_ctrl_comp = ca.vertcat(self.g_ctrl_comp, expr)
            else:
                self.g_global_comp = ca.vertcat(self.g_global_comp, expr)
""", """        rows = {'stage': [], 'ctrl': [], 'glob': []}
        for ii in range(self.g_path_comp.shape[0]):
            expr = self.g_path_comp[ii, :]
            if any(ca.which_depends(expr, rk_stage_vars)):
                rows['stage'].append(expr)
            elif any(ca.which_depends(expr, control_stage_vars)):
                rows['ctrl'].append(expr)
            else:
                rows['glob'].append(expr)
        self.g_stage_comp = ca.vertcat(self.g_stage_comp, *rows['stage'])
        self.g_ctrl_comp = ca.vertcat(self.g_ctrl_comp, *rows['ctrl'])
        self.g_global_comp = ca.vertcat(self.g_global_comp, *rows['glob'])
"""),
 ('r_helper', '-', F, "    def preprocess_ocp(self", "    @staticmethod\n    def _bound(v, n, default):\n        if v is None:\n            return default * np.ones((n,))\n        if len(v) != n:\n            raise ValueError('length')\n        return v\n\n    def preprocess_ocp(self", """        if self.lbx is None:
            self.lbx = -np.inf * np.ones((dims.n_x,))
        elif len(self.lbx) != dims.n_x:
            raise ValueError("lbx should be empty or of length n_x.")
""", "        self.lbx = self._bound(self.lbx, dims.n_x, -np.inf)\n"),
]
