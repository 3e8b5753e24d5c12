JOBS = [('opts', 'check_preprocess', ()), ('opts', 'check_validate', ()), ('opts', 'check_validated', ())]
F = 'nosnoc/nosnoc_opts.py'
U = 'nosnoc/utils.py'
M = [
 ('tol', 'C17', F, "self.tol_ipopt = self.comp_tol * 1e-2", "self.tol_ipopt = self.comp_tol"),
 ('tolif', 'C17', F, "if self.tol_ipopt is None:", "if not self.tol_ipopt is None:"),
 ('tolkeys', 'C17', F, "['tol', 'dual_inf_tol', 'compl_inf_tol', 'mu_target'], v", "['tol', 'dual_inf_tol', 'compl_inf_tol'], v"),
 ('noval', 'C22', F, "        validate(self)\n", ""),
 ('valtf', 'C22', F, "        validate(self)\n", "        if self.print_level > 0:\n            validate(self)\n"),
 ('mih', 'C17', F, "/ np.log(self.homotopy_update_slope)))) + 1", "/ np.log(self.homotopy_update_slope))))"),
 ('mih2', 'C17', F, "np.log(self.comp_tol / self.sigma_0)", "np.log(self.comp_tol)"),
 ('mih3', 'C17', F, "if self.max_iter_homotopy == 0:", "if self.max_iter_homotopy <= 3:"),
 ('nfe', 'C09', F, "self.N_stages * [self.N_finite_elements]", "self.N_finite_elements * [self.N_stages]"),
 ('nfe2', 'C09', F, "if len(self.Nfe_list) == 0:", "if len(self.Nfe_list) != self.N_stages + 1:"),
 ('strip', 'C02', F, "irk_time_points = irk_time_points[1:]  # without the left boundary point\n", "pass\n"),
 ('swapBD', 'C02', F, "self.B_irk = B_irk", "self.B_irk = D_irk"),
 ('swapAb', 'C02', F, "self.A_irk = A_irk", "self.A_irk = A_irk.T"),
 ('rb', 'C02', F, "< 1e-9:", "< 1e-3:"),
 ('rb2', 'C02', F, "irk_time_points[-1] - 1.0", "irk_time_points[0] - 1.0"),
 ('scheme', 'C02', F, "self.n_s, self.irk_scheme)\n            self.A_irk", "self.n_s, IrkSchemes.RADAU_IIA)\n            self.A_irk"),
 ('warn1', 'C22', F, "in [MpccMode.FISCHER_BURMEISTER, MpccMode.FISCHER_BURMEISTER_IP_AUG]):", "in [MpccMode.FISCHER_BURMEISTER]):"),
 ('warn2', 'C22', F, "self.constraint_handling != ConstraintHandling.LEAST_SQUARES):\n            warn(", "self.constraint_handling == ConstraintHandling.LEAST_SQUARES):\n            warn("),
 ('warn3', 'C22', F, "in [StepEquilibrationMode.DIRECT, StepEquilibrationMode.DIRECT_COMPLEMENTARITY]", "in [StepEquilibrationMode.DIRECT]"),
 ('tf', 'C22', F, "if self.n_s < 3:", "if self.n_s < 2:"),
 ('vu', 'C22', U, "            if not isinstance(value, get_args(expected_type)):", "            if not isinstance(value, (int, float, str)):"),
 ('vskip', 'C22', U, "        value = getattr(obj, attr)", "        value = getattr(obj, attr)\n        if isinstance(value, str):\n            continue"),
 ('vplain', 'C22', U, "elif not isinstance(value, expected_type):", "elif isinstance(value, str) and not isinstance(value, expected_type):"),
 ('vreturn', 'C22', U, """got {type(value)}"
                )
        elif get_origin""", """got {type(value)}"
                )
            return
        elif get_origin"""),
 ('r_setdirect', '-', F, "            self.tol_ipopt = self.comp_tol * 1e-2", "            for k in ['tol', 'dual_inf_tol', 'compl_inf_tol', 'mu_target']:\n                self.opts_casadi_nlp['ipopt'][k] = 1e-2 * self.comp_tol"),
 ('r_elif', '-', F, """        elif (self.irk_representation
              in [IrkRepresentation.DIFFERENTIAL, IrkRepresentation.DIFFERENTIAL_LIFT_X]):""", "        else:"),
 ('r_rb', '-', F, """        if np.abs(irk_time_points[-1] - 1.0) < 1e-9:
            self.right_boundary_point_explicit = True
        else:
            self.right_boundary_point_explicit = False""", "        self.right_boundary_point_explicit = bool(abs(self.irk_time_points[-1] - 1.0) < 1e-9)"),
 ('r_nfe', '-', F, """        if len(self.Nfe_list) == 0:
            self.Nfe_list = self.N_stages * [self.N_finite_elements]""", "        if not self.Nfe_list:\n            self.Nfe_list = [self.N_finite_elements for _ in range(self.N_stages)]"),
 ('r_warnhelper', '-', F, """        if self.mpcc_mode == MpccMode.FISCHER_BURMEISTER and self.constraint_handling != ConstraintHandling.LEAST_SQUARES:
            warn(
                "UNSUPPORTED option combination comp_mode: mpcc_mode == MpccMode.FISCHER_BURMEISTER and constraint_handling != ConstraintHandling.LEAST_SQUARES"
            )
""", """        self._warn_fb()
""", "    def preprocess(self):", """    def _warn_fb(self):
        exact = self.constraint_handling is not ConstraintHandling.LEAST_SQUARES
        if exact and self.mpcc_mode is MpccMode.FISCHER_BURMEISTER:
            warn("unsupported")

    def preprocess(self):"""),
 ('r_val', '-', U, """        elif not isinstance(value, expected_type):
            raise TypeError(
                f"object {type(obj)} does not match type annotations. Attribute {attr} should be of type {expected_type}, got {type(value)}"
            )
    return
""", """        else:
            if isinstance(value, expected_type):
                continue
            raise TypeError("wrong type")
"""),
 ('r_val2', '-', U, """    for attr, expected_type in obj.__annotations__.items():
        value = getattr(obj, attr)
""", """    hints = obj.__annotations__
    for attr in hints:
        expected_type = hints[attr]
        value = getattr(obj, attr)
"""),
 ('r_valfirst', '-', F, """        validate(self)
""", "", "    def preprocess(self):\n", "    def preprocess(self):\n        validate(self)\n"),
 ('r_int', '-', F, "int(np.round(np.abs(np.log(self.comp_tol / self.sigma_0) / np.log(self.homotopy_update_slope)))) + 1", "1 + int(np.round(np.abs((np.log(self.comp_tol) - np.log(self.sigma_0)) / np.log(self.homotopy_update_slope))))"),
]
