JOBS = [('loop', 'check_loop', ())]
F = 'nosnoc/helpers.py'
M = [
 ('xc', 'C20', F, "self.xcurrent = self.X_sim[-1]", "self.xcurrent = self.X_sim[-2]"),
 ('xc0', 'C20', F, 'self.solver.set("x0", self.xcurrent)', 'if i > 0:\n                self.solver.set("x0", self.xcurrent)'),
 ('sw', 'C20', F, 'np.sum(self.time_steps)\n', 'np.sum(self.time_steps[:-1])\n'),
 ('sworder', 'C20', F, """            # add previous time to switch times
            if results["switch_times"].size > 0:
                switch_times_sim = results["switch_times"] + np.sum(self.time_steps)
                self.switch_times += switch_times_sim.tolist()
""", "", """            self.theta_sim.append(""", """            if results["switch_times"].size > 0:
                switch_times_sim = results["switch_times"] + np.sum(self.time_steps)
                self.switch_times += switch_times_sim.tolist()
            self.theta_sim.append("""),
 ('swsize', 'C20', F, 'results["switch_times"].size > 0', 'results["switch_times"].size > 1'),
 ('pval', 'C20', F, "self.p_values[i, :]", "self.p_values[0, :]"),
 ('winit', 'C20', F, "self.w_init[i]", "self.w_init[min(i + 1, self.Nsim - 1)]"),
 ('wafter', 'C20', F, """            if self.p_values is not None:
                self.solver.set("p_global", self.p_values[i, :])
            # solve
            results = self.solver.solve()
""", """            results = self.solver.solve()
            if self.p_values is not None:
                self.solver.set("p_global", self.p_values[i, :])
"""),
 ('cpu', 'C20', F, 'self.cpu_nlp[i, :] =', 'self.cpu_nlp[-i, :] ='),
 ('pol', 'C20', F, 'if solver.opts.do_polishing_step else 0', 'if not solver.opts.do_polishing_step else 0'),
 ('lam', 'C20', F, 'self.lambda_sim.append(results["lambda_list"])', 'self.lambda_sim.append(results["theta_list"])'),
 ('wall', 'C20', F, 'self.w_all += [results["w_all"]]', 'self.w_all += results["w_all"]'),
 ('stop', 'C19', F, 'if (stop_on_failure and results["status"] != Status.SUCCESS):', 'if (stop_on_failure and results["status"] == Status.SUCCESS):'),
 ('stopret', 'C19', F, "                return False", "                break"),
 ('stop2', 'C19', F, 'if (stop_on_failure and results["status"] != Status.SUCCESS):', 'if (stop_on_failure and i > 0 and self.status[i - 1] != Status.SUCCESS):'),
 ('stopprint', 'C19', F, """            if (stop_on_failure and results["status"] != Status.SUCCESS):
                return False""", """                if (stop_on_failure and results["status"] != Status.SUCCESS):
                    return False"""),
 ('tg', 'C20', F, "np.concatenate((np.array([0.0]), np.cumsum(self.time_steps)))", "np.cumsum(np.concatenate((self.time_steps, np.array([0.0]))))"),
 ('res', 'C20', F, '"w_sim": self.w_sim,', '"w_sim": self.w_all,'),
 ('shape', 'C20', F, "(Nsim, solver.problem.model.dims.n_p_glob):\n", "(Nsim, self.p_values.shape[1]):\n"),
 ('pure', 'C20', 'nosnoc/problem.py', "        if self.model.dims.n_u != 0:\n            return False\n", ""),
 ('pure2', 'C20', 'nosnoc/problem.py', "        if not self.ocp_trivial:\n            return False\n", ""),
 ('sot', 'C20', F, "!= SpeedOfTimeVariableMode.NONE", "== SpeedOfTimeVariableMode.LOCAL"),
 ('nan', 'C20', F, '"X_sim": np.array(self.X_sim),', '"X_sim": np.array(self.X_sim[1:]),'),
 ('r_t', '-', F, 'np.sum(self.time_steps)\n', 'self.time_steps.sum()\n'),
 ('r_sw', '-', F, """            if results["switch_times"].size > 0:
                switch_times_sim = results["switch_times"] + np.sum(self.time_steps)
                self.switch_times += switch_times_sim.tolist()""", """            t_prev = np.sum(self.time_steps)
            for s in results["switch_times"]:
                self.switch_times.append(s + t_prev)"""),
 ('r_break', '-', F, """            if (stop_on_failure and results["status"] != Status.SUCCESS):
                return False

        return True""", """            if not stop_on_failure:
                continue
            if results["status"] == Status.SUCCESS:
                continue
            return False
        return True"""),
 ('r_helper', '-', F, """            # solve
            results = self.solver.solve()
""", """            results = self._solve_step(i)
""", """    def get_results(self)""", """    def _solve_step(self, i):
        return self.solver.solve()

    def get_results(self)"""),
 ('r_collect', '-', F, """            self.theta_sim.append(results["theta_list"])
            self.lambda_sim.append(results["lambda_list"])
            self.alpha_sim.append(results["alpha_list"])
            self.z_sim.append(results["z_list"])
""", """            for target, key in ((self.theta_sim, "theta_list"), (self.lambda_sim, "lambda_list"), (self.alpha_sim, "alpha_list"), (self.z_sim, "z_list")):
                target.append(results[key])
"""),
 ('r_extend', '-', F, """            self.X_sim += results["x_list"]
            self.xcurrent = self.X_sim[-1]
""", """            self.X_sim.extend(results["x_list"])
            self.xcurrent = results["x_list"][-1]
"""),
 ('r_tgrid', '-', F, "np.concatenate((np.array([0.0]), np.cumsum(self.time_steps)))", "np.cumsum(np.concatenate((np.array([0.0]), self.time_steps)))"),
 ('r_while', '-', F, "        for i in range(self.Nsim):\n            # set values", "        for i, _ in enumerate(range(self.Nsim)):\n            # set values"),
 ('r_attr', '-', F, "        self.solver: NosnocSolver = solver\n", "        self.solver = solver\n        self.n_failed = 0\n", "            self.status.append(results[\"status\"])\n", "            self.status.append(results[\"status\"])\n            self.n_failed += results[\"status\"] != Status.SUCCESS\n"),
 ('r_hstack', '-', F, 'np.concatenate((self.time_steps, results["time_steps"]))', 'np.hstack((self.time_steps, results["time_steps"]))'),
 ('r_append', '-', F, 'np.concatenate((self.time_steps, results["time_steps"]))', 'np.append(self.time_steps, results["time_steps"])'),
]
