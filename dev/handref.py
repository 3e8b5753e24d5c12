"""handref.py [NAME...] [-p PROPS]: larger behaviour-keeping refactorings made by hand; every claimed check has to stay quiet"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
R = {}

def cut(src, start, end):
    a = src.index(start)
    b = src.index(end, a) if end else len(src)
    return src[a:b]

# 1. create_complementarity through method dispatch
def h1(s):
    p = s['problem.py']
    body = cut(p, "        opts = self.opts\n\n        n = casadi_length(y)\n", "class FiniteElementBase(")
    new = '''        builders = {
            MpccMode.SCHOLTES_EQ: self._comp_scholtes,
            MpccMode.SCHOLTES_INEQ: self._comp_scholtes,
            MpccMode.ELASTIC_EQ: self._comp_elastic,
            MpccMode.ELASTIC_INEQ: self._comp_elastic,
            MpccMode.ELASTIC_TWO_SIDED: self._comp_elastic_two_sided,
            MpccMode.FISCHER_BURMEISTER: self._comp_fb,
            MpccMode.FISCHER_BURMEISTER_IP_AUG: self._comp_fb_aug,
            MpccMode.BOOLEAN: self._comp_boolean,
        }
        g_comp, lb_comp, ub_comp = builders[self.opts.mpcc_mode](x, y, sigma, tau, s_elastic)
        self.add_constraint(g_comp, lb=lb_comp, ub=ub_comp, index=self.ind_comp)

    def _comp_bounds(self, n_comp):
        upper = np.zeros((n_comp,))
        lower = np.zeros((n_comp,))
        if self.opts.mpcc_mode in (MpccMode.SCHOLTES_INEQ, MpccMode.ELASTIC_INEQ):
            lower = np.full((n_comp,), -np.inf)
        elif self.opts.mpcc_mode == MpccMode.BOOLEAN:
            upper = np.full((n_comp,), np.inf)
        return lower, upper

    def _comp_scholtes(self, x, y, sigma, tau, s_elastic):
        g = ca.diag(casadi_sum_list(list(x))) @ y - sigma
        return (g, *self._comp_bounds(casadi_length(g)))

    def _comp_elastic(self, x, y, sigma, tau, s_elastic):
        g = ca.diag(casadi_sum_list(list(x))) @ y - s_elastic * np.ones((casadi_length(y), 1))
        return (g, *self._comp_bounds(casadi_length(g)))

    def _comp_elastic_two_sided(self, x, y, sigma, tau, s_elastic):
        n = casadi_length(y)
        g = ca.diag(casadi_sum_list(list(x))) @ y
        slack = s_elastic * np.ones((n, 1))
        zero, inf = np.zeros((n,)), np.inf * np.ones((n,))
        return ca.vertcat(g - slack, g + slack), np.concatenate((-inf, zero)), np.concatenate((zero, inf))

    @staticmethod
    def _fb(a, b, sigma):
        return a + b - ca.sqrt(a**2 + b**2 + sigma**2)

    def _comp_fb(self, x, y, sigma, tau, s_elastic):
        n = casadi_length(y)
        rows = []
        for j in range(n):
            row = 0
            for x_i in x:
                row = row + self._fb(x_i[j], y[j], sigma)
            rows.append(row)
        g = ca.SX(ca.vertcat(*rows)) if rows else ca.SX.zeros(n, 1)
        return (g, *self._comp_bounds(casadi_length(g)))

    def _comp_fb_aug(self, x, y, sigma, tau, s_elastic):
        if len(x) != 1:
            raise Exception("not supported")
        n = casadi_length(y)
        x0, = x
        w1, w2 = self.opts.fb_ip_aug1_weight, self.opts.fb_ip_aug2_weight
        g = ca.SX.zeros(4 * n, 1)
        for j in range(n):
            g[j] = self._fb(x0[j], y[j], sigma)
            g[n + j] = w1 * ca.sqrt(tau) * (x0[j] - sigma)
            g[2 * n + j] = w1 * ca.sqrt(tau) * (y[j] - sigma)
            g[3 * n + j] = w2 * ca.sqrt((y[j] - x0[j])**2 + 1) * g[j]
        return (g, *self._comp_bounds(casadi_length(g)))

    def _comp_boolean(self, x, y, sigma, tau, s_elastic):
        bigM = 1e5
        n_z = y.numel()
        z = ca.SX.sym("z", n_z)
        self.add_variable(z, self.ind_bool, np.zeros(n_z), np.ones(n_z), 0.5 * np.ones(n_z))
        _x = casadi_sum_list(list(x))
        g = ca.vertcat(bigM * z - y, bigM * z + y, bigM * (1 - z) - _x, bigM * (1 - z) + _x)
        return (g, *self._comp_bounds(casadi_length(g)))


'''
    s['problem.py'] = p.replace(body, new)
R['dispatch'] = h1

# 2. collect via getattr over names
def h2(s):
    p = s['problem.py']
    body = cut(p, "        # update all indices\n        self.ind_h.extend", "    # TODO: can we just use add_variable?")
    new = '''        # update all indices
        self.ind_h.extend(increment_indices(fe.ind_h, w_len))
        self.ind_x_cont[ctrl_idx].append(increment_indices(fe.ind_x[-1], w_len))
        for name in FE_INDEX_NAMES:
            target = getattr(self, name)
            target[ctrl_idx].append(increment_indices(getattr(fe, name), w_len))

'''
    p = p.replace(body, new)
    s['problem.py'] = p.replace("class NosnocProblem(NosnocFormulationObject):\n", '''FE_INDEX_NAMES = ('ind_x', 'ind_v', 'ind_theta', 'ind_lam', 'ind_mu', 'ind_alpha', 'ind_lambda_n', 'ind_lambda_p', 'ind_z', 'ind_bool')


class NosnocProblem(NosnocFormulationObject):
''')
R['getattr'] = h2

# 3. collocation helpers in FiniteElement
def h3(s):
    p = s['problem.py']
    body = cut(p, "    def X_fe(self) -> List[ca.SX]:", "        # Generic path constraints\n")
    new = '''    def x_prev_end(self) -> ca.SX:
        """state at the end of the previous finite element"""
        return self.prev_fe.w[self.prev_fe.ind_x[-1]]

    def __stage_state(self, j):
        """stage state j in terms of the stage derivatives"""
        opts = self.opts
        increments = [opts.A_irk[j, r] * self.w[self.ind_v[r]] * self.h for r in range(opts.n_s)]
        return sum(increments, self.x_prev_end())

    def X_fe(self) -> List[ca.SX]:
        """returns list of all x values in finite element"""
        if self.opts.irk_representation == IrkRepresentation.DIFFERENTIAL:
            return [self.__stage_state(j) for j in range(self.opts.n_s)] + [self.w[self.ind_x[-1]]]
        return [self.w[ind] for ind in self.ind_x]

    def forward_simulation(self, ocp: NosnocOcp, Uk: ca.SX, sot: ca.SX) -> None:
        opts = self.opts
        model = self.model
        integral = opts.irk_representation == IrkRepresentation.INTEGRAL
        X_fe = self.X_fe()
        x_prev = self.x_prev_end()

        if opts.irk_representation == IrkRepresentation.DIFFERENTIAL_LIFT_X:
            for j, ind in enumerate(self.ind_x[:opts.n_s]):
                self.add_constraint(self.w[ind] - self.__stage_state(j))

        Xk_end = x_prev * opts.D_irk[0] if integral else x_prev
        for j in range(opts.n_s):
            z_j = self.rk_stage_z(j)
            fj = model.f_x_fun(X_fe[j], z_j, Uk, self.p, model.v_global) * sot
            qj = ocp.f_q_fun(X_fe[j], Uk, self.p, model.v_global) * sot
            self.add_constraint(model.g_z_all_fun(X_fe[j], z_j, Uk, self.p))
            if integral:
                weight = opts.B_irk[j + 1]
                xj = opts.C_irk[0, j + 1] * x_prev + sum(
                    opts.C_irk[r, j + 1] * X_fe[r - 1] for r in range(1, opts.n_s + 1))
                self.add_constraint(self.h * fj - xj)
                Xk_end = Xk_end + opts.D_irk[j + 1] * X_fe[j]
            else:
                weight = opts.b_irk[j]
                v_j = self.w[self.ind_v[j]]
                self.add_constraint(fj - v_j)
                Xk_end = Xk_end + self.h * weight * v_j
            self.cost += weight * self.h * qj

        # continuity condition: end of fe state - final stage state
        if opts.irk_representation == IrkRepresentation.DIFFERENTIAL or not opts.right_boundary_point_explicit:
            self.add_constraint(Xk_end - self.w[self.ind_x[-1]])

'''
    s['problem.py'] = p.replace(body, new)
R['colloc'] = h3

# 4. path constraints via list of indices
def h4(s):
    p = s['problem.py']
    body = cut(p, "        # Generic path constraints\n", "        # g_z_all constraint for boundary point and")
    new = '''        for j in self.__path_constraint_stages():
            self.add_constraint(ocp.g_path_fun(X_fe[j], Uk, self.p, model.v_global), ocp.lbg, ocp.ubg)

'''
    p = p.replace(body, new)
    s['problem.py'] = p.replace("    def get_complementarity_vector(self):\n", '''    def __path_constraint_stages(self):
        opts = self.opts
        stages = []
        last = opts.n_s - 1 if opts.right_boundary_point_explicit else opts.n_s
        if opts.g_path_at_fe or self.fe_idx + 1 == opts.Nfe_list[self.ctrl_idx]:
            stages.append(last)
        if opts.g_path_at_stg:
            stages.extend(j for j in range(opts.n_s) if j not in stages)
        return stages

    def get_complementarity_vector(self):
''')
R['path'] = h4

# 5. complementarity pairs generator
def h5(s):
    p = s['problem.py']
    body = cut(p, "    def get_complementarity_vector(self):", "    def create_complementarity_constraints(self")
    new = '''    def __pairs(self):
        """all pairs (theta, lambda) that have to be complementary"""
        n_s = self.opts.n_s
        if not self.opts.use_fesd:
            for j in range(n_s):
                yield self.Theta(stage=j), self.Lambda(stage=j)
            return
        for j in range(n_s):
            yield self.Theta(stage=j), self.prev_fe.Lambda(stage=-1)
            for jj in range(n_s):
                yield self.Theta(stage=j), self.Lambda(stage=jj)

    def get_complementarity_vector(self):
        return ca.vertcat(*[theta * lam for theta, lam in self.__pairs()])

'''
    p = p.replace(body, new)
    body = cut(p, "        if not opts.use_fesd:\n            for j in range(opts.n_s):\n                self.create_compl", "    def step_equilibration(self")
    new = '''        if opts.use_fesd and opts.cross_comp_mode == CrossComplementarityMode.SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA:
            # Note: contains last stage of prev_fe
            Lambda_list = self.get_Lambdas_incl_last_prev_fe()
            for theta in self.get_Theta_list():
                self.create_complementarity(Lambda_list, theta, sigma_p, tau, s_elastic)
        elif opts.use_fesd:
            for theta, lam in self.__pairs():
                self.create_complementarity([theta], lam, sigma_p, tau, s_elastic)
        else:
            for theta, lam in self.__pairs():
                self.create_complementarity([lam], theta, sigma_p, tau, s_elastic)

'''
    s['problem.py'] = p.replace(body, new)
R['pairs'] = h5

# 6. step equilibration restructured
def h6(s):
    p = s['problem.py']
    body = cut(p, "    def step_equilibration(self", "class NosnocProblem(")
    new = '''    def _nu(self, prev_fe):
        eta = prev_fe.sum_Lambda() * self.sum_Lambda() + prev_fe.sum_Theta() * self.sum_Theta()
        nu = eta[0]
        for k in range(1, casadi_length(eta)):
            nu *= eta[k]
        return nu

    def step_equilibration(self, sigma_p: ca.SX, tau: ca.SX, s_elastic: Optional[ca.SX]) -> None:
        opts = self.opts
        mode = opts.step_equilibration
        if opts.use_fesd:
            if mode == StepEquilibrationMode.HEURISTIC_MEAN:
                mean = opts.terminal_time / opts.N_stages / opts.Nfe_list[self.ctrl_idx]
                self.cost = self.cost + opts.rho_h * (mean - self.h)**2
            elif self.fe_idx >= 1:
                self._equilibrate_with_previous(mode, sigma_p, tau, s_elastic)

    def _equilibrate_with_previous(self, mode, sigma_p, tau, s_elastic):
        opts = self.opts
        delta = self.h - self.prev_fe.h
        if mode == StepEquilibrationMode.HEURISTIC_DELTA:
            self.cost += opts.rho_h * delta * delta
        elif mode == StepEquilibrationMode.HEURISTIC_DELTA_H_COMP:
            self.create_complementarity([ca.SX.zeros()], delta, sigma_p, tau, s_elastic)
        else:
            nu = self._nu(self.prev_fe)
            if mode == StepEquilibrationMode.DIRECT:
                self.add_constraint(delta * nu)
            elif mode == StepEquilibrationMode.DIRECT_COMPLEMENTARITY:
                self.create_complementarity([nu], delta, sigma_p, tau, s_elastic)
            elif mode in (StepEquilibrationMode.L2_RELAXED, StepEquilibrationMode.L2_RELAXED_SCALED):
                if mode == StepEquilibrationMode.L2_RELAXED_SCALED:
                    nu = ca.tanh(nu / opts.step_equilibration_sigma)
                self.cost += opts.rho_h * nu * delta**2


'''
    s['problem.py'] = p.replace(body, new)
R['equil'] = h6

# 7. comp_vec list, problem assembly in methods
def h7(s):
    p = s['problem.py']
    p = p.replace('''        comp_vec = []
        for fe in flatten(self.stages):
            comp_vec = ca.vertcat(comp_vec, fe.get_complementarity_vector())
        J_comp = ca.mmax(comp_vec)
''', '''        J_comp = ca.mmax(ca.vertcat(*(fe.get_complementarity_vector() for stage in self.stages for fe in stage)))
''')
    body = cut(p, "        for ctrl_idx, stage in enumerate(self.stages):\n            Uk = self.w[self.ind_u", "        # Create global complementarities\n")
    new = '''        for ctrl_idx in range(opts.N_stages):
            self._setup_control_stage(ctrl_idx, sigma_p, tau, s_elastic)

'''
    p = p.replace(body, new)
    p = p.replace('''        fe: FiniteElement
        stage: List[FiniteElement]
        if opts.time_freezing:
            t0 = model.t_fun(self.fe0.w[self.fe0.ind_x[-1]])

''', '')
    p = p.replace("    def print(self):\n        errors = 0\n", '''    def _sot_of_stage(self, ctrl_idx):
        mode = self.opts.speed_of_time_variables
        if mode == SpeedOfTimeVariableMode.LOCAL:
            return self.w[self.ind_sot[ctrl_idx]]
        if mode == SpeedOfTimeVariableMode.GLOBAL:
            return self.w[self.ind_sot[0]]
        return ca.SX.eye(1)

    def _setup_control_stage(self, ctrl_idx, sigma_p, tau, s_elastic):
        opts, model, ocp = self.opts, self.model, self.ocp
        stage = self.stages[ctrl_idx]
        Uk = self.w[self.ind_u[ctrl_idx]]
        sot = self._sot_of_stage(ctrl_idx)
        for fe in stage:
            fe.forward_simulation(ocp, Uk, sot)
            fe.create_complementarity_constraints(sigma_p, tau, Uk, s_elastic)
            fe.step_equilibration(sigma_p, tau, s_elastic)
            self.add_fe_constraints(fe, ctrl_idx)
            self.cost += fe.cost

        if not opts.equidistant_control_grid:
            return
        if opts.use_fesd:
            total = 0
            for fe in stage:
                total = total + fe.h
            self.add_constraint(total - opts.terminal_time / opts.N_stages)
        if opts.time_freezing:
            tol = opts.time_freezing_tolerance
            t0 = model.t_fun(self.fe0.w[self.fe0.ind_x[-1]])
            t_end = model.t_fun(stage[-1].w[stage[-1].ind_x[-1]])
            t_now = t0 + (ctrl_idx + 1) * opts.terminal_time / opts.N_stages
            self.add_constraint(t_end - t_now, [-tol], [tol])

    def print(self):
        errors = 0
''')
    s['problem.py'] = p
R['assembly'] = h7

# 8. finite element variables via helper
def h8(s):
    p = s['problem.py']
    body = cut(p, "            # algebraic variables\n            if opts.pss_mode == PssMode.STEWART:\n", "            # user algebraic variables\n")
    new = '''            # algebraic variables
            self._add_pss_variables(ii, ii + 1, lb_dual, False)
'''
    p = p.replace(body, new)
    body = cut(p, "            if opts.pss_mode == PssMode.STEWART:\n                # add lambdas\n", "        if (not opts.right_boundary_point_explicit or\n                opts.irk_representation == IrkRepresentation.DIFFERENTIAL):\n            # add final X variables")
    p = p.replace(body, '''            self._add_pss_variables(opts.n_s, 'end', lb_dual, True)

''')
    p = p.replace("    def add_step_size_variable(self", '''    def _add_pss_variables(self, stage, label, lb_dual, boundary):
        opts, dims = self.opts, self.model.dims
        tag = f'{self.ctrl_idx}_{self.fe_idx}_{label}'
        inf = np.inf

        def add(name, size, index, lb, ub, guess):
            for ij in range(dims.n_sys):
                n = size[ij]
                self.add_variable(ca.SX.sym(f'{name}_{tag}_{ij+1}', n), index,
                                  np.full(n, lb), np.full(n, ub), np.full(n, guess(n)), stage, ij)

        if opts.pss_mode == PssMode.STEWART:
            if not boundary:
                add('theta', dims.n_f_sys, self.ind_theta, lb_dual, inf, lambda n: opts.sigma_0 / n)
            add('lambda', dims.n_f_sys, self.ind_lam, lb_dual, inf, lambda n: opts.sigma_0 / n)
            add('mu', [1] * dims.n_sys, self.ind_mu, -inf, inf, lambda n: 1.0)
        elif opts.pss_mode == PssMode.STEP:
            if not boundary:
                add('alpha', dims.n_c_sys, self.ind_alpha, lb_dual, 1.0, lambda n: 0.5)
            add('lambda_n', dims.n_c_sys, self.ind_lambda_n, lb_dual, inf, lambda n: 0.5)
            add('lambda_p', dims.n_c_sys, self.ind_lambda_p, lb_dual, inf, lambda n: 0.5)

    def add_step_size_variable(self''')
    s['problem.py'] = p
R['fevars'] = h8

# 9. lambda/theta access through one helper
def h9(s):
    p = s['problem.py']
    p = p.replace('''        return ca.vertcat(self.w[flatten(self.ind_lam[stage][sys])],
                          self.w[flatten(self.ind_lambda_n[stage][sys])],
                          self.w[flatten(self.ind_lambda_p[stage][sys])])
''', '''        return ca.vertcat(*[self._pick(ind, stage, sys)
                            for ind in (self.ind_lam, self.ind_lambda_n, self.ind_lambda_p)])

    def _pick(self, index, stage, sys):
        return self.w[flatten(index[stage][sys])]
''')
    p = p.replace('''        return ca.vertcat(
            self.w[flatten(self.ind_theta[stage][sys])],
            self.w[flatten(self.ind_alpha[stage][sys])],
            np.ones(len(flatten(self.ind_alpha[stage][sys]))) -
            self.w[flatten(self.ind_alpha[stage][sys])])
''', '''        alpha = self._pick(self.ind_alpha, stage, sys)
        return ca.vertcat(self._pick(self.ind_theta, stage, sys), alpha, 1 - alpha)
''')
    p = p.replace('''        idx = np.concatenate((flatten(self.ind_theta[stage]), flatten(self.ind_lam[stage]),
                              flatten(self.ind_mu[stage]), flatten(self.ind_alpha[stage]),
                              flatten(self.ind_lambda_n[stage]), flatten(self.ind_lambda_p[stage]),
                              self.ind_z[stage]))
        return self.w[idx]
''', '''        idx = []
        for index in (self.ind_theta, self.ind_lam, self.ind_mu, self.ind_alpha, self.ind_lambda_n, self.ind_lambda_p):
            idx += flatten(index[stage])
        return self.w[idx + self.ind_z[stage]]
''')
    p = p.replace('''        Lambdas = [self.Lambda(stage=ii, sys=sys) for ii in range(len(self.ind_lam))]
        Lambdas += [self.prev_fe.Lambda(stage=-1, sys=sys)]
        return Lambdas
''', '''        return [self.Lambda(ii, sys) for ii, _ in enumerate(self.ind_lam)] + [self.prev_fe.Lambda(-1, sys)]
''')
    s['problem.py'] = p
R['access'] = h9
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'handref2.py')).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'handref2.py')) else None

def prepare(name):
    tmp = tempfile.mkdtemp(prefix='hr_')
    subprocess.run(['cp', '-a', '/repo/.', tmp], check=True)
    s = {f: open(f'{tmp}/nosnoc/{f}').read() for f in os.listdir(tmp + '/nosnoc') if f.endswith('.py')}
    o = dict(s)
    R[name](s)
    assert s != o, name
    for f in s:
        if s[f] != o[f]:
            open(f'{tmp}/nosnoc/{f}', 'w').write(s[f])
    return tmp

def run(name, props, test):
    tmp = prepare(name)
    out = []
    if test:
        r = subprocess.run(f'cd {tmp} && . /opt/vp/env.sh && PYTHONPATH={tmp} timeout 900 python -m pytest -q -x --no-header -p no:cacheprovider test 2>&1 | tail -4', shell=True, capture_output=True, text=True)
        out.append('TEST ' + r.stdout.strip().replace('\n', ' | ')[-300:])
    for c in props:
        r = subprocess.run(['/usr/bin/python3', '/verif/check.py', c], env=dict(os.environ, VERIF_REPO=tmp, VERIF_EVIDENCE='/tmp/hr_ev'), capture_output=True, text=True)
        if r.returncode:
            out.append(f'{c} rc={r.returncode} {r.stdout[:1500]}{r.stderr[-800:]}')
    shutil.rmtree(tmp)
    print('==', name, 'ok' if not [o for o in out if 'rc=' in o] else 'ALARM', '\n   '.join([''] + out), flush=True)

if __name__ == '__main__':
    args = sys.argv[1:]
    test = '-t' in args
    args = [a for a in args if a != '-t']
    props = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']] if False else None
    if '-p' in args:
        i = args.index('-p')
        props = args[i + 1].split(',')
        args = args[:i]
    if props is None:
        props = sorted(c.get('property') or c.get('property_id') or c['id'] for c in json.load(open('/verif/MANIFEST.json'))['checks'])
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '6'))) as ex:
        list(ex.map(lambda n: run(n, props, test), args or list(R)))
