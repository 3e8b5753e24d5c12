"""Reference for the options.  Never executed; read by the value-graph interpreter."""
import numpy as np
from warnings import warn
from nosnoc.nosnoc_types import MpccMode, StepEquilibrationMode, CrossComplementarityMode, IrkRepresentation, ConstraintHandling
from nosnoc.rk_utils import generate_butcher_tableu, generate_butcher_tableu_integral


def preprocess(self):
    ip = self.opts_casadi_nlp['ipopt']
    if ip['tol'] is None:
        ip['tol'] = self.comp_tol * 1e-2
        ip['dual_inf_tol'] = self.comp_tol * 1e-2
        ip['compl_inf_tol'] = self.comp_tol * 1e-2
        ip['mu_target'] = self.comp_tol * 1e-2
    if self.time_freezing and self.n_s < 3:
        warn('ill-posed')
    if self.max_iter_homotopy == 0:
        steps = np.abs(np.log(self.comp_tol / self.sigma_0) / np.log(self.homotopy_update_slope))
        self.max_iter_homotopy = 1 + int(np.round(steps))
    if len(self.Nfe_list) == 0:
        self.Nfe_list = [self.N_finite_elements for k in range(self.N_stages)]
    if self.irk_representation == IrkRepresentation.INTEGRAL:
        self.B_irk, self.C_irk, self.D_irk, t = generate_butcher_tableu_integral(self.n_s, self.irk_scheme)
        self.irk_time_points = t[1:]
    else:
        self.A_irk, self.b_irk, self.irk_time_points, order = generate_butcher_tableu(self.n_s, self.irk_scheme)
    self.right_boundary_point_explicit = np.abs(self.irk_time_points[-1] - 1.0) < 1e-9
    exact = self.constraint_handling != ConstraintHandling.LEAST_SQUARES
    fb = self.mpcc_mode == MpccMode.FISCHER_BURMEISTER
    if self.cross_comp_mode == CrossComplementarityMode.SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA:
        if fb or self.mpcc_mode == MpccMode.FISCHER_BURMEISTER_IP_AUG:
            warn('unsupported')
    if fb and exact:
        warn('unsupported')
    if exact:
        if self.step_equilibration == StepEquilibrationMode.DIRECT:
            warn('unsupported')
        if self.step_equilibration == StepEquilibrationMode.DIRECT_COMPLEMENTARITY:
            warn('unsupported')
