"""Reference for the parameter block of the problem dump.  Never executed."""
import numpy as np
from spec_solver_spec import initial_multipliers


def dump_p0(problem):
    m = problem.model
    return np.concatenate((m.p_val_ctrl_stages.flatten(), np.array([0.0, 0.0]), initial_multipliers(problem.opts, m), m.x0))
