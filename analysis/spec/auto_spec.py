"""Driver for the automatic reformulation.  Never executed; read by the value-graph interpreter."""
from nosnoc.auto_model import NosnocAutoModel


def reformulate(x, x0, u, f):
    model = NosnocAutoModel(x=x, x0=x0, u=u, f_nonsmooth_ode=f)
    return model.reformulate()
