"""Reference for the simulation loop and drivers.  Never executed; read by the value-graph interpreter."""
import numpy as np
from nosnoc.helpers import NosnocSimLooper
from nosnoc.nosnoc_types import Status


def drive(solver, x0, Nsim, p_values, w_init, stop):
    looper = NosnocSimLooper(solver, x0, Nsim, p_values=p_values, w_init=w_init)
    done = looper.run(stop)
    return done, looper.get_results()


def reference(solver, x0, Nsim, p_values, w_init, stop):
    if not solver.problem.is_sim_problem():
        raise Exception('simulation problems only')
    if p_values is not None:
        if p_values.shape != (Nsim, solver.problem.model.dims.n_p_glob):
            raise ValueError('shape')
    X = [x0]
    x = x0
    t = 0.0
    steps = []
    theta, lam, alpha, z, sot, w_sim, w_all, cost, status, switches = [], [], [], [], [], [], [], [], [], []
    n = solver.opts.max_iter_homotopy
    if solver.opts.do_polishing_step:
        n = n + 1
    cpu = np.zeros((Nsim, n))
    done = True
    for i in range(Nsim):
        solver.set("x0", x)
        if w_init is not None:
            solver.set("w", w_init[i])
        if p_values is not None:
            solver.set("p_global", p_values[i, :])
        r = solver.solve()
        for s in r["switch_times"]:
            switches.append(s + t)
        for y in r["x_list"]:
            X.append(y)
        x = X[-1]
        cpu[i, :] = r["cpu_time_nlp"]
        for h in r["time_steps"]:
            steps.append(h)
            t = t + h
        theta.append(r["theta_list"])
        lam.append(r["lambda_list"])
        alpha.append(r["alpha_list"])
        z.append(r["z_list"])
        w_sim.append(r["w_sol"])
        w_all.append(r["w_all"])
        cost.append(r["cost_val"])
        status.append(r["status"])
        if solver.opts.speed_of_time_variables is not None:
            sot.append(r["sot"])
        if stop and r["status"] != Status.SUCCESS:
            done = False
            break
    return done, dict(X_sim=X, cpu_nlp=np.nan_to_num(cpu), time_steps=steps, theta_sim=theta, lambda_sim=lam, alpha_sim=alpha, z_sim=z,
                      w_sim=w_sim, w_all=w_all, cost_vals=cost, status=status, switch_times=switches)
