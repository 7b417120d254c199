"""Reference: solving the optimisation problem (C14, C15, C17, C18)."""
from functools import partial
from time import time

import autograd.numpy as np
from autograd import grad as agrad
from nlopt import opt
from nlopt import RoundoffLimited
from nlopt import LD_LBFGS
from nlopt import LD_MMA
from nlopt import LD_SLSQP
from nlopt import LD_TNEWTON
from nlopt import LD_AUGLAG
from nlopt import LD_VAR2

from compas_cem.equilibrium import static_equilibrium
from compas_cem.equilibrium.force_numpy import equilibrium_state_numpy
from compas_cem.optimization.nlopt import nlopt_solver
from compas_cem.optimization.nlopt import nlopt_status
from compas_cem.optimization.grad import grad_autograd
from compas_cem.optimization.grad import grad_finite_differences
from compas_cem.optimization.objective_func import objective_function_numpy
from compas_cem.optimization import Optimizer


# ---------------------------------------------------------------- C15
def objective(x, grad, x_func, grad_func):
    value = x_func(x)
    if grad.size > 0:
        grad_func(x, grad)
    return value


def by_differentiation(x, grad, grad_func):
    grad[:] = grad_func(x)
    return grad


def by_differences(x, grad, x_func, step_size):
    base = x_func(x)
    for i in range(len(x)):
        y = np.copy(x)
        y[i] = y[i] + step_size
        grad[i] = (x_func(y) - base) / step_size
    return grad


# ---------------------------------------------------------------- C17
def algorithm(name):
    return {"SLSQP": LD_SLSQP, "MMA": LD_MMA, "LBFGS": LD_LBFGS, "TNEWTON": LD_TNEWTON, "VAR": LD_VAR2, "AUGLAG": LD_AUGLAG}[name]


def status(code):
    return {1: "NLOPT_SUCCESS", 2: "NLOPT_EPSVAL_REACHED", 3: "NLOPT_FTOL_REACHED", 4: "NLOPT_XTOL_REACHED", 5: "NLOPT_ITERSMAX_REACHED",
            6: "NLOPT_MAXTIME_REACHED", -1: "NLOPT_GENERIC_FAILURE", -2: "NLOPT_INVALID_ARGS", -3: "NLOPT_OUT_OF_MEMORY",
            -4: "NLOPT_ROUNDOFF_LIMITED", -5: "NLOPT_FORCED_STOP"}[code]


def solver(f, algorithm, dims, bounds_up, bounds_low, iters, eps, ftol):
    s = opt(algorithm_code(algorithm), dims)
    if algorithm == "AUGLAG":
        s.set_local_optimizer(opt(algorithm_code("VAR"), dims))
    if algorithm == "VAR" or algorithm == "TNEWTON":
        s.set_vector_storage(100)
    if algorithm == "MMA":
        s.set_param("inner_maxeval", 5)
    s.set_lower_bounds(bounds_low)
    s.set_upper_bounds(bounds_up)
    s.set_maxeval(iters)
    if ftol is not None:
        s.set_ftol_abs(ftol)
    if eps is not None:
        s.set_stopval(eps)
    s.set_min_objective(f)
    return s


algorithm_code = algorithm


# ---------------------------------------------------------------- C14
def penalty_at(self, parameters, topology, tmax, eta):
    self._update_parameters(topology, parameters)
    state = equilibrium_state_numpy(topology, tmax=tmax, eta=eta)
    return self._calculate_penalty(state)


def solve(self, topology, algorithm, grad, step_size, iters, eps, kappa, tmax, eta, verbose):
    self.check_optimization_sanity()
    if grad != "AD" and grad != "FD":
        raise ValueError(grad)
    if grad == "AD":
        own = partial(self._optimize_form, topology=topology.copy(), tmax=tmax, eta=eta)
        gradient = partial(grad_autograd, grad_func=agrad(own))
    else:
        own = partial(self._optimize_form, topology=topology.copy(), tmax=tmax, eta=eta)
        gradient = partial(grad_finite_differences, x_func=own, step_size=step_size)
    loss = partial(objective_function_numpy, x_func=partial(self._optimize_form, topology=topology, tmax=tmax, eta=eta), grad_func=gradient)
    x = self.optimization_parameters(topology)
    low, up = self.optimization_bounds(topology)
    s = nlopt_solver(f=loss, algorithm=algorithm, dims=len(self.parameters), bounds_low=low, bounds_up=up, iters=iters, eps=eps, ftol=kappa)
    start = time()
    try:
        best = s.optimize(x)
    except RoundoffLimited:
        best = self.optimization_parameters(topology)
    except RuntimeError:
        return static_equilibrium(topology, tmax=tmax, eta=eta)
    self.time_opt = time() - start
    self.x_opt = best
    self.penalty = s.last_optimum_value()
    self.evals = s.get_numevals()
    self.status = nlopt_status(s.last_optimize_result())
    self.gradient = gradient(best, np.zeros(best.size))
    self.gradient_norm = np.linalg.norm(self.gradient)
    self._update_parameters(topology, best)
    return static_equilibrium(topology, tmax=tmax, eta=eta)


# ---------------------------------------------------------------- C18
def proxy(topology, constraints, parameters, algorithm, iters, eps, kappa, tmax, eta):
    o = Optimizer()
    for c in constraints:
        o.add_constraint(c)
    for p in parameters:
        o.add_parameter(p)
    form = o.solve(topology=topology, algorithm=algorithm, iters=iters, eps=eps, kappa=kappa, tmax=tmax, eta=eta)
    return topology, form, o.penalty, o.gradient_norm, o.evals, o.time_opt, o.status


# ---------------------------------------------------------------- C17
def configured(o, topology, algorithm, iters, eps, kappa):
    o.solve(topology, algorithm=algorithm, iters=iters, eps=eps, kappa=kappa)
    return o.penalty


def configured_ref(o, topology, algorithm, iters, eps, kappa):
    solve(o, topology, algorithm, "AD", 1e-6, iters, eps, kappa, 100, 1e-6, False)
    return o.penalty


# ---------------------------------------------------------------- C15
def differentiated(o, topology, algorithm, grad, step_size, tmax, eta):
    o.solve(topology, algorithm=algorithm, grad=grad, step_size=step_size, tmax=tmax, eta=eta)
    return o.penalty, o.gradient


def differentiated_ref(o, topology, algorithm, grad, step_size, tmax, eta):
    solve(o, topology, algorithm, grad, step_size, 100, 1e-6, 1e-8, tmax, eta, False)
    return o.penalty, o.gradient
