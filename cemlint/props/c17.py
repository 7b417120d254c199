from ..core import sym, NONE

RULE = ("Algorithm and status tables: the value for every key is compared with the reference for a symbolic key (so every entry, present or missing, counts). "
        "Solver construction: the constructor arguments and the whole conditional sequence of configuration calls on the nlopt object, reduced to value "
        "terms, must be congruent to the reference, with independent calls compared regardless of order.")
LEVEL = "proof"
MIN_OBLIGATIONS = 4
ASSUMPTIONS = ["nlopt's setters for bounds, tolerances, storage and limits are independent of one another"]
M = "compas_cem.optimization.nlopt:"


def run(ck):
    S = "spec.solve:"
    name = sym("name", kind="str")
    code = sym("code", kind="num")
    ck.same(M + "nlopt_algorithm", S + "algorithm", [name], raises=["KeyError"])
    ck.same(M + "nlopt_status", S + "status", [code], raises=["KeyError"])
    ck.same(M + "nlopt_solver", S + "solver", [], dict(
        f=sym("f", kind="callable"), algorithm=name, dims=sym("dims", kind="num"), bounds_up=sym("bounds_up"), bounds_low=sym("bounds_low"),
        iters=sym("iters", kind="num"), eps=sym("eps", kind="any"), ftol=sym("ftol", kind="any")), effects=True, raises=["KeyError"])
    O = "compas_cem.optimization.optimizer:Optimizer"
    # what the optimiser asks of the solver, whatever the objective
    ck.same(S + "configured", S + "configured_ref", [ck.obj("optimizer", O), ck.topology(), name, sym("iters", kind="num"), sym("eps", kind="any"), sym("kappa", kind="any")],
            opaque=["equilibrium_state_numpy", "static_equilibrium", "Optimizer._update_parameters",
                    "Optimizer._calculate_penalty", "nlopt_status"], raises=["ValueError", "RoundoffLimited", "RuntimeError"], anchor=O + ".solve",
            rule="the solver an optimiser runs")
