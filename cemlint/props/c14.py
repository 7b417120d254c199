from ..core import sym
from ..terms import const

RULE = ("Optimizer.solve and the objective it minimises, with the equilibrium solver, the parameter write and the penalty kept as uninterpreted calls, are "
        "reduced to value terms on every path (normal end, round-off stop, runtime failure): the returned form, the recorded result fields, the "
        "final contents of the topology, the solver's whole configuration and the failures must be congruent to the reference.")
LEVEL = "proof"
MIN_OBLIGATIONS = 8
ASSUMPTIONS = ["nlopt's optimize leaves the topology at the last point evaluated and may stop with RoundoffLimited or RuntimeError"]
O = "compas_cem.optimization.optimizer:Optimizer"


def run(ck):
    S = "spec.solve:"
    me = ck.obj("self", O)
    t = ck.topology()
    eq = ["equilibrium_state_numpy", "static_equilibrium"]
    tmax, eta = sym("tmax", kind="num"), sym("eta", kind="num")
    ck.same(O + "._optimize_form", S + "penalty_at", [me, sym("x", kind="list", elemkind="num"), t, tmax, eta],
            opaque=eq + ["Optimizer._update_parameters", "Optimizer._calculate_penalty"], post=[me, t], effects=True)
    kw = dict(algorithm=sym("algorithm", kind="str"), step_size=sym("step_size", kind="num"), iters=sym("iters", kind="num"),
              eps=sym("eps", kind="any"), kappa=sym("kappa", kind="any"), tmax=tmax, eta=eta, verbose=sym("verbose", kind="bool"))
    op = eq + ["Optimizer._update_parameters", "Optimizer._calculate_penalty", "nlopt_status"]
    for g in ("AD", "FD"):
        ck.same(O + ".solve", S + "solve", [me, t], dict(kw, grad=const(g)), opaque=op, raises=["ValueError", "RoundoffLimited", "RuntimeError"],
                post=[me, t], rule="solve, gradients by %s" % g)
    ck.same(O + ".solve", S + "solve", [me, t], dict(kw, grad=sym("grad", kind="str"), algorithm=const("SLSQP"), eps=const(None), kappa=const(None)), opaque=op,
            raises=["ValueError"], value=False, rule="solve, gradients by any name")
    ck.same("spec.optimizer:unsolved", "spec.optimizer:unsolved_ref", [], anchor=O + ".__init__", rule="a new optimizer reports no run")
