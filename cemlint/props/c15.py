from ..core import sym
from .. import terms as tm
from ..terms import const

RULE = ("The objective callback and both gradient callbacks are reduced to value terms: returned value, contents of the gradient buffer and of the "
        "solver's variable vector afterwards, and the calls made; each must be congruent to the reference difference quotient / derivative.")
LEVEL = "proof"
MIN_OBLIGATIONS = 5
ASSUMPTIONS = ["x_func and grad_func are deterministic in their argument's contents", "automatic differentiation itself (autograd) is trusted"]
M = "compas_cem.optimization."


def filled(x, g):
    """the gradient has one entry per variable: writing every one of them gives the list of what was written"""
    xs, gs = tm.syminfo[x]["init"], tm.syminfo[g]["init"]

    def fn(t):
        if t.op != "lend":
            return t
        loop, j = t.a[0], t.a[1]
        o = tm.open_loop(loop)
        if o["dom"] is not xs or o["inits"][j] is not gs or o["ex"] is not tm.FALSE:
            return t
        u = o["ups"][j]
        if u.op == "put" and u.a[0] is o["mus"][j] and u.a[1] is o["pos"] and not any(m in u.a[2].fs for m in o["mus"]):
            return tm.fmap(xs, o["elem"], o["pos"], tm.seq(u.a[2]))
        return t

    def both(c, s):
        # only where the code makes a list of them: entries written one by one are compared one by one
        if c is s or any(t.op == "lend" and gs in t.a[0].a[2] for t in tm.subterms(c)):
            return c, s
        return tm.rewrite(c, fn), tm.rewrite(s, fn)
    both.pair = True
    return both


def run(ck):
    S = "spec.solve:"
    x = ck.array("x")
    g = ck.array("grad")
    xf, gf = sym("x_func", kind="callable"), sym("grad_func", kind="callable")
    h = sym("step_size", kind="num")
    ck.same(M + "objective_func:objective_function_numpy", S + "objective", [x, g, xf, gf], post=[x, g], effects=True)
    ck.same(M + "grad:grad_autograd", S + "by_differentiation", [x, g, gf], post=[x, g], effects=True)
    ck.same(M + "grad:grad_finite_differences", S + "by_differences", [x, g, xf, h], post=[x, g], assume=filled(x, g))
    O = M + "optimizer:Optimizer"
    # the objective minimised and the gradient handed over for it, as one optimisation sets them up
    tmax, eta = sym("tmax", kind="num"), sym("eta", kind="num")
    for grad in ("AD", "FD"):
        ck.same(S + "differentiated", S + "differentiated_ref", [ck.obj("optimizer", O), ck.topology(), const("SLSQP"), const(grad), h, tmax, eta],
                opaque=["equilibrium_state_numpy", "static_equilibrium", "Optimizer._update_parameters", "Optimizer._calculate_penalty", "nlopt_status"],
                raises=["ValueError", "RoundoffLimited", "RuntimeError"], anchor=O + ".solve", rule="objective and gradient of one optimisation, by %s" % grad)
