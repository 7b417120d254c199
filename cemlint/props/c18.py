from ..core import sym
from ..terms import mk, const

RULE = ("solve_proxy, with Optimizer.solve kept as an uninterpreted call on the optimiser's tables and its arguments, is reduced to a value term: the seven "
        "returned values, in order, and the arguments handed to the solver must be congruent to the reference.")
LEVEL = "proof"
MIN_OBLIGATIONS = 2
ASSUMPTIONS = ["Optimizer.solve records its results in the fields C14 checks"]
O = "compas_cem.optimization.optimizer:Optimizer"
P = "compas_cem.optimization.proxy:solve_proxy"


def solve(I, b, st):
    me = b["self"]
    tabs = [I.pure(I.get(st, ("f", me, f)), st) for f in ("constraints", "parameters")]
    a = [mk("kw", k, I.snap(v, st)) for k, v in sorted(b.items()) if k != "self"]
    call = mk("fn", "solve", *(tabs + a))
    for f in ("x_opt", "time_opt", "penalty", "evals", "gradient", "gradient_norm", "status"):
        st.store[("f", me, f)] = mk("fn", "solve." + f, call)
    t = b["topology"]
    if t.op == "sym":
        st.store[("dyn", t)] = mk("seq", mk("fn", "solve.topology", call))
    return mk("fn", "solve.form", call)


def run(ck):
    t = ck.topology()
    ov = {O + ".solve": solve}
    given = [t, sym("constraints", kind="list"), sym("parameters", kind="list"), sym("algorithm", kind="str"), sym("iters", kind="num")]
    names = ("topology", "constraints", "parameters", "algorithm", "iters")
    opt = dict(eps=sym("eps", kind="any"), kappa=sym("kappa", kind="any"), tmax=sym("tmax", kind="num"), eta=sym("eta", kind="num"))
    ck.same(P, "spec.solve:proxy", [], dict(zip(names, given), **opt), post=[t], override=ov)
    ck.same(P, "spec.solve:proxy", given + [opt[k] for k in ("eps", "kappa", "tmax", "eta")], post=[t], override=ov, rule="solve_proxy, by position")
