from ..core import sym
from ..terms import mk, const

RULE = ("For each parameter class the addressed key, attribute name, start value and both bounds are reduced to value terms of the constructor's "
        "arguments and the diagram's attributes, over all classes in the inheritance chain, and must be congruent to the reference table; also when the parameter was asked before and the diagram has changed since.")
LEVEL = "proof"
MIN_OBLIGATIONS = 10
ASSUMPTIONS = ["bounds are numbers or unset"]
P = "compas_cem.optimization.parameters."
KINDS = (("origin_x", "origin:OriginNodeXParameter", "node"), ("origin_y", "origin:OriginNodeYParameter", "node"),
         ("origin_z", "origin:OriginNodeZParameter", "node"), ("load_x", "load:NodeLoadXParameter", "node"),
         ("load_y", "load:NodeLoadYParameter", "node"), ("load_z", "load:NodeLoadZParameter", "node"),
         ("trail", "trail:TrailEdgeParameter", "edge"), ("deviation", "deviation:DeviationEdgeParameter", "edge"))


def run(ck):
    S = "spec.optimizer:"
    t = ck.topology()
    low, up = sym("bound_low"), sym("bound_up")
    for name, q, kd in KINDS:
        key = sym(kd, kind=kd)
        ck.same(S + name, S + name + "_ref", [t, key, low, up], post=[t], rule=q.split(":")[1], anchor=P + q + ".__init__")
    ck.same(S + "named", S + "trail_ref", [t, sym("edge", kind="edge"), low, up], post=[t], rule="TrailEdgeParameter by name", anchor=P + "trail:TrailEdgeParameter.__init__")
    for name, q, kd in KINDS:
        key, make = sym(kd, kind=kd), mk("cls", ck.cls(P + q).qual)
        ck.same(S + "unset", S + "unset_ref", [make, t, key], post=[t], rule=q.split(":")[1] + " without bounds", anchor=P + q + ".__init__")
        ck.same(S + "low_only", S + "low_only_ref", [make, t, key, low], post=[t], rule=q.split(":")[1] + " without an upper bound", anchor=P + q + ".__init__")
        ck.same(S + "up_only", S + "up_only_ref", [make, t, key, up], post=[t], rule=q.split(":")[1] + " without a lower bound", anchor=P + q + ".__init__")
        name = const({"origin": "%s", "load": "q%s"}[name.split("_")[0]] % name[-1] if kd == "node" else {"trail": "length", "deviation": "force"}[name])
        ck.same(S + kd + "_again", S + kd + "_again_ref", [make, t, key, low, up, name, sym("value", kind="num")], post=[t], rule=q.split(":")[1] + " asked again after the diagram changed", anchor=P + q + ".__init__")
        ck.same(S + "through", S + "through_" + kd, [make, t, key, sym("other", kind="node"), sym("value", kind="num"), low, up, name], post=[t],
                rule=q.split(":")[1] + " through the optimiser", anchor=P + q + ".__init__")
