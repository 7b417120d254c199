from ..core import sym
from ..terms import mk, syminfo, const, EMPTYMAP, put

RULE = ("For every constraint kind, an instance built with symbolic key, target and weight is asked for its key, weight and penalty on a symbolic "
        "equilibrium state; the penalty term must be congruent to weight times squared deviation between the named quantity and its target. The "
        "optimiser's total must be congruent to the sum of the penalties of all its constraints.")
LEVEL = "proof"
MIN_OBLIGATIONS = 9
ASSUMPTIONS = ["COMPAS' closest-point functions return the closest point on a line, plane or segment", "floating-point rounding is not modelled"]
P = "compas_cem.optimization.constraints."
KINDS = (("point", "point:PointConstraint", "node", "vec"), ("line", "line:LineConstraint", "node", "two"), ("plane", "plane:PlaneConstraint", "node", "two"),
         ("polyline", "polyline:PolylineConstraint", "node", "list"), ("direction", "direction:EdgeDirectionConstraint", "edge", "vec"),
         ("edge_length", "length:DeviationEdgeLengthConstraint", "edge", "num"), ("trail_force", "force:TrailEdgeForceConstraint", "edge", "num"),
         ("reaction", "force:ReactionForceConstraint", "node", "vec"))
OPT = "compas_cem.optimization.optimizer:Optimizer"


def state(name="state"):
    m = EMPTYMAP
    for k, kk, vk in (("node_xyz", "node", "vec"), ("trail_forces", "edge", "num"), ("trail_vectors", "edge", "vec"), ("deviation_vectors", "edge", "vec"),
                      ("reaction_forces", "node", "vec"), ("residual_vectors", "node", "vec")):
        m = put(m, const(k), sym(name + "." + k, kind="map", keykind=kk, valkind=vk))
    return m


def run(ck):
    S = "spec.constraints:"
    w = sym("weight", kind="num")
    st = state()
    for name, q, kd, tk in KINDS:
        key = sym(kd, kind=kd)
        if tk == "two":
            targets = [sym("a", kind="vec"), sym("b", kind="vec")]
        elif tk == "list":
            targets = [sym("polyline", kind="list", elemkind="vec")]
        else:
            targets = [sym("target", kind=tk)]
        for suffix, how in (("", ""), ("_named", " by name")):
            ck.same(S + name + suffix, S + name + "_ref", [key] + targets + [w, st], rule=q.split(":")[1] + how, anchor=P + q + ".reference")
        target = mk("seq", *targets) if tk == "two" else targets[0]
        ck.same(S + "unweighted", S + "unweighted_ref", [mk("cls", ck.cls(P + q).qual), key, target, st], rule=q.split(":")[1] + " without a weight", anchor=P + q + ".__init__")
        ck.same(S + "again", S + "again_ref", [mk("cls", ck.cls(P + q).qual), key, target, w, state("before"), st], rule=q.split(":")[1] + " asked again in another state", anchor=P + q + ".reference")
    mesh = mk("cls", ck.cls(P + "mesh:TrimeshConstraint").qual)
    for how in ("surface", "surface_named"):
        ck.same(S + how, S + "surface_ref", [mesh, sym("node", kind="node"), sym("trimesh"), w, st], rule="TrimeshConstraint " + how, anchor=P + "mesh:TrimeshConstraint.reference")
    o = ck.obj("optimizer", OPT)
    ck.same(OPT + "._calculate_penalty", S + "total", [o, sym("eq_state", kind="map")], post=[o])
    ck.same(OPT + "._optimize_form", "spec.solve:penalty_at", [o, sym("x", kind="list", elemkind="num"), ck.topology(), sym("tmax", kind="num"), sym("eta", kind="num")],
            opaque=["equilibrium_state_numpy", "Optimizer._update_parameters", "Optimizer._calculate_penalty"], rule="the penalty minimised is that of all constraints")
