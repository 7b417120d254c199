from ..core import sym
from ..terms import mk, NONE

RULE = ("For every parameter and constraint class, a value-flow composition of its data getter, JSON and the data setter of a fresh instance is "
        "reduced to value terms: key, attribute, bounds, weight and target observed on the restored instance must be the original's own values.")
LEVEL = "proof"
MIN_OBLIGATIONS = 10
ASSUMPTIONS = ["targets are COMPAS geometry objects, whose from_data inverts to_data", "literal_eval inverts repr on numbers, strings and tuples of them"]
P = "compas_cem.optimization."
PARAMETERS = (("parameters.origin:OriginNodeXParameter", "node"), ("parameters.origin:OriginNodeYParameter", "node"), ("parameters.origin:OriginNodeZParameter", "node"),
              ("parameters.load:NodeLoadXParameter", "node"), ("parameters.load:NodeLoadYParameter", "node"), ("parameters.load:NodeLoadZParameter", "node"),
              ("parameters.trail:TrailEdgeParameter", "edge"), ("parameters.deviation:DeviationEdgeParameter", "edge"))
CONSTRAINTS = (("constraints.point:PointConstraint", "node", None), ("constraints.line:LineConstraint", "node", None), ("constraints.plane:PlaneConstraint", "node", None),
               ("constraints.polyline:PolylineConstraint", "node", None), ("constraints.direction:EdgeDirectionConstraint", "edge", None),
               ("constraints.length:DeviationEdgeLengthConstraint", "edge", "num"), ("constraints.force:TrailEdgeForceConstraint", "edge", "num"),
               ("constraints.force:ReactionForceConstraint", "node", None))


def run(ck):
    S = "spec.constraints:"
    t = ck.topology()
    for q, kd in PARAMETERS:
        ck.same(S + "parameter_back", S + "parameter_kept", [mk("cls", ck.cls(P + q).qual), sym(kd, kind=kd), sym("bound_low"), sym("bound_up"), t],
                rule=q.split(":")[1], anchor=P + q + ".__init__")
        for low, up, what in ((NONE, sym("bound_up", kind="num"), "lower"), (sym("bound_low", kind="num"), NONE, "upper")):
            ck.same(S + "parameter_back", S + "parameter_kept", [mk("cls", ck.cls(P + q).qual), sym(kd, kind=kd), low, up, t],
                    rule="%s with no %s bound" % (q.split(":")[1], what), anchor=P + q + ".__init__")
    for q, kd, tk in CONSTRAINTS:
        ck.same(S + "constraint_back", S + "constraint_kept", [mk("cls", ck.cls(P + q).qual), sym(kd, kind=kd), sym("target", kind=tk), sym("weight", kind="num")],
                rule=q.split(":")[1], anchor=P + q + ".__init__")
