from ..core import sym, TOPO
from ..terms import TRUE, FALSE

RULE = ("build_trails is reduced to value terms over a symbolic diagram: the walk is a recurrence over (node, nodes so far) whose step is the first unvisited "
        "neighbour across a trail edge stored in either direction. Recurrence, stored trails, node numbers, node types, the conditions under which it fails and "
        "what it has stored by then, and the auxiliary nodes, supports and edges added, must be congruent to the reference.")
LEVEL = "proof"
MIN_OBLIGATIONS = 3
ASSUMPTIONS = ["the order in which COMPAS lists the neighbours of a node carries no meaning", "no edge joins a node to itself"]


def run(ck):
    S = "spec.trails:"
    t = ck.topology()
    ck.same(TOPO + ".build_trails", S + "build", [t], post=[t], raises=["AssertionError"], rule="build_trails", unless=[("A", t, "_trails")])
    ck.same(TOPO + ".build_trails", S + "build", [t], dict(auxiliary_trails=FALSE), post=[t], raises=["AssertionError"], rule="build_trails, no auxiliary trails",
            unless=[("A", t, "_trails")])
    ck.same(TOPO + ".build_trails", S + "build_auxiliary", [t], dict(auxiliary_trails=TRUE), post=[t], opaque=["TopologyDiagram.build_trails"], rule="build_trails with auxiliary trails")
