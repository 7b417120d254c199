from ..core import TOPO, FORM, sym
from .. import terms as tm

RULE = ("Every classification predicate, collection, connected collection and counter of the diagrams is reduced to a gated "
        "value term of the diagram's node and edge attributes (all callees inlined) and must be congruent to the reference "
        "definition; predicates also in the condition under which they raise.")
LEVEL = "proof"
MIN_OBLIGATIONS = 30
ASSUMPTIONS = ["edges are unordered pairs of existing nodes and node/edge attributes are read and written through the compas Graph interface"]

NODE = ["is_node_support", "is_node_origin", "is_node_loaded", "connected_deviation_edges", "connected_trail_edges", "node_load", "reaction_force"]
EDGE = ["is_trail_edge", "is_deviation_edge", "is_direct_deviation_edge", "is_indirect_deviation_edge", "is_auxiliary_trail_edge", "is_edge_supported",
        "edge_force", "edge_length_2", "edge_plane"]
WHOLE = ["trail_edges", "deviation_edges", "direct_deviation_edges", "indirect_deviation_edges", "auxiliary_trail_edges", "support_nodes", "origin_nodes",
         "loaded_nodes", "number_of_trail_edges", "number_of_deviation_edges", "number_of_direct_deviation_edges",
         "number_of_indirect_deviation_edges", "number_of_support_nodes", "number_of_loaded_nodes", "number_of_trails",
         "number_of_auxiliary_trails", "has_trails"]
FORMS = ["support_nodes", "loaded_nodes", "is_node_support", "is_node_loaded", "is_edge_supported", "node_load", "reaction_force", "edge_force",
         "edge_length_2", "number_of_support_nodes", "number_of_loaded_nodes"]


def bag(t):
    """collections compare as collections: the order of listing is not part of the property"""
    def f(x):
        while x.op in ("sorted", "reversed", "listof"):
            x = x.a[0]
        return x
    return tm.map_leaves(t, f)


def run(ck):
    node = sym("node", kind="node")
    edge = sym("edge", kind="edge")
    mf = sym("min_force", kind="num")
    raises = ["ValueError"]
    for cls, d, names in ((TOPO, ck.topology(), NODE + EDGE + WHOLE), (FORM, ck.form(), FORMS)):
        for nm in names:
            args = [d]
            if nm in NODE:
                args.append(node)
            elif nm in EDGE:
                args.append(edge)
            ck.same(cls + "." + nm, "spec.classes:" + nm, args, raises=raises, rule="%s.%s" % (cls.split(":")[1], nm), view=bag)
            if nm in ("is_node_loaded", "loaded_nodes"):
                ck.same(cls + "." + nm, "spec.classes:" + nm, args + [mf], rule="%s.%s with a threshold" % (cls.split(":")[1], nm), view=bag)
    t = ck.topology()
    for nm in ("trail_edges", "deviation_edges", "direct_deviation_edges", "indirect_deviation_edges", "auxiliary_trail_edges"):
        ck.same(TOPO + "." + nm, "spec.classes:" + nm + "_data", [t], kw={"data": tm.TRUE}, raises=raises, rule="TopologyDiagram.%s with data" % nm, view=bag)
