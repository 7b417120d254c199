from ..core import TOPO, sym, TRUE

RULE = ("shift_trail, the trail and sequence maps, the sequence counters and the sequence iterator are reduced to value terms of the "
        "diagram's node attribute _k and its stored trails (results, raised errors and, for shift_trail, every location written) and "
        "must be congruent to the reference definition.")
LEVEL = "proof"
MIN_OBLIGATIONS = 14
ASSUMPTIONS = ["nodes without a sequence number make the sequence counters undefined (None is not ordered)"]


def run(ck):
    t = ck.topology()
    key = sym("key", kind="node")
    node = sym("node", kind="node")
    edge = sym("edge", kind="edge")
    s = sym("sequence", kind="int")
    S = "spec.sequences:"
    ck.same(TOPO + ".shift_trail", S + "shift_trail", [t, key, s], value=False, raises=["AssertionError", "ValueError"], post=[t])
    ck.same(TOPO + ".node_sequence", S + "node_sequence", [t, node], raises=["ValueError"], post=[t])
    ck.same(TOPO + ".edge_sequence", S + "edge_sequence", [t, edge], raises=["ValueError"], post=[t])
    ck.same(TOPO + ".trail", S + "trail", [t, key], post=[t])
    ck.same(TOPO + ".trails", S + "trails", [t], post=[t])
    ck.same(TOPO + ".trails", S + "trails_items", [t], kw={"keys": TRUE}, post=[t], rule="TopologyDiagram.trails(keys=True)")
    ck.same(TOPO + ".auxiliary_trails", S + "auxiliary_trails", [t], post=[t])
    ck.same(TOPO + ".auxiliary_trails", S + "auxiliary_trails_items", [t], kw={"keys": TRUE}, post=[t], rule="TopologyDiagram.auxiliary_trails(keys=True)")
    ck.same(TOPO + ".trail_sequences", S + "trail_sequences", [t, key], raises=["ValueError"], post=[t])
    ck.same(TOPO + ".trails_sequences", S + "trails_sequences", [t], raises=["ValueError"], post=[t])
    ck.same(TOPO + ".sequence_last", S + "sequence_last", [t], post=[t])
    ck.same(TOPO + ".number_of_sequences", S + "number_of_sequences", [t], post=[t])
    ck.same(TOPO + ".sequences", S + "sequences", [t], post=[t])
    ck.same(TOPO + ".sequences", S + "sequences_items", [t], kw={"keys": TRUE}, post=[t], rule="TopologyDiagram.sequences(keys=True)")
