"""Reference: classification of nodes and edges (C08), written on the plain graph interface only."""
from math import sqrt


def etype(topology, edge):
    return topology.edge_attribute(edge, "type")


def ntype(topology, node):
    return topology.node_attribute(node, "type")


def is_trail_edge(topology, edge):
    return etype(topology, edge) == "trail"


def is_deviation_edge(topology, edge):
    return etype(topology, edge) == "deviation"


def seqs(topology, edge):
    out = []
    for n in (edge[0], edge[1]):
        k = topology.node_attribute(n, "_k")
        if k is None:
            raise ValueError("no sequence")
        out.append(k)
    return out


def is_direct_deviation_edge(topology, edge):
    if etype(topology, edge) != "deviation":
        return False
    a, b = seqs(topology, edge)
    return a == b


def is_indirect_deviation_edge(topology, edge):
    if etype(topology, edge) != "deviation":
        return False
    a, b = seqs(topology, edge)
    return not a == b


def is_auxiliary_trail_edge(topology, edge):
    return edge in list(topology.attributes["_auxiliary_trails"].values())


def is_node_support(topology, node):
    return ntype(topology, node) == "support"


def is_node_origin(topology, node):
    return ntype(topology, node) == "_origin"


def load_size(topology, node):
    x = topology.node_attribute(node, "qx")
    y = topology.node_attribute(node, "qy")
    z = topology.node_attribute(node, "qz")
    return sqrt(x * x + y * y + z * z)


def is_node_loaded(topology, node, min_force=1e-6):
    return load_size(topology, node) > min_force


def is_edge_supported(topology, edge):
    return ntype(topology, edge[0]) == "support" or ntype(topology, edge[1]) == "support"


def trail_edges(topology):
    return [e for e in topology.edges() if is_trail_edge(topology, e)]


def deviation_edges(topology):
    return [e for e in topology.edges() if is_deviation_edge(topology, e)]


def direct_deviation_edges(topology):
    return [e for e in topology.edges() if is_direct_deviation_edge(topology, e)]


def indirect_deviation_edges(topology):
    return [e for e in topology.edges() if is_indirect_deviation_edge(topology, e)]


def auxiliary_trail_edges(topology):
    return [e for e in topology.edges() if is_auxiliary_trail_edge(topology, e)]


def support_nodes(topology):
    return [n for n in topology.nodes() if is_node_support(topology, n)]


def origin_nodes(topology):
    return [n for n in topology.nodes() if is_node_origin(topology, n)]


def loaded_nodes(topology, min_force=1e-6):
    return [n for n in topology.nodes() if load_size(topology, n) > min_force]


def connected_deviation_edges(topology, node):
    return [e for e in topology.connected_edges(node) if is_deviation_edge(topology, e)]


def connected_trail_edges(topology, node):
    return [e for e in topology.connected_edges(node) if is_trail_edge(topology, e)]


def number_of_trail_edges(topology):
    return len(trail_edges(topology))


def number_of_deviation_edges(topology):
    return len(deviation_edges(topology))


def number_of_direct_deviation_edges(topology):
    return len(direct_deviation_edges(topology))


def number_of_indirect_deviation_edges(topology):
    return len(indirect_deviation_edges(topology))


def number_of_support_nodes(topology):
    return len(support_nodes(topology))


def number_of_loaded_nodes(topology):
    return len(loaded_nodes(topology))


def number_of_trails(topology):
    return len(topology.attributes["_trails"])


def number_of_auxiliary_trails(topology):
    return len(topology.attributes["_auxiliary_trails"])


def has_trails(topology):
    return len(topology.attributes["_trails"]) > 0


def node_load(topology, node):
    return [topology.node_attribute(node, "qx"), topology.node_attribute(node, "qy"), topology.node_attribute(node, "qz")]


def reaction_force(topology, node):
    return [topology.node_attribute(node, "rx"), topology.node_attribute(node, "ry"), topology.node_attribute(node, "rz")]


def edge_force(topology, edge):
    return topology.edge_attribute(edge, "force")


def edge_length_2(topology, edge):
    return topology.edge_attribute(edge, "length")


def edge_plane(topology, edge):
    return topology.edge_attribute(edge, "plane")


def trail_edges_data(topology, data):
    return [(e, attributes) for e, attributes in topology.edges(True) if is_trail_edge(topology, e)]


def deviation_edges_data(topology, data):
    return [(e, attributes) for e, attributes in topology.edges(True) if is_deviation_edge(topology, e)]


def direct_deviation_edges_data(topology, data):
    return [(e, attributes) for e, attributes in topology.edges(True) if is_direct_deviation_edge(topology, e)]


def indirect_deviation_edges_data(topology, data):
    return [(e, attributes) for e, attributes in topology.edges(True) if is_indirect_deviation_edge(topology, e)]


def auxiliary_trail_edges_data(topology, data):
    return [(e, attributes) for e, attributes in topology.edges(True) if is_auxiliary_trail_edge(topology, e)]
