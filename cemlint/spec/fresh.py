"""What a newly made diagram holds (C24): harness functions and, with the suffix _is, the expected outcome."""
from compas_cem.diagrams.form import FormDiagram
from compas_cem.diagrams.topology.topology import TopologyDiagram

NODE = ["x", "y", "z", "qx", "qy", "qz", "rx", "ry", "rz", "_k", "type"]
EDGE = ["type", "length", "force"]


def topology_node(node):
    diagram = TopologyDiagram()
    return [diagram.node_attribute(node, name) for name in NODE]


def form_node(node):
    diagram = FormDiagram()
    return [diagram.node_attribute(node, name) for name in NODE]


def topology_node_is(node):
    return [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, None, None]


def form_node_is(node):
    return topology_node_is(node)


def topology_edge(edge):
    diagram = TopologyDiagram()
    return [diagram.edge_attribute(edge, name) for name in EDGE]


def form_edge(edge):
    diagram = FormDiagram()
    return [diagram.edge_attribute(edge, name) for name in EDGE]


def topology_edge_is(edge):
    return [None, 0.0, 0.0]


def form_edge_is(edge):
    return topology_edge_is(edge)


def loads_and_reactions(node, edge):
    diagram = TopologyDiagram()
    return [diagram.node_load(node), diagram.reaction_force(node), diagram.is_node_support(node), diagram.is_node_origin(node),
            diagram.edge_force(edge), diagram.is_trail_edge(edge), diagram.is_deviation_edge(edge)]


def loads_and_reactions_is(node, edge):
    return [[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], False, False, 0.0, False, False]


def topology_tables():
    diagram = TopologyDiagram()
    return [dict(diagram.gkey_node), diagram.tol, dict(diagram.trails(keys=True)), dict(diagram.auxiliary_trails(keys=True)), diagram.auxiliary_trail_length, list(diagram.auxiliary_trail_vector)]


def topology_tables_is():
    return [{}, "3f", {}, {}, -1.0, [1.0, 1.0, 1.0]]


def form_tables():
    diagram = FormDiagram()
    return [dict(diagram.gkey_node), diagram.tol]


def form_tables_is():
    return [{}, "3f"]


def apart(key, node, nodes):
    one = TopologyDiagram()
    other = TopologyDiagram()
    one.attributes["gkey_node"][key] = node
    one.attributes["_trails"][node] = nodes
    one.attributes["_auxiliary_trails"][node] = nodes
    one.auxiliary_trail_vector[0] = 5.0
    return [dict(other.attributes["gkey_node"]), dict(other.attributes["_trails"]), dict(other.attributes["_auxiliary_trails"]), list(other.auxiliary_trail_vector)]


def apart_is(key, node, nodes):
    return [{}, {}, {}, [1.0, 1.0, 1.0]]


def tables_apart(key, node, nodes):
    diagram = TopologyDiagram()
    diagram.attributes["_trails"][node] = nodes
    diagram.attributes["gkey_node"][key] = node
    return [dict(diagram.attributes["_auxiliary_trails"]), dict(diagram.attributes["_trails"]), dict(diagram.attributes["gkey_node"])]


def tables_apart_is(key, node, nodes):
    return [{}, {node: nodes}, {key: node}]


def tol_set(value):
    diagram = TopologyDiagram()
    diagram.tol = value
    return [diagram.tol, diagram.auxiliary_trail_length, list(diagram.auxiliary_trail_vector)]


def tol_set_is(value):
    return [value, -1.0, [1.0, 1.0, 1.0]]


def form_tol_set(value):
    diagram = FormDiagram()
    diagram.tol = value
    return diagram.tol


def form_tol_set_is(value):
    return value


def length_set(value):
    diagram = TopologyDiagram()
    diagram.auxiliary_trail_length = value
    return [diagram.tol, diagram.auxiliary_trail_length, list(diagram.auxiliary_trail_vector)]


def length_set_is(value):
    return ["3f", value, [1.0, 1.0, 1.0]]


def vector_set(value):
    diagram = TopologyDiagram()
    diagram.auxiliary_trail_vector = value
    return [diagram.tol, diagram.auxiliary_trail_length, diagram.auxiliary_trail_vector]


def vector_set_is(value):
    return ["3f", -1.0, value]


def copied_settings(tol, length, vector):
    diagram = TopologyDiagram()
    diagram.tol = tol
    diagram.auxiliary_trail_length = length
    diagram.auxiliary_trail_vector = vector
    form = FormDiagram.from_topology_diagram(diagram)
    return [form.tol, diagram.tol, diagram.auxiliary_trail_length, diagram.auxiliary_trail_vector]


def copied_settings_is(tol, length, vector):
    return [tol, tol, length, vector]
