"""Reference: insertion of elements and lookup by position (C10)."""
from compas.utilities import geometric_key

from compas_cem.diagrams.mixins import NodeMixins
from compas_cem.diagrams.mixins import EdgeMixins
from compas_cem.elements import Node
from compas_cem.elements import TrailEdge
from compas_cem.elements import DeviationEdge
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport


def gkey(diagram, xyz):
    return geometric_key(xyz, diagram.attributes["tol"])


def node_key(diagram, value):
    if isinstance(value, int):
        return value
    return diagram.attributes["gkey_node"].get(gkey(diagram, value))


def node_exists(diagram, value):
    return node_key(diagram, value) is not None


def put_node(diagram, key, xyz):
    x, y, z = xyz
    key = super(NodeMixins, diagram).add_node(key=key, x=x, y=y, z=z)
    diagram.attributes["gkey_node"][gkey(diagram, xyz)] = key
    return key


def add_node(diagram, node):
    return put_node(diagram, node.key, node.xyz)


def update_node_xyz(diagram, key, xyz):
    old = gkey(diagram, diagram.node_coordinates(key))
    if diagram.attributes["gkey_node"].get(old) == key:
        del diagram.attributes["gkey_node"][old]
    put_node(diagram, key, xyz)


def node_xyz_get(diagram, key):
    return diagram.node_coordinates(key)


def node_xyz_set(diagram, key, xyz):
    update_node_xyz(diagram, key, xyz)


def end_key(diagram, value):
    key = node_key(diagram, value)
    if key is None:
        return put_node(diagram, None, value)
    return key


def add_edge(diagram, edge):
    u = end_key(diagram, edge.u)
    v = end_key(diagram, edge.v)
    return super(EdgeMixins, diagram).add_edge(u=u, v=v, attr_dict=dict(edge.attributes))


def designated(diagram, element):
    value = element.xyz if element.node is None else element.node
    node = node_key(diagram, value)
    if node is None:
        raise ValueError("no node there")
    return node


def add_support(topology, support):
    node = designated(topology, support)
    topology.node_attribute(node, "type", "support")


def add_load(topology, load):
    node = designated(topology, load)
    for name, value in zip(("qx", "qy", "qz"), load.vector):
        topology.node_attribute(node, name, value)


# ---------------------------------------------------------------- the element objects
def node_made(key, xyz):
    n = Node(key, xyz)
    return n.key, n.xyz


def node_ref(key, xyz):
    return key, xyz


def node_from_point(xyz):
    n = Node.from_point(xyz)
    return n.key, n.xyz


def node_from_point_ref(xyz):
    return None, xyz


def trail_made(u, v, length, plane):
    e = TrailEdge(u, v, length, plane)
    return [n for n in e], e.attributes["length"], e.attributes["plane"], e.attributes["type"], sorted(e.attributes)


def trail_line_made(u, v, length, plane):
    e = TrailEdge.from_line((u, v), length=length, plane=plane)
    return [n for n in e], e.attributes["length"], e.attributes["plane"], e.attributes["type"], sorted(e.attributes)


def trail_ref(u, v, length, plane):
    return [u, v], length, plane, "trail", sorted({"length": 0, "plane": 0, "type": 0})


def deviation_made(u, v, force):
    e = DeviationEdge(u, v, force)
    return [n for n in e], e.attributes["force"], e.attributes["type"], sorted(e.attributes)


def deviation_line_made(u, v, force):
    e = DeviationEdge.from_line((u, v), force=force)
    return [n for n in e], e.attributes["force"], e.attributes["type"], sorted(e.attributes)


def deviation_ref(u, v, force):
    return [u, v], force, "deviation", sorted({"force": 0, "type": 0})


def support_made(node):
    s = NodeSupport(node)
    return s.node, s.xyz


def support_point_made(point):
    s = NodeSupport.from_point(point)
    return s.xyz, s.node


def load_made(node, vector):
    s = NodeLoad(node, vector)
    return s.node, s.xyz, s.vector


def load_ref(node, vector):
    return node, None, vector


def load_point_made(point, vector):
    s = NodeLoad.from_point_and_vector(point, vector)
    return s.xyz, s.node, s.vector


def by_itself(x):
    return x, None
