"""Reference: topology diagram from a quad mesh (C11)."""
from compas.geometry import distance_point_point
from compas.utilities import pairwise

from compas_cem.elements import Node
from compas_cem.elements import TrailEdge
from compas_cem.elements import DeviationEdge
from compas_cem.supports import NodeSupport


def split(polyedge, supports):
    """(deviation pairs, trail pairs) of one polyedge"""
    first, last = polyedge[0], polyedge[-1]
    free = first not in supports and last not in supports
    both = first in supports and last in supports
    if first == last or free:
        return pairwise(polyedge), []
    if not both:
        return [], pairwise(polyedge)
    if polyedge[1] in supports:
        return [], []
    n = int(len(polyedge) / 2) - 1
    return [tuple(polyedge[n:n + 2])], list(pairwise(polyedge[:n + 1])) + list(pairwise(polyedge[n + 1:]))


def from_dualquadmesh(cls, mesh, supports, trail_length, trail_state, deviation_force, deviation_state):
    mesh.collect_polyedges()
    supports = set(supports)
    deviation = []
    trail = []
    for _, polyedge in mesh.polyedges(data=True):
        d, t = split(polyedge, supports)
        deviation.extend(d)
        trail.extend(t)

    topology = cls()
    for vkey in mesh.vertices():
        topology.add_node(Node(vkey, mesh.vertex_coordinates(vkey)))
    for vkey in supports:
        topology.add_support(NodeSupport(vkey))
    for u, v in deviation:
        topology.add_edge(DeviationEdge(u, v, deviation_state * deviation_force))
    for edge in trail:
        length = trail_length if trail_length else distance_point_point(*[topology.node_coordinates(node) for node in edge])
        u, v = edge
        topology.add_edge(TrailEdge(u, v, length * trail_state))
    return topology
