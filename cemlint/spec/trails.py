"""Reference: building trails (C07)."""
from compas.geometry import add_vectors
from compas.geometry import normalize_vector
from compas.geometry import scale_vector

from compas_cem.elements import Node
from compas_cem.elements import TrailEdge
from compas_cem.supports import NodeSupport


def joined(self, u, v):
    """a trail edge joins u and v, in whichever direction it is stored"""
    if self.has_edge(u, v):
        return self.edge_attribute((u, v), "type") == "trail"
    return self.edge_attribute((v, u), "type") == "trail"


def following(self, node, visited):
    for n in reversed(self.neighbors(node)):
        if n not in visited and joined(self, node, n):
            return n
    return node


def forget(self):
    for node in self.nodes():
        if self.node_attribute(node, "type") == "_origin":
            self.unset_node_attribute(node, "type")


def build(self, auxiliary_trails=False):
    trails = {}
    forget(self)
    covered = set()
    for support in self.support_nodes():
        trail = []
        node = support
        visited = set()
        while True:
            succ = following(self, node, visited)
            trail.append(node)
            visited.add(node)
            if succ == node:
                break
            node = succ
        self.node_attribute(node, "type", "_origin")
        trail.reverse()
        for k, n in enumerate(trail):
            self.node_attribute(n, "_k", k)
        trails[node] = tuple(trail)
        covered.update(visited)
    free = set(self.nodes()) - covered
    assert len(list(self.trail_edges())) > 0
    assert len(list(self.support_nodes())) > 0
    assert len(free) == 0
    self.attributes["_trails"] = trails


def search(self):
    """first pass: trails of the supports there are; returns the nodes on none of them"""
    forget(self)
    covered = set()
    for support in self.support_nodes():
        trail = []
        node = support
        visited = set()
        while True:
            succ = following(self, node, visited)
            trail.append(node)
            visited.add(node)
            if succ == node:
                break
            node = succ
        self.node_attribute(node, "type", "_origin")
        trail.reverse()
        for k, n in enumerate(trail):
            self.node_attribute(n, "_k", k)
        covered.update(visited)
    return set(self.nodes()) - covered


def build_auxiliary(self, auxiliary_trails):
    added = {}
    free = search(self)
    for node in free:
        offset = scale_vector(normalize_vector(self.auxiliary_trail_vector), self.auxiliary_trail_length)
        far = self.add_node(Node(xyz=add_vectors(self.node_coordinates(node), offset)))
        self.add_support(NodeSupport(far))
        added[node] = self.add_edge(TrailEdge(node, far, length=self.auxiliary_trail_length))
    self.attributes["_auxiliary_trails"] = added
    return self.build_trails(auxiliary_trails=False)
