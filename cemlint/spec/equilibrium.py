"""Reference: combinatorial equilibrium form-finding (C01-C05), on the plain graph interface."""
from math import copysign

import numpy as np

from compas.geometry import add_vectors, dot_vectors, length_vector, normalize_vector, scale_vector, subtract_vectors


def pull(topology, node, node_xyz, indirect):
    """resultant of the deviation edges at a node; edges between sequences only from the second iteration on"""
    total = [0.0, 0.0, 0.0]
    for edge in topology.connected_edges(node):
        if topology.edge_attribute(edge, "type") != "deviation":
            continue
        ka = topology.node_attribute(edge[0], "_k")
        kb = topology.node_attribute(edge[1], "_k")
        if ka is None or kb is None:
            raise ValueError("no sequence")
        if ka != kb and not indirect:
            continue
        other = edge[0] if edge[0] != node else edge[1]
        direction = normalize_vector(subtract_vectors(node_xyz[other], node_xyz[node]))
        total = add_vectors(total, scale_vector(direction, topology.edge_attribute(edge, "force")))
    return total


def distance_to_plane(point, vector, plane):
    origin, normal = plane
    c = dot_vectors(normal, normalize_vector(vector))
    if abs(c) < 1e-6:
        return None
    return dot_vectors(normal, subtract_vectors(origin, point)) / c


def sequences(topology):
    out = {}
    for key in topology.attributes["_trails"]:
        out[key] = {}
        for node in topology.attributes["_trails"][key]:
            k = topology.node_attribute(node, "_k")
            if k is None:
                raise ValueError("no sequence")
            out[key][k] = node
    return out


def total_displacement(before, after):
    d = 0.0
    for n in after:
        d += length_vector(subtract_vectors(after[n], before[n]))
    return d


def array_displacement(before, after):
    new = np.array([after[n] for n in after])
    old = np.array([before[n] for n in after])
    return np.linalg.norm(new - old)


def state(topology, kmax, tmax, eta, verbose, callback):
    return find(topology, kmax, tmax, eta, total_displacement)


def state_numpy(topology, tmax, eta, verbose, callback):
    return find(topology, None, tmax, eta, array_displacement)


def find(topology, kmax, tmax, eta, displacement):
    assert len(topology.attributes["_trails"]) > 0
    seqs = sequences(topology)
    node_xyz = {n: topology.node_attributes(n, ["x", "y", "z"]) for n in topology.nodes()}
    residual = {n: topology.node_attributes(n, ["rx", "ry", "rz"]) for n in topology.nodes()}
    reactions = {}
    forces = {}
    directions = {}
    klast = max([topology.node_attribute(n, "_k") for n in topology.nodes()])
    if kmax is not None:
        assert kmax >= 0
        klast = min(klast, kmax)
    distance = 0.0
    for t in range(tmax):
        last = dict(node_xyz)
        for k in range(klast + 1):
            for key, trail in topology.attributes["_trails"].items():
                if k in seqs[key]:
                    node = seqs[key][k]
                    pos = node_xyz[node]
                    v = residual[node]
                    d = pull(topology, node, node_xyz, t > 0)
                    q = topology.node_attributes(node, ["qx", "qy", "qz"])
                    r = subtract_vectors(subtract_vectors(v, q), d)
                    if topology.node_attribute(node, "type") == "support" or k == kmax:
                        reactions[node] = r
                    else:
                        after = seqs[key][k + 1]
                        edge = (node, after) if topology.has_edge(node, after) else (after, node)
                        length = topology.edge_attribute(edge, "length")
                        plane = topology.edge_attribute(edge, "plane")
                        if plane:
                            cut = distance_to_plane(pos, r, plane)
                            if cut:
                                length = cut
                        u = normalize_vector(r)
                        node_xyz[after] = add_vectors(pos, scale_vector(u, length))
                        forces[edge] = copysign(length_vector(r), length)
                        directions[edge] = u
                        residual[after] = r
        if t > 0:
            distance = displacement(last, node_xyz)
            if distance < eta:
                break
    if t > 0 and distance > eta:
        raise ValueError("not converged")
    return {"node_xyz": node_xyz, "trail_forces": forces, "trail_directions": directions, "reaction_forces": reactions}
