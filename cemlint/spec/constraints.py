"""Reference: penalties of constraints (C16) and serialisation of parameters and constraints (C19)."""
import json
from math import sqrt

from compas.geometry import closest_point_on_segment
from compas.geometry import closest_point_in_cloud
from compas.utilities import pairwise

from compas_cem.optimization import PointConstraint
from compas_cem.optimization import LineConstraint
from compas_cem.optimization import PlaneConstraint
from compas_cem.optimization import PolylineConstraint
from compas_cem.optimization import EdgeDirectionConstraint
from compas_cem.optimization import DeviationEdgeLengthConstraint
from compas_cem.optimization import TrailEdgeForceConstraint
from compas_cem.optimization import ReactionForceConstraint
from compas.geometry import dot_vectors
from compas.geometry import normalize_vector
from compas.geometry import length_vector
from compas.geometry import length_vector_sqrd
from compas.geometry import subtract_vectors
from compas.geometry import scale_vector
from compas.geometry import add_vectors


def seen(c, state):
    return c.key(), c.weight, c.penalty(state)


def point(key, target, weight, state):
    return seen(PointConstraint(key, target, weight), state)


def line(key, a, b, weight, state):
    return seen(LineConstraint(key, [a, b], weight), state)


def plane(key, a, b, weight, state):
    return seen(PlaneConstraint(key, [a, b], weight), state)


def polyline(key, target, weight, state):
    return seen(PolylineConstraint(key, target, weight), state)


def direction(key, target, weight, state):
    return seen(EdgeDirectionConstraint(key, target, weight), state)


def edge_length(key, target, weight, state):
    return seen(DeviationEdgeLengthConstraint(key, target, weight), state)


def trail_force(key, target, weight, state):
    return seen(TrailEdgeForceConstraint(key, target, weight), state)


def reaction(key, target, weight, state):
    return seen(ReactionForceConstraint(key, target, weight), state)


def point_named(key, target, weight, state):
    return seen(PointConstraint(node=key, point=target, weight=weight), state)


def line_named(key, a, b, weight, state):
    return seen(LineConstraint(node=key, line=[a, b], weight=weight), state)


def plane_named(key, a, b, weight, state):
    return seen(PlaneConstraint(node=key, plane=[a, b], weight=weight), state)


def polyline_named(key, target, weight, state):
    return seen(PolylineConstraint(node=key, polyline=target, weight=weight), state)


def direction_named(key, target, weight, state):
    return seen(EdgeDirectionConstraint(edge=key, vector=target, weight=weight), state)


def edge_length_named(key, target, weight, state):
    return seen(DeviationEdgeLengthConstraint(edge=key, length=target, weight=weight), state)


def trail_force_named(key, target, weight, state):
    return seen(TrailEdgeForceConstraint(edge=key, force=target, weight=weight), state)


def reaction_named(key, target, weight, state):
    return seen(ReactionForceConstraint(node=key, vector=target, weight=weight), state)


def again(make, key, target, weight, before, state):
    c = make(key, target, weight)
    first = c.penalty(before)
    return c.key(), c.weight, c.penalty(state), first


def again_ref(make, key, target, weight, before, state):
    c, d = make(key, target, weight), make(key, target, weight)
    return key, weight, c.penalty(state), d.penalty(before)


def unweighted(make, key, target, state):
    c = make(key, target)
    return c.key(), c.weight, c.penalty(state)


def unweighted_ref(make, key, target, state):
    c = make(key, target, 1.0)
    return c.key(), c.weight, c.penalty(state)


def surface(make, key, target, weight, state):
    c = make(key, target, weight)
    return c.key(), c.weight, c.reference(state)


def surface_named(make, key, target, weight, state):
    c = make(node=key, trimesh=target, weight=weight)
    return c.key(), c.weight, c.reference(state)


def surface_ref(make, key, target, weight, state):
    return key, weight, state["node_xyz"][key]


# ---------------------------------------------------------------- references
def between(a, b):
    return length_vector_sqrd(subtract_vectors(a, b))


def point_ref(key, target, weight, state):
    return key, weight, weight * between(state["node_xyz"][key], target)


def line_ref(key, a, b, weight, state):
    p = state["node_xyz"][key]
    d = subtract_vectors(b, a)
    t = dot_vectors(subtract_vectors(p, a), d) / dot_vectors(d, d)
    return key, weight, weight * between(p, add_vectors(a, scale_vector(d, t)))


def plane_ref(key, a, b, weight, state):
    p = state["node_xyz"][key]
    n = normalize_vector(b)
    q = subtract_vectors(p, scale_vector(n, dot_vectors(subtract_vectors(p, a), n)))
    return key, weight, weight * between(p, q)


def polyline_ref(key, target, weight, state):
    p = state["node_xyz"][key]
    cloud = [closest_point_on_segment(p, s) for s in pairwise(target)]
    return key, weight, weight * between(p, cloud[closest_point_in_cloud(p, cloud)[2]])


def direction_ref(key, target, weight, state):
    d = subtract_vectors(state["node_xyz"][key[1]], state["node_xyz"][key[0]])
    d = scale_vector(d, 1.0 / sqrt(length_vector_sqrd(d)))
    t = normalize_vector(target)
    if dot_vectors(t, d) < 0.0:
        t = scale_vector(t, -1.0)
    return key, weight, weight * between(d, t)


def edge_length_ref(key, target, weight, state):
    d = length_vector(subtract_vectors(state["node_xyz"][key[0]], state["node_xyz"][key[1]]))
    return key, weight, weight * (d - target) * (d - target)


def trail_force_ref(key, target, weight, state):
    d = state["trail_forces"][key] - target
    return key, weight, weight * d * d


def reaction_ref(key, target, weight, state):
    return key, weight, weight * between(state["reaction_forces"][key], target)


def total(self, eq_state):
    value = 0.0
    for c in self.constraints.values():
        value = value + c.penalty(eq_state)
    return value


# ---------------------------------------------------------------- C19
def parameter(c, topology):
    return c.key(), c.attr_name(), c.start_value(topology), c.bound_low(topology), c.bound_up(topology)


def parameter_back(make, key, low, up, topology):
    """what a fresh instance holds after importing, through JSON, what another exports"""
    a = make(key, low, up)
    b = make()
    b.data = json.loads(json.dumps(a.data))
    return parameter(b, topology)


def parameter_kept(make, key, low, up, topology):
    return parameter(make(key, low, up), topology)


def constraint_back(make, key, target, weight):
    a = make(key, target, weight)
    b = make()
    b.data = json.loads(json.dumps(a.data))
    return b.key(), b.weight, b._target


def constraint_kept(make, key, target, weight):
    return key, weight, target
