"""Reference: what the form diagram reports (C05)."""
from math import copysign

from compas.geometry import length_vector, subtract_vectors

from compas_cem.diagrams import FormDiagram


def update(form, node_xyz, trail_forces, reaction_forces, **kwargs):
    for node in node_xyz:
        form.node_attributes(node, ["x", "y", "z"], node_xyz[node])
    for edge in trail_forces:
        form.edge_attribute(edge, "force", trail_forces[edge])
    for node in reaction_forces:
        form.node_attributes(node, ["rx", "ry", "rz"], reaction_forces[node])
    for edge in form.edges():
        d = length_vector(subtract_vectors(node_xyz[edge[0]], node_xyz[edge[1]]))
        form.edge_attribute(edge, "length", copysign(d, form.edge_attribute(edge, "force")))


def solve(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, callback=None):
    raise NotImplementedError       # replaced by the stub of the form-finding routine


def static(topology, kmax, tmax, eta, verbose, callback):
    attrs = solve(topology, kmax, tmax, eta, verbose, callback)
    form = topology.copy(cls=FormDiagram)
    bare(form)
    update(form, attrs["node_xyz"], attrs["trail_forces"], attrs["reaction_forces"])
    return form


def static_numpy(topology, tmax, eta, verbose, callback):
    attrs = solve(topology, None, tmax, eta, verbose, callback)
    form = topology.copy(cls=FormDiagram)
    bare(form)
    update(form, attrs["node_xyz"], attrs["trail_forces"], attrs["reaction_forces"])
    return form


def bare(form):
    del form.attributes["_trails"]
    del form.attributes["_auxiliary_trails"]
    del form.attributes["_aux_length"]
    del form.attributes["_aux_vector"]


def from_topology(cls, topology):
    form = topology.copy(cls=cls)
    bare(form)
    return form
