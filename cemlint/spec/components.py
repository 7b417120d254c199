"""Reference: what the Grasshopper components compute (C20). Parameters and results carry the names of the declared inputs and outputs.

Each function is compared with the component of the same name for all inputs supplied, and again with each optional input left out."""
import os

import compas_bootstrapper
import rhinoscriptsyntax as rs
from compas.rpc import Proxy as RPC
from compas.utilities import geometric_key
from compas.utilities import iterable_like
from compas_ghpython import draw_lines
from compas_ghpython import draw_points
from compas_ghpython import draw_polylines
from compas_rhino.geometry import RhinoLine
from compas_rhino.geometry import RhinoPlane
from compas_rhino.geometry import RhinoPoint
from compas_rhino.geometry import RhinoPolyline
from compas_rhino.geometry import RhinoVector
from scriptcontext import sticky

import compas_cem
from compas_cem import COLORS
from compas_cem.diagrams import FormDiagram
from compas_cem.diagrams import TopologyDiagram
from compas_cem.elements import DeviationEdge
from compas_cem.elements import TrailEdge
from compas_cem.equilibrium import static_equilibrium
from compas_cem.ghpython import FormArtist
from compas_cem.ghpython import TopologyArtist
from compas_cem.loads import NodeLoad as Load
from compas_cem.optimization import DeviationEdgeLengthConstraint
from compas_cem.optimization import DeviationEdgeParameter
from compas_cem.optimization import EdgeDirectionConstraint
from compas_cem.optimization import LineConstraint
from compas_cem.optimization import NodeLoadXParameter
from compas_cem.optimization import NodeLoadYParameter
from compas_cem.optimization import NodeLoadZParameter
from compas_cem.optimization import OriginNodeXParameter
from compas_cem.optimization import OriginNodeYParameter
from compas_cem.optimization import OriginNodeZParameter
from compas_cem.optimization import PlaneConstraint
from compas_cem.optimization import PointConstraint
from compas_cem.optimization import PolylineConstraint
from compas_cem.optimization import ReactionForceConstraint
from compas_cem.optimization import TrailEdgeForceConstraint
from compas_cem.optimization import TrailEdgeParameter
from compas_cem.supports import NodeSupport as Support


def ArtistColors():
    color = {}
    for key in COLORS:
        color[key] = rs.CreateColor(COLORS[key])
    return (color["tension"], color["compression"], color["edge"], color["node"], color["node_support"], color["node_origin"], color["load"],
            color["support_force"], color["trail"], color["auxiliary_trail"])


def ArtistForm(form, node_keys=None, edge_keys=None, force_min=1e-3, force_scale=1.0):
    artist = FormArtist(form)
    nodes = artist.draw_nodes(node_keys)
    supports = artist.draw_nodes_support(node_keys)
    edges = artist.draw_edges(edge_keys)
    loads = artist.draw_loads(node_keys, scale=force_scale, min_load=force_min)
    reactions = artist.draw_reactions(node_keys, scale=force_scale, min_force=force_min)
    return nodes, supports, edges, loads, reactions


def ArtistTopology(topology, node_keys=None, edge_keys=None, force_min=1e-3, force_scale=1.0):
    artist = TopologyArtist(topology)
    return (artist.draw_nodes(node_keys), artist.draw_nodes_origin(node_keys), artist.draw_nodes_support(node_keys),
            artist.draw_edges(edge_keys), artist.draw_edges_trail(edge_keys), artist.draw_edges_deviation(edge_keys),
            artist.draw_trails(), artist.draw_loads(node_keys, scale=force_scale, min_load=force_min))


def ConstrainedFormFinding(solve, topology, constraints, parameters, algorithm="SLSQP", iters_max=100, eps=1e-6, kappa=1e-8, tmax=100, eta=1e-6):
    server = sticky.get("proxy_cem")
    own = server is None
    if own:
        server = RPC("compas_cem.optimization")
    solution = server.solve_proxy(topology=topology.copy(), constraints=[c for c in constraints if c is not None], parameters=[p for p in parameters if p is not None],
                                  algorithm=algorithm, iters=iters_max, eps=eps, kappa=kappa, tmax=tmax, eta=eta)
    if own:
        server.stop_server()
    topology, form, objective, grad_norm, iters, time, status = solution
    return topology, form, objective, grad_norm, iters, time, status


def ConstraintDeviationEdgeLength(edge_key, length, weight=1.0):
    return DeviationEdgeLengthConstraint(edge_key, length, weight)


def ConstraintEdgeDirection(edge_key, vector, weight=1.0):
    return EdgeDirectionConstraint(edge_key, RhinoVector.from_geometry(vector).to_compas(), weight)


def ConstraintNodeLine(node_key, line, weight=1.0):
    return LineConstraint(node_key, RhinoLine.from_geometry(line).to_compas(), weight)


def ConstraintNodePlane(node_key, plane, weight=1.0):
    return PlaneConstraint(node_key, RhinoPlane.from_geometry(plane).to_compas(), weight)


def ConstraintNodePoint(node_key, point, weight=1.0):
    return PointConstraint(node_key, RhinoPoint.from_geometry(point).to_compas(), weight)


def ConstraintNodePolyline(node_key, polyline, weight=1.0):
    return PolylineConstraint(node_key, RhinoPolyline.from_geometry(polyline).to_compas(), weight)


def ConstraintReactionForce(node_key, vector, weight=1.0):
    return ReactionForceConstraint(node_key, RhinoVector.from_geometry(vector).to_compas(), weight)


def ConstraintTrailEdgeForce(edge_key, force, weight=1.0):
    return TrailEdgeForceConstraint(edge_key, force, weight)


def DisassembleForm(form):
    return list(form.nodes()), list(form.support_nodes()), list(form.edges())


def DisassembleTopology(topology):
    return (list(topology.nodes()), list(topology.origin_nodes()), list(topology.support_nodes()),
            list(topology.edges()), list(topology.trail_edges()), list(topology.deviation_edges()),
            list(topology.sequences()), list(topology.trails()), list(topology.auxiliary_trails()))


def EdgeDeviation(line, force):
    return DeviationEdge.from_line(RhinoLine.from_geometry(line).to_compas(), force=force)


def EdgeTrail(line, length, plane=None):
    if plane is not None:
        plane = RhinoPlane.from_geometry(plane).to_compas()
    return TrailEdge.from_line(RhinoLine.from_geometry(line).to_compas(), length=length, plane=plane)


def FormFinding(topology, kmax=None, tmax=100, eta=1e-6):
    return static_equilibrium(topology, kmax=kmax, tmax=tmax, eta=eta)


def Info():
    return 'COMPAS CEM Version: {}\nEnvironment: {}'.format(compas_cem.__version__, compas_bootstrapper.ENVIRONMENT_NAME)


def JSONExportDiagram(diagram, filepath):
    diagram.to_json(os.path.abspath(filepath))
    return diagram.data


def JSONImportForm(filepath):
    return FormDiagram.from_json(os.path.abspath(filepath))


def JSONImportTopology(filepath):
    return TopologyDiagram.from_json(os.path.abspath(filepath))


def NodeLoad(point, vector):
    return Load.from_point_and_vector(RhinoPoint.from_geometry(point).to_compas(), RhinoVector.from_geometry(vector).to_compas())


def NodeSupport(point):
    return Support.from_point(RhinoPoint.from_geometry(point).to_compas())


def OriginNodesMove(topology, origin_node_keys, points):
    moved = topology.copy()
    for node, point in zip(origin_node_keys, iterable_like(origin_node_keys, points, points[-1])):
        moved.node_attributes(node, "xyz", RhinoPoint.from_geometry(point).to_compas())
    return moved


def ParameterDeviationEdge(edge_key, bound_low=None, bound_up=None):
    return DeviationEdgeParameter(edge_key, bound_low, bound_up)


def ParameterTrailEdge(edge_key, bound_low=None, bound_up=None):
    return TrailEdgeParameter(edge_key, bound_low, bound_up)


def ParameterNodeLoadX(node_key, bound_low=None, bound_up=None):
    return NodeLoadXParameter(node_key, bound_low, bound_up)


def ParameterNodeLoadY(node_key, bound_low=None, bound_up=None):
    return NodeLoadYParameter(node_key, bound_low, bound_up)


def ParameterNodeLoadZ(node_key, bound_low=None, bound_up=None):
    return NodeLoadZParameter(node_key, bound_low, bound_up)


def ParameterNodeOriginX(node_key, bound_low=None, bound_up=None):
    return OriginNodeXParameter(node_key, bound_low, bound_up)


def ParameterNodeOriginY(node_key, bound_low=None, bound_up=None):
    return OriginNodeYParameter(node_key, bound_low, bound_up)


def ParameterNodeOriginZ(node_key, bound_low=None, bound_up=None):
    return OriginNodeZParameter(node_key, bound_low, bound_up)


def Proxy(start=None, stop=None):
    if start:
        sticky["proxy_cem"] = RPC("compas_cem.optimization", port=compas_cem.PROXY_PORT)
    if stop:
        RPC(port=compas_cem.PROXY_PORT).stop_server()
        if "proxy_cem" in sticky:
            del sticky["proxy_cem"]


def ResultsEdges(form, edge_keys=None):
    if edge_keys is None:
        edge_keys = list(form.edges())
    return [form.edge_length_2(edge) for edge in edge_keys], [form.edge_force(edge) for edge in edge_keys]


def ResultsSupportNodes(form, node=None):
    if node is None:
        node = list(form.support_nodes())
    return [rs.AddPoint(*form.reaction_force(key)) for key in node]


def SearchEdgeKey(diagram, line):
    line = RhinoLine.from_geometry(line).to_compas()
    start = diagram.gkey_node[geometric_key(line.start, diagram.tol)]
    end = diagram.gkey_node[geometric_key(line.end, diagram.tol)]
    return [(start, end)]


def SearchNodeKey(diagram, point):
    return diagram.gkey_node[geometric_key(RhinoPoint.from_geometry(point).to_compas(), diagram.tol)]


def TopologyDiagram_(trail_edges=None, deviation_edges=None, loads=None, supports=None, add_auxiliary_trails=False):
    topology = TopologyDiagram()
    for edge in trail_edges or []:
        if edge:
            topology.add_edge(edge)
    for edge in deviation_edges or []:
        if edge:
            topology.add_edge(edge)
    for load in loads or []:
        if load:
            topology.add_load(load)
    for support in supports or []:
        if support:
            topology.add_support(support)
    if trail_edges and supports or deviation_edges and add_auxiliary_trails:
        topology.build_trails(add_auxiliary_trails)
    return topology


def TrailsShift(topology, origin_node_keys, sequences):
    shifted = topology.copy()
    for node, sequence in zip(origin_node_keys, iterable_like(origin_node_keys, sequences, sequences[-1])):
        shifted.shift_trail(node, sequence)
    return shifted
