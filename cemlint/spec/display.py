"""What the front ends are expected to show (C22).

Functions whose name ends in _is give the expected drawing for the harness of the same name, which
drives the front end itself through its public methods."""
from math import copysign
from math import fabs
from math import pi

from compas.colors import Color
from compas.colors import ColorMap
from compas.geometry import Circle
from compas.geometry import Line
from compas.geometry import Rotation
from compas.geometry import Cylinder
from compas.geometry import Plane
from compas.geometry import add_vectors
from compas.geometry import length_vector
from compas.geometry import normalize_vector
from compas.geometry import scale_vector
from compas.utilities import geometric_key
from compas_ghpython import draw_lines
from compas_ghpython import draw_points
from compas_ghpython import draw_polylines
from compas_plotters.artists import NetworkArtist
from compas_ghpython.artists import NetworkArtist as GhNetworkArtist
from compas_view2.objects import NetworkObject
from compas_view2.collections import Collection
from compas_view2.shapes import Arrow
from compas_view2.shapes import Text

from compas_cem import COLORS
from compas_cem.ghpython.artists import FormArtist as GhForm
from compas_cem.ghpython.artists import TopologyArtist as GhTopology
from compas_cem.plotters.formartist import FormArtist
from compas_cem.plotters.topologyartist import TopologyArtist
from compas_cem.viewers.formobject import FormDiagramObject
from compas_cem.viewers.topologyobject import TopologyDiagramObject


class Plain(NetworkArtist):
    def __init__(self, network, **kwargs):
        super(Plain, self).__init__(network, **kwargs)


# ------------------------------------------------------------------ what is drawn
def reversed_at(diagram, node):
    """does the largest force at the node push?"""
    largest = max([diagram.edge_force(e) for e in diagram.connected_edges(node)], key=lambda f: fabs(f))
    return largest < 0.0


def arrow(diagram, node, names, scale, gap, push):
    """start and vector of the arrow of a force: off the node by the gap; ahead of it, when it pushes"""
    f = diagram.node_attributes(node, names)
    v = scale_vector(f, scale)
    if push:
        gap = -(gap + length_vector(v))
    return add_vectors(diagram.node_coordinates(node), scale_vector(normalize_vector(f), gap)), v


def small(diagram, node, names, tol):
    return length_vector(diagram.node_attributes(node, names)) < tol


# ------------------------------------------------------------------ plotter, form
def plot_form_nodes(form, nodesize):
    FormArtist(form, nodesize=nodesize).draw_nodes()


def plot_form_nodes_is(form, nodesize):
    a = Plain(form, nodesize=nodesize, edgewidth=1.0)
    a.draw_nodes(color={n: COLORS["node_support"] if form.is_node_support(n) else COLORS["node"] for n in form.nodes()})


def plot_form_edges(form):
    FormArtist(form).draw_edges()


def plot_form_edges_is(form):
    a = Plain(form, nodesize=0.1, edgewidth=1.0)
    colors = {}
    for e in form.edges():
        f = form.edge_force(e)
        colors[e] = COLORS["tension"] if f > 0.0 else COLORS["compression"] if f < 0.0 else COLORS["edge"]
    a.draw_edges(color=colors)


def plot_form_loads(form, scale, tol):
    FormArtist(form, loadscale=scale, loadtol=tol).draw_loads()


def plot_form_loads_is(form, scale, tol):
    a = Plain(form, nodesize=0.1, edgewidth=1.0)
    for n in form.nodes():
        if not small(form, n, ["qx", "qy", "qz"], tol):
            start, v = arrow(form, n, ["qx", "qy", "qz"], scale, a.node_size[n], False)
            a.plotter.add(v, point=start, color=COLORS["load"])


def plot_form_reactions(form, scale, tol):
    FormArtist(form, reactionscale=scale, reactiontol=tol).draw_reactions()


def plot_form_reactions_is(form, scale, tol):
    a = Plain(form, nodesize=0.1, edgewidth=1.0)
    push = {n: reversed_at(form, n) for n in form.nodes()}
    for n in form.nodes():
        if not small(form, n, ["rx", "ry", "rz"], tol):
            start, v = arrow(form, n, ["rx", "ry", "rz"], scale, a.node_size[n], push[n])
            a.plotter.add(v, point=start, color=COLORS["support_force"])


def plot_form_widths(form, low, high):
    return FormArtist(form, edgewidth=(low, high)).edge_width


def plot_form_widths_is(form, low, high):
    return widths(form, low, high)


def widths(form, low, high):
    """between low and high, in proportion to the magnitude of the force"""
    forces = [fabs(form.edge_force(e)) for e in form.edges()]
    least, most = min(forces), max(forces)
    out = {}
    for e in form.edges():
        if most == least:
            ratio = 1.0
        else:
            ratio = (fabs(form.edge_force(e)) - least) / (most - least)
        out[e] = low + ratio * (high - low)
    return out


def plot_form_widths_set(form, width):
    a = FormArtist(form, edgewidth=(1.0, 2.0))
    a.edge_width = width
    return a.edge_width


def plot_form_widths_set_is(form, width):
    return width


def plot_form_widths_replaced(form, width, low, high):
    a = FormArtist(form, edgewidth=width)
    a.edge_width = (low, high)
    return a.edge_width


def plot_form_widths_replaced_is(form, width, low, high):
    return widths(form, low, high)


def plot_form_draw(form, nodes, edges, loads, reactions, nodetext, edgetext):
    Drawn(form, show_nodes=nodes, show_edges=edges, show_loads=loads, show_reactions=reactions, show_nodetext=nodetext, show_edgetext=edgetext).draw()


def plot_form_draw_is(form, nodes, edges, loads, reactions, nodetext, edgetext):
    a = Plain(form, nodesize=0.1, edgewidth=1.0, show_nodes=nodes, show_edges=edges)
    a.clear()
    if nodes:
        a.draw_nodelabels("nodes")
    if edges:
        a.draw_nodelabels("edges")
    if loads:
        a.draw_nodelabels("loads")
    if reactions:
        a.draw_nodelabels("reactions")
    if nodetext:
        a.draw_nodelabels()
    if edgetext:
        a.draw_edgelabels()


class Drawn(FormArtist):
    """the form artist, its parts replaced by marks"""

    def draw_nodes(self):
        self.draw_nodelabels("nodes")

    def draw_edges(self):
        self.draw_nodelabels("edges")

    def draw_loads(self):
        self.draw_nodelabels("loads")

    def draw_reactions(self):
        self.draw_nodelabels("reactions")


class DrawnTopology(TopologyArtist):
    def draw_nodes(self):
        self.draw_nodelabels("nodes")

    def draw_edges(self):
        self.draw_nodelabels("edges")

    def draw_loads(self):
        self.draw_nodelabels("loads")


def plot_form_nodetext(form, tag):
    return FormArtist(form, nodetext=tag).node_text


def plot_form_nodetext_is(form, tag):
    return node_labels(form, list(form.nodes()), tag, "2f", ["xyz", "keyxyz"])


def plot_form_edgetext(form, tag):
    return FormArtist(form, edgetext=tag).edge_text


def plot_form_edgetext_is(form, tag):
    if tag == "force":
        return {e: "{0:.{1}}".format(form.edge_force(e), "2f") for e in form.edges()}
    if tag == "length":
        return {e: "{0:.{1}}".format(form.edge_length(*e), "2f") for e in form.edges()}
    if tag == "forcelength":
        return {e: "f: {}\nl: {}".format("{0:.{1}}".format(form.edge_force(e), "2f"), "{0:.{1}}".format(form.edge_length(*e), "2f")) for e in form.edges()}
    return None


def node_labels(diagram, nodes, tag, precision, tags):
    if tag not in tags:
        return None
    if tag == "xyz":
        return {n: geometric_key(diagram.node_coordinates(n), precision) for n in nodes}
    if tag == "keyxyz":
        return {n: "{}\n{}".format(n, geometric_key(diagram.node_coordinates(n), precision)) for n in nodes}
    if tag == "type":
        return {n: "{}".format(diagram.node_attribute(n, "type")) for n in nodes}
    if tag == "sequence":
        return {n: "{}".format(diagram.node_sequence(n)) for n in nodes}
    if tag == "keysequence":
        return {n: "{}\n{}".format(n, "{}".format(diagram.node_sequence(n))) for n in nodes}


def edge_labels(diagram, edges, tag, precision):
    def force(e):
        return "{0:.{1}}".format(fabs(diagram.edge_force(e)), precision)

    def length(e):
        return "{0:.{1}}".format(fabs(diagram.edge_length_2(e)), precision)

    def state(e):
        return "{0:.{1}}".format(copysign(1.0, diagram.edge_length_2(e) if diagram.is_trail_edge(e) else diagram.edge_force(e)), precision)

    if tag == "force":
        return {e: force(e) for e in edges}
    if tag == "length":
        return {e: length(e) for e in edges}
    if tag == "state":
        return {e: state(e) for e in edges}
    if tag == "forcelength":
        return {e: "f: {}\nl: {}".format(force(e), length(e)) for e in edges}
    if tag == "forcelengthstate":
        return {e: "f: {}\nl: {}\ns: {}".format(force(e), length(e), state(e)) for e in edges}
    if tag == "type":
        return {e: "{}".format(diagram.edge_attribute(e, "type")) for e in edges}
    return None


# ------------------------------------------------------------------ plotter, topology
def plot_topology_nodes(topology, nodesize, option):
    TopologyArtist(topology, nodesize=nodesize, nodecolor=option).draw_nodes()


def plot_topology_nodes_is(topology, nodesize, option):
    a = Plain(topology, nodesize=nodesize, edgewidth=1.0)
    if option == "sequence":
        ramp = ColorMap.from_color(Color.from_rgb255(*COLORS["trail"]), "light")
        last = topology.sequence_last()
        a.draw_nodes(color={n: ramp(float(topology.node_attribute(n, "_k")), maxval=last) for n in topology.nodes()})
    else:
        cmap = {"support": COLORS["node_support"], "_origin": COLORS["node_origin"], "default": COLORS["node"]}
        a.draw_nodes(color={n: cmap[topology.node_attribute(n, "type") or "default"] for n in topology.nodes()})


def plot_topology_edges(topology, option):
    TopologyArtist(topology, edgecolor=option).draw_edges()


def plot_topology_edges_is(topology, option):
    a = Plain(topology, nodesize=0.1, edgewidth=1.0)
    a.draw_edges(color=topology_colors(topology, option))
    a._edgecollection.set_linestyle([{"trail": "-", "deviation": "--"}[topology.edge_attribute(e, "type")] for e in topology.edges()])


def topology_colors(topology, option):
    colors = {}
    for e in topology.edges():
        if topology.is_auxiliary_trail_edge(e):
            colors[e] = COLORS["auxiliary_trail"]
        elif option == "type":
            colors[e] = COLORS[type_name(topology, e)]
        else:
            sign = copysign(1.0, topology.edge_attribute(e, "length") if topology.is_trail_edge(e) else topology.edge_attribute(e, "force"))
            colors[e] = COLORS["tension"] if sign == 1.0 else COLORS["compression"]
    return colors


def type_name(topology, e):
    if topology.is_trail_edge(e):
        return "edge_trail"
    if topology.has_trails() and topology.is_indirect_deviation_edge(e):
        return "edge_deviation_indirect"
    return "edge_deviation"


def plot_topology_draw(topology, nodes, edges, loads, nodetext, edgetext):
    DrawnTopology(topology, show_nodes=nodes, show_edges=edges, show_loads=loads, show_nodetext=nodetext, show_edgetext=edgetext).draw()


def plot_topology_draw_is(topology, nodes, edges, loads, nodetext, edgetext):
    a = Plain(topology, nodesize=0.1, edgewidth=1.0, show_nodes=nodes, show_edges=edges)
    a.clear()
    if nodes:
        a.draw_nodelabels("nodes")
    if edges:
        a.draw_nodelabels("edges")
    if loads:
        a.draw_nodelabels("loads")
    if nodetext:
        a.draw_nodelabels()
    if edgetext:
        a.draw_edgelabels()


def plot_topology_nodetext(topology, tag):
    return TopologyArtist(topology, nodetext=tag).node_text


def plot_topology_nodetext_is(topology, tag):
    return node_labels(topology, list(topology.nodes()), tag, "2f", ["xyz", "keyxyz", "type", "sequence", "keysequence"])


def plot_topology_edgetext(topology, tag):
    return TopologyArtist(topology, edgetext=tag).edge_text


def plot_topology_edgetext_is(topology, tag):
    return edge_labels(topology, list(topology.edges()), tag, "2f")


def plot_topology_loads(topology):
    TopologyArtist(topology).draw_loads()


def plot_topology_loads_is(topology):
    a = Plain(topology, nodesize=0.1, edgewidth=1.0)
    for n in topology.nodes():
        if topology.is_node_loaded(n):
            xyz = topology.node_coordinates(n)
            size = a.node_size[n]
            for turn in (-1, 1):
                line = Line(add_vectors(xyz, [-size, 0.0, 0.0]), add_vectors(xyz, [size, 0.0, 0.0]))
                line.transform(Rotation.from_axis_and_angle(axis=[0.0, 0.0, 1.0], angle=turn * pi / 4.0, point=xyz))
                a.plotter.add(line, draw_as_segment=True, zorder=4000, linewidth=0.3)


def plot_topology_loads_some(topology, nodes):
    TopologyArtist(topology, nodes=nodes).draw_loads()


def plot_topology_loads_some_is(topology, nodes):
    a = Plain(topology, nodes=nodes, nodesize=0.1, edgewidth=1.0)
    for n in topology.nodes():
        if topology.is_node_loaded(n) and n in nodes:
            xyz = topology.node_coordinates(n)
            size = a.node_size[n]
            for turn in (-1, 1):
                line = Line(add_vectors(xyz, [-size, 0.0, 0.0]), add_vectors(xyz, [size, 0.0, 0.0]))
                line.transform(Rotation.from_axis_and_angle(axis=[0.0, 0.0, 1.0], angle=turn * pi / 4.0, point=xyz))
                a.plotter.add(line, draw_as_segment=True, zorder=4000, linewidth=0.3)


def colors_differ():
    c = COLORS
    return (c["tension"] == c["compression"], c["tension"] == c["edge"], c["compression"] == c["edge"], c["node_support"] == c["node_origin"], c["node_support"] == c["node"],
            c["node_origin"] == c["node"], c["edge_trail"] == c["edge_deviation"], c["edge_deviation"] == c["edge_deviation_indirect"], c["edge_trail"] == c["auxiliary_trail"], c["load"] == c["support_force"])


def colors_differ_is():
    return False, False, False, False, False, False, False, False, False, False


# ------------------------------------------------------------------ viewer
def rgb(name):
    return Color.from_rgb255(*COLORS[name]).rgb


def view_form_colors(form, viewer):
    o = quiet(form, viewer)
    return o.edge_color, o.linecolors


def view_form_colors_is(form, viewer):
    c = {e: rgb("compression") if form.edge_force(e) < 0.0 else rgb("tension") for e in form.edges()}
    return c, c


def view_form_groups(form, viewer):
    g = quiet(form, viewer).edges_by_type
    return g["tension"], g["compression"]


def view_form_groups_is(form, viewer):
    return [e for e in form.edges() if not form.edge_force(e) < 0.0], [e for e in form.edges() if form.edge_force(e) < 0.0]


def view_form_nodes(form, viewer):
    o = quiet(form, viewer)
    return o.node_color, o.pointcolors, o.draw_nodes()


def view_form_nodes_is(form, viewer):
    c = {n: rgb("node_support") if form.is_node_support(n) else rgb("node_black") for n in form.nodes()}
    return c, c, ([form.node_coordinates(n) for n in form.nodes()], [c[n] for n in form.nodes()], [[i] for i in range(form.number_of_nodes())])


def view_topology_colors(topology, viewer):
    o = TopologyDiagramObject(topology, viewer=viewer, show_edges=False, show_loads=False)
    return o.edge_color, o.linecolors


def view_topology_colors_is(topology, viewer):
    c = {e: rgb("auxiliary_trail") if topology.is_auxiliary_trail_edge(e) else rgb(type_name(topology, e)) for e in topology.edges()}
    return c, c


def view_topology_groups(topology, viewer):
    g = TopologyDiagramObject(topology, viewer=viewer, show_edges=False, show_loads=False).edges_by_type
    return g["trail"], g["deviation"], g["deviation_indirect"], g["auxiliary"]


def view_topology_groups_is(topology, viewer):
    edges = list(topology.edges())
    aux = [e for e in edges if topology.is_auxiliary_trail_edge(e)]
    rest = [e for e in edges if not topology.is_auxiliary_trail_edge(e)]
    return ([e for e in rest if type_name(topology, e) == "edge_trail"], [e for e in rest if type_name(topology, e) == "edge_deviation"],
            [e for e in rest if type_name(topology, e) == "edge_deviation_indirect"], aux)


def view_topology_nodes(topology, viewer):
    o = TopologyDiagramObject(topology, viewer=viewer, show_edges=False, show_loads=False)
    return o.node_color, o.pointcolors


def view_topology_nodes_is(topology, viewer):
    c = {n: rgb("node_support") if topology.is_node_support(n) else rgb("node_origin") if topology.is_node_origin(n) else rgb("node_black") for n in topology.nodes()}
    return c, c


def view_form_loads(form, viewer, scale, tol):
    FormDiagramObject(form, viewer=viewer, loadscale=scale, loadtol=tol, show_edges=False, show_residuals=False)


def view_form_loads_is(form, viewer, scale, tol):
    view_forces(form, viewer, ["qx", "qy", "qz"], scale, tol, {}, "load")


def view_forces(form, viewer, names, scale, tol, push, color, nodes=None):
    arrows = []
    for n in (form.nodes() if nodes is None else nodes):
        if not small(form, n, names, tol):
            start, v = arrow(form, n, names, scale, 0.0, push.get(n))
            arrows.append(Arrow(start, v, head_portion=0.2, head_width=0.07, body_width=0.02))
    viewer.add(Collection(arrows), facecolor=rgb(color), show_edges=False, opacity=0.75)


def view_form_residuals(form, viewer, scale, tol):
    FormDiagramObject(form, viewer=viewer, residualscale=scale, residualtol=tol, show_edges=False, show_loads=False)


def view_form_residuals_is(form, viewer, scale, tol):
    view_forces(form, viewer, ["rx", "ry", "rz"], scale, tol, {n: reversed_at(form, n) for n in form.nodes()}, "support_force")


def view_topology_loads(topology, viewer, scale, tol):
    TopologyDiagramObject(topology, viewer=viewer, loadscale=scale, loadtol=tol, show_edges=False)


def view_topology_loads_is(topology, viewer, scale, tol):
    view_forces(topology, viewer, ["qx", "qy", "qz"], scale, tol, {}, "load")


class Grouped(FormDiagramObject):
    """a viewer object whose groups of edges and their colours are given"""

    def __init__(self, form, viewer, groups, colors):
        self.groups = groups
        self.colors = colors
        super(Grouped, self).__init__(form, viewer=viewer, show_loads=False, show_residuals=False)

    @property
    def edges_by_type(self):
        return self.groups

    @property
    def edge_color(self):
        return self.colors


def view_form_edges(form, viewer, groups, colors):
    Grouped(form, viewer, groups, colors)


def view_form_edges_is(form, viewer, groups, colors):
    solids = {}
    for u, v in form.edges():
        circle = Circle(Plane(form.edge_midpoint(u, v), form.edge_vector(u, v)), 0.015 / 2.0)
        solids[u, v] = Cylinder(circle, height=form.edge_length(u, v))
    for name, edges in groups.items():
        if edges:
            c = colors[edges[0]]
            viewer.add(Collection([solids[e] for e in edges]), facecolor=c, linecolor=c, show_edges=True, opacity=0.75)


def view_form_quiet(form, viewer):
    FormDiagramObject(form, viewer=viewer, show_edges=False, show_loads=False, show_residuals=False)


def view_form_quiet_is(form, viewer):
    pass


def view_topology_quiet(topology, viewer):
    TopologyDiagramObject(topology, viewer=viewer, show_edges=False, show_loads=False)


def view_topology_quiet_is(topology, viewer):
    pass


def view_form_nodetext(form, viewer, labels, size, color):
    FormDiagramObject(form, viewer=viewer, show_edges=False, show_loads=False, show_residuals=False, show_nodetext=True, nodetext=labels, text_size=size, text_color=color)


def view_form_nodetext_is(form, viewer, labels, size, color):
    for n in form.nodes():
        viewer.add(Text(labels.get(n), form.node_coordinates(n), height=size), color=color)


def view_form_edgetext(form, viewer, size, color):
    FormDiagramObject(form, viewer=viewer, show_edges=False, show_loads=False, show_residuals=False, show_edgetext=True, edgetext="key", text_size=size, text_color=color)


def view_form_edgetext_is(form, viewer, size, color):
    for e in form.edges():
        viewer.add(Text("{}-{}".format(*e), form.edge_midpoint(*e), height=size), color=color)


def view_topology_nodelabels(topology, viewer, tag):
    return TopologyDiagramObject(topology, viewer=viewer, show_edges=False, show_loads=False, nodetext=tag).node_text


def view_topology_nodelabels_is(topology, viewer, tag):
    nodes = list(topology.nodes())
    if tag in ["xyz", "keyxyz", "type"]:
        return node_labels(topology, nodes, tag, "2f", ["xyz", "keyxyz", "type"])
    return {n: str(n) for n in nodes}


def view_topology_edgelabels(topology, viewer, tag):
    return TopologyDiagramObject(topology, viewer=viewer, show_edges=False, show_loads=False, edgetext=tag).edge_text


def view_topology_edgelabels_is(topology, viewer, tag):
    edges = list(topology.edges())
    if tag in ["force", "length", "state", "forcelength", "forcelengthstate", "type"]:
        return edge_labels(topology, edges, tag, "2f")
    return {e: "{}-{}".format(*e) for e in edges}


def quiet(form, viewer, **options):
    return FormDiagramObject(form, viewer=viewer, show_edges=False, show_loads=False, show_residuals=False, **options)


def view_set_numbers(form, viewer, a, b, c, d, e):
    o = quiet(form, viewer)
    o.node_size = a
    o.load_scale = b
    o.load_tol = c
    o.residual_scale = d
    o.residual_tol = e
    return o.node_size, o.pointsize, o.load_scale, o.load_tol, o.residual_scale, o.residual_tol


def view_set_numbers_is(form, viewer, a, b, c, d, e):
    return a, a, b, c, d, e


def view_given_numbers(form, viewer, a, b, c, d, e):
    o = quiet(form, viewer, nodesize=a, loadscale=b, loadtol=c, residualscale=d, residualtol=e)
    return o.node_size, o.pointsize, o.load_scale, o.load_tol, o.residual_scale, o.residual_tol


def view_given_numbers_is(form, viewer, a, b, c, d, e):
    return a, a, b, c, d, e


def view_defaults(form, viewer):
    o = quiet(form, viewer)
    return o.node_size, o.load_scale, o.load_tol, o.residual_scale, o.residual_tol, o.show_nodes, o.nodes, o.edges, o.diagram, o.text_size, o.edge_width


def view_defaults_is(form, viewer):
    edges = list(form.edges())
    return 10.0, 1.0, 1e-3, 1.0, 1e-3, False, list(form.nodes()), edges, form, 30, {e: 0.015 for e in edges}


def view_set_flags(form, viewer, a, b):
    o = quiet(form, viewer)
    o.show_nodes = a
    o.show_edges = b
    return o.show_nodes, o.show_edges, o.show_points, o.show_lines


def view_set_flags_is(form, viewer, a, b):
    return a, b, a, b


def view_set_selection(form, viewer, nodes, edges):
    o = quiet(form, viewer)
    o.nodes = nodes
    o.edges = edges
    return o.nodes, o.edges


def view_set_selection_is(form, viewer, nodes, edges):
    return nodes, edges


def view_set_maps(form, viewer, labels, elabels, widths):
    o = quiet(form, viewer)
    o.node_text = labels
    o.edge_text = elabels
    o.edge_width = widths
    return o.node_text, o.edge_text, o.edge_width


def view_set_maps_is(form, viewer, labels, elabels, widths):
    return labels, elabels, widths


def view_set_width(form, viewer, a):
    o = quiet(form, viewer)
    o.edge_width = a
    return o.edge_width


def view_set_width_is(form, viewer, a):
    return {e: a for e in form.edges()}


def view_set_widths(form, viewer, low, high):
    o = quiet(form, viewer)
    o.edge_width = (low, high)
    return o.edge_width


def view_set_widths_is(form, viewer, low, high):
    return widths(form, low, high)


def view_given_selection(form, viewer, nodes, edges):
    o = quiet(form, viewer, nodes=nodes, edges=edges)
    return o.nodes, o.edges, o.node_color, o.edge_color


def view_given_selection_is(form, viewer, nodes, edges):
    return nodes, edges, {n: rgb("node_support") if form.is_node_support(n) else rgb("node_black") for n in nodes}, {e: rgb("tension") if form.edge_force(e) >= 0.0 else rgb("compression") for e in edges}


def view_given_flags(form, viewer, a):
    o = quiet(form, viewer, show_nodes=a)
    return o.show_nodes, o.show_points, o.show_edges, o.show_lines


def view_given_flags_is(form, viewer, a):
    return a, a, False, False


def view_given_maps(form, viewer, labels, elabels, widths):
    o = quiet(form, viewer, nodetext=labels, edgetext=elabels, edgewidth=widths)
    return o.node_text, o.edge_text, o.edge_width


def view_given_maps_is(form, viewer, labels, elabels, widths):
    return labels, elabels, widths


def view_given_width(form, viewer, edges, a):
    return quiet(form, viewer, edges=edges, edgewidth=a).edge_width


def view_given_width_is(form, viewer, edges, a):
    return {e: a for e in edges}


def view_given_widths(form, viewer, low, high):
    return quiet(form, viewer, edgewidth=(low, high)).edge_width


def view_given_widths_is(form, viewer, low, high):
    return widths(form, low, high)


def view_key_labels(form, viewer, labels, elabels):
    o = quiet(form, viewer)
    p = quiet(form, viewer, nodetext=labels, edgetext=elabels)
    p.node_text = "key"
    p.edge_text = "key"
    return o.node_text, o.edge_text, p.node_text, p.edge_text


def view_key_labels_is(form, viewer, labels, elabels):
    nodes, edges = {n: str(n) for n in form.nodes()}, {e: "{}-{}".format(*e) for e in form.edges()}
    return nodes, edges, nodes, edges


def view_positions(form, viewer, places):
    o = quiet(form, viewer)
    before = o.node_xyz
    o.node_xyz = places
    return before, o.node_xyz


def view_positions_is(form, viewer, places):
    return {n: form.node_coordinates(n) for n in form.nodes()}, places


def view_drawn_nodes(form, viewer, nodes):
    return quiet(form, viewer, nodes=nodes).draw_nodes()


def view_drawn_nodes_is(form, viewer, nodes):
    return [form.node_coordinates(n) for n in nodes], [rgb("node_support") if form.is_node_support(n) else rgb("node_black") for n in nodes], [[i] for i in range(len(nodes))]


def view_set_nothing(form, viewer, a, b, c, d, e, labels, elabels, widths):
    o = quiet(form, viewer, nodesize=a, loadscale=b, loadtol=c, residualscale=d, residualtol=e, nodetext=labels, edgetext=elabels, edgewidth=widths, show_nodes=True)
    o.node_size = o.load_scale = o.load_tol = o.residual_scale = o.residual_tol = None
    o.node_text = o.edge_text = o.edge_width = o.show_nodes = o.show_edges = None
    return o.node_size, o.load_scale, o.load_tol, o.residual_scale, o.residual_tol, o.node_text, o.edge_text, o.edge_width, o.show_nodes, o.show_edges


def view_set_nothing_is(form, viewer, a, b, c, d, e, labels, elabels, widths):
    return a, b, c, d, e, labels, elabels, widths, True, False


def view_lines(form, viewer, edges):
    return quiet(form, viewer, edges=edges).draw_edges2()


def view_lines_is(form, viewer, edges):
    ends, colors, pairs = [], [], []
    for i, (u, v) in enumerate(edges):
        pairs.append([2 * i, 2 * i + 1])
        ends += [form.node_coordinates(u), form.node_coordinates(v)]
        c = rgb("tension") if form.edge_force((u, v)) >= 0.0 else rgb("compression")
        colors += [c, c]
    return ends, colors, pairs


def view_selected_groups(form, viewer, edges):
    g = quiet(form, viewer, edges=edges).edges_by_type
    return g["tension"], g["compression"]


def view_selected_groups_is(form, viewer, edges):
    return [e for e in edges if not form.edge_force(e) < 0.0], [e for e in edges if form.edge_force(e) < 0.0]


def view_topology_selected(topology, viewer, edges):
    g = TopologyDiagramObject(topology, viewer=viewer, edges=edges, show_edges=False, show_loads=False).edges_by_type
    return g["trail"], g["deviation"], g["deviation_indirect"], g["auxiliary"]


def view_topology_selected_is(topology, viewer, edges):
    aux = [e for e in edges if topology.is_auxiliary_trail_edge(e)]
    rest = [e for e in edges if not topology.is_auxiliary_trail_edge(e)]
    return ([e for e in rest if type_name(topology, e) == "edge_trail"], [e for e in rest if type_name(topology, e) == "edge_deviation"],
            [e for e in rest if type_name(topology, e) == "edge_deviation_indirect"], aux)


def view_selected_loads(form, viewer, nodes, scale, tol):
    FormDiagramObject(form, viewer=viewer, nodes=nodes, loadscale=scale, loadtol=tol, show_edges=False, show_residuals=False)


def view_selected_loads_is(form, viewer, nodes, scale, tol):
    view_forces(form, viewer, ["qx", "qy", "qz"], scale, tol, {}, "load", nodes)


def view_selected_residuals(form, viewer, nodes, scale, tol):
    FormDiagramObject(form, viewer=viewer, nodes=nodes, residualscale=scale, residualtol=tol, show_edges=False, show_loads=False)


def view_selected_residuals_is(form, viewer, nodes, scale, tol):
    view_forces(form, viewer, ["rx", "ry", "rz"], scale, tol, {n: reversed_at(form, n) for n in nodes}, "support_force", nodes)


def view_selected_text(form, viewer, nodes, labels, size, color):
    FormDiagramObject(form, viewer=viewer, nodes=nodes, show_edges=False, show_loads=False, show_residuals=False, show_nodetext=True, nodetext=labels, text_size=size, text_color=color)


def view_selected_text_is(form, viewer, nodes, labels, size, color):
    for n in nodes:
        viewer.add(Text(labels.get(n), form.node_coordinates(n), height=size), color=color)


# ------------------------------------------------------------------ grasshopper
def gh_nodes(topology, nodes):
    return GhTopology(topology).draw_nodes(nodes)


def gh_nodes_is(topology, nodes):
    return draw_points([{"pos": topology.node_coordinates(n)} for n in nodes or topology.nodes()])


def gh_edges(topology, edges):
    return GhTopology(topology).draw_edges(edges)


def gh_edges_is(topology, edges):
    return gh_lines(topology, edges or list(topology.edges()))


def gh_lines(topology, edges):
    return draw_lines([{"start": topology.node_coordinates(e[0]), "end": topology.node_coordinates(e[1])} for e in edges])


def gh_supports(topology, nodes):
    return GhTopology(topology).draw_nodes_support(nodes)


def gh_supports_is(topology, nodes):
    nodes = [n for n in (topology.nodes() if nodes is None else nodes) if topology.is_node_support(n)]
    if nodes:
        return draw_points([{"pos": topology.node_coordinates(n)} for n in nodes])


def gh_origins(topology, nodes):
    return GhTopology(topology).draw_nodes_origin(nodes)


def gh_origins_is(topology, nodes):
    nodes = [n for n in (topology.nodes() if nodes is None else nodes) if topology.is_node_origin(n)]
    if nodes:
        return draw_points([{"pos": topology.node_coordinates(n)} for n in nodes])


def gh_trail_edges(topology, edges):
    return GhTopology(topology).draw_edges_trail(edges)


def gh_trail_edges_is(topology, edges):
    edges = [e for e in (topology.edges() if edges is None else edges) if topology.is_trail_edge(e)]
    if edges:
        return gh_lines(topology, edges)


def gh_deviation_edges(topology, edges):
    return GhTopology(topology).draw_edges_deviation(edges)


def gh_deviation_edges_is(topology, edges):
    edges = [e for e in (topology.edges() if edges is None else edges) if topology.is_deviation_edge(e)]
    if edges:
        return gh_lines(topology, edges)


def gh_trails(topology):
    return GhTopology(topology).draw_trails()


def gh_trails_is(topology):
    return draw_polylines([{"points": [topology.node_coordinates(n) for n in trail]} for trail in topology.trails()])


def gh_forces(diagram, nodes, names, scale, gap, tol, push):
    out = []
    for n in nodes:
        if not small(diagram, n, names, tol):
            start, v = arrow(diagram, n, names, scale, gap, push[n])
            out.append({"start": start, "end": add_vectors(start, v)})
    return draw_lines(out)


def gh_loads(topology, nodes, scale, gap, tol):
    return GhTopology(topology).draw_loads(nodes, scale, gap, tol)


def gh_loads_is(topology, nodes, scale, gap, tol):
    nodes = nodes or list(topology.nodes())
    return gh_forces(topology, nodes, ["qx", "qy", "qz"], scale, gap, tol, {n: False for n in nodes})


def gh_reactions(form, nodes, scale, gap, tol):
    return GhForm(form).draw_reactions(nodes, scale, gap, tol)


def gh_reactions_is(form, nodes, scale, gap, tol):
    nodes = nodes or list(form.nodes())
    return gh_forces(form, nodes, ["rx", "ry", "rz"], scale, gap, tol, {n: reversed_at(form, n) for n in nodes})


# ---------------------------------------------------------------- what the class of the other package is made with
class GhBase(GhNetworkArtist):
    def __init__(self, diagram, **kwargs):
        super(GhBase, self).__init__(diagram, **kwargs)


class ViewBase(NetworkObject):
    def __init__(self, diagram, **kwargs):
        super(ViewBase, self).__init__(diagram, **kwargs)


def gh_made(form, value):
    return GhForm(form, color=value)._made_with


def gh_made_is(form, value):
    return GhBase(form, color=value)._made_with


def gh_topology_made(topology, value):
    return GhTopology(topology, color=value)._made_with


def gh_topology_made_is(topology, value):
    return GhBase(topology, color=value)._made_with


def view_made(form, value):
    return FormDiagramObject(form, opacity=value)._made_with


def view_made_is(form, value):
    return ViewBase(form, opacity=value)._made_with


def view_topology_made(topology, value):
    return TopologyDiagramObject(topology, opacity=value)._made_with


def view_topology_made_is(topology, value):
    return ViewBase(topology, opacity=value)._made_with


# ---------------------------------------------------------------- thresholds left out, another diagram
def gh_default_loads(topology, nodes):
    return GhTopology(topology).draw_loads(nodes)


def gh_default_loads_is(topology, nodes):
    return gh_loads_is(topology, nodes, 1.0, 0.0, 1e-3)


def gh_default_reactions(form, nodes):
    return GhForm(form).draw_reactions(nodes)


def gh_default_reactions_is(form, nodes):
    return gh_reactions_is(form, nodes, 1.0, 0.0, 1e-3)


def gh_other(form, other):
    artist = GhForm(other)
    artist.diagram = form
    return artist.diagram, artist.draw_edges()


def gh_other_is(form, other):
    artist = GhForm(form)
    return form, artist.draw_edges()


def view_other(form, other):
    seen = FormDiagramObject(other)
    before = seen.nodes, seen.edges
    seen.diagram = form
    return seen.diagram, seen.nodes, seen.edges


def view_other_is(form, other):
    return form, list(form.nodes()), list(form.edges())
