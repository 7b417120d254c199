"""C22: all front ends show forces, loads, supports and states with the same conventions."""
from .. import terms as tm
from ..terms import NONE, sym, syminfo

LEVEL = "proof"
RULE = ("Every drawing method of the plotter artists, the viewer objects and the Grasshopper artists is executed abstractly on a symbolic diagram; the calls it makes on the canvas (what is drawn, where, in which colour) "
        "and the option values it reads back are compared, as normal forms, with a reference written once for all front ends over the shared colour table, for every diagram and option value.")
TECHNIQUE = "static analysis: abstract execution of the drawing code on symbolic diagrams, canvas call histories compared with a reference in normal form"
ASSUMPTIONS = ["the drawing primitives of compas_plotters, compas_ghpython and compas_view2 draw what they are given", "a selection, when given, lists existing nodes and edges"]
MIN_OBLIGATIONS = 40

PF = "compas_cem.plotters.formartist:FormArtist."
PT = "compas_cem.plotters.topologyartist:TopologyArtist."
VD = "compas_cem.viewers.diagramobject:DiagramObject."
VF = "compas_cem.viewers.formobject:FormDiagramObject."
VT = "compas_cem.viewers.topologyobject:TopologyDiagramObject."
GD = "compas_cem.ghpython.artists:DiagramArtist."
GF = "compas_cem.ghpython.artists:FormArtist."
GT = "compas_cem.ghpython.artists:TopologyArtist."

# harness, the method it exercises, and what each parameter is
NUM, FLAG, GIVEN, MAP, NODES, EDGES, FORMS = "num", "flag", "given", "map", "nodes", "edges", "forms"
NODETAGS = [NONE] + [tm.const(x) for x in ("xyz", "keyxyz", "type", "sequence", "keysequence", "other")]
EDGETAGS = [NONE] + [tm.const(x) for x in ("force", "length", "state", "forcelength", "forcelengthstate", "type", "other")]
CASES = [
    ("plot_form_nodes", PF + "draw_nodes", [NUM]), ("plot_form_edges", PF + "draw_edges", []), ("plot_form_loads", PF + "draw_loads", [NUM, NUM]),
    ("plot_form_reactions", PF + "draw_reactions", [NUM, NUM]), ("plot_form_widths", PF + "edge_width", [NUM, NUM]), ("plot_form_widths_set", PF + "edge_width", [MAP]),
    ("plot_form_widths_replaced", PF + "edge_width", [MAP, NUM, NUM]),
    ("plot_form_draw", PF + "draw", [FLAG] * 6), ("plot_form_nodetext", PF + "_node_textlabel", [NODETAGS]), ("plot_form_edgetext", PF + "_edge_textlabel", [EDGETAGS]),
    ("plot_topology_nodes", PT + "draw_nodes", [NUM, [NONE, tm.const("type"), tm.const("sequence")]]), ("plot_topology_edges", PT + "draw_edges", [[NONE, tm.const("state"), tm.const("type")]]),
    ("plot_topology_loads", PT + "draw_loads", []), ("plot_topology_loads_some", PT + "draw_loads", [NODES]),
    ("plot_topology_draw", PT + "draw", [FLAG] * 5), ("plot_topology_nodetext", PT + "_node_textlabel", [NODETAGS]), ("plot_topology_edgetext", PT + "_edge_textlabel", [EDGETAGS]),
    ("view_form_colors", VF + "edge_color", [GIVEN]), ("view_form_groups", VF + "edges_by_type", [GIVEN]), ("view_form_nodes", VF + "node_color", [GIVEN]),
    ("view_topology_colors", VT + "edge_color", [GIVEN]), ("view_topology_groups", VT + "edges_by_type", [GIVEN]), ("view_topology_nodes", VT + "node_color", [GIVEN]),
    ("view_form_loads", VD + "draw_loads", [GIVEN, NUM, NUM]), ("view_form_residuals", VD + "draw_residuals", [GIVEN, NUM, NUM]), ("view_topology_loads", VD + "draw_loads", [GIVEN, NUM, NUM]),
    ("view_form_edges", VD + "draw_edges", [GIVEN, MAP, MAP]), ("view_form_quiet", VF + "__init__", [GIVEN]), ("view_topology_quiet", VT + "__init__", [GIVEN]),
    ("view_form_nodetext", VD + "draw_nodetext", [GIVEN, MAP, GIVEN, GIVEN]), ("view_form_edgetext", VD + "draw_edgetext", [GIVEN, GIVEN, GIVEN]),
    ("view_topology_nodelabels", VD + "_node_textlabel", [GIVEN, NODETAGS]), ("view_topology_edgelabels", VD + "_edge_textlabel", [GIVEN, EDGETAGS]),
    ("view_set_numbers", VD + "load_scale", [GIVEN] + [NUM] * 5), ("view_given_numbers", VD + "__init__", [GIVEN] + [NUM] * 5), ("view_defaults", VD + "__init__", [GIVEN]),
    ("view_set_flags", VD + "show_nodes", [GIVEN, FLAG, FLAG]), ("view_set_selection", VD + "nodes", [GIVEN, NODES, EDGES]), ("view_set_maps", VD + "edge_width", [GIVEN, MAP, MAP, MAP]),
    ("view_set_width", VD + "edge_width", [GIVEN, NUM]), ("view_set_widths", VD + "edge_width", [GIVEN, NUM, NUM]),
    ("view_given_selection", VD + "__init__", [GIVEN, NODES, EDGES]), ("view_given_flags", VD + "__init__", [GIVEN, FLAG]), ("view_given_maps", VD + "__init__", [GIVEN, MAP, MAP, MAP]),
    ("view_given_width", VD + "__init__", [GIVEN, EDGES, NUM]), ("view_given_widths", VD + "__init__", [GIVEN, NUM, NUM]), ("view_key_labels", VD + "node_text", [GIVEN, MAP, MAP]),
    ("view_positions", VD + "node_xyz", [GIVEN, MAP]), ("view_drawn_nodes", VD + "draw_nodes", [GIVEN, NODES]), ("view_set_nothing", VD + "node_size", [GIVEN] + [NUM] * 5 + [MAP] * 3), ("view_lines", VD + "draw_edges2", [GIVEN, EDGES]),
    ("view_selected_groups", VF + "edges_by_type", [GIVEN, EDGES]), ("view_topology_selected", VT + "edges_by_type", [GIVEN, EDGES]), ("view_selected_loads", VD + "draw_loads", [GIVEN, NODES, NUM, NUM]),
    ("view_selected_residuals", VD + "draw_residuals", [GIVEN, NODES, NUM, NUM]), ("view_selected_text", VD + "draw_nodetext", [GIVEN, NODES, MAP, GIVEN, GIVEN]),
    ("gh_nodes", GD + "draw_nodes", [[NODES, NONE]]), ("gh_edges", GD + "draw_edges", [[EDGES, NONE]]), ("gh_supports", GD + "draw_nodes_support", [[NODES, NONE]]), ("gh_origins", GT + "draw_nodes_origin", [[NODES, NONE]]),
    ("gh_trail_edges", GT + "draw_edges_trail", [[EDGES, NONE]]), ("gh_deviation_edges", GT + "draw_edges_deviation", [[EDGES, NONE]]), ("gh_trails", GT + "draw_trails", []),
    ("gh_loads", GD + "draw_loads", [[NODES, NONE], NUM, NUM, NUM]), ("gh_reactions", GF + "draw_reactions", [[NODES, NONE], NUM, NUM, NUM]),
    ("gh_default_loads", GD + "draw_loads", [[NODES, NONE]]), ("gh_default_reactions", GF + "draw_reactions", [[NODES, NONE]]), ("gh_other", GD + "__init__", [FORMS]),
    ("gh_made", GF + "__init__", [GIVEN]), ("gh_topology_made", GT + "__init__", [GIVEN]), ("view_other", VD + "diagram", [FORMS]), ("view_made", VF + "__init__", [GIVEN]), ("view_topology_made", VT + "__init__", [GIVEN]),
]


# harnesses whose drawing calls are compared (the others only read a value back)
DRAWS = {"plot_form_nodes", "plot_form_edges", "plot_form_loads", "plot_form_reactions", "plot_form_draw", "plot_topology_nodes", "plot_topology_edges", "plot_topology_draw"}


def arg(name, what, diagram):
    if isinstance(what, tm.T) if hasattr(tm, "T") else not isinstance(what, str):
        return what
    if what == FORMS:
        return sym("in." + name, cls=syminfo[diagram]["cls"], kind="obj")
    if what == NUM:
        return sym("in." + name, kind="num")
    if what == FLAG:
        return sym("in." + name, kind="bool")
    if what == MAP:
        return sym("in." + name, kind="map", given=True)
    if what == NODES:
        return sym("in." + name, kind="list", elemkind="node")
    if what == EDGES:
        return sym("in." + name, kind="list", elemkind="edge")
    return sym("in." + name, kind="obj", given=True)


def run(ck):
    tm.TWO_TYPES.append(True)
    ck.same("spec.display:colors_differ", "spec.display:colors_differ_is", [], rule="colours of different things differ", anchor=PF + "__init__")
    for name, anchor, kinds in CASES:
        fo = ck.func("spec.display:" + name)
        params = [a.arg for a in fo.node.args.args]
        d = ck.topology() if params[0] == "topology" else ck.form()
        todo = [[]]
        for p, k in zip(params[1:], kinds):
            opts = k if isinstance(k, list) else [k]
            todo = [t + [arg(p, o, d)] for t in todo for o in opts]
        for args in todo:
            label = name.replace("_", " ")
            picks = [a for a, k in zip(args, kinds) if isinstance(k, list)]
            if picks:
                label += " (%s)" % ", ".join("none" if a is NONE else str(a.a[-1]) for a in picks)
            ck.same("spec.display:" + name, "spec.display:" + name + "_is", [d] + args, post=[d, sym("plotter"), sym("plotted.edges")] + [a for a in args if a.op == "sym" and tm.syminfo.get(a, {}).get("kind") == "obj"],
                    rule=label, anchor=anchor, effects=name in DRAWS)
