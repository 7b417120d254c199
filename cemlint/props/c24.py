"""C24: a new diagram is empty and neutral, and its settings read back."""
from ..core import sym

LEVEL = "proof"
RULE = ("A diagram made without arguments is followed through its constructors (and those of its bases up to the network class of the library): the value of every standard node and edge attribute of an element "
        "nothing was assigned to, the position table, tolerance, trail tables and settings for auxiliary trails must be congruent to the neutral reference; entries written into the tables of one diagram may not "
        "appear in another diagram or in another table; each setting reads back the value last set and leaves the others alone.")
TECHNIQUE = "static analysis: abstract interpretation of the constructors and accessors into value terms, compared with a reference"
MIN_OBLIGATIONS = 8
ASSUMPTIONS = ["the library's network class starts empty and returns the registered default of an attribute nothing was assigned to"]
D = "compas_cem.diagrams.diagram:Diagram"
T = "compas_cem.diagrams.topology.topology:TopologyDiagram"
F = "compas_cem.diagrams.form:FormDiagram"


def run(ck):
    S = "spec.fresh:"
    n, e = sym("node", kind="node"), sym("edge", kind="edge")
    k, ns = sym("key"), sym("nodes")
    v, w = sym("value"), sym("vector", kind="vec")
    for anchor, name, args in [
            (D + ".__init__", "topology_node", [n]), (D + ".__init__", "form_node", [n]), (D + ".__init__", "topology_edge", [e]), (D + ".__init__", "form_edge", [e]),
            (D + ".__init__", "loads_and_reactions", [n, e]), (T + ".__init__", "topology_tables", []), (D + ".__init__", "form_tables", []),
            (T + ".__init__", "apart", [k, n, ns]), (T + ".__init__", "tables_apart", [k, n, ns]), (D + ".tol", "tol_set", [v]), (D + ".tol", "form_tol_set", [v]),
            (T + ".auxiliary_trail_length", "length_set", [v]), (T + ".auxiliary_trail_vector", "vector_set", [w]), (F + ".from_topology_diagram", "copied_settings", [sym("tol"), v, w])]:
        ck.same(S + name, S + name + "_is", args, rule="new diagram: %s" % name.replace("_", " "), anchor=anchor)
