from ..core import TOPO, FORM, sym, NONE, State

RULE = ("Insertion of nodes, edges, supports and loads, moving a node, and lookup by position are reduced to value terms: result, errors raised, and "
        "every location of the diagram written (nodes, edges, node and edge attributes, position table); each must be congruent to the reference.")
LEVEL = "proof"
MIN_OBLIGATIONS = 20
ASSUMPTIONS = ["two positions are the same position iff their geometric keys at the diagram's tolerance agree"]
E = "compas_cem.elements:"


def run(ck):
    S = "spec.insertion:"
    V = sym("xyz", kind="vec")
    for cq in (TOPO, FORM):
        d = ck.obj("diagram", cq)
        key = sym("key", kind="node")
        val = sym("value")
        nm = cq.split(":")[1]

        def same(name, spec, args, **kw):
            ck.same(cq + "." + name, S + spec, [d] + args, rule="%s.%s%s" % (nm, name, kw.pop("tag", "")), post=[d], **kw)
        same("gkey", "gkey", [V])
        same("node_key", "node_key", [val])
        same("node_key", "node_key", [V], tag=" by position")
        same("node_exists", "node_exists", [val])
        same("add_node", "add_node", [ck.obj("node", "compas_cem.elements.node:Node")], state=fields(ck.obj("node", "compas_cem.elements.node:Node"), xyz=V))
        same("update_node_xyz", "update_node_xyz", [key, V])
        same("node_xyz", "node_xyz_get", [key], tag=" read")
        same("node_xyz", "node_xyz_set", [key, V], tag=" write", value=False)
        edge = ck.obj("edge", "compas_cem.elements.edge:Edge")
        ends = {"key": lambda n: sym(n, kind="node"), "position": lambda n: sym(n + " position", kind="vec")}
        for a in ends:
            for b in ends:
                same("add_edge", "add_edge", [edge], tag=" (%s, %s)" % (a, b), state=fields(edge, u=ends[a]("u"), v=ends[b]("v")))
        if cq is TOPO:
            for name, cls in (("add_support", "compas_cem.supports.node:NodeSupport"), ("add_load", "compas_cem.loads.node:NodeLoad")):
                e = ck.obj("element", cls)
                f = sym("vector", kind="vec")
                same(name, name, [e], raises=["ValueError"], tag=" by key", state=fields(e, node=key, xyz=NONE, vector=f))
                same(name, name, [e], raises=["ValueError"], tag=" by position", state=fields(e, node=NONE, xyz=V, vector=f))
    u, v = sym("u", kind="node"), sym("v", kind="node")
    L = sym("length", kind="num")
    P = sym("plane")
    q = sym("vector", kind="vec")
    made = [("elements.node:Node.__init__", "node_made", "node_ref", [key, V]),
            ("elements.node:Node.from_point", "node_from_point", "node_from_point_ref", [V]),
            ("elements.trail:TrailEdge.__init__", "trail_made", "trail_ref", [u, v, L, P]),
            ("elements.edge:Edge.from_line", "trail_line_made", "trail_ref", [u, v, L, P]),
            ("elements.deviation:DeviationEdge.__init__", "deviation_made", "deviation_ref", [u, v, L]),
            ("elements.edge:Edge.from_line", "deviation_line_made", "deviation_ref", [u, v, L]),
            ("supports.node:NodeSupport.__init__", "support_made", "by_itself", [key]),
            ("supports.node:NodeSupport.from_point", "support_point_made", "by_itself", [V]),
            ("loads.node:NodeLoad.__init__", "load_made", "load_ref", [key, q]),
            ("loads.node:NodeLoad.from_point_and_vector", "load_point_made", "load_ref", [V, q])]
    for anchor, code, ref, args in made:
        ck.same(S + code, S + ref, args, rule="element %s" % code.replace("_", " "), anchor="compas_cem." + anchor)


def fields(o, **kw):
    def make():
        st = State()
        for k, v in kw.items():
            st.store["f", o, k] = v
        return st
    return make
