"""C06: form-finding and queries never modify the diagram they are given."""
from .. import terms as tm
from ..core import TOPO, FORM, post_state, loc_name, loc_default
from ..terms import sym, TRUE, FALSE, NONE, pretty
from .. import equi, purity

LEVEL = "proof"
RULE = ("Every query of the diagrams, both form-finding routines, their wrappers and the optimizer's and parameters' queries are executed abstractly on a symbolic diagram; "
        "the set of locations of that diagram (node, edge and diagram attributes, node and edge sets, contents of its containers, fields) whose final value is not the initial one must be empty. "
        "The returned form may hold no container of the given diagram. No function of the package may keep state between calls in a changed default argument, a changed module-level container, a rebound global or a result cache.")
TECHNIQUE = "static analysis: interprocedural effect analysis by abstract execution on symbolic diagrams (written locations), escape analysis of containers, and a syntactic rule for state kept between calls"

DIAG = "compas_cem.diagrams.diagram:Diagram"
NODE, EDGE = "node", "edge"
QUERIES = [("support_nodes",), ("loaded_nodes",), ("number_of_support_nodes",), ("number_of_loaded_nodes",), ("is_node_support", NODE), ("is_node_loaded", NODE), ("is_edge_supported", EDGE),
           ("node_load", NODE), ("reaction_force", NODE), ("edge_force", EDGE), ("edge_length_2", EDGE), ("edge_plane", EDGE), ("__repr__",),
           ("node_exists", "xyz"), ("node_key", "xyz"), ("node_xyz", NODE), ("gkey", "xyz"), ("tol",), ("gkey_node",)]
TQUERIES = QUERIES + [("number_of_trails",), ("number_of_auxiliary_trails",), ("number_of_trail_edges",), ("number_of_deviation_edges",), ("number_of_direct_deviation_edges",),
                      ("number_of_indirect_deviation_edges",), ("trail", NODE), ("trails",), ("trails", "keys"), ("auxiliary_trails",), ("has_trails",), ("origin_nodes",),
                      ("connected_deviation_edges", NODE), ("connected_trail_edges", NODE), ("_connected_direct_deviation_edges", NODE), ("_connected_indirect_deviation_edges", NODE),
                      ("trail_edges",), ("deviation_edges",), ("direct_deviation_edges",), ("indirect_deviation_edges",), ("auxiliary_trail_edges",),
                      ("is_node_origin", NODE), ("is_trail_edge", EDGE), ("is_deviation_edge", EDGE), ("is_auxiliary_trail_edge", EDGE), ("is_direct_deviation_edge", EDGE), ("is_indirect_deviation_edge", EDGE),
                      ("node_sequence", NODE), ("edge_sequence", EDGE), ("sequences",), ("sequences", "keys"), ("number_of_sequences",), ("sequence_last",), ("trail_sequences", NODE), ("trails_sequences",),
                      ("auxiliary_trail_length",), ("auxiliary_trail_vector",)]


def arg(what):
    return {NODE: sym("node", kind="node"), EDGE: sym("edge", kind="edge"), "xyz": sym("xyz", kind="vec")}[what]


def judge(ck, rule, fo, r, objs):
    notes = [str(n) for n in r.interp.notes]
    for o in objs:
        bad = post_state(r, o)
        if not bad:
            if notes:
                ck.skip(rule, fo, "not fully analysed: %s" % "; ".join(notes[:2]))
            else:
                ck.ok(rule, fo.where())
            continue
        for loc in sorted(bad, key=repr):
            text = "%s becomes %s" % (loc_name(o, loc), pretty(bad[loc], 8)[:300])
            if bad[loc].unk or notes:
                ck.skip(rule, fo, text)
            else:
                ck.fail(rule, fo, "%s %s" % (fo.qual, loc_name(o, loc)), text)


def unchanged(ck, qual, args, kw, objs, rule, **how):
    with ck.guard(rule, qual):
        fo = ck.func(qual)
        judge(ck, rule, fo, ck.run(fo, args, kw, **how), objs)


def shared(ck, rule, fo, r, src):
    """containers of src reachable from the returned object"""
    I, st, new = r.interp, r.state, r.value
    bad = []
    for loc, v in st.store.items():
        if len(loc) > 1 and loc[1] is new:
            for x in tm.leaves(v):
                init = tm.syminfo.get(x, {}).get("init") if x.op == "sym" else None
                if init is not None and src in init.fs:
                    bad.append("%s is the given diagram's own %s" % (loc_name(new, (loc[0], loc[2] if len(loc) > 2 else "")), pretty(init, 4)))
    if new is src:
        bad.append("the given diagram itself is returned")
    if bad:
        ck.fail(rule, fo, fo.qual, "; ".join(bad[:3]))
    else:
        ck.ok(rule, fo.where())


def run(ck):
    for obj, qs, owner in ((ck.topology(), TQUERIES, TOPO), (ck.form(), QUERIES, FORM)):
        for q in qs:
            name, rest = q[0], q[1:]
            kw = {"keys": TRUE} if rest == ("keys",) else {}
            args = [obj] + [arg(a) for a in rest if a != "keys"]
            unchanged(ck, owner + "." + name, args, kw, [obj], "%s.%s%s leaves the diagram alone" % (owner.split(":")[1], name, "(keys=True)" if kw else ""))
    for q, sq in equi.IMPLS:
        for kmax in (NONE, sym("kmax", kind="int")):
            rule = "%s%s leaves the diagram alone" % (q.split(":")[1], "" if kmax is NONE else " with kmax")
            with ck.guard(rule, q):
                fo = ck.func(q)
                if kmax is not NONE and "kmax" not in [a.arg for a in fo.node.args.args]:
                    continue
                f = equi.run_result(ck, q, kmax)
                judge(ck, rule, fo, f, [ck.topology()])
    for q, inner, sq in equi.WRAPPERS:
        name = q.split(":")[1]
        with ck.guard(name, q):
            r, calls, vals, kw = equi.run_wrapper(ck, q, inner)
            judge(ck, name + " leaves the diagram alone", r.fo, r, [vals["topology"]])
            shared(ck, name + " returns a form of its own", r.fo, r, vals["topology"])
    q = FORM + ".from_topology_diagram"
    with ck.guard("FormDiagram.from_topology_diagram", q):
        fo = ck.func(q)
        t = ck.topology()
        r = ck.run(fo, [tm.mk("cls", FORM), t])
        judge(ck, "from_topology_diagram leaves the diagram alone", fo, r, [t])
        shared(ck, "from_topology_diagram returns a form of its own", fo, r, t)
    # optimizer and parameters
    t = ck.topology()
    OPT = "compas_cem.optimization.optimizer:Optimizer"
    o = ck.obj("optimizer", OPT)
    for m in ("optimization_parameters", "optimization_bounds"):
        unchanged(ck, "%s.%s" % (OPT, m), [o, t], {}, [t, o], "Optimizer.%s leaves the diagram alone" % m)
    for mod, cls in (("deviation", "DeviationEdgeParameter"), ("origin", "OriginNodeXParameter")):
        q = "compas_cem.optimization.parameters.%s:%s" % (mod, cls)
        for m in ("start_value", "bound_low", "bound_up"):
            with ck.guard(cls, q):
                p = ck.obj("parameter", q)
            unchanged(ck, "%s.%s" % (q, m), [p, t], {}, [t, p], "%s.%s leaves the diagram alone" % (cls, m))
    purity.between_calls(ck)
