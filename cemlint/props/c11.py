from .. import terms as tm
from ..core import TOPO, sym, NONE, post_state
from ..terms import const
from ..interp import Abort

RULE = ("from_dualquadmesh is reduced to the lists of insertions it makes (nodes, supports, deviation edges, trail edges, each with its arguments) as "
        "terms over an arbitrary mesh (its polyedges, vertices and coordinates are symbolic); every list must be congruent to the reference split.")
LEVEL = "proof"
MIN_OBLIGATIONS = 5
ASSUMPTIONS = ["the mesh's own methods (collect_polyedges, polyedges, vertices, vertex_coordinates) are taken as given",
               "insertion itself is decided by C10"]
MIX = "compas_cem.diagrams.mixins."


def recorder(kindf, fields):
    def rec(I, b, st):
        obj = b[[k for k in b if k != "self"][0]]
        d = b["self"]
        vals = {}
        for f in fields:
            vals[f] = I.pure(I.attr(obj, f, st, None, None), st)
        name, item, ret = kindf(vals)
        loc = ("x", d, name)
        cur = st.store.get(loc, tm.NIL)
        st.store[loc] = tm.cat(cur, tm.seq(item))
        if "xyz" in vals and name == "nodes":
            for i, c in enumerate("xyz"):
                I.write_elem(st, "na", d, vals["key"], const(c), tm.idx(vals["xyz"], tm.num(i)))
        return ret
    return rec


def node(v):
    return "nodes", tm.seq(v["key"], v["xyz"]), v["key"]


def support(v):
    return "supports", tm.seq(v["node"], v["xyz"]), NONE


def edge(v):
    a = v["attributes"]
    ty = tm.rd(a, const("type"))
    ends = tm.seq(v["u"], v["v"])
    if ty is const("trail"):
        return "trail edges", tm.seq(ends, tm.rd(a, const("length")), tm.rd(a, const("plane"))), ends
    if ty is const("deviation"):
        return "deviation edges", tm.seq(ends, tm.rd(a, const("force"))), ends
    raise Abort("an edge of another type is added")


OVER = {MIX + "node_mixins:NodeMixins.add_node": recorder(node, ("key", "xyz")),
        TOPO + ".add_support": recorder(support, ("node", "xyz")),
        MIX + "edge_mixins:EdgeMixins.add_edge": recorder(edge, ("u", "v", "attributes"))}


def run(ck):
    full = [sym("trail_length", kind="num", optional=True), sym("trail_state", kind="num"), sym("deviation_force", kind="num"), sym("deviation_state", kind="num")]
    one(ck, "from_dualquadmesh", full, full)
    one(ck, "from_dualquadmesh, options left out", [], [NONE, tm.num(-1), tm.num(1), tm.num(-1)])


def one(ck, rule, given, meant):
    cls = ck.cls(TOPO)
    q = "compas_cem.diagrams.topology.mesh_mixins:MeshMixins.from_dualquadmesh"
    args = [tm.mk("cls", cls.qual), sym("mesh"), sym("supports", kind="list", elemkind="node")]
    with ck.guard(rule, q):
        fo = ck.func(q)
        rc = ck.run(fo, args + given, override=OVER)
        rs = ck.run(ck.func("spec.mesh:from_dualquadmesh"), args + meant, override=OVER, spec=True)
        notes = ["%s" % (n,) for n in rc.interp.notes]
        for r in (rc, rs):
            if r.value.op != "sym":
                raise Abort("the result is not one new diagram")
        pc, ps = post_state(rc, rc.value), post_state(rs, rs.value)
        for name in ("nodes", "supports", "deviation edges", "trail edges"):
            c, s = pc.get(("x", name)), ps.get(("x", name))
            if s is None:
                raise Abort("reference adds no %s" % name)
            if c is None:
                ck.fail("%s: %s" % (rule, name), fo, fo.qual, "adds no %s" % name)
                continue
            ck.judge("%s: %s" % (rule, name), fo, c, s, notes)
        c = tm.syminfo.get(rc.value, {}).get("cls")
        ck.judge("%s: kind of diagram" % rule, fo, tm.mk("cls", c.qual) if c is not None else NONE, tm.mk("cls", cls.qual), notes)
