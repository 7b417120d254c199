from .. import equi
from .. import terms as tm
from ..core import FORM, loc_name, loc_default, sym, syminfo, post_state

RULE = ("The two wrappers that turn an equilibrium state into a form diagram are analysed with an arbitrary equilibrium state: the returned object must "
        "be a FormDiagram copied from the topology diagram, and every location of it that differs from the topology diagram (coordinates, forces, "
        "lengths, reactions, dropped attributes) must be congruent to the reference; so must FormDiagram.from_topology_diagram alone.")
LEVEL = "proof"
MIN_OBLIGATIONS = 12
ASSUMPTIONS = ["an equilibrium state has one position for every node of the diagram", "COMPAS' Datastructure.copy returns an independent copy of the data"]


def compare_forms(ck, name, fo, rc, rs, notes):
    c, ci = equi.form_state(ck, rc)
    s, si = equi.form_state(ck, rs)
    for field, what in (("cls", "class of the result"), ("root", "diagram it is copied from")):
        if ci.get(field) is si.get(field):
            ck.ok("%s: %s" % (name, what), fo.where())
        else:
            ck.fail("%s: %s" % (name, what), fo, fo.qual, "%s, expected %s" % (ci.get(field), si.get(field)))
    for loc in sorted(set(c) | set(s), key=repr):
        a = c[loc] if loc in c else loc_default(rc, rc.value, loc)
        b = s[loc] if loc in s else loc_default(rs, rs.value, loc)
        ck.judge("%s: form's %s" % (name, loc_name(rc.value, loc).split(" ", 1)[1]), fo, a, b, notes)


def run(ck):
    for q, inner, sq in equi.WRAPPERS:
        name = q.split(":")[1]
        with ck.guard(name, q):
            rc, calls, vals, kw = equi.run_wrapper(ck, q, inner)
            rs, _, _, _ = equi.run_wrapper(ck, sq, "spec.form:solve", spec=True)
            notes = [str(n) for n in rc.interp.notes]
            if len(calls) != 1 or calls[0].get("topology") is not vals["topology"]:
                ck.fail(name + ": state of the given diagram", rc.fo, q, "the equilibrium state is not computed once, for the given topology diagram")
            else:
                ck.ok(name + ": state of the given diagram", rc.fo.where())
            compare_forms(ck, name, rc.fo, rc, rs, notes)
    q = FORM + ".from_topology_diagram"
    with ck.guard("FormDiagram.from_topology_diagram", q):
        fo = ck.func(q)
        cls = tm.mk("cls", FORM)
        rc = ck.run(fo, [cls, ck.topology()])
        rs = ck.run(ck.func("spec.form:from_topology"), [cls, ck.topology()], spec=True)
        compare_forms(ck, "FormDiagram.from_topology_diagram", fo, rc, rs, [str(n) for n in rc.interp.notes])
