from .. import terms as tm
from ..core import TOPO, sym, post_state, loc_default, loc_name
from ..interp import Abort
from ..terms import mk, const
from .c13 import KINDS, P

RULE = ("Adding and removing parameters and constraints, the start vector, the two bound vectors and the write-back of a variable vector are reduced to "
        "value terms over an arbitrary optimiser (its parameter table is symbolic, so any history is covered) and must be congruent to the reference: "
        "fresh increasing keys, one vector entry per parameter in table order, written to the parameter's own key and attribute.")
LEVEL = "proof"
MIN_OBLIGATIONS = 14
ASSUMPTIONS = ["dictionaries keep insertion order"]
OPT = "compas_cem.optimization.optimizer:Optimizer"


def run(ck):
    S = "spec.optimizer:"
    o = ck.obj("optimizer", OPT)
    t = ck.topology()
    key = sym("key", kind="int")
    par = sym("parameter")
    ck.same(S + "made", S + "made_ref", [], anchor=OPT + ".__init__", rule="a new optimizer is empty")
    for name, spec, args, kw in (
            ("number_of_parameters", "number_of_parameters", [], {}),
            ("number_of_constraints", "number_of_constraints", [], {}),
            ("remove_parameter", "remove_parameter", [key], {"raises": ["KeyError"]}),
            ("remove_constraint", "remove_constraint", [key], {"raises": ["KeyError"]}),
            ("optimization_parameters", "start_values", [t], {}),
            ("optimization_bounds", "bounds", [t], {}),
            ("_update_parameters", "update", [t, sym("values", kind="list", elemkind="num")], {"raises": ["TypeError"]}),
            ("check_optimization_sanity", "sanity", [], {"raises": ["ValueError"]})):
        ck.same(OPT + "." + name, S + spec, [o] + args, post=[o, t], value=not name.startswith(("remove", "_update", "check")), **kw)
    values = [sym("parameter %d" % i) for i in range(5)]
    for what in ("parameter", "constraint"):
        ck.same(S + "first_%ss" % what, S + "first_%ss_ref" % what, values, anchor="%s.add_%s" % (OPT, what), rule="keys of the first %ss" % what)
        adding(ck, S, o, what, key, par, sym("other"))
    edge, node, vec = sym("edge", kind="tuple", elems=2), sym("node", kind="int"), sym("vector", kind="list", elemkind="num")
    for what, args in (("parameter", [edge, node, sym("low", kind="num"), sym("up", kind="num")]), ("constraint", [edge, node, vec, vec])):
        ck.same(S + "repeated_%ss" % what, S + "repeated_ref", args, anchor="%s.add_%s" % (OPT, what), rule="a %s added again, or one like it, is kept" % what)
    # read and written at the same place, whichever kind of parameter
    for name, q, kd in KINDS:
        attr = const({"origin": "%s", "load": "q%s"}[name.split("_")[0]] % name[-1] if kd == "node" else {"trail": "length", "deviation": "force"}[name])
        ck.same(S + "through", S + "through_" + kd, [mk("cls", ck.cls(P + q).qual), t, sym(kd, kind=kd), sym("other", kind="node"), sym("value", kind="num"), sym("low", kind="num"), sym("up", kind="num"), attr],
                post=[t], rule=q.split(":")[1] + " read and written", anchor=OPT + "._update_parameters")


def adding(ck, S, o, what, key, one, other):
    """an added item gets a key of its own: the same one whatever was removed before, and the next one is one higher"""
    table = ("f", what + "s")
    q = "%s.add_%s" % (OPT, what)
    with ck.guard("add_" + what, q):
        fo = ck.func(q)
        r = ck.run(fo, [o, one])
        two = ck.run(ck.func(S + "two_%ss" % what), [o, one, other])
        gone = ck.run(ck.func(S + "%s_after_removal" % what), [o, key, one])
        notes = [str(n) for x in (r, two, gone) for n in x.interp.notes]
        items = loc_default(r, o, table)
        after = post_state(r, o)
        got = after.get(table)
        if got is None:
            ck.fail("add_%s: stored" % what, fo, q, "nothing is stored in the table of %ss" % what)
            return
        k = got.a[1] if got.op == "put" else None
        if k is None:
            raise Abort("the key of an added %s was not found" % what)
        ck.judge("add_%s: stored" % what, fo, got, tm.put(items, k, one), notes)
        for loc in sorted(after, key=repr):
            if loc != table and not str(loc[1]).startswith("_"):
                ck.fail("add_%s: changes nothing else" % what, fo, q, "changes %s" % loc_name(o, loc))
        ck.judge("add_%s: the next key is one higher" % what, fo, post_state(two, o).get(table, items), tm.put(tm.put(items, k, one), tm.add(k, tm.ONE), other), notes)
        # as without the removal, except for the removed entry
        rem = post_state(ck.run(ck.func("%s.remove_%s" % (OPT, what)), [o, key]), o).get(table, items)
        there = tm.member(key, items)
        c, s = [tm.constrain(x, there) for x in (post_state(gone, o).get(table, items), tm.put(rem, k, one))]
        ck.judge("add_%s: removals free no key" % what, fo, c, s, notes)
