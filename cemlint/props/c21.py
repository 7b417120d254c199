"""C21: visual components never alter the diagrams wired into them."""
from ..components import OPAQUE, components, value
from ..core import loc_name, post_state
from ..terms import pretty, sym, syminfo

LEVEL = "proof"
RULE = ("Every component script is executed abstractly with symbolic diagrams on its inputs; no location of an input (node, edge and diagram attributes, node and edge sets, contents of its containers, fields) "
        "may have a final value other than its initial one, on any path. A result that is a diagram may not be the very object that came in with changed content, nor hold one of its changed containers.")
TECHNIQUE = "static analysis: interprocedural effect analysis by abstract execution of every component script on symbolic diagrams (written locations)"
ASSUMPTIONS = ["form-finding leaves its diagram alone (decided by C06)", "what the remote solver does to its own deserialised copy is not seen by the caller"]
MIN_OBLIGATIONS = 20


def run(ck):
    for c in components(ck):
        pos = [x.arg for x in c.script.node.args.args][1:]
        names = c.inputs if len(c.inputs) == len(pos) else pos
        objs = []
        args = []
        for i, n in enumerate(names):
            if n in ("start", "stop", "solve"):
                v = sym("in." + n)
            else:
                v = value(ck, n, True)
            args.append(v)
            if v.op == "sym":
                objs.append((n, v))
        rule = "%s: inputs unchanged" % c.name
        with ck.guard(rule, c.script.qual):
            me = sym("component", cls=c.cls, kind="obj")
            r = ck.run(c.script, [me] + args, opaque=OPAQUE)
            notes = [str(x) for x in r.interp.notes]
            for n, o in objs:
                bad = post_state(r, o)
                if not bad:
                    if notes:
                        ck.skip(rule, c.script, "not fully analysed: %s" % "; ".join(notes[:2]))
                    else:
                        ck.ok("%s: %s unchanged" % (c.name, n), c.script.where())
                    continue
                for loc in sorted(bad, key=repr):
                    text = "input %s: %s becomes %s" % (n, loc_name(o, loc), pretty(bad[loc], 8)[:300])
                    if bad[loc].unk or notes:
                        ck.skip(rule, c.script, text)
                    else:
                        ck.fail(rule, c.script, "%s %s" % (c.script.qual, loc_name(o, loc)), text)
