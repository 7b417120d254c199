"""C20: visual components match their declared inputs and outputs."""
import ast
import itertools
import os

from ..components import OPAQUE, SPEC, arity, canon, components, value
from ..core import pretty
from ..terms import NONE, ZERO, leaves, subterms, sym

LEVEL = "proof"
RULE = ("For every shipped component: the script accepts exactly as many positional inputs as its metadata declares; its script is executed abstractly with inputs bound in declared order, once with everything "
        "supplied and once per optional input left out, and the value returned for each declared output must be the term a reference implementation assigns to the output of that name; with any required "
        "input left out it must return nothing; every returning path yields as many values as outputs are declared.")
TECHNIQUE = "static analysis: abstract execution of every component script to value terms compared with reference terms, driven by the shipped metadata"
ASSUMPTIONS = ["Grasshopper passes inputs to RunScript by position, in the order of the metadata", "inputs are None when nothing is wired and otherwise neither empty nor zero",
               "Rhino conversions and drawing calls are uninterpreted functions of their arguments"]
MIN_OBLIGATIONS = 60
NAMES = {"TopologyDiagram": "TopologyDiagram_"}
CALLS = {"Proxy", "ConstrainedFormFinding", "JSONExportDiagram"}


def reference(ck, name):
    r = ck.p.find("%s:%s" % (SPEC, NAMES.get(name, name)))
    return r[1] if r is not None and r[0] == "func" else None


OUT = {
    "ArtistColors": ["color_tension", "color_compression", "color_edge", "color_node", "color_node_support", "color_node_origin", "color_load", "color_reaction", "color_trail", "color_auxiliary_trail"],
    "ArtistForm": ["nodes", "support_nodes", "edges", "loads", "reactions"],
    "ArtistTopology": ["nodes", "origin_nodes", "support_nodes", "edges", "trail_edges", "deviation_edges", "trails", "loads"],
    "ConstrainedFormFinding": ["topology", "form", "objective", "grad_norm", "iters", "time", "status"],
    "DisassembleForm": ["node_keys", "support_node_keys", "edge_keys"],
    "DisassembleTopology": ["node_keys", "origin_node_keys", "support_node_keys", "edge_keys", "trail_edge_keys", "deviation_edge_keys", "sequence_keys", "trail_keys", "auxiliary_trail_keys"],
    "ResultsEdges": ["lengths", "forces"],
}


def run(ck):
    for c in components(ck):
        where = "%s (%s)" % (c.script.where(), os.path.basename(os.path.dirname(c.metafile)))
        pos, need, var = arity(c.script)
        if len(c.inputs) > len(pos) and not var or len(c.inputs) < need:
            ck.fail("%s: inputs" % c.name, c.script, c.script.qual, "RunScript takes (%s) but %d inputs are declared (%s)" % (", ".join(pos), len(c.inputs), ", ".join(c.inputs)))
            continue
        ck.ok("%s: inputs" % c.name, where)
        so = reference(ck, c.name)
        with ck.guard(c.name, c.script.qual):
            shape(ck, c)
        if so is None:
            ck.skip(c.name, c.script, "no reference for this component")
            continue
        sa = so.node.args
        names = [a.arg for a in sa.args]
        optional = set(names[len(names) - len(sa.defaults):])
        inputs = rename(c.inputs, names)
        if inputs is None:
            ck.skip(c.name, c.script, "the declared inputs (%s) are not those of the reference (%s)" % (", ".join(c.inputs), ", ".join(names)))
            continue
        outs = OUT.get(c.name)
        perm = None
        if outs is not None and c.outputs != outs:
            if sorted(c.outputs) == sorted(outs):
                perm = [c.outputs.index(o) for o in outs]
            elif len(c.outputs) != len(outs):
                ck.skip(c.name, c.script, "the declared outputs are not those of the reference")
                continue
        # zero is a key, a length, a force, a bound and a last sequence like any other
        zeros = [n for n in names if n in ("node_key", "length", "force", "bound_low", "bound_up", "kmax")]
        free = [n for n in names if n in optional]
        cases = [((), None)] + [((n,), None) for n in names] + [((), n) for n in zeros] + [(two, None) for two in itertools.combinations(free, 2)]
        if len(free) > 2:
            cases.append((tuple(free), None))
        for missing, zero in cases:
            rule = "%s: %s" % (c.name, "%s zero" % zero if zero else "without %s" % ", ".join(missing) if missing else "all inputs")
            with ck.guard(rule, c.script.qual):
                args = {n: ZERO if n == zero else value(ck, n, n not in missing) for n in names}
                me = sym("component", cls=c.cls, kind="obj")
                rc = ck.run(c.script, [me] + [args[n] for n in inputs], opaque=OPAQUE)
                code = canon(rc.reified(), perm, len(c.outputs))
                notes = [str(x) for x in rc.interp.notes]
                if not optional.issuperset(missing):
                    if not code.unk and not notes and all(goes_on(x) for x in leaves(code)):
                        ck.fail(rule, c.script, c.script.qual, "goes on without it and computes  %s" % pretty(code))
                    else:
                        ck.judge(rule, c.script, code, NONE, notes)
                    continue
                rs = ck.run(so, [], {n: args[n] for n in names if n not in missing}, opaque=OPAQUE, spec=True)
                if rs.interp.notes:
                    ck.skip(rule, c.script, "reference not analysable: %s" % rs.interp.notes[:2])
                    continue
                ck.judge(rule, c.script, code, rs.reified(), notes)
                if c.name in CALLS:
                    ck.judge(rule + ": calls made", c.script, rc.interp.reify(rc.effects(), rc.state), rs.interp.reify(rs.effects(), rs.state), notes)


def goes_on(x):
    """a result, or a failure: anything but nothing"""
    if x.op in ("objval", "obj", "fmap", "cat", "put") or x.op == "seq" and x.a:
        return True
    if x.op == "fn" and str(x.a[0]).startswith("call:"):
        return True
    return any(y.op == "m" and len(y.a) > 1 and y.a[1] is NONE or y.op == "fn" and str(y.a[0]).startswith("compas_rhino.") and NONE in y.a[1:] for y in subterms(x))


def rename(declared, names):
    """declared inputs, each as the reference calls it; renamed ones are matched by position"""
    if len(declared) != len(names):
        return None
    if sorted(declared) == sorted(names):
        return list(declared)
    out = []
    for i, d in enumerate(declared):
        if d in names:
            out.append(d)
        elif names[i] not in declared:
            out.append(names[i])
        else:
            return None
    return out if len(set(out)) == len(out) else None


def own(x):
    """statements of the function itself"""
    for y in ast.iter_child_nodes(x):
        if not isinstance(y, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            yield y
            yield from own(y)


def shape(ck, c):
    """every value returned has one entry per declared output"""
    n = len(c.outputs)
    if n == 1:
        return
    for x in own(c.script.node):
        if not isinstance(x, ast.Return) or x.value is None:
            continue
        if isinstance(x.value, ast.Constant) and x.value.value is None:
            continue
        if isinstance(x.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in x.value.elts):
            if n != len(x.value.elts):
                ck.fail("%s: number of outputs" % c.name, c.script, c.script.qual, "returns %d values where %d outputs are declared" % (len(x.value.elts), n), where="%s:%d" % (c.module.rel, x.lineno))
                return
        elif n == 0:
            ck.fail("%s: number of outputs" % c.name, c.script, c.script.qual, "returns a value although no output is declared", where="%s:%d" % (c.module.rel, x.lineno))
            return
    ck.ok("%s: number of outputs" % c.name, c.script.where())
