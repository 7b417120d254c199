"""The Grasshopper components: declared inputs and outputs, and their scripts (C20, C21)."""
import json
import os

from . import terms as tm
from .terms import mk, NONE, sym

PRE = "compas_cem.ghpython.components."
DIAGRAMS = {"topology": "topology", "form": "form", "diagram": "topology"}
OPAQUE = ["static_equilibrium", "build_trails", "add_edge", "add_load", "add_support"]
LISTS = {"node_keys", "edge_keys", "constraints", "parameters", "origin_node_keys", "points", "sequences", "trail_edges", "deviation_edges", "loads", "supports"}
FLAGS = {"solve", "start", "stop", "add_auxiliary_trails"}
SPEC = "spec.components"


class Component(object):
    def __init__(self, name, module, cls, script, meta, metafile):
        self.name, self.module, self.cls, self.script, self.meta, self.metafile = name, module, cls, script, meta, metafile
        gh = meta.get("ghpython", {}) if isinstance(meta, dict) else {}
        self.inputs = [x.get("name") for x in gh.get("inputParameters", [])]
        self.outputs = [x.get("name") for x in gh.get("outputParameters", [])]


def components(ck):
    """every component shipped, with its metadata"""
    out = []
    for name, mod in sorted(ck.p.modules.items()):
        if not name.startswith(PRE) or not name.endswith(".code"):
            continue
        short = name[len(PRE):-len(".code")]
        mf = os.path.join(os.path.dirname(mod.path), "metadata.json")
        try:
            meta = json.load(open(mf, encoding="utf-8"))
        except (OSError, ValueError) as e:
            ck.fail("metadata readable", None, short, "metadata.json: %s" % e, where=os.path.relpath(mf, ck.p.root) if hasattr(ck.p, "root") else mf)
            continue
        found = [(b[1], b[1].find("RunScript")) for b in mod.names.values() if b[0] == "class" and b[1].module is mod]
        found = [(c, r[1]) for c, r in found if r is not None and r[0] == "method"]
        if len(found) != 1:
            ck.skip("component script", mod.rel, "%d classes with a RunScript" % len(found))
            continue
        out.append(Component(short.split("CompasCem_")[-1], mod, found[0][0], found[0][1], meta, mf))
    return out


def value(ck, name, given, tag=""):
    """an input as supplied, or left out"""
    if not given:
        return NONE
    if name in DIAGRAMS:
        return getattr(ck, DIAGRAMS[name])(name)
    info = dict(given=True)
    if name in LISTS:
        info["kind"] = "list"
    if name in FLAGS:
        return tm.TRUE
    return sym("in." + name, **info)


def arity(script):
    a = script.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][1:]
    return pos, len(pos) - len(a.defaults), a.vararg is not None


def canon(t, perm, n=1):
    """the returned tuple as one entry per output, in the reference's order"""
    if n > 1:
        t = tm.map_leaves(t, lambda x: x if x is tm.NONE or x.op in ("seq", "const") else mk("seq", *[tm.idx(x, tm.num(i)) for i in range(n)]))
        t = tm.map_leaves(t, lambda x: tm.NONE if x.op == "seq" and len(x.a) == n and all(y is tm.NONE for y in x.a) else x)
    if perm is None:
        return t
    return tm.map_leaves(t, lambda x: mk("seq", *[x.a[i] for i in perm]) if x.op == "seq" and len(x.a) == len(perm) else x)
