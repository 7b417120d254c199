#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the property modules present under cemlint/props."""
import importlib
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

NA = {
    "C30": "quantifies over numerical convergence of a fixed-point iteration for given data; no sound static bound on the contraction in reach",
    "C31": "optimality of what NLopt returns depends on a compiled numerical search, not on this repository's source",
    "C32": "JSON round trips happen inside the COMPAS encoder, decoder and json itself; this repository contributes only the data getters/setters, which C19 covers",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "cemlint", "props", pid.lower() + ".py")):
        m = importlib.import_module("cemlint.props." + pid.lower())
        checks.append(dict(property=pid, quick_cmd="python3 check.py %s" % pid, thorough_cmd="python3 check.py %s --tier thorough" % pid,
                           technique=getattr(m, "TECHNIQUE", "static analysis: interprocedural gated value-flow (global value numbering) over the syntax tree, congruence with a reference definition"),
                           level=m.LEVEL, level_note=getattr(m, "LEVEL_NOTE", m.RULE), evidence_file="evidence/%s.json" % pid))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "check not built")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="Checks are plain python3 (standard library only); they parse /repo/src/compas_cem and never import or run it."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
