#!/usr/bin/env python3
"""Assemble DESIGN.md: head, one section per property from the rule modules, planted bugs from dev/matrix.json, tail."""
import importlib
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
read = lambda n: open(os.path.join(HERE, n), encoding="utf-8").read()
wrap = lambda s, ind="": "\n".join(textwrap.wrap(" ".join(s.split()), 118, initial_indent=ind, subsequent_indent=ind))
out = [read("dev/design_head.md").rstrip(), "", "## 2. Per property", ""]
for line in read("properties.jsonl").splitlines():
    p = json.loads(line)
    path = os.path.join(HERE, "cemlint", "props", p["id"].lower() + ".py")
    if not os.path.exists(path):
        continue
    m = importlib.import_module("cemlint.props." + p["id"].lower())
    ev = os.path.join(HERE, "evidence", p["id"] + ".json")
    out += ["### %s %s" % (p["id"], p["title"]), "", wrap(m.RULE), ""]
    if getattr(m, "ASSUMPTIONS", None):
        out += [wrap("Assumes: " + "; ".join(m.ASSUMPTIONS) + "."), ""]
tail = read("dev/design_tail.md")
head, _, rest = tail.partition("## 5.")
out += [head.rstrip(), "", "## 4. Planted bugs and the checks that catch them", "",
        "Each was confirmed in a scratch copy (builds, stable tests pass, demonstration fails with it and passes without).", "",
        "| bug | property | what it needs | caught by |", "|---|---|---|---|"]
table = json.loads(read("dev/matrix.json"))
for bug in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.loads(read("seeded/%s/meta.json" % bug))
    out.append("| %s | %s | %s | %s |" % (bug, meta["property"], meta["needs"], " ".join(table.get(bug, ["(not run)"])) or "none"))
out += ["", "## 5." + rest.rstrip()]
open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8").write("\n".join(out) + "\n")
