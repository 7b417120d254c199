#!/usr/bin/env python3
"""Decide one property by static value-flow analysis of /repo's current sources.

usage: check.py <property id> [--tier quick|thorough] [--repo DIR]
exit 0: no violation; exit 1: VIOLATION line printed; exit 2: the analysis lost an anchor.
"""
import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from cemlint.core import Check, Broken  # noqa: E402
from cemlint.project import Project     # noqa: E402
from cemlint import purity            # noqa: E402
from cemlint.refs import iterators      # noqa: E402


def known():
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path, encoding="utf-8"):
        line = line.strip()
        if line.startswith("known: "):
            head, _, desc = line[7:].partition(" :: ")
            pid, _, key = head.partition(" ")
            out.setdefault(pid.replace("property=", ""), {})[key.strip()] = desc.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    pid = a.pid
    try:
        project = Project(a.repo)
        if not project.modules:
            raise Broken("no sources found under %s/src/compas_cem" % a.repo)
        mod = importlib.import_module("cemlint.props.%s" % pid.lower())
        specdir = os.path.join(HERE, "cemlint", "spec")
        for f in sorted(os.listdir(specdir)):
            if f.endswith(".py"):
                project.add_spec("spec." + f[:-3], os.path.join(specdir, f))
        ck = Check(pid, project, tier)
        if project.errors:
            for rel, e in project.errors:
                ck.skip("source parses", rel, e)
        mod.run(ck)
        if [o for o in ck.obligations if o[1] != "undecided"]:
            iterators(ck)
            if pid not in ("C06", "C23", "C25"):
                purity.between_calls(ck, set(ck.functions))
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    done = len(ck.obligations)
    if not [o for o in ck.obligations if o[1] != "undecided"]:
        for r, w, t in ck.undecided[:5]:
            print("UNDECIDED property=%s %s (%s): %s" % (pid, r, w, t.splitlines()[0][:300]))
        print("ANALYSIS-BROKEN property=%s no obligation could be decided" % pid)
        return 2
    if done < getattr(mod, "MIN_OBLIGATIONS", 1):
        print("ANALYSIS-BROKEN property=%s only %d obligations generated, at least %d expected" % (pid, done, mod.MIN_OBLIGATIONS))
        return 2
    kf = known().get(pid, {})
    new, old = [], []
    for f in ck.findings:
        (old if f.key in kf else new).append(f)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rep = os.path.join(evdir, pid + ".report.txt")
    files = sorted({f.module.rel for f in ck.functions.values()})
    lines = ["property %s, %s tier" % (pid, tier), ""]
    for f in ck.findings:
        lines += ["%s %s" % ("KNOWN" if f in old else "VIOLATION", f.key), "   at " + f.where, "   " + f.text, ""]
    for r, w, t in ck.undecided:
        lines += ["UNDECIDED %s" % r, "   at " + w, "   " + t, ""]
    lines += ["obligations:"] + ["   %-9s %s  (%s)" % (s, n, w) for n, s, w, d in ck.obligations]
    lines += ["", "functions analysed (%d):" % len(ck.functions)] + ["   %s" % q for q in sorted(ck.functions)]
    ok = sum(1 for o in ck.obligations if o[1] == "ok")
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions in %d files analysed, %.1fs" % (
        pid, done, ok, len(ck.undecided), len(ck.findings), len(ck.functions), len(files), time.time() - t0))
    for r, w, t in ck.undecided:
        print("UNDECIDED property=%s %s (%s): %s" % (pid, r, w, t.splitlines()[0][:300]))
    if not a.no_evidence:
        level = getattr(mod, "LEVEL", "other")
        cov = dict(rule=mod.RULE, obligations=done, discharged=ok, undecided=len(ck.undecided),
                   functions_analysed=len(ck.functions), files_analysed=files,
                   obligation_list=["%s [%s]" % (n, s) for n, s, w, d in ck.obligations],
                   terms=len(__import__("cemlint.terms", fromlist=["_table"])._table), **ck.stats)
        cov["explanation"] = mod.RULE
        cov["checker_cmd"] = "python3 check.py %s" % pid
        cov["trusted_base"] = ["the analyser in /verif/cemlint and its models of compas.datastructures, compas.geometry, numpy, autograd and nlopt",
                               "the reference functions in /verif/cemlint/spec"]
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
                  wall_s=round(time.time() - t0, 3), violations=len(new),
                  assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + ck.assumptions)
        json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
        open(rep, "w").write("\n".join(lines) + "\n")
    for f in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, f.key, kf[f.key]))
    for f in new:
        print("%s: %s: %s" % (f.where, f.rule, f.text))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
