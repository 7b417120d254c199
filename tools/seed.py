#!/usr/bin/env python3
"""Build /verif/seeded/<id> from tools-side descriptions: apply each edit to /repo, confirm build, tests and demo, keep, undo.

usage: seed.py FILE [id ...]      FILE defines BUGS = [dict(id, property, edits=[(rel, old, new)], needs, breaks, demo)]
"""
import json
import os
import shutil
import subprocess
import sys

REPO = "/repo"
OUT = "/verif/seeded"
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)


def tests():
    if sh("bash /opt/vp/build.sh").returncode:
        return "build fails"
    sh("bash /opt/vp/test.sh /tmp/seedtest.json")
    d = json.load(open("/tmp/seedtest.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base if isinstance(base, list) else base.get("passed", base.get("tests", base.get("stable", [])))
    miss = set(want) - set(d["passed"])
    return "" if not miss and len(d["passed"]) >= 92 else "tests fail: %s" % sorted(miss)[:3]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo not clean")
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = os.path.join(OUT, b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        err = ""
        r = sh("bash %s/demo.sh" % d, cwd=REPO)
        if r.returncode:
            err = "demo fails on the unchanged tree: " + r.stdout.decode()[-300:]
        try:
            for rel, old, new in b["edits"]:
                p = os.path.join(REPO, "src/compas_cem", rel)
                s = open(p).read()
                if s.count(old) != 1:
                    err = "edit matches %d times in %s" % (s.count(old), rel)
                    break
                open(p, "w").write(s.replace(old, new))
            if not err:
                open(d + "/patch.diff", "wb").write(sh("git -C /repo diff").stdout)
                err = tests()
            if not err and sh("bash %s/demo.sh" % d, cwd=REPO).returncode == 0:
                err = "demo passes with the patch"
            hits = []
            if not err:
                ids = sorted(f[:-3].upper() for f in os.listdir("/verif/cemlint/props") if f.startswith("c") and f.endswith(".py"))
                for i in ids:
                    r = sh("python3 /verif/check.py %s --no-evidence" % i)
                    if r.returncode != 0:
                        hits.append(i + ("" if r.returncode == 1 else "!%d" % r.returncode))
        finally:
            sh("git -C /repo checkout -- .")
        if err:
            shutil.rmtree(d)
        print("%-28s %-4s %s" % (b["id"], b["property"], err or "caught by %s" % (hits or "NOTHING")), flush=True)
    sh("bash /opt/vp/build.sh")


main()
