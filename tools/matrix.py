#!/usr/bin/env python3
"""Which checks catch which planted bug: every check on a copy of the sources with each seeded patch; writes dev/matrix.json."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "dev", "matrix.json")
CHECKS = ["C%02d" % i for i in range(1, 27)]


def one(bug):
    d = tempfile.mkdtemp(prefix="mx")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory", d, os.path.join(HERE, "seeded", bug, "patch.diff")], check=True, cwd="/")
        hit = []
        for c in CHECKS:
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), c, "--repo", d, "--no-evidence"], capture_output=True, text=True)
            if r.returncode == 1:
                hit.append(c)
            elif r.returncode:
                hit.append(c + "?")
        return bug, hit
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    bugs = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    table = json.load(open(OUT)) if os.path.exists(OUT) else {}
    with ThreadPoolExecutor(8) as ex:
        for bug, hit in ex.map(one, bugs):
            table[bug] = hit
            print(bug, *hit)
    json.dump(table, open(OUT, "w"), indent=1, sort_keys=True)
