#!/usr/bin/env python3
"""Development aid: apply edits to a scratch copy of /repo and show which checks react.

usage: mutate.py FILE   where FILE holds blocks:
@@ name | expected ids (comma separated, or - for none)
path relative to src/compas_cem
<<<
old text
===
new text
>>>
"""
import concurrent.futures as cf
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ids():
    return sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(ROOT + "/cemlint/props/c*.py"))


def parse(path):
    txt = open(path).read()
    for blk in re.split(r"(?m)^@@ ", txt)[1:]:
        head, rest = blk.split("\n", 1)
        name, _, exp = head.partition("|")
        edits = re.findall(r"(?ms)^(\S+)\n<<<\n(.*?)\n===\n(.*?)\n>>>", rest)
        yield name.strip(), [e.strip() for e in exp.split(",") if e.strip()], edits


def one(job):
    name, exp, edits, only = job
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        for rel, old, new in edits:
            p = os.path.join(d, "src/compas_cem", rel)
            s = open(p).read()
            if s.count(old) < 1:
                import re
                pat = r"\n(?:[ \t]*\n)*".join(re.escape(x) for x in old.split("\n") if x.strip())
                m = re.search(pat, s)
                if m:
                    old = m.group(0)
                    new = new.rstrip("\n")
            if s.count(old) < 1:
                return name, exp, "EDIT DOES NOT APPLY %s" % rel, {}
            open(p, "w").write(s.replace(old, new, 1))
            try:
                compile(open(p).read(), p, "exec")
            except SyntaxError as e:
                return name, exp, "SYNTAX %s" % e, {}
        res = {}
        for pid in only:
            r = subprocess.run([sys.executable, ROOT + "/check.py", pid, "--repo", d, "--no-evidence"], capture_output=True, text=True)
            res[pid] = (r.returncode, r.stdout + r.stderr)
        return name, exp, None, res
    finally:
        shutil.rmtree(d)


def main():
    only = [a for a in sys.argv[2:] if re.match(r"C\d", a)] or ids()
    verbose = "-v" in sys.argv
    jobs = [(n, e, x, only) for n, e, x in parse(sys.argv[1])]
    with cf.ThreadPoolExecutor(8) as ex:
        for name, exp, err, res in ex.map(one, jobs):
            hit = [p for p in res if res[p][0] == 1]
            und = [p for p in res if res[p][0] == 0 and "UNDECIDED" in res[p][1]]
            bad = [p for p in res if res[p][0] not in (0, 1)]
            want = [p for p in exp if p != "-"]
            st = "ok  " if not err and ((want and any(p in hit for p in want)) or (exp == ["-"] and not hit and not bad)) else "MISS" if want else "FALSE" if hit else "?   "
            print("%s %-40s want %-10s hit %s und %s%s %s" % (st, name, ",".join(exp), ",".join(hit) or "-", ",".join(und) or "-", " broken " + ",".join(bad) if bad else "", err or ""))
            if verbose or st in ("FALSE",):
                w = int(os.environ.get("W", "170"))
                for p in (hit + und + bad)[:9 if verbose else 2]:
                    n = 0
                    for line in res[p][1].splitlines()[:400]:
                        if "UNDECIDED" in line or "computes" in line or "requires" in line or "BROKEN" in line:
                            n += 1
                            if n <= (12 if verbose else 4):
                                print("      ", p, line.replace("src/compas_cem/", "")[:w])


main()
