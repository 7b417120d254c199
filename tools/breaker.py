#!/usr/bin/env python3
"""Development aid: generate small behaviour-changing edits of every function in scope and list those no check reacts to.

usage: breaker.py [-f substring of file:function] [-t kinds] [-l N per function and kind] ; survivors are printed with their diff
"""
import argparse
import warnings
import ast
import concurrent.futures as cf
import difflib
import os
import shutil
import subprocess
import sys
import tempfile

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactor as R

CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Add}


def slots(fn):
    """every expression slot (holder, index/field, node)"""
    for p in ast.walk(fn):
        for fld, v in ast.iter_fields(p):
            if fld in ("annotation", "decorator_list", "returns", "ctx"):
                continue
            if isinstance(v, ast.expr):
                yield p, fld, v
            elif isinstance(v, list):
                for i, y in enumerate(v):
                    if isinstance(y, ast.expr):
                        yield v, i, y


def put(h, at, new):
    if isinstance(at, str):
        setattr(h, at, new)
    else:
        h[at] = new


def m_cmp(c):
    for x in ast.walk(c.fn):
        if isinstance(x, ast.Compare):
            for i, o in enumerate(x.ops):
                for n in CMP.get(type(o), []):
                    def go(x=x, i=i, n=n):
                        x.ops[i] = n()
                    yield go


def m_bin(c):
    for x in ast.walk(c.fn):
        if isinstance(x, (ast.BinOp, ast.AugAssign)) and type(x.op) in BIN:
            def go(x=x):
                x.op = BIN[type(x.op)]()
            yield go
        if isinstance(x, ast.AugAssign):
            def go(x=x):
                x.op = ast.Add()
                x.value = ast.Constant(0)
            yield go


def docs(fn):
    return {id(s.value) for x in ast.walk(fn) for s in (getattr(x, "body", None) if isinstance(getattr(x, "body", None), list) else []) if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)}


def m_const(c):
    d = docs(c.fn)
    for h, at, x in slots(c.fn):
        if isinstance(x, ast.Constant) and id(x) not in d:
            v = x.value
            new = []
            if isinstance(v, bool):
                new = [not v]
            elif isinstance(v, (int, float)):
                new = [v + 1, -v] if v else [1]
            elif isinstance(v, str) and " " in v:
                new = []
            elif isinstance(v, str):
                new = [v + "_"]
            elif v is None:
                new = [0]
            for n in new:
                def go(h=h, at=at, n=n):
                    put(h, at, ast.Constant(n))
                yield go


def m_neg(c):
    for h, at, x in slots(c.fn):
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.USub, ast.Not)):
            def go(h=h, at=at, x=x):
                put(h, at, x.operand)
            yield go


def m_cond(c):
    for x in ast.walk(c.fn):
        if isinstance(x, (ast.If, ast.IfExp)):
            for v in (True, False):
                def go(x=x, v=v):
                    x.test = ast.Constant(v)
                yield go
        if isinstance(x, ast.BoolOp):
            for i in range(len(x.values)):
                def go(x=x, i=i):
                    del x.values[i]
                    if len(x.values) == 1:
                        x.values.append(ast.Constant(isinstance(x.op, ast.And)))
                yield go
        if isinstance(x, ast.comprehension):
            for i in range(len(x.ifs)):
                def go(x=x, i=i):
                    del x.ifs[i]
                yield go


def m_del(c):
    for o, f, b in R.blocks(c.fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Return, ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Pass)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            def go(b=b, i=i):
                b[i:i + 1] = [ast.Pass()]
            yield go


def m_args(c):
    for x in ast.walk(c.fn):
        if isinstance(x, ast.Call):
            for i in range(len(x.args) - 1):
                def go(x=x, i=i):
                    x.args[i], x.args[i + 1] = x.args[i + 1], x.args[i]
                yield go
            for i in range(len(x.keywords)):
                def go(x=x, i=i):
                    del x.keywords[i]
                yield go
            if len(x.args) > 1:
                def go(x=x):
                    x.args.pop()
                yield go
        if isinstance(x, (ast.Tuple, ast.List)) and isinstance(x.ctx, ast.Load) and 2 <= len(x.elts) <= 4:
            def go(x=x):
                x.elts[0], x.elts[1] = x.elts[1], x.elts[0]
            yield go


def m_jump(c):
    for o, f, b in R.blocks(c.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Continue):
                def go(b=b, i=i):
                    b[i] = ast.Break()
                yield go
            if isinstance(s, ast.Break):
                def go(b=b, i=i):
                    b[i] = ast.Continue()
                yield go
            if isinstance(s, (ast.For, ast.While)):
                def go(s=s):
                    s.body.append(ast.Break())
                yield go


def m_or(c):
    """`x is None` -> `not x`; strip abs/fabs/copy/deepcopy/list/sorted/float calls"""
    for h, at, x in slots(c.fn):
        if isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.Is, ast.IsNot)):
            def go(h=h, at=at, x=x):
                put(h, at, ast.UnaryOp(ast.Not(), x.left) if isinstance(x.ops[0], ast.Is) else x.left)
            yield go
        if isinstance(x, ast.Call) and len(x.args) == 1 and not x.keywords and isinstance(x.func, ast.Name) and not isinstance(x.args[0], ast.Starred):
            def go(h=h, at=at, x=x):
                put(h, at, x.args[0])
            yield go
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and not x.args and not x.keywords:
            def go(h=h, at=at, x=x):
                put(h, at, x.func.value)
            yield go
        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice) and isinstance(x.ctx, ast.Load):
            def go(h=h, at=at, x=x):
                put(h, at, x.value)
            yield go


def m_var(c):
    """a local read replaced by another local of the same function"""
    loc = sorted(R.names([c.fn], ast.Store) | {a.arg for a in c.fn.args.args} - {"self", "cls"})
    for h, at, x in slots(c.fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in loc and len(loc) > 1:
            n = loc[(loc.index(x.id) + 1) % len(loc)]
            def go(h=h, at=at, n=n):
                put(h, at, R.name(n))
            yield go


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("m_")}


def one(job):
    tag, rel, new, pids = job
    d = tempfile.mkdtemp(prefix="brk_")
    try:
        shutil.copytree(os.environ.get("SNAP", "/repo/src"), d + "/src", ignore=shutil.ignore_patterns("__pycache__", "*.png"))
        open(os.path.join(d, "src/compas_cem", rel), "w").write(new)
        und = []
        for pid in pids:
            r = subprocess.run([sys.executable, R.ROOT + "/check.py", pid, "--repo", d, "--no-evidence"], capture_output=True, text=True)
            if r.returncode == 1:
                return tag, "caught", pid
            if r.returncode or "UNDECIDED" in r.stdout:
                und.append("%s:%s" % (pid, r.returncode))
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "tests"], cwd="/repo", capture_output=True, text=True, timeout=120,
                               env=dict(os.environ, PYTHONPATH=d + "/src", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
            if t.returncode:
                return tag, "tests", ""
        except subprocess.TimeoutExpired:
            return tag, "tests", ""
        return tag, "und" if und else "SURVIVES", " ".join(und)
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-t", default="")
    ap.add_argument("-f", default="")
    ap.add_argument("-l", type=int, default=40)
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    R.snapshot()
    kinds = a.t.split(",") if a.t else sorted(KINDS)
    R.KINDS = KINDS
    rel = R.relevant()
    order = {p: i for i, p in enumerate("C23 C10 C08 C16 C12 C13 C17 C18 C19 C05 C09 C07 C01 C02 C03 C04 C14 C15 C06 C11 C20 C21 C22 C24".split())}
    jobs = []
    for f in R.FILES:
        pids = sorted(rel.get(f, ()), key=lambda p: order.get(p, 99))
        for tag, r, new in R.produce(f, a.l, kinds, a.f):
            jobs.append((tag, r, new, pids))
    print(len(jobs), "edits", flush=True)
    n = {}
    text = {j[0]: j for j in jobs}
    with cf.ProcessPoolExecutor(a.j) as ex:
        for tag, st, info in ex.map(one, jobs):
            n[st] = n.get(st, 0) + 1
            if st not in ("caught", "tests"):
                _, r, new, _ = text[tag]
                old = ast.unparse(ast.parse(open(os.path.join(R.SRC, r)).read()))
                dl = [l for l in difflib.unified_diff(old.split("\n"), new.split("\n"), lineterm="", n=0) if not l.startswith(("---", "+++", "@@"))]
                print("%-8s %s  %s\n    %s" % (st, tag, info, "\n    ".join(l[:170] for l in dl[:6])), flush=True)
    print(n)


if __name__ == "__main__":
    main()
