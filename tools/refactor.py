#!/usr/bin/env python3
"""Development aid: generate behaviour-preserving rewrites of every function in scope and report every check that reacts.

usage: refactor.py [-t kind,kind] [-f substring of file:function] [-c C01,C02] [-l N(max sites per function and kind)]
"""
import argparse
import atexit
import ast
import concurrent.futures as cf
import copy
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/compas_cem"
FILES = ["equilibrium/force.py", "equilibrium/force_numpy.py", "diagrams/diagram.py", "diagrams/form.py", "diagrams/topology/topology.py",
         "diagrams/topology/mesh_mixins.py", "diagrams/mixins/node_mixins.py", "diagrams/mixins/edge_mixins.py",
         "optimization/optimizer.py", "optimization/grad.py", "optimization/nlopt.py", "optimization/objective_func.py", "optimization/proxy.py",
         "elements/node.py", "elements/edge.py", "elements/trail.py", "elements/deviation.py", "loads/node.py", "supports/node.py", "data/data.py", "plotters/proxy.py", "viewers/viewer.py", "plotters/plotter.py"]
FILES += sorted(os.path.relpath(f, SRC) for d in ("constraints", "parameters") for f in glob.glob(SRC + "/optimization/%s/*.py" % d) if "__init__" not in f)
FILES += ["plotters/formartist.py", "plotters/topologyartist.py", "viewers/diagramobject.py", "viewers/formobject.py", "viewers/topologyobject.py", "ghpython/artists.py", "optimization/constraints/mesh.py"]
FILES += sorted(os.path.relpath(f, SRC) for f in glob.glob(SRC + "/ghpython/components/*/code.py"))
FILES = [f for i, f in enumerate(FILES) if f not in FILES[:i]]
FILES = [f for f in FILES if os.path.exists(os.path.join(SRC, f))]
N = ast.parse


def stmts(src):
    return ast.parse(src).body


def expr(src):
    return ast.parse(src, mode="eval").body


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def blocks(fn):
    """every statement list under fn (not inside nested functions)"""
    todo = [fn]
    while todo:
        x = todo.pop()
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield x, f, b
                todo.extend(y for y in b if not isinstance(y, (ast.FunctionDef, ast.ClassDef)))
        for h in getattr(x, "handlers", []):
            todo.append(h)


def names(nodes, ctx):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ctx):
                out.add(x.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                out.add(x.target.id)
            if isinstance(x, (ast.Import, ast.ImportFrom)) and ctx is ast.Store:
                out.update(y.asname or y.name for y in x.names)
    return out


def comp_names(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.comprehension):
                out |= names([x.target], ast.Store)
            if isinstance(x, ast.Lambda):
                out |= {a.arg for a in x.args.args}
    return out


def has_jump(nodes):
    def go(x, loop):
        if isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.Break, ast.Continue)) and not loop:
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            return False
        l2 = loop or isinstance(x, (ast.For, ast.While))
        return any(go(y, l2) for y in ast.iter_child_nodes(x))
    return any(go(n, False) for n in nodes)


def terminal(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Ctx:
    def __init__(self, tree, fn, cls):
        self.tree, self.fn, self.cls = tree, fn, cls


# each transformation: generator of thunks; a thunk mutates the tree in place.  They are enumerated on a fresh copy each time.
def t_ret(c):
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                def go(b=b, i=i, s=s):
                    b[i:i + 1] = [ast.Assign([name("result_", True)], s.value), ast.Return(name("result_"))]
                yield go


def t_temp(c):
    """first argument of a call into a local"""
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and isinstance(getattr(s, "value", None), ast.Call):
                for j, a in enumerate(s.value.args[:1]):
                    if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript, ast.Attribute, ast.List)):
                        def go(b=b, i=i, s=s, j=j, a=a):
                            s.value.args[j] = name("arg_")
                            b.insert(i, ast.Assign([name("arg_", True)], a))
                        yield go


def t_invert(c):
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse:
                def go(s=s):
                    s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body
                yield go


def t_guard(c):
    """if c: <leave>; rest   ->  if not c: rest  (continue)   or  if c: <leave> else: rest"""
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and terminal(s.body) and i + 1 < len(b):
                if len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and isinstance(o, (ast.For, ast.While)):
                    def go(b=b, i=i, s=s):
                        rest = b[i + 1:]
                        b[i:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), rest, [])]
                else:
                    def go(b=b, i=i, s=s):
                        s.orelse = b[i + 1:]
                        del b[i + 1:]
                yield go


def t_unelse(c):
    """if c: return/raise else: rest -> no else"""
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and terminal(s.body):
                def go(b=b, i=i, s=s):
                    rest, s.orelse = s.orelse, []
                    b[i + 1:i + 1] = rest
                yield go


def t_nestif(c):
    """last statement of a loop body `if c: A` -> `if not c: continue; A`"""
    for o, f, b in blocks(c.fn):
        if isinstance(o, (ast.For, ast.While)) and f == "body" and isinstance(b[-1], ast.If) and not b[-1].orelse:
            def go(b=b):
                s = b[-1]
                b[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body
            yield go


def t_index(c):
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range"):
                def go(b=b, i=i, s=s):
                    b[i:i + 1] = [ast.Assign([name("items_", True)], ast.Call(name("list"), [s.iter], [])),
                                  ast.For(name("i_", True), expr("range(len(items_))"), [ast.Assign([s.target], expr("items_[i_]"))] + s.body, s.orelse)]
                yield go


def t_while(c):
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1:
                def go(b=b, i=i, s=s):
                    b[i:i + 1] = stmts("i_ = 0") + [ast.While(ast.Compare(name("i_"), [ast.Lt()], [s.iter.args[0]]), [ast.Assign([s.target], name("i_"))] + stmts("i_ += 1") + s.body, s.orelse)]
                yield go
            elif isinstance(s, ast.For):
                def go(b=b, i=i, s=s):
                    b[i:i + 1] = [ast.Assign([name("items_", True)], ast.Call(name("list"), [s.iter], []))] + stmts("i_ = 0") + [
                        ast.While(expr("i_ < len(items_)"), [ast.Assign([s.target], expr("items_[i_]"))] + stmts("i_ += 1") + s.body, s.orelse)]
                yield go


def t_enum(c):
    """for x in L -> for n_, x in enumerate(L)"""
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.For):
                def go(s=s):
                    s.target = ast.Tuple([name("n_", True), s.target], ast.Store())
                    s.iter = ast.Call(name("enumerate"), [s.iter], [])
                yield go


def t_comp(c):
    """comprehension assigned or returned -> loop"""
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b):
            v = getattr(s, "value", None)
            holder = None
            if isinstance(s, (ast.Assign, ast.Return)):
                if isinstance(v, (ast.ListComp, ast.DictComp)):
                    holder = (s, "value", v)
                elif isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)):
                    holder = (v.args, 0, v.args[0])
            if holder is None or len(holder[2].generators) != 1:
                continue

            def go(b=b, i=i, s=s, h=holder):
                k, at, v = h
                g = v.generators[0]
                if isinstance(v, ast.DictComp):
                    inner = [ast.Assign([ast.Subscript(name("acc_"), v.key, ast.Store())], v.value)]
                    init = "acc_ = {}"
                else:
                    inner = [ast.Expr(ast.Call(ast.Attribute(name("acc_"), "append", ast.Load()), [v.elt], []))]
                    init = "acc_ = []"
                for cnd in reversed(g.ifs):
                    inner = [ast.If(cnd, inner, [])]
                if isinstance(at, str):
                    setattr(k, at, name("acc_"))
                else:
                    k[at] = name("acc_")
                b[i:i] = stmts(init) + [ast.For(g.target, g.iter, inner, [])]
            yield go


def t_append(c):
    """x = []; for a in L: [if c:] x.append(e)  -> comprehension"""
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b[:-1]):
            n = b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(n, ast.For) and len(n.body) == 1 and not n.orelse:
                q = n.body[0]
                ifs = []
                if isinstance(q, ast.If) and not q.orelse and len(q.body) == 1:
                    ifs = [q.test]
                    q = q.body[0]
                if isinstance(q, ast.Expr) and isinstance(q.value, ast.Call) and isinstance(q.value.func, ast.Attribute) and q.value.func.attr == "append":
                    def go(b=b, i=i, s=s, n=n, q=q, ifs=ifs):
                        s.value = ast.ListComp(q.value.args[0], [ast.comprehension(n.target, n.iter, ifs, 0)])
                        del b[i + 1]
                    yield go


def t_helper(c):
    """block of statements into a new module-level function"""
    for o, f, b in blocks(c.fn):
        if o is c.fn:
            b2 = [s for s in b if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            cands = [(k, b2[k:k + 2]) for k in range(0, max(0, len(b2) - 1))]
        else:
            cands = [(None, list(b))]
        for k, blk in cands:
            if has_jump(blk) or any(isinstance(x, (ast.FunctionDef, ast.Global)) for s in blk for x in ast.walk(s)) or "super" in names(blk, ast.Load):
                continue
            if all(isinstance(s, (ast.Raise, ast.Pass)) for s in blk):
                continue
            args = {a.arg for a in c.fn.args.args + c.fn.args.kwonlyargs}
            if c.fn.args.kwarg:
                args.add(c.fn.args.kwarg.arg)
            if c.fn.args.vararg:
                args.add(c.fn.args.vararg.arg)
            nested = {x.name for x in ast.walk(c.fn) if isinstance(x, ast.FunctionDef) and x is not c.fn}
            local = names([c.fn], ast.Store) | args | nested
            stored = (names(blk, ast.Store) - comp_names(blk))
            loaded = (names(blk, ast.Load) & local) - comp_names(blk)
            # stored names needed elsewhere
            rest_loads = set()
            inside = {id(x) for s in blk for x in ast.walk(s)}
            for x in ast.walk(c.fn):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside:
                    rest_loads.add(x.id)
            outs = sorted(stored & rest_loads)
            # names possibly read before written inside: pass them if defined before (params or stored outside blk)
            outside_st = {y.asname or y.name for x in ast.walk(c.fn) if isinstance(x, ast.ImportFrom) and id(x) not in inside for y in x.names} | {x.id for x in ast.walk(c.fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in inside} | args | nested
            ins = sorted((loaded | set(outs)) & outside_st & (loaded | set(outs)))
            # only pass outs which are conditionally written
            uncond = set()
            for s in blk:
                if isinstance(s, (ast.Assign, ast.AugAssign)):
                    uncond |= names([s], ast.Store)
            ins = [x for x in ins if x in loaded or x not in uncond]
            if any(x not in uncond and x not in ins and isinstance(s, ast.If) for s in blk for x in outs):
                continue

            def go(b=b, blk=blk, ins=ins, outs=outs, c=c):
                i = b.index(blk[0])
                body = list(blk)
                if outs:
                    ret = name(outs[0]) if len(outs) == 1 else ast.Tuple([name(x) for x in outs], ast.Load())
                    body = body + [ast.Return(ret)]
                fn = ast.FunctionDef("helper_", ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []), body, [])
                call = ast.Call(name("helper_"), [name(x) for x in ins], [])
                if outs:
                    tgt = name(outs[0], True) if len(outs) == 1 else ast.Tuple([name(x, True) for x in outs], ast.Store())
                    new = ast.Assign([tgt], call)
                else:
                    new = ast.Expr(call)
                b[i:i + len(blk)] = [new]
                k = next(j for j, x in enumerate(c.tree.body) if c.fn in ast.walk(x))
                c.tree.body.insert(k, fn)
            yield go


def t_method(c):
    """loop body into a new method of the class"""
    if c.cls is None or not c.fn.args.args or c.fn.args.args[0].arg != "self":
        return
    n = [0]
    for go in t_helper(c):
        def go2(go=go):
            before = set(map(id, c.tree.body))
            go()
            fn = next(x for x in c.tree.body if id(x) not in before)
            c.tree.body.remove(fn)
            if "self" not in [a.arg for a in fn.args.args]:
                fn.args.args.insert(0, ast.arg("self"))
            else:
                fn.args.args.sort(key=lambda a: a.arg != "self")
            c.cls.body.append(fn)
            for x in ast.walk(c.fn):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "helper_":
                    x.func = ast.Attribute(name("self"), "helper_", ast.Load())
                    x.args = [a for a in x.args if a.id != "self"]
        yield go2


def t_aug(c):
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign):
                def go(b=b, i=i, s=s):
                    t = copy.deepcopy(s.target)
                    for x in ast.walk(t):
                        if hasattr(x, "ctx") and x is t:
                            x.ctx = ast.Load()
                    b[i] = ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
                yield go


def t_rename(c):
    loc = names([c.fn], ast.Store) - {a.arg for a in c.fn.args.args}
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not c.fn for x in ast.walk(c.fn)):
        return
    if loc:
        def go():
            for x in ast.walk(c.fn):
                if isinstance(x, ast.Name) and x.id in loc:
                    x.id = "zz_" + x.id
        yield go


def t_ifexp(c):
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                def go(b=b, i=i, s=s):
                    v = s.value
                    s2 = copy.deepcopy(s)
                    s.value, s2.value = v.body, v.orelse
                    b[i] = ast.If(v.test, [s], [s2])
                yield go
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
                    and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                def go(b=b, i=i, s=s):
                    b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
                yield go
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None and not s.orelse and i + 2 == len(b) and isinstance(b[i + 1], ast.Return) and b[i + 1].value is not None:
                def go(b=b, i=i, s=s):
                    b[i:] = [ast.Return(ast.IfExp(s.test, s.body[0].value, b[i + 1].value))]
                yield go


def simple(e):
    return all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute, ast.Subscript, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context, ast.List, ast.Tuple, ast.Dict))
               or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("dict", "list", "set", "len", "float") for x in ast.walk(e))


def t_swap(c):
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b[:-1]):
            n = b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(n, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(n.targets[0], ast.Name) and (simple(s.value) or simple(n.value)):
                a, d = s.targets[0].id, n.targets[0].id
                if a != d and a not in names([n.value], ast.Load) and d not in names([s.value], ast.Load):
                    def go(b=b, i=i):
                        b[i], b[i + 1] = b[i + 1], b[i]
                    yield go


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def t_flip(c):
    for x in ast.walk(c.fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in FLIP:
            def go(x=x):
                x.left, x.comparators, x.ops = x.comparators[0], [x.left], [FLIP[type(x.ops[0])]()]
            yield go


def t_neg(c):
    for x in ast.walk(c.fn):
        for fld in ("test",):
            t = getattr(x, fld, None)
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in NEG and isinstance(x, (ast.If, ast.IfExp)):
                def go(x=x, t=t):
                    t.ops = [NEG[type(t.ops[0])]()]
                    x.test = ast.UnaryOp(ast.Not(), t)
                yield go
            if isinstance(t, ast.BoolOp):
                def go(x=x, t=t):
                    op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
                    x.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
                yield go


def t_unpack(c):
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Name):
                def go(b=b, i=i, s=s):
                    b[i:i + 1] = [ast.Assign([t], ast.Subscript(s.value, ast.Constant(j), ast.Load())) for j, t in enumerate(s.targets[0].elts)]
                yield go
            if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple):
                def go(s=s):
                    t = s.target
                    s.target = name("pair_", True)
                    s.body.insert(0, ast.Assign([t], name("pair_")))
                yield go
                if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" and isinstance(s.target.elts[0], ast.Name):
                    def go(s=s):
                        d = s.iter.func.value
                        k, v = s.target.elts
                        s.target, s.iter = k, d
                        s.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(d), name(k.id), ast.Load())))
                    yield go


def t_noop(c):
    def go():
        k = 1 if isinstance(c.fn.body[0], ast.Expr) and isinstance(c.fn.body[0].value, ast.Constant) else 0
        c.fn.body[k:k] = stmts("_unused = None")
    yield go

    def go():
        c.fn.body[len(c.fn.body) - 1:len(c.fn.body) - 1] = stmts("if False:\n    print('never')")
    yield go


def t_posargs(c):
    """keyword arguments of node_attribute etc. -> positional"""
    order = {"node_attribute": ["key", "name", "value"], "edge_attribute": ["key", "name", "value"], "node_attributes": ["key", "names", "values"]}
    for x in ast.walk(c.fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in order:
            o = order[x.func.attr]
            if x.keywords:
                def go(x=x, o=o):
                    kw = {k.arg: k.value for k in x.keywords}
                    for n in o[len(x.args):]:
                        if n in kw:
                            x.args.append(kw.pop(n))
                        else:
                            break
                    x.keywords = [ast.keyword(k, v) for k, v in kw.items()]
                yield go
            elif len(x.args) > 1:
                def go(x=x, o=o):
                    x.keywords = [ast.keyword(n, v) for n, v in zip(o[1:], x.args[1:])]
                    del x.args[1:]
                yield go


def t_inline(c):
    """calls of single-expression module functions replaced by their expression"""
    mod = {f.name: f for f in c.tree.body if isinstance(f, ast.FunctionDef)}
    for parent in ast.walk(c.fn):
        for fld, v in ast.iter_fields(parent):
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in mod and not v.keywords:
                h = mod[v.func.id]
                body = [s for s in h.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if len(body) == 1 and isinstance(body[0], ast.Return) and len(v.args) == len(h.args.args):
                    def go(parent=parent, fld=fld, v=v, h=h, body=body):
                        m = {a.arg: x for a, x in zip(h.args.args, v.args)}

                        class S(ast.NodeTransformer):
                            def visit_Name(self, n):
                                return copy.deepcopy(m[n.id]) if n.id in m and isinstance(n.ctx, ast.Load) else n
                        setattr(parent, fld, S().visit(copy.deepcopy(body[0].value)))
                    yield go


def t_gen(c):
    """any([..]) -> any(..) and back; list(x) wrap of iterables"""
    for x in ast.walk(c.fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("any", "all", "sum", "set", "tuple", "max", "min") and x.args:
            a = x.args[0]
            if isinstance(a, ast.ListComp):
                def go(x=x, a=a):
                    x.args[0] = ast.GeneratorExp(a.elt, a.generators)
                yield go
            elif isinstance(a, ast.GeneratorExp):
                def go(x=x, a=a):
                    x.args[0] = ast.ListComp(a.elt, a.generators)
                yield go
        if isinstance(x, ast.For):
            def go(x=x):
                x.iter = ast.Call(name("list"), [x.iter], [])
            yield go
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" and isinstance(x.args[0], ast.Call) and isinstance(x.args[0].func, ast.Name) and x.args[0].func.id == "list":
            def go(x=x):
                it = x.args[0].args[0]
                x.func.id = "sum"
                x.args = [ast.GeneratorExp(ast.Constant(1), [ast.comprehension(name("_", True), it, [], 0)])]
            yield go


def t_literal(c):
    for p in ast.walk(c.fn):
        for fld, v in ast.iter_fields(p):
            for holder, at, x in ([(p, fld, v)] if isinstance(v, ast.AST) else [(v, i, y) for i, y in enumerate(v)] if isinstance(v, list) else []):
                new = None
                if isinstance(x, ast.Dict) and not x.keys:
                    new = expr("dict()")
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "dict" and not x.args and not x.keywords:
                    new = expr("{}")
                elif isinstance(x, ast.List) and not x.elts and isinstance(x.ctx, ast.Load):
                    new = expr("list()")
                if new is not None:
                    def go(h=holder, at=at, new=new):
                        if isinstance(at, str):
                            setattr(h, at, new)
                        else:
                            h[at] = new
                    yield go


def t_mergeif(c):
    """if a: if b: X -> if a and b: X;  if a and b: X -> nested"""
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
                def go(s=s):
                    s.test, s.body = ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body
                yield go
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                def go(s=s):
                    rest = s.test.values[1:]
                    inner = ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), s.body, [])
                    s.test, s.body = s.test.values[0], [inner]
                yield go
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and terminal(s.body):
                def go(b=b, i=i, s=s):
                    b[i:i + 1] = [ast.If(v, copy.deepcopy(s.body), []) for v in s.test.values]
                yield go


def t_bool(c):
    """if x: return True; return False -> return bool(x)"""
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b[:-1]):
            n = b[i + 1]
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.body[0].value, ast.Constant) and s.body[0].value.value is True \
                    and isinstance(n, ast.Return) and isinstance(n.value, ast.Constant) and n.value.value is False:
                def go(b=b, i=i, s=s):
                    b[i:i + 2] = [ast.Return(ast.Call(name("bool"), [s.test], []))]
                yield go
            if isinstance(s, ast.Assert):
                pass
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Compare):
                def go(b=b, i=i, s=s):
                    b[i:i + 1] = [ast.If(s.value, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))]
                yield go


def t_assert(c):
    for o, f, b in blocks(c.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assert):
                def go(b=b, i=i, s=s):
                    b[i] = ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Raise(ast.Call(name("AssertionError"), [s.msg] if s.msg else [], []), None)], [])
                yield go


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}


def functions(tree):
    for x in tree.body:
        if isinstance(x, ast.FunctionDef):
            yield x.name, x, None
        elif isinstance(x, ast.ClassDef):
            for y in x.body:
                if isinstance(y, ast.FunctionDef):
                    yield x.name + "." + y.name, y, x


def produce(rel, limit, kinds, pat):
    src = open(os.path.join(SRC, rel)).read()
    base = ast.parse(src)
    nfun = len(list(functions(base)))
    for fi in range(nfun):
        fname = list(functions(base))[fi][0]
        if pat and pat not in "%s:%s" % (rel, fname):
            continue
        for k in kinds:
            site = 0
            while site < limit:
                tree = ast.parse(src)
                _, fn, cls = list(functions(tree))[fi]
                thunk = None
                for j, go in enumerate(KINDS[k](Ctx(tree, fn, cls))):
                    if j == site:
                        thunk = go
                        break
                if thunk is None:
                    break
                thunk()
                ast.fix_missing_locations(tree)
                try:
                    new = ast.unparse(tree)
                    compile(new, rel, "exec")
                except Exception as e:
                    new = None
                    print("bad transformation", rel, fname, k, site, e)
                if new and new != ast.unparse(base):
                    yield "%s:%s %s#%d" % (rel, fname, k, site), rel, new
                site += 1


def relevant():
    out = {}
    for f in glob.glob(ROOT + "/evidence/C*.json"):
        e = json.load(open(f))
        for x in e["coverage"].get("files_analysed", []):
            out.setdefault(x.replace("src/compas_cem/", ""), set()).add(e["property"])
    return out


def one(job):
    tag, rel, new, pids = job
    d = tempfile.mkdtemp(prefix="ref_")
    try:
        shutil.copytree(os.environ.get("SNAP", "/repo/src"), d + "/src", ignore=shutil.ignore_patterns("__pycache__", "*.png"))
        open(os.path.join(d, "src/compas_cem", rel), "w").write(new)
        res = []
        for pid in pids:
            r = subprocess.run([sys.executable, ROOT + "/check.py", pid, "--repo", d, "--no-evidence"], capture_output=True, text=True)
            und = r.stdout.count("UNDECIDED")
            if r.returncode or und:
                res.append((pid, r.returncode, und, (r.stdout + r.stderr)))
        return tag, res
    finally:
        shutil.rmtree(d)


def snapshot():
    """work from a copy, so that /repo may change meanwhile"""
    d = tempfile.mkdtemp(prefix="snap_")
    atexit.register(shutil.rmtree, d)
    shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__", "*.png"))
    os.environ["SNAP"] = d + "/src"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-t", default="")
    ap.add_argument("-f", default="")
    ap.add_argument("-c", default="")
    ap.add_argument("-l", type=int, default=3)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--show", action="store_true", help="print the rewritten functions and stop")
    ap.add_argument("-v", type=int, default=0)
    a = ap.parse_args()
    snapshot()
    kinds = a.t.split(",") if a.t else sorted(KINDS)
    rel = relevant()
    jobs = []
    for f in FILES:
        pids = sorted(rel.get(f, ()))
        if a.c:
            pids = [p for p in pids if p in a.c.split(",")]
        if not pids:
            continue
        for tag, r, new in produce(f, a.l, kinds, a.f):
            jobs.append((tag, r, new, pids))
    if a.show:
        for tag, r, new, _ in jobs:
            old = ast.unparse(ast.parse(open(os.path.join(SRC, r)).read()))
            import difflib
            print("#####", tag)
            print("\n".join(l for l in difflib.unified_diff(old.split("\n"), new.split("\n"), lineterm="", n=2) if not l.startswith(("---", "+++"))))
        return
    print(len(jobs), "rewrites", flush=True)
    n = dict(ok=0, false=0, none=0, und=0)
    with cf.ProcessPoolExecutor(a.j) as ex:
        for tag, res in ex.map(one, jobs):
            st = "ok"
            if any(r[1] == 1 for r in res):
                st = "false"
            elif any(r[1] not in (0, 1) for r in res):
                st = "none"
            elif res:
                st = "und"
            n[st] += 1
            if st != "ok":
                print("%-6s %-70s %s" % (st, tag, " ".join("%s:%s%s" % (p, rc, "(%d)" % u if u else "") for p, rc, u, _ in res)), flush=True)
                if a.v:
                    for p, rc, u, o in res:
                        for l in o.split("\n"):
                            if "computes" in l or "requires" in l or "UNDEC" in l or "BROKEN" in l or "Error" in l:
                                print("      ", p, l[:a.v])
    print(n)


if __name__ == "__main__":
    main()
