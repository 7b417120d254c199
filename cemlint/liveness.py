"""Backward liveness of local names on the syntax tree of one function."""
import ast


def reads(node):
    """names read anywhere in an expression or statement (nested scopes included)"""
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store):
            out.add(x.id)
    return out


def targets(t, out, rd):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            targets(e, out, rd)
    elif isinstance(t, ast.Starred):
        targets(t.value, out, rd)
    else:
        rd |= reads(t)


class Liveness(object):
    """after[id(loop)] = names live once the loop is over (its else clause included)"""

    def __init__(self, func):
        self.after = {}
        self.always = set()
        for x in ast.walk(func):
            if x is not func and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                self.always |= reads(x)
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                self.always |= set(x.names)
        body = func.body if isinstance(func.body, list) else [ast.Expr(func.body)]
        self.block(body, set(), set(), set(), set())

    def block(self, stmts, live, brk, cont, exc):
        for s in reversed(stmts):
            live = self.stmt(s, live, brk, cont, exc)
        return live

    def stmt(self, s, live, brk, cont, exc):
        if isinstance(s, (ast.Return, ast.Raise)):
            return reads(s) | exc
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, ast.Assign):
            w, r = set(), set()
            for t in s.targets:
                targets(t, w, r)
            return (live - w) | r | reads(s.value) | exc
        if isinstance(s, ast.AnnAssign):
            w, r = set(), set()
            targets(s.target, w, r)
            return (live - (w if s.value is not None else set())) | r | (reads(s.value) if s.value is not None else set()) | exc
        if isinstance(s, ast.AugAssign):
            r = reads(s.value)
            for x in ast.walk(s.target):
                if isinstance(x, ast.Name):
                    r.add(x.id)
            return live | r | exc
        if isinstance(s, ast.If):
            return reads(s.test) | self.block(s.body, set(live), brk, cont, exc) | self.block(s.orelse, set(live), brk, cont, exc)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            end = self.block(s.orelse, set(live), brk, cont, exc)
            self.after[id(s)] = self.after.get(id(s), set()) | end | live
            w, r = set(), set()
            targets(s.target, w, r)
            head = set(end)
            while True:
                b = (self.block(s.body, set(head), live, head, exc) - w) | r
                if b <= head:
                    break
                head |= b
            return head | reads(s.iter) | exc
        if isinstance(s, ast.While):
            end = self.block(s.orelse, set(live), brk, cont, exc)
            self.after[id(s)] = self.after.get(id(s), set()) | end | live
            head = end | reads(s.test)
            while True:
                b = self.block(s.body, set(head), live, head, exc)
                if b <= head:
                    break
                head |= b
            return head | exc
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, set(live), brk, cont, exc)
            h = self.block(s.finalbody, set(exc), brk, cont, exc) if s.finalbody else set()
            for x in s.handlers:
                hb = self.block(x.body, set(fin), brk, cont, exc)
                if x.type is not None:
                    hb |= reads(x.type)
                h |= hb - ({x.name} if x.name else set())
            e = self.block(s.orelse, set(fin), brk, cont, exc)
            out = fin if s.finalbody else set()
            return self.block(s.body, e, brk | out, cont | out, exc | h) | h
        if isinstance(s, (ast.With, ast.AsyncWith)):
            live = self.block(s.body, live, brk, cont, exc)
            for it in reversed(s.items):
                w, r = set(), set()
                if it.optional_vars is not None:
                    targets(it.optional_vars, w, r)
                live = (live - w) | r | reads(it.context_expr)
            return live | exc
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return (live - {s.name}) | reads(s) | exc
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return live | exc
        return live | reads(s) | exc
