"""Value-flow analysis: computes, for a function, the gated value term of every result, attribute write and effect.

Syntax directed; joins become gated values, loops become comprehensions, sums or canonical recurrences.  No program
code is executed: every statement is translated to equations over terms (see terms.py).
"""
import ast
import builtins
import re
import string

from . import terms as tm
from .liveness import Liveness
from .terms import (T, mk, sym, fresh, syminfo, const, num, TRUE, FALSE, NONE, ZERO, ONE, UNDEF, NIL, EMPTYMAP, ite, Not,
                    And, Or, lift, leaves, map_leaves, seq, cat, idx, rd, put, has, keys, member, length, reverse, truthy,
                    isnone, eq, lt, le, add, sub, mul, div, power, neg, fn, subst, kind, fmap, summation, exists, firstel,
                    lam, make_loop, unk, replace, constrain)
from .project import Class, Func

MAX_DEPTH = 60
UNROLL = 16


class Abort(Exception):
    pass


class Lacking(Abort):
    """something the property requires is certainly not there"""


def own_jumps(n):
    """statements of a loop body that belong to that loop"""
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        return
    for x in n.orelse if isinstance(n, (ast.For, ast.While)) else ast.iter_child_nodes(n):
        for y in own_jumps(x):
            yield y


class State(object):
    __slots__ = ("store", "pending")

    def __init__(self, store=None):
        self.store = store if store is not None else {}
        self.pending = []

    def copy(self):
        return State(dict(self.store))


class Ctx(object):
    def __init__(self, func, module, fid, cls, parent=None, node=None):
        self.func = func
        self.module = module
        self.fid = fid
        self.cls = cls
        self.parent = parent
        self.node = node
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.entry = None

    def where(self, n):
        return "%s:%d" % (self.module.rel, getattr(n, "lineno", 0))


class Closure(object):
    def __init__(self, node, ctx, name):
        self.node = node
        self.ctx = ctx
        self.name = name


class Outcome(object):
    """exits of a block: kind -> (cond, state, value)"""
    __slots__ = ("d", "raises")

    def __init__(self):
        self.d = {}
        self.raises = []   # (cond, exc, state)


_LIVE = {}


class LoopRec(object):
    pass


def assigned_names(fnode):
    out = set()
    glob = set()
    nonl = set()

    def targets(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                targets(x)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in c.generators:
                    go(g.iter)
                continue
            if isinstance(c, ast.Assign):
                for t in c.targets:
                    targets(t)
            elif isinstance(c, (ast.AugAssign, ast.AnnAssign)):
                targets(c.target)
            elif isinstance(c, (ast.For,)):
                targets(c.target)
            elif isinstance(c, ast.NamedExpr):
                targets(c.target)
            elif isinstance(c, ast.withitem) and c.optional_vars is not None:
                targets(c.optional_vars)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split(".")[0])
            elif isinstance(c, ast.Global):
                glob.update(c.names)
            elif isinstance(c, ast.Nonlocal):
                nonl.update(c.names)
            elif isinstance(c, ast.Delete):
                for t in c.targets:
                    targets(t)
            go(c)
    go(fnode)
    return out, glob, nonl


_assigned_memo = {}


def assigned_memo(node):
    r = _assigned_memo.get(id(node))
    if r is None:
        r = assigned_names(node)
        _assigned_memo[id(node)] = (r, node)
        return r
    return r[0]


def has_yield(fnode):
    for n in walk_own(fnode):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_own(fnode):
    stack = list(ast.iter_child_nodes(fnode))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


EXC_PARENTS = {"KeyError": ("LookupError", "Exception"), "IndexError": ("LookupError", "Exception"),
               "ValueError": ("Exception",), "TypeError": ("Exception",), "AssertionError": ("Exception",),
               "RuntimeError": ("Exception",), "NotImplementedError": ("RuntimeError", "Exception"),
               "ZeroDivisionError": ("ArithmeticError", "Exception"), "AttributeError": ("Exception",),
               "RoundoffLimited": ("Exception",), "ImportError": ("Exception",), "StopIteration": ("Exception",)}


def exc_matches(exc, handler):
    return handler is None or handler == exc or handler in ("Exception", "BaseException") or handler in EXC_PARENTS.get(exc, ())


def may_repeat(p):
    """the values of a table: the same object may be entered under several keys"""
    if p.op != "fmap" or p.a[0].op != "keys":
        return False
    m = p.a[0].a[0]
    return all(x.op == "seq" and len(x.a) == 1 and x.a[0].op == "rd" and x.a[0].a[0] is m or x is NIL for x in tm.leaves(p.a[2]))


class Interp(object):
    def __init__(self, project, opaque=(), cut=False, override=None):
        self.p = project
        tm.apart[0] = project.apart
        self.override = override or {}      # qual -> callable(interp, bound arguments, state)
        self.cut = cut          # summarise recurrences over several containers by symbols instead of closing them
        self.opaque = set(opaque)
        self.closures = {}
        self.nclo = 0
        self.nfid = 0
        self.fid_keep = set()
        self.stack = []
        self.try_stack = []
        self.loops = []
        self.cutends = set()
        self.lenof = {}
        self.loop_depth = 0
        self.visited = {}       # qual -> Func analysed
        self.notes = []
        self.misfits = []
        self.rotations = {}
        self.in_partial = 0
        self.once = {}
        self.calls = 0
        self.escaped_refs = {}
        from . import models
        self.models = models

    # ---------------------------------------------------------------- store
    def get(self, st, loc):
        v = st.store.get(loc)
        if v is None:
            return self.default(loc)
        return v

    def default(self, loc):
        k = loc[0]
        if k == "v":
            return UNDEF
        if k == "c":
            return syminfo.get(loc[1], {}).get("init", UNDEF)
        if k == "$eff":
            return NIL
        if len(loc) < 2:
            return ZERO if k == "$t" else UNDEF
        obj = loc[1]
        info = syminfo.get(obj, {})
        root = info.get("root", obj)
        new = info.get("new")
        if k == "f":
            if new:
                return UNDEF
            return self.input_ref(mk("fld", root, loc[2]))
        if k == "na":
            return EMPTYMAP if new else mk("na", root, loc[2])
        if k == "ea":
            return EMPTYMAP if new else mk("ea", root, loc[2])
        if k == "A":
            if new:
                return UNDEF
            return self.input_ref(mk("attr", root, loc[2]), owner=obj)
        if k == "N":
            return NIL if new else mk("nodes", root, ZERO)
        if k == "E":
            return NIL if new else mk("edges", root, ZERO)
        if k == "dyn":
            return NIL if new else mk("dyn0", root)
        if k == "x":
            return NIL if len(loc) > 2 else mk("hist0", obj)
        return UNDEF

    def input_ref(self, content, owner=None):
        name = "in:%d" % content.id + (":%s" % owner.a[0] if owner is not None and syminfo.get(owner, {}).get("root") is not None else "")
        r = mk("sym", name)
        if r not in syminfo:
            syminfo[r] = dict(ref=True, init=content, kind=kind(content), pykind=None)
        return r

    def new_ref(self, st, content, pykind):
        r = fresh("ref")
        syminfo[r] = dict(ref=True, init=UNDEF, pykind=pykind, kind={"list": "list", "dict": "map", "set": "list", "array": None}.get(pykind))
        st.store[("c", r)] = content
        return r

    def standing(self, e, st, ctx):
        """value of an expression evaluated once, when its module is loaded: a container is the same one at every use"""
        if not (isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("dict", "list", "set")):
            return self.ev(e, st, ctx)
        got = self.once.get(id(e))
        if got is None:
            v = self.ev(e, st, ctx)
            if not self.is_ref(v):
                return v
            got = fresh("ref")
            info = syminfo[v]
            syminfo[got] = dict(ref=True, init=self.pure(v, st), pykind=info.get("pykind"), kind=info.get("kind"))
            self.once[id(e)] = got
        return got

    def is_ref(self, t):
        return t.op == "sym" and syminfo.get(t, {}).get("ref", False)

    def pure(self, t, st):
        """replace container references by their current contents"""
        n = 0
        while True:
            m = None
            for s in t.fs:
                if syminfo.get(s, {}).get("ref"):
                    m = m or {}
                    m[s] = self.get(st, ("c", s))
            if not m:
                return t
            t = subst(t, m)
            n += 1
            if n > 30:
                return unk("cyclic container")

    def merge(self, c, s1, s2):
        if c is TRUE:
            return s1
        if c is FALSE:
            return s2
        if s1 is s2:
            return s1
        out = dict(s1.store)
        for k, v1 in s1.store.items():
            v2 = s2.store.get(k)
            if v2 is v1:
                continue
            if v2 is None:
                v2 = self.default(k)
                if v2 is UNDEF and k[0] in ("c", "f", "na", "ea", "N", "E", "A", "x", "dyn") and k[1] not in ():
                    # object or container that exists on one side only
                    out[k] = v1
                    continue
            out[k] = ite(c, v1, v2)
        for k, v2 in s2.store.items():
            if k not in s1.store:
                v1 = self.default(k)
                if v1 is UNDEF and k[0] != "v":
                    out[k] = v2
                else:
                    out[k] = ite(c, v1, v2)
        return State(out)

    def put_outcome(self, out, k, cond, st, val=NONE):
        if cond is FALSE:
            return
        cur = out.d.get(k)
        if cur is None:
            out.d[k] = (cond, st, val)
            return
        c0, s0, v0 = cur
        s = self.merge(c0, s0, st) if c0 is not FALSE else st
        v = ite(c0, v0, val)
        out.d[k] = (Or(c0, cond), s, v)

    # ---------------------------------------------------------------- statements
    def block(self, stmts, st, ctx):
        out = Outcome()
        cond = TRUE
        for s in stmts:
            if cond is FALSE:
                break
            sub = self.stmt(s, st, ctx)
            nxt = None
            for k, (c, s2, v) in sub.d.items():
                cc = And(cond, c)
                if k == "next":
                    nxt = (cc, s2)
                else:
                    self.put_outcome(out, k, cc, s2, v)
            for (c, exc, s2) in sub.raises:
                cc = And(cond, c)
                if cc is not FALSE:
                    out.raises.append((cc, exc, s2))
            if nxt is None:
                cond = FALSE
                break
            cond, st = nxt
            if sub.d["next"][0] is not TRUE:
                self.narrow(st, cond, ctx)
        if cond is not FALSE:
            self.put_outcome(out, "next", cond, st)
        return out

    def simple(self, st):
        out = Outcome()
        self.flush(out, st)
        return out

    def flush(self, out, st, k="next", val=NONE):
        """turn pending raises of the statement into raise outcomes; remaining path goes to outcome k"""
        rest = TRUE
        for (c, exc, s2) in st.pending:
            cc = And(rest, c)
            if cc is FALSE:
                continue
            out.raises.append((cc, exc, s2))
            rest = And(rest, Not(c))
        st.pending = []
        if rest is not FALSE:
            self.put_outcome(out, k, rest, st, val)

    def stmt(self, n, st, ctx):
        m = getattr(self, "s_" + type(n).__name__, None)
        st = st.copy()
        if m is None:
            self.note(ctx, n, "unsupported statement %s" % type(n).__name__)
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    st.store[("v", ctx.fid, x.id)] = unk("unsupported")
            return self.simple(st)
        return m(n, st, ctx)

    def note(self, ctx, n, msg):
        self.notes.append((ctx.where(n), msg))

    def misfit(self, ctx, n, qual, args, kw):
        """a call that fails with a TypeError whatever the values are"""
        self.note(ctx, n, "call of %s does not match its signature" % qual)
        spec = ctx is None or ctx.module.name.startswith("spec.")
        if any(x.op == "star" for x in args) or "**" in kw or (spec and not self.in_partial) or qual.startswith("spec."):
            return
        self.misfits.append((ctx.where(n), qual, "%d positional arguments%s" % (len(args), "".join(", " + k for k in sorted(kw)))))

    def s_Expr(self, n, st, ctx):
        self.ev(n.value, st, ctx)
        return self.simple(st)

    def s_Pass(self, n, st, ctx):
        return self.simple(st)

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, n, st, ctx):
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            target = a.name if a.asname else a.name.split(".")[0]
            if target in self.p.modules:
                v = mk("mod", target)
            else:
                v = mk("ext", target)
            st.store[("v", ctx.fid, nm)] = v
        return self.simple(st)

    def s_ImportFrom(self, n, st, ctx):
        base = ctx.module._abs(n.level, n.module)
        for a in n.names:
            m = self.p.modules.get(base)
            if m is None:
                v = self.models.ext_const(base + "." + a.name) or mk("ext", base + "." + a.name)
            else:
                r = self.p.lookup(m, a.name)
                v = self.binding(r, base + "." + a.name) if r is not None else unk("import", a.name)
            st.store[("v", ctx.fid, a.asname or a.name)] = v
        return self.simple(st)

    def s_FunctionDef(self, n, st, ctx):
        st.store[("v", ctx.fid, n.name)] = self.make_closure(n, ctx, n.name)
        return self.simple(st)

    def s_ClassDef(self, n, st, ctx):
        st.store[("v", ctx.fid, n.name)] = unk("local class")
        return self.simple(st)

    def make_closure(self, n, ctx, name):
        key = (id(n), ctx.fid)
        for i, c in self.closures.items():
            if (id(c.node), c.ctx.fid) == key:
                return mk("clo", i)
        self.nclo += 1
        self.closures[self.nclo] = Closure(n, ctx, name)
        self.fid_keep.add(ctx.fid)
        return mk("clo", self.nclo)

    def s_Assign(self, n, st, ctx):
        v = self.ev(n.value, st, ctx)
        for t in n.targets:
            self.assign(t, v, st, ctx)
        return self.simple(st)

    def s_AnnAssign(self, n, st, ctx):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st, ctx), st, ctx)
        return self.simple(st)

    def s_AugAssign(self, n, st, ctx):
        t = n.target
        load = ast.copy_location({ast.Name: lambda: ast.Name(t.id, ast.Load()),
                                  ast.Attribute: lambda: ast.Attribute(t.value, t.attr, ast.Load()),
                                  ast.Subscript: lambda: ast.Subscript(t.value, t.slice, ast.Load())}[type(t)](), t)
        ast.fix_missing_locations(load)
        cur = self.ev(load, st, ctx)
        val = self.ev(n.value, st, ctx)
        if self.is_ref(cur) and isinstance(n.op, ast.Add):
            pk = syminfo[cur].get("pykind")
            if pk == "list":
                st.store[("c", cur)] = cat(self.get(st, ("c", cur)), self.aslist(val, st))
                return self.simple(st)
        new = self.binop(n.op, cur, val, st, ctx, n)
        if self.is_ref(cur):
            pk = syminfo[cur].get("pykind")
            content = self.get(st, ("c", cur))
            if pk == "array" or (pk is None and kind(content) in ("list", "vec")):
                st.store[("c", cur)] = new
                return self.simple(st)
        elif kind(cur) in ("vec",) or cur.op in ("seq",):
            # possible in-place update of a shared array
            if ctx.module.name.endswith("_numpy") or True:
                self.effect(st, mk("inplace", self.pure(cur, st)))
        self.assign(t, new, st, ctx)
        return self.simple(st)

    def effect(self, st, eff):
        st.store[("$eff",)] = cat(self.get(st, ("$eff",)), mk("seq", eff))

    def s_Delete(self, n, st, ctx):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.store[("v", ctx.fid, t.id)] = UNDEF
            elif isinstance(t, ast.Subscript):
                k = self.ev(t.slice, st, ctx)
                kp = self.pure(k, st)
                base = self.ev(t.value, st, ctx)
                if base.op == "attrs":
                    kk = kp
                    if kk.op == "const":
                        st.store[("A", base.a[0], kk.a[1])] = UNDEF
                        continue
                self.implicit(st, Not(member(kp, self.pure(base, st))), "KeyError")
                self.store_container(t.value, base, lambda m: tm.mapdel(m, kp), st, ctx)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st, ctx)
                if o.op == "sym":
                    st.store[("f", o, t.attr)] = UNDEF
        return self.simple(st)

    def s_Return(self, n, st, ctx):
        v = self.ev(n.value, st, ctx) if n.value is not None else NONE
        out = Outcome()
        self.flush(out, st, "return", v)
        return out

    def s_Break(self, n, st, ctx):
        out = Outcome()
        self.put_outcome(out, "break", TRUE, st)
        return out

    def s_Continue(self, n, st, ctx):
        out = Outcome()
        self.put_outcome(out, "continue", TRUE, st)
        return out

    def s_Raise(self, n, st, ctx):
        exc = "Exception"
        if n.exc is not None:
            e = n.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    self.ev(a, st, ctx)
                e = e.func
            exc = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else "Exception"
        out = Outcome()
        self.flush(out, st, "$r")
        c, s, _ = out.d.pop("$r", (FALSE, st, NONE))
        if c is not FALSE:
            out.raises.append((c, exc, s))
        return out

    def s_Assert(self, n, st, ctx):
        c = truthy(self.pure(self.ev(n.test, st, ctx), st))
        self.raise_if(st, Not(c), "AssertionError")
        return self.simple(st)

    def raise_if(self, st, cond, exc):
        if cond is FALSE:
            return
        st.pending.append((cond, exc, st.copy()))

    def implicit(self, st, cond, exc):
        """exceptions raised by primitives: only tracked where a handler is looking"""
        if cond is FALSE:
            return
        for hs in self.try_stack:
            if any(exc_matches(exc, h) for h in hs):
                self.raise_if(st, cond, exc)
                return

    def s_If(self, n, st, ctx):
        c = truthy(self.pure(self.ev(n.test, st, ctx), st))
        out = Outcome()
        pre = Outcome()
        self.flush(pre, st, "next")
        out.raises.extend(pre.raises)
        if "next" not in pre.d:
            return out
        alive, st, _ = pre.d["next"]
        for cond, body in ((c, n.body), (Not(c), n.orelse)):
            if cond is FALSE:
                continue
            sub = self.block(body, self.narrow(st.copy(), cond, ctx), ctx)
            self.join(out, sub, And(alive, cond))
        return out

    def narrow(self, st, cond, ctx, every=False):
        """gated local values where cond is known to hold"""
        if cond is not TRUE:
            for loc, v in list(st.store.items()):
                if v.op == "ite" and (every or loc[0] == "v" and loc[1] == ctx.fid and NONE in leaves(v)):
                    st.store[loc] = constrain(v, cond)
        return st

    def join(self, out, sub, cond):
        for k, (c, s, v) in sub.d.items():
            self.put_outcome(out, k, And(cond, c), s, v)
        for (c, exc, s) in sub.raises:
            cc = And(cond, c)
            if cc is not FALSE:
                out.raises.append((cc, exc, s))

    def s_With(self, n, st, ctx):
        for it in n.items:
            v = self.ev(it.context_expr, st, ctx)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, ctx)
        out = Outcome()
        pre = Outcome()
        self.flush(pre, st)
        out.raises.extend(pre.raises)
        if "next" in pre.d:
            c, s, _ = pre.d["next"]
            self.join(out, self.block(n.body, s, ctx), c)
        return out

    def s_Try(self, n, st, ctx):
        hs = []
        for h in n.handlers:
            if h.type is None:
                hs.append(None)
            elif isinstance(h.type, ast.Tuple):
                hs.extend(self._excname(e) for e in h.type.elts)
            else:
                hs.append(self._excname(h.type))
        self.try_stack.append(hs)
        try:
            body = self.block(n.body, st.copy(), ctx)
        finally:
            self.try_stack.pop()
        out = Outcome()
        for k, (c, s, v) in body.d.items():
            if k == "next" and n.orelse:
                self.join(out, self.block(n.orelse, s, ctx), c)
            else:
                self.put_outcome(out, k, c, s, v)
        for (c, exc, s) in body.raises:
            handled = False
            for h in n.handlers:
                names = [None] if h.type is None else [self._excname(e) for e in h.type.elts] if isinstance(h.type, ast.Tuple) else [self._excname(h.type)]
                if any(exc_matches(exc, x) for x in names):
                    s2 = s.copy()
                    s2.pending = []
                    if h.name:
                        s2.store[("v", ctx.fid, h.name)] = mk("exc", exc)
                    self.join(out, self.block(h.body, s2, ctx), c)
                    handled = True
                    break
            if not handled:
                out.raises.append((c, exc, s))
        if n.finalbody:
            fin = Outcome()
            for k, (c, s, v) in out.d.items():
                sub = self.block(n.finalbody, s, ctx)
                for k2, (c2, s2, v2) in sub.d.items():
                    if k2 == "next":
                        self.put_outcome(fin, k, And(c, c2), s2, v)
                    else:
                        self.put_outcome(fin, k2, And(c, c2), s2, v2)
                for (c2, e2, s2) in sub.raises:
                    fin.raises.append((And(c, c2), e2, s2))
            fin.raises.extend(out.raises)
            out = fin
        return out

    def _excname(self, e):
        return e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            st.store[self.var_loc(t.id, ctx)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            p = self.pure(v, st)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                for j, e in enumerate(t.elts[:i]):
                    self.assign(e, idx(p, num(j)), st, ctx)
                mid = tm.slice_(p, num(i), num(-after) if after else NONE)
                self.assign(t.elts[i].value, self.new_ref(st, mid, "list"), st, ctx)
                for j, e in enumerate(t.elts[i + 1:]):
                    self.assign(e, idx(p, num(j - after)), st, ctx)
                return
            items = None
            raw = v
            if self.is_ref(v):
                raw = self.get(st, ("c", v))
            for j, e in enumerate(t.elts):
                self.assign(e, self.index(raw, num(j), st), st, ctx)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, ctx)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, ctx)
            self.set_attr(o, t.attr, v, st, ctx)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, ctx)
            self.store_sub(t, base, v, st, ctx)

    def var_loc(self, name, ctx):
        if name in ctx.globals:
            return ("v", 0, ctx.module.name + "." + name)
        if name in ctx.nonlocals:
            c = ctx.parent
            while c is not None:
                if name in c.locals:
                    return ("v", c.fid, name)
                c = c.parent
        return ("v", ctx.fid, name)

    def store_sub(self, t, base, v, st, ctx):
        if isinstance(t.slice, ast.Slice):
            s = t.slice
            if s.lower is None and s.upper is None and s.step is None:
                pv = self.pure(v, st)
                self.store_container(t.value, base, lambda m: pv, st, ctx)
            else:
                self.store_container(t.value, base, lambda m: unk("slice store"), st, ctx)
            return
        k = self.pure(self.ev(t.slice, st, ctx), st)
        if base.op == "attrs":
            if k.op == "const":
                st.store[("A", base.a[0], k.a[1])] = v
            else:
                st.store[("dyn", base.a[0])] = tm.cat(self.get(st, ("dyn", base.a[0])), mk("seq", mk("seq", const("attributes"), k, self.pure(v, st))))
            return
        if base.op == "dattrs":      # per-node / per-edge attribute dictionary
            self.write_elem(st, base.a[0], base.a[1], base.a[2], k, v)
            return
        self.store_container(t.value, base, lambda m: self.map_put(m, k, v), st, ctx)

    def write_elem(self, st, which, obj, key, name, v):
        v = self.pure(v, st)
        if name.op == "const" and name.a[0] == "str":
            loc = (which, obj, name.a[1])
            st.store[loc] = put(self.get(st, loc), key, v)
        else:
            loc = ("dyn", obj)
            st.store[loc] = cat(self.get(st, loc), mk("seq", mk("seq", const(which), key, name, v)))

    def map_put(self, m, k, v):
        if m.op == "seq" and k.op == "num":
            i = int(k.a[0])
            if -len(m.a) <= i < len(m.a):
                l = list(m.a)
                l[i] = v
                return seq(*l)
        return put(m, k, v)

    def store_container(self, expr, base, f, st, ctx):
        """apply content update f to the container denoted by expr (already evaluated to base)"""
        if self.is_ref(base):
            st.store[("c", base)] = f(self.get(st, ("c", base)))
            return
        if base.op == "ite":
            for lf in leaves(base):
                if not self.is_ref(lf):
                    break
            else:
                for lf in leaves(base):
                    c = map_leaves(base, lambda x: TRUE if x is lf else FALSE)
                    cur = self.get(st, ("c", lf))
                    st.store[("c", lf)] = ite(c, f(cur), cur)
                return
        new = f(self.pure(base, st))
        if base.op == "ext":
            self.effect(st, mk("becomes", base, new))
            return
        if isinstance(expr, ast.Subscript):
            b2 = self.ev(expr.value, st, ctx)
            k = self.pure(self.ev(expr.slice, st, ctx), st)
            if b2.op == "attrs" and k.op == "const":
                st.store[("A", b2.a[0], k.a[1])] = new
                return
            self.store_container(expr.value, b2, lambda m: self.map_put(m, k, new), st, ctx)
        elif isinstance(expr, ast.Name):
            if base.op in ("rd", "idx", "fld", "attr", "firstel"):
                self.effect(st, mk("inplace", base))
            st.store[self.var_loc(expr.id, ctx)] = new
        elif isinstance(expr, ast.Attribute):
            o = self.ev(expr.value, st, ctx)
            self.set_attr(o, expr.attr, new, st, ctx)
        elif isinstance(expr, ast.Call) and isinstance(expr.func, ast.Attribute) and expr.func.attr == "setdefault":
            b2 = self.ev(expr.func.value, st, ctx)
            k = self.pure(self.ev(expr.args[0], st, ctx), st)
            self.store_container(expr.func.value, b2, lambda m: self.map_put(m, k, new), st, ctx)
        else:
            self.effect(st, mk("inplace", self.pure(base, st)))

    def set_attr(self, o, name, v, st, ctx):
        if o.op == "ite":
            self.effect(st, mk("inplace", o))
            return
        if o.op == "sym":
            cls = syminfo.get(o, {}).get("cls")
            if cls is not None:
                s = cls.find_setter(name)
                if s is not None:
                    self.call_func(s, [o, v], {}, st, ctx, None)
                    return
            st.store[("f", o, name)] = v
        else:
            self.effect(st, mk("setattr", self.pure(o, st), name, self.pure(v, st)))

    # ---------------------------------------------------------------- loops
    def s_For(self, n, st, ctx):
        it = self.ev(n.iter, st, ctx)
        out = Outcome()
        pre = Outcome()
        self.flush(pre, st)
        out.raises.extend(pre.raises)
        if "next" not in pre.d:
            return out
        alive, st, _ = pre.d["next"]

        def body(s, elem, pos):
            self.assign(n.target, elem, s, ctx)
            return self.block(n.body, s, ctx)
        tn = set()
        for x in ast.walk(n.target):
            if isinstance(x, ast.Name):
                tn.add(x.id)
        dead = self.dead_names(n, ctx)
        res = self.iterate(st, self.iter_list(it, st), body, ctx, n, dead)
        self.finish_loop(res, n, out, alive, ctx)
        return out

    def finish_loop(self, res, n, out, alive, ctx):
        """res: Outcome with 'next' (exhausted), 'break', 'return'"""
        nxt = res.d.pop("next", None)
        if nxt is not None:
            c, s, v = nxt
            if n.orelse:
                self.join(out, self.block(n.orelse, s, ctx), And(alive, c))
            else:
                self.put_outcome(out, "next", And(alive, c), s)
        brk = res.d.pop("break", None)
        if brk is not None:
            c, s, v = brk
            self.put_outcome(out, "next", And(alive, c), s)
        self.join(out, res, alive)

    def dead_names(self, loop, ctx):
        """local names that are not live once the loop is over"""
        f = ctx.node
        if f is None:
            return set()
        lv = _LIVE.get(id(f))
        if lv is None:
            lv = _LIVE[id(f)] = (f, Liveness(f))
        lv = lv[1]
        after = lv.after.get(id(loop))
        if after is None:
            return set()
        return {nm for nm in ctx.locals if nm not in after and nm not in lv.always}

    def iter_list(self, v, st):
        """list term iterated over by a for loop on value v"""
        p = v
        if self.is_ref(v):
            p = self.get(st, ("c", v))
            if syminfo[v].get("pykind") == "set" and may_repeat(p):
                p = mk("fn", "distinct", p)
        elif v.op == "sym":
            cls = syminfo.get(v, {}).get("cls")
            if isinstance(cls, Class):
                it = cls.find("__iter__")
                if it is not None and it[0] == "method":
                    return self.call_func(it[1], [v], {}, st, Ctx(None, cls.module, 0, cls), None)
        p = self.pure_keep(p, st)

        def f(p):
            if p.op == "const" and p.a[0] == "str":
                return mk("seq", *[const(c) for c in p.a[1]])
            if p.op in ("emptymap", "put", "mapdel") or kind(p) == "map":
                return keys(p)
            if p.op in ("lend", "lmu") and kind(p.a[0].a[2][p.a[1]]) == "map":
                return keys(p)
            return p
        return map_leaves(p, f)

    def pure_keep(self, p, st):
        """contents for iteration; element references are kept when the list is literal"""
        if p.op in ("seq", "cat"):
            return p
        return self.pure(p, st)

    def iterate(self, st, lst, body, ctx, node, dead=frozenset(), need_pos=False):
        """abstract execution of body(state, elem, pos) for the elements of list term lst"""
        if lst.op == "ite":
            out = Outcome()
            c = lst.a[0]
            self.join(out, self.iterate(st.copy(), lst.a[1], body, ctx, node, dead, need_pos), c)
            self.join(out, self.iterate(st.copy(), lst.a[2], body, ctx, node, dead, need_pos), Not(c))
            return out
        if lst.op == "rangen" and lst.a[0].op == "ite" and lst.a[0] not in self.lenof:
            c, a, b = lst.a[0].a
            ls = leaves(lst.a[0])
            if all(x.op in ("len", "num") or x in self.lenof for x in ls):
                out = Outcome()
                for cc, n in ((c, a), (Not(c), b)):
                    self.join(out, self.iterate(self.narrow(st.copy(), cc, ctx, True), mk("rangen", n) if n is not ZERO else NIL, body, ctx, node, dead, need_pos), cc)
                return out
        if lst.op == "seq" or (lst.op == "rangen" and lst.a[0].op == "num"):
            items = lst.a if lst.op == "seq" else [num(i) for i in range(max(0, int(lst.a[0].a[0])))]
            if len(items) <= UNROLL:
                return self.unroll(st, items, body)
        if lst.op == "rangen" and (lst.a[0].op == "len" or lst.a[0] in self.lenof):
            d = self.lenof[lst.a[0]] if lst.a[0] in self.lenof else lst.a[0].a[0]
            if kind(d) == "map":
                d = keys(d)
            r = self.filtered(st, d, body, ctx, node, dead)
            if r is not None:
                return r
            return self.iterate(st, d, lambda s, e, p: body(s, p, p), ctx, node, dead, True)
        if kind(lst) in ("edge", "pair"):
            return self.unroll(st, [idx(lst, ZERO), idx(lst, ONE)], body)
        if kind(lst) == "vec" and lst.op != "fmap":
            return self.unroll(st, [idx(lst, num(i)) for i in range(3)], body)
        if lst.op == "cat" and not need_pos:
            return self.split_cat(st, lst, body, ctx, node, dead)
        if lst.op == "emptymap":
            return self.unroll(st, [], body)
        # fuse with the producing comprehension
        if lst.op == "fmap":
            o = tm.open_fmap(lst)
            ls = leaves(o["body"])
            if all(x.op == "seq" and len(x.a) == 1 for x in ls):
                b0 = o["body"]
                item = map_leaves(b0, lambda x: x.a[0])
                np_ = need_pos or o["pos"] in item.fs
                return self.iterate(st, lst.a[0], lambda s, e, p: body(s, subst(item, {o["elem"]: e, o["pos"]: p} if p is not None else {o["elem"]: e}), p), ctx, node, dead, np_)
            if all(x.op == "seq" and len(x.a) <= 1 for x in ls) and not need_pos:
                g = map_leaves(o["body"], lambda x: TRUE if x.a else FALSE)
                item = constrain(map_leaves(o["body"], lambda x: x.a[0] if x.a else UNDEF), g)
                if UNDEF in leaves(item):
                    item = map_leaves(item, lambda x: x if x is not UNDEF else ZERO)

                def body2(s, e, p):
                    m = {o["elem"]: e, o["pos"]: p} if p is not None else {o["elem"]: e}
                    gg = subst(g, m)
                    out = Outcome()
                    if gg is not FALSE:
                        self.join(out, body(s.copy(), subst(item, m), None), gg)
                    if gg is not TRUE:
                        self.put_outcome(out, "next", Not(gg), s)
                    return out
                return self.iterate(st, lst.a[0], body2, ctx, node, dead, o["pos"] in g.fs or o["pos"] in item.fs)
        return self.loop(st, lst, body, ctx, node, dead)

    def filtered(self, st, d, body, ctx, node, dead):
        """positions of a filtered list: iterate over the list it is filtered from, if only lists filtered alike are indexed"""
        if d.op != "fmap":
            return None
        o = tm.open_fmap(d)
        ls = leaves(o["body"])
        if not all(x.op == "seq" and len(x.a) <= 1 for x in ls) or all(x.a for x in ls) or o["pos"] in o["body"].fs:
            return None
        g = map_leaves(o["body"], lambda x: TRUE if x.a else FALSE)
        q = fresh("q", kind="nat")

        def body2(s, e, p):
            gg = subst(g, {o["elem"]: e})
            syminfo[q]["filterpos"] = (d.a[0], gg, e)
            out = Outcome()
            if gg is not FALSE:
                self.join(out, body(s.copy(), q, q), gg)
            if gg is not TRUE:
                self.put_outcome(out, "next", Not(gg), s)
            return out
        out = self.iterate(st.copy(), d.a[0], body2, ctx, node, dead)
        for k, (c, s, v) in out.d.items():
            if q in c.fs or isinstance(v, T) and q in v.fs or any(isinstance(x, T) and q in x.fs for l, x in s.store.items() if l[0] != "v" or l[2] not in dead):
                return None
        if any(q in c.fs for c, e, s in out.raises):
            return None
        return out

    def unroll(self, st, items, body):
        out = Outcome()
        cond = TRUE
        for i, x in enumerate(items):
            sub = body(st.copy(), x, num(i))
            acc = Outcome()
            for k, (c, s, v) in sub.d.items():
                if k in ("next", "continue"):
                    self.put_outcome(acc, "next", c, s)
                else:
                    self.put_outcome(out, k, And(cond, c), s, v)
            for (c, e, s) in sub.raises:
                out.raises.append((And(cond, c), e, s))
            if "next" not in acc.d:
                return out
            c, st, _ = acc.d["next"]
            cond = And(cond, c)
        self.put_outcome(out, "next", cond, st)
        return out

    def split_cat(self, st, lst, body, ctx, node, dead):
        out = Outcome()
        cond = TRUE
        for part in lst.a:
            # position is not meaningful across parts
            sub = self.iterate(st.copy(), part, body, ctx, node, dead)
            nxt = sub.d.pop("next", None)
            self.join(out, sub, cond)
            if nxt is None:
                return out
            c, st, _ = nxt
            cond = And(cond, c)
        self.put_outcome(out, "next", cond, st)
        return out

    def loop(self, st, dom, body, ctx, node, dead=frozenset(), head=None):
        """general loop; dom list term or None (while loop with head(state) -> continue condition)"""
        mark = (next(tm._fresh), self.nfid)
        carried = {}
        nloops = len(self.loops)
        nnotes = len(self.notes)
        self.loop_depth += 1
        k = tm.elemkind(dom) if dom is not None else None
        elem = fresh("e", dom=dom, kind=k)
        pos = fresh("p", kind="nat", posof=dom, elem=elem)
        if dom is not None and dom.op == "rangen":
            elem = pos
        numeric = {}
        subst0 = {}
        flips = {}
        for attempt in range(14):
            del self.loops[nloops:]
            del self.notes[nnotes:]
            s0 = st.copy()
            for loc, mu in carried.items():
                s0.store[loc] = subst0.get(loc, flips.get(loc, mu))
            before = dict(s0.store)
            out = body(s0.copy(), elem, pos)
            changed = {}
            for kd, (c, s, v) in out.d.items():
                for loc, val in s.store.items():
                    b = before.get(loc)
                    if b is None:
                        b = self.default(loc)
                    if val is not b and not self.local_loc(loc, mark):
                        changed[loc] = True
            new = [l for l in changed if l not in carried]
            if new:
                for loc in sorted(new, key=repr):
                    init = st.store.get(loc)
                    if init is None:
                        init = self.default(loc)
                    info = {}
                    ip = init
                    kk = kind(ip)
                    if kk in ("nat", "int", "num"):
                        kk = "num"
                    if loc[0] == "v" and self.is_ref(ip):
                        kk = None
                    if kk == "bool":
                        info["boolean"] = True
                    info.update(kind=kk, valkind=tm.valkind(ip), keykind=tm.keykind(ip), elemkind=tm.elemkind(ip))
                    if loc[0] in ("c", "na") and tm.total_nodes(self.pure(ip, st)):
                        info["totalnodes"] = True
                        info["diagram"] = tm.diagram_of(self.pure(ip, st))
                        if kk is None:
                            info["kind"] = "map"
                    carried[loc] = fresh("u", **info)
                continue
            # refine: induction variables and integer kinds
            ups = self.updates(out, carried, before, mark, st)
            again = False
            exc, _ = self.exit_conds(out)
            for loc, mu in carried.items():
                if loc in subst0:
                    continue
                u = ups[loc]
                init = self.init_of(st, loc)
                if init is UNDEF or u is mu:
                    continue
                if kind(mu) is not None and any(lf is not mu and kind(lf) is not None and not tm.kinds_agree(kind(mu), kind(lf)) for lf in leaves(u)):
                    # the kind of the value at the start does not last
                    carried[loc] = fresh("u", kind=None)
                    again = True
                    continue
                if dom is not None and dom.op in ("nodes", "keys", "edges") and "own" not in syminfo[mu] and init is not UNDEF and not self.is_ref(init) and elem is not pos \
                        and all(lf is mu or lf.op == "put" and lf.a[0] is mu and lf.a[1] is elem for lf in leaves(u)) \
                        and any(x.op == "rd" and x.a[0] is mu and x.a[1] is elem for v in list(ups.values()) + [exc] for x in tm.subterms(v)):
                    # entries are written once, by their own element: before that they are as at the start
                    syminfo[mu]["own"] = (elem, self.pure(init, st))
                    again = True
                    continue
                if loc not in flips and loc[0] == "c" and kind(u) == "list" and not (u.op == "cat" and u.a[0] is mu):
                    parts = [self._prepend_part(lf, mu) for lf in leaves(u)]
                    if all(x is not None for x in parts) and any(x is not NIL for x in parts):
                        # a list growing at its front: the same list growing at its end, seen from behind
                        flips[loc] = reverse(mu)
                        again = True
                        continue
                d = self.increment(u, mu)
                if d is not None and not (d.fs & ({elem, pos} | set(carried.values()))) and kind(d) in ("nat", "int", "num") and kind(init) in ("nat", "int", "num"):
                    if dom is None and head is None:
                        continue
                    subst0[loc] = add(init, mul(d, pos))
                    again = True
                elif kind(mu) == "num" and kind(init) in ("nat", "int") and self.stays_int(u, mu):
                    syminfo[mu]["kind"] = "nat" if self.stays_nat(u, mu) and kind(init) == "nat" else "int"
                    again = syminfo[mu].get("_int") is None
                    syminfo[mu]["_int"] = True
            if not again:
                break
        else:
            self.note(ctx, node, "loop did not stabilise")
        self.loop_depth -= 1
        mus = {carried[l]: l for l in carried if l not in subst0}
        ups = self.updates(out, carried, before, mark, st)
        return self.close_loop(st, dom, elem, pos, carried, subst0, ups, out, ctx, node, dead, mark, flips)

    def init_of(self, st, loc):
        v = st.store.get(loc)
        return self.default(loc) if v is None else v

    def increment(self, u, mu):
        """d such that u = mu + d with d free of mu"""
        if u.op == "ite":
            return None
        d = sub(u, mu) if u.op in ("poly", "sym", "num") else None
        if d is None or mu in d.fs:
            return None
        if tm._terms(u).get(((mu, 1),)) != 1:
            return None
        return d

    def stays_int(self, u, mu):
        for lf in leaves(u):
            if lf is mu:
                continue
            d = self.increment(lf, mu)
            if d is not None:
                if kind(d) in ("nat", "int") or d.op == "num" and d.a[0].denominator == 1:
                    continue
                return False
            if kind(lf) in ("nat", "int"):
                continue
            return False
        return True

    def stays_nat(self, u, mu):
        for lf in leaves(u):
            if lf is mu:
                continue
            d = self.increment(lf, mu)
            if d is not None:
                if kind(d) == "nat":
                    continue
                return False
            if kind(lf) == "nat":
                continue
            return False
        return True

    def local_loc(self, loc, mark):
        """location of something created inside the iteration"""
        if loc[0] == "v":
            return loc[1] > mark[1]
        if len(loc) < 2:
            return False
        s = loc[1]
        if isinstance(s, T) and s.op == "sym" and "#" in s.a[0]:
            try:
                return int(s.a[0].rsplit("#", 1)[1]) > mark[0]
            except ValueError:
                return False
        return False

    def is_local_sym(self, s, mark):
        if "#" in s.a[0]:
            try:
                return int(s.a[0].rsplit("#", 1)[1]) > mark[0]
            except ValueError:
                return False
        return False

    def delocal(self, t, st, mark):
        """values that escape an iteration: contents instead of references created inside"""
        n = 0
        while n < 30:
            m = {}
            for s in t.fs:
                info = syminfo.get(s, {})
                if info.get("ref") and self.is_local_sym(s, mark):
                    m[s] = self.get(st, ("c", s))
                elif info.get("new") and self.is_local_sym(s, mark):
                    m[s] = self.objval(s, st)
            if not m:
                return t
            t = subst(t, m)
            n += 1
        return t

    def updates(self, out, carried, before, mark, st0):
        """merged end-of-iteration value of every carried location"""
        nxt = out.d.get("next")
        con = out.d.get("continue")
        res = {}
        for loc, mu in carried.items():
            vals = []
            for o in (nxt, con):
                if o is None:
                    continue
                c, s, _ = o
                v = s.store.get(loc)
                if v is None:
                    v = self.default(loc)
                vals.append((c, self.delocal(v, s, mark)))
            if not vals:
                res[loc] = before.get(loc, mu)
            elif len(vals) == 1:
                res[loc] = constrain(vals[0][1], vals[0][0])
            else:
                res[loc] = constrain(ite(vals[0][0], vals[0][1], vals[1][1]), Or(vals[0][0], vals[1][0]))
        return res

    def exit_conds(self, out):
        ex = FALSE
        for k in ("break", "return"):
            if k in out.d:
                ex = Or(ex, out.d[k][0])
        rz = FALSE
        for c, e, s in out.raises:
            rz = Or(rz, c)
        return ex, rz

    def close_loop(self, st, dom, elem, pos, carried, subst0, ups, out, ctx, node, dead, mark, flips):
        res = Outcome()
        exits = FALSE
        for k in ("break", "return"):
            if k in out.d:
                exits = Or(exits, out.d[k][0])
        raised = FALSE
        for c, e, s in out.raises:
            raised = Or(raised, c)
        musyms = {mu: loc for loc, mu in carried.items() if loc not in subst0}
        keepraise = raised
        # assume no raise on the normal path
        if raised is not FALSE:
            exits_n = constrain(exits, Not(raised)) if exits is not FALSE else FALSE
        else:
            exits_n = exits
        locs = {}
        for loc, mu in carried.items():
            if loc in subst0:
                continue
            u = ups[loc]
            if raised is not FALSE:
                u = constrain(u, Not(raised))
            if exits_n is not FALSE:
                u = constrain(u, Not(exits_n))
            i = self.init_of(st, loc)
            if loc in flips:
                i, u = reverse(self.pure(i, st)), reverse(u)
            locs[mu] = (i, u)
        rec = LoopRec()
        rec.node, rec.ctx, rec.dom, rec.elem, rec.pos = node, ctx, dom, elem, pos
        rec.carried = {loc: (self.init_of(st, loc), mu, ups[loc]) for loc, mu in carried.items()}
        rec.subst0, rec.exits, rec.raised, rec.depth = subst0, exits, raised, self.loop_depth
        rec.out = out
        rec.stack = list(self.stack)
        self.loops.append(rec)
        bound = {elem, pos}
        purelocs = {mu: (self.pure(i, st), u) for mu, (i, u) in locs.items()}
        # contents referencing outer refs inside updates are read at loop entry only if unchanged: make them values
        stp = st

        def outer_pure(t):
            """references to containers not changed by the loop become their contents"""
            m = None
            n = 0
            while n < 30:
                m = {}
                for s in t.fs:
                    if syminfo.get(s, {}).get("ref"):
                        if ("c", s) in carried:
                            lm = carried[("c", s)]
                            m[s] = subst0.get(("c", s), flips.get(("c", s), lm))
                        else:
                            m[s] = self.get(stp, ("c", s))
                if not m:
                    break
                t = subst(t, m)
                n += 1
            return subst(t, inv) if inv else t
        inv = {}
        vlocs = {mu for mu, loc in musyms.items() if loc[0] == "v" and any(self.is_ref(x) for x in leaves(locs[mu][1]) + leaves(locs[mu][0]))}
        plocs = {}
        for mu, (i, u) in locs.items():
            if mu in vlocs:
                plocs[mu] = (i, u)
            else:
                plocs[mu] = (self.pure(i, st), outer_pure(u))
        for mu, (i, u) in list(plocs.items()):
            # a copy of what is iterated over, each entry put back as it is
            if mu not in vlocs and dom is not None and i is dom and u.op == "put" and u.a[0] is mu and u.a[1] is pos and (u.a[2] is elem or u.a[2] is tm.idx(dom, pos)):
                plocs[mu] = (i, mu)
        # locations every iteration leaves as it found them
        inv = {mu: i for mu, (i, u) in plocs.items() if u is mu and mu not in vlocs and not (i.fs & set(plocs))}
        if inv:
            plocs = {mu: (i, u if mu in inv or mu in vlocs else subst(u, inv)) for mu, (i, u) in plocs.items()}
        if dom is not None:
            # a list that grows by the same number of entries in every iteration
            grown = {}
            for mu, (i, u) in plocs.items():
                if mu in vlocs or mu not in u.fs:
                    continue
                parts = [self._append_part(x, mu) for x in leaves(u)]
                if parts and all(x is not None and x.op == "seq" and len(x.a) == len(parts[0].a) for x in parts) and len(parts[0].a):
                    grown[mk("len", mu)] = add(length(i), mul(num(len(parts[0].a)), pos))
            if grown:
                plocs = {mu: (i, u if mu in vlocs else replace(u, grown)) for mu, (i, u) in plocs.items()}
        if dom is not None and exits_n is FALSE:
            some = truthy(dom)
            settle = (lambda t: tm.replace(t, {some: TRUE}) if some.op != "const" and tm.occurs(some, t) else t)
            for mu in list(plocs):
                i, u = plocs[mu]
                if mu in inv or mu in vlocs or u is mu or i.fs & set(plocs) or mu not in u.fs or len(u.fs & set(plocs)) > 1:
                    continue
                # filled in by the first iteration, the same whichever that is, and kept by the later ones
                v = settle(subst(u, {mu: i}))
                if v.unk or elem in v.fs or pos in v.fs or settle(subst(u, {mu: v})) is not v:
                    continue
                if v is not i:
                    users = [w for m2, (_, w) in plocs.items() if m2 is not mu and mu in w.fs] + [c for c, _, _ in out.raises if mu in outer_pure(c).fs]
                    users = [outer_pure(w) for w in users]
                    if any(mu2 in vlocs and mu in plocs[mu2][1].fs for mu2 in plocs) or any(settle(subst(w, {mu: i})) is not settle(subst(w, {mu: v})) for w in users):
                        continue
                inv = dict(inv)
                inv[mu] = v
                plocs = {m2: (a, w if m2 in vlocs else v if m2 is mu else settle(subst(w, {mu: v})) if mu in w.fs else w) for m2, (a, w) in plocs.items()}
                if v is i:
                    plocs[mu] = (i, mu)
        exits_n = outer_pure(exits_n)
        rec.musyms, rec.plocs, rec.pexits, rec.st = musyms, plocs, exits_n, st
        rec.end, rec.at, rec.broke = {}, {}, None
        rec.cut = False
        if self.cut and dom is not None:
            nput = [mu for mu, loc in musyms.items() if loc[0] == "c" and plocs[mu][1] is not mu and kind(plocs[mu][0]) != "list"]
            if len(nput) >= 2:
                rec.cut = True
        live = []
        for mu, loc in musyms.items():
            if loc[0] == "v" and loc[1] == ctx.fid and loc[2] in dead:
                continue
            live.append(mu)

        simple_exit = exits_n is not FALSE and not (exits_n.fs & set(musyms))
        # ---- final values
        memo = {}

        def end_value(mu):
            """value after exhausting the domain without exit"""
            if mu in memo:
                return memo[mu]
            memo[mu] = r = self._end_value(mu, plocs, dom, elem, pos, exits_n, musyms, rec)
            return r
        s_end = st.copy()
        if dom is not None:
            for mu in live:
                s_end.store[musyms[mu]] = reverse(end_value(mu)) if musyms[mu] in flips else end_value(mu)
            n = length(dom)
            for loc, v in subst0.items():
                if loc[0] == "v" and loc[1] == ctx.fid and loc[2] in dead:
                    continue
                s_end.store[loc] = subst(v, {pos: n}) if pos.op == "sym" else v
            for mu, loc in musyms.items():
                if mu not in live:
                    s_end.store[loc] = UNDEF
            for loc in subst0:
                if loc not in s_end.store or (loc[0] == "v" and loc[1] == ctx.fid and loc[2] in dead):
                    s_end.store[loc] = UNDEF
        # ---- exits
        broke = FALSE
        if exits_n is not FALSE:
            if simple_exit and dom is not None:
                broke = exists(dom, elem, pos, exits_n)
                fe = firstel(dom, elem, pos, exits_n)
                m = {elem: fe}
                if elem is not pos:
                    m[pos] = firstel(dom, elem, pos, exits_n, "firstpos")
                else:
                    m = {pos: firstel(dom, elem, pos, exits_n, "firstpos")}
                mm_exit = m
                need_mu = set()
            elif rec.cut:
                rec.broke = tm.fresh("broke")
                broke = mk("lbroke", rec.broke)
                mm_exit = None
            else:
                loop, rank = make_loop(dom, elem, pos, plocs, exits_n, [mu for mu in plocs if mu in exits_n.fs] or list(plocs)[:1])
                broke = mk("lbroke", loop) if dom is not None else TRUE
                mm_exit = None
        # build exit states
        if exits_n is not FALSE:
            for k in ("break", "return"):
                if k not in out.d:
                    continue
                c, s, v = out.d[k]
                c = constrain(c, Not(raised)) if raised is not FALSE else c
                vals = {}
                for loc, val in s.store.items():
                    b = self.init_of(st, loc)
                    if self.local_loc(loc, mark):
                        continue
                    if loc[0] == "v" and loc[1] == ctx.fid and loc[2] in dead:
                        continue
                    if loc in carried or val is not b:
                        val2 = self.delocal(val, s, mark)
                        if not self.is_ref(val2):
                            val2 = constrain(outer_pure(val2), outer_pure(c))
                        vals[loc] = val2
                val_ret = outer_pure(self.delocal(self.pure_local(v, s, mark), s, mark)) if k == "return" else NONE
                sx = st.copy()
                tr = self.exit_subst(dom, elem, pos, plocs, exits_n, musyms, list(vals.values()) + [val_ret, outer_pure(c)], simple_exit, mm_exit, rec)
                for loc, val in vals.items():
                    sx.store[loc] = tr(val)
                for mu, loc in musyms.items():
                    if mu not in live:
                        sx.store[loc] = UNDEF
                which = tr(outer_pure(constrain(c, exits_n)))
                self.put_outcome(res, k, And(broke, which), sx, tr(val_ret))
        if dom is not None:
            self.put_outcome(res, "next", Not(broke), s_end)
        # ---- raises
        for (c, exc, s) in out.raises:
            c = outer_pure(c)
            if rec.cut and (c.fs & set(musyms)):
                cc = mk("lbroke", tm.fresh("raised"))
            elif dom is None or (c.fs & set(musyms)):
                loop, rank = make_loop(dom, elem, pos, plocs, Or(c, exits_n), [mu for mu in plocs if mu in c.fs] or list(plocs)[:1])
                cc = mk("lbroke", loop)
            else:
                cc = exists(dom, elem, pos, c)
            sr = st.copy()
            for loc in carried:
                if s.store.get(loc) is not None and not (loc[0] == "v"):
                    sr.store[loc] = unk("state at exception in loop")
            res.raises.append((cc, exc, sr))
        return res

    def pure_local(self, v, s, mark):
        return v

    def exit_subst(self, dom, elem, pos, plocs, exits, musyms, vals, simple, mm, rec):
        """translation of values at the exit iteration to values after the loop"""
        need = []
        for v in vals:
            for x in v.fs:
                if x in plocs and x not in need:
                    need.append(x)
        if simple and not need:
            return lambda v: subst(v, mm)
        if simple and need:
            # state depends on iteration history: what has been accumulated over the elements before the exit, or the recurrence
            acc = {mu: self._end_value(mu, plocs, dom, elem, pos, exits, musyms, rec, True) for mu in need}
            if all(x is not None for x in acc.values()):
                acc.update(mm)
                return lambda v: subst(v, acc)
        if rec.cut:
            m = dict(mm) if simple else {}
            for x in list(plocs) + ([] if simple else [elem, pos]):
                if x.op == "sym":
                    if x not in rec.at:
                        i = syminfo.get(x, {})
                        rec.at[x] = tm.fresh("at", **{k: i[k] for k in ("kind", "valkind", "keykind") if k in i})
                    m[x] = rec.at[x]
            return lambda v: subst(v, m)
        loop, rank = make_loop(dom, elem, pos, plocs, exits, need + [mu for mu in plocs if mu in exits.fs])
        m = {}
        if simple:
            m.update(mm)
        else:
            if elem is not pos:
                m[elem] = mk("lel", loop) if dom is not None else UNDEF
            m[pos] = mk("lpos", loop)
        for mu in rank:
            m[mu] = mk("lmu", loop, rank[mu])
        return lambda v: subst(v, m)

    def _end_value(self, mu, plocs, dom, elem, pos, exits, musyms, rec, accumulated=False):
        init, u = plocs[mu]
        allmu = set(plocs)
        if u is mu:
            return init
        bound = {elem, pos}
        dom0, exits0 = dom, exits
        only_exit = exits is not FALSE and dom is not None and not (exits.fs & allmu)
        if only_exit and u.fs & allmu == frozenset((mu,)):
            dom, exits = tm.firstel(dom, elem, pos, exits, "upto"), FALSE
        elif accumulated:
            return None
        hasmu = u.fs & allmu
        if rec.cut and (u.fs & self.cutends):
            hasmu = hasmu | (u.fs & self.cutends)
        info = syminfo.get(mu, {})
        if not hasmu:
            if not (u.fs & bound):
                return ite(truthy(dom), u, init)
            if u is elem and dom.op == "rangen":
                return ite(lt(ZERO, dom.a[0]), sub(dom.a[0], ONE), init)
            if u is elem or u is pos:
                last = idx(dom, num(-1)) if u is elem else sub(length(dom), ONE)
                return ite(truthy(dom), last, init)
            last = subst(u, {elem: idx(dom, num(-1)), pos: sub(length(dom), ONE)} if elem is not pos else {pos: sub(length(dom), ONE)})
            return ite(truthy(dom), last, init)
        if exits is FALSE or not (exits.fs & allmu):
            pass
        only = hasmu == frozenset((mu,)) and exits is FALSE
        if only:
            ls = leaves(u)
            # list accumulation
            parts = [self._append_part(lf, mu) for lf in ls]
            if all(p is not None for p in parts):
                b = map_leaves(u, lambda x: self._append_part(x, mu))
                if mu not in b.fs:
                    return cat(init, tm.over("fmap", dom, elem, pos, b))
            parts = [self._prepend_part(lf, mu) for lf in ls]
            if all(p is not None for p in parts):
                b = map_leaves(u, lambda x: self._prepend_part(x, mu))
                if mu not in b.fs:
                    f = tm.over("fmap", dom, elem, pos, map_leaves(b, reverse))
                    return cat(reverse(f), init)
            # numeric accumulation
            if all(lf is mu or self.increment(lf, mu) is not None for lf in ls) and info.get("kind") not in ("list", "map"):
                b = map_leaves(u, lambda x: ZERO if x is mu else self.increment(x, mu))
                if mu not in b.fs:
                    return add(init, tm.over("sum", dom, elem, pos, b))
            # boolean accumulation
            ma = mk("truthy", mu)
            if kind(u) == "bool" or all(x in (TRUE, FALSE) or x is mu or tm.is_bool_atom(x) for x in ls):
                ub = map_leaves(u, lambda x: ma if x is mu else x)
                hi, lo = tm.cofactor(ub, ma, True), tm.cofactor(ub, ma, False)
                if mu not in hi.fs and mu not in lo.fs:
                    if hi is TRUE:
                        return Or(truthy(init), exists(dom, elem, pos, truthy(lo)))
                    if lo is FALSE:
                        return And(truthy(init), Not(exists(dom, elem, pos, Not(truthy(hi)))))
            if accumulated:
                return None
            dom = dom0
            # map copied entry by entry
            if exits0 is FALSE and u.op == "put" and u.a[0] is mu and u.a[1] is elem and init is EMPTYMAP and u.a[2].op == "rd" and u.a[2].a[1] is elem \
                    and not (u.a[2].a[0].fs & (bound | {mu})) and dom is keys(u.a[2].a[0]):
                return u.a[2].a[0]
            # array filled position by position
            if exits0 is FALSE and u.op == "put" and u.a[0] is mu and u.a[1] is pos and mu not in u.a[2].fs:
                if init.op == "zeros" and init.a[0] is length(dom):
                    return fmap(dom, elem, pos, seq(u.a[2]))
                if length(init) is length(dom) and init.op != "emptymap":
                    return fmap(dom, elem, pos, seq(u.a[2]))
        if rec.cut:
            rec.end[mu] = tm.fresh("end", **{k: info[k] for k in ("kind", "valkind", "keykind") if k in info})
            self.cutends.add(rec.end[mu])
            return rec.end[mu]
        if only and init.op == "lend" and pos not in u.fs:
            # a table filled with one value for every element, then overwritten for some of the same elements
            p = tm.fold_parts(init)
            if p is not None and p[0] is dom0 and p[3] is TRUE and p[4] is p[1] and p[2] not in p[5].fs \
                    and all(x is mu or x.op == "put" and x.a[0] is mu and x.a[1] is elem and mu not in x.a[2].fs for x in leaves(u)):
                d = subst(p[5], {p[1]: elem})
                plocs = dict(plocs)
                plocs[mu] = (p[6], map_leaves(u, lambda x: put(mu, elem, d) if x is mu else x))
        loop, rank = make_loop(dom0, elem, pos, plocs, exits0, [mu])
        return mk("lend", loop, rank[mu])

    def _append_part(self, lf, mu):
        if lf is mu:
            return NIL
        if lf.op == "cat" and lf.a[0] is mu:
            rest = cat(*lf.a[1:])
            return rest if mu not in rest.fs else None
        return None

    def _prepend_part(self, lf, mu):
        if lf is mu:
            return NIL
        if lf.op == "cat" and lf.a[-1] is mu:
            rest = cat(*lf.a[:-1])
            return rest if mu not in rest.fs else None
        return None

    def s_While(self, n, st, ctx):
        # pattern: while L: x = L.pop(); ...
        t = n.test
        neg_ = False
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Call) and isinstance(t.left.func, ast.Name) and t.left.func.id == "len" \
                and isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0:
            t = t.left.args[0]
        if isinstance(t, ast.Name):
            first = n.body[0]
            pops = [c for b in n.body for c in ast.walk(b) if isinstance(c, ast.Name) and c.id == t.id]
            call = first.value if isinstance(first, (ast.Assign, ast.Expr)) else None
            if isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and call.func.attr in ("pop", "popleft") and isinstance(call.func.value, ast.Name) \
                    and call.func.value.id == t.id and len(pops) == 1 and isinstance(first, ast.Assign):
                fromfront = call.func.attr == "popleft" or (len(call.args) == 1 and isinstance(call.args[0], ast.Constant) and call.args[0].value == 0)
                if fromfront or not call.args or (isinstance(call.args[0], ast.UnaryOp)):
                    v = self.ev(t, st, ctx)
                    lst = self.pure(v, st)
                    if not fromfront:
                        lst = reverse(lst)
                    out = Outcome()

                    def body(s, elem, pos):
                        for tt in first.targets:
                            self.assign(tt, elem, s, ctx)
                        return self.block(n.body[1:], s, ctx)
                    dead = self.dead_names(n, ctx)
                    if self.is_ref(v):
                        st.store[("c", v)] = unk("popped")
                    res = self.iterate(st, lst, body, ctx, n, dead)
                    if "next" in res.d and self.is_ref(v):
                        res.d["next"][1].store[("c", v)] = NIL
                    self.finish_loop(res, n, out, TRUE, ctx)
                    return out
        dead = self.dead_names(n, ctx)
        # counting loops: while i < n (decided on the body's effect on the counter)
        cnt = self.counter_loop(n, st, ctx, dead)
        if cnt is not None:
            return cnt

        rotated = self.rotated(n, st, ctx)
        if rotated is not None:
            res = self.loop(st, None, lambda s, elem, pos: self.block(rotated, s, ctx), ctx, n, dead)
            out = Outcome()
            self.finish_loop(res, n, out, TRUE, ctx)
            return out

        def body(s, elem, pos):
            c = truthy(self.pure(self.ev(n.test, s, ctx), s))
            out = Outcome()
            if c is not TRUE:
                self.put_outcome(out, "break", Not(c), s.copy())
            if c is not FALSE:
                sub = self.block(n.body, s.copy(), ctx)
                self.join(out, sub, c)
            return out
        res = self.loop(st, None, body, ctx, n, dead)
        out = Outcome()
        self.finish_loop(res, n, out, TRUE, ctx)
        return out

    def rotated(self, n, st, ctx):
        """the body of a loop whose test holds at the start, followed by the test"""
        if n.orelse or isinstance(n.test, ast.Constant) or any(isinstance(x, ast.Continue) for b in n.body for x in own_jumps(b)):
            return None
        if any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Await)) for x in ast.walk(n.test)):
            return None
        s = st.copy()
        if truthy(self.pure(self.ev(n.test, s, ctx), s)) is not TRUE:
            return None
        if id(n) not in self.rotations:
            stop = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Break()], orelse=[])
            ast.copy_location(stop, n)
            ast.fix_missing_locations(stop)
            self.rotations[id(n)] = (n, list(n.body) + [stop])
        return self.rotations[id(n)][1]

    def counter_loop(self, n, st, ctx, dead):
        t = n.test
        conj = []
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            conj = t.values[1:]
            t = t.values[0]
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq)) and isinstance(t.left, ast.Name)):
            return None
        name = t.left.id
        loc = self.var_loc(name, ctx)
        init = st.store.get(loc)
        if init is None or kind(init) not in ("nat", "int"):
            return None
        # every path through the body increments the counter exactly once, as a top level statement
        incs = [s for s in n.body if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name]
        stores = [x for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
        if len(incs) != 1 or len(stores) != 1 or not isinstance(incs[0].op, ast.Add) or not (isinstance(incs[0].value, ast.Constant) and incs[0].value.value == 1):
            return None
        pos_inc = n.body.index(incs[0])
        for s in n.body[:pos_inc]:
            for x in ast.walk(s):
                if isinstance(x, ast.Continue) and not self._in_inner_loop(s, x):
                    return None
        # bound must be invariant
        bnames = {x.id for x in ast.walk(t.comparators[0]) if isinstance(x, ast.Name)}
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in bnames:
                    return None
        bound = self.pure(self.ev(t.comparators[0], st, ctx), st)
        if isinstance(t.ops[0], ast.LtE):
            bound = add(bound, ONE)
        dom = mk("rangen", sub(bound, init))

        def body(s, elem, pos):
            s.store[loc] = add(init, pos)
            out = Outcome()
            if conj:
                c = And(*[truthy(self.pure(self.ev(x, s, ctx), s)) for x in conj])
                if c is not TRUE:
                    self.put_outcome(out, "break", Not(c), s.copy())
                self.join(out, self.block(n.body, s.copy(), ctx), c)
                return out
            return self.block(n.body, s, ctx)
        res = self.iterate(st, dom, body, ctx, n, dead)
        out = Outcome()
        if "next" in res.d:
            c, s, v = res.d["next"]
            if not (name in dead):
                s.store[loc] = ite(lt(init, bound), bound, init)
        self.finish_loop(res, n, out, TRUE, ctx)
        return out

    def _in_inner_loop(self, root, node):
        if isinstance(root, (ast.For, ast.While)):
            return any(x is node for x in ast.walk(root))
        for c in ast.iter_child_nodes(root):
            if any(x is node for x in ast.walk(c)):
                return self._in_inner_loop(c, node)
        return False

    # ---------------------------------------------------------------- objects
    def objval(self, o, st):
        info = syminfo.get(o, {})
        cls = info.get("cls")
        items = []
        for loc, v in st.store.items():
            if len(loc) > 1 and loc[1] is o and loc[0] in ("f", "na", "ea", "A", "N", "E", "x", "dyn"):
                if v is UNDEF:
                    continue
                items.append((loc[0], loc[2] if len(loc) > 2 else "", self.pure(v, st)))
        items.sort(key=lambda x: (x[0], x[1]))
        root = info.get("root")
        return mk("objval", cls.name if isinstance(cls, Class) else str(cls), root if root is not None else NONE, tuple(items))

    def reify(self, t, st):
        """value of t with containers and created objects replaced by contents"""
        n = 0
        while n < 40:
            m = {}
            for s in t.fs:
                info = syminfo.get(s, {})
                if info.get("ref"):
                    m[s] = self.get(st, ("c", s))
                elif info.get("new") or info.get("root") is not None:
                    m[s] = self.objval(s, st)
            if not m:
                return t
            t = subst(t, m)
            n += 1
        return t

    def snap(self, o, st):
        """diagram or object state as seen by an opaque callee"""
        if o.op != "sym":
            return self.reify(o, st)
        info = syminfo.get(o, {})
        if info.get("ref"):
            return self.reify(o, st)
        if info.get("new") or info.get("root") is not None:
            return self.objval(o, st)
        items = []
        cls = info.get("cls")
        inputs = self.models.INPUT_FIELDS.get(cls.name) if cls is not None else None
        for loc, v in st.store.items():
            if inputs is not None and loc[0] == "f" and len(loc) > 2 and loc[2] not in inputs:
                continue
            if len(loc) > 1 and loc[1] is o and loc[0] in ("f", "na", "ea", "A", "N", "E", "x", "dyn"):
                pv = self.pure(v, st)
                d = self.default(loc)
                if pv is self.pure(d, State()) or v is UNDEF:
                    continue
                items.append((loc[0], loc[2] if len(loc) > 2 else "", pv))
        if not items:
            return o
        items.sort(key=lambda x: (x[0], x[1]))
        return mk("state", o, tuple(items))

    def new_obj(self, st, cls, **info):
        o = fresh("obj")
        syminfo[o] = dict(cls=cls, new=True, kind="obj")
        syminfo[o].update(info)
        return o

    # ---------------------------------------------------------------- bindings
    def binding(self, r, name="?"):
        if r is None:
            return unk("unresolved", name)
        k = r[0]
        if k == "func":
            return mk("func", r[1].qual)
        if k == "class":
            return mk("cls", r[1].qual)
        if k == "ext":
            return self.models.ext_const(r[1]) or mk("ext", r[1])
        if k == "module":
            return mk("mod", r[1].name)
        if k == "value":
            return None
        return unk("binding", name)

    def func_by_qual(self, q):
        mod, n = q.split(":")
        r = self.p.find(q)
        if r is None:
            return None
        return r[1]

    def name(self, n, st, ctx):
        ident = n.id
        c = ctx
        while c is not None:
            if ident in c.locals and ident not in c.globals and ident not in c.nonlocals:
                v = st.store.get(("v", c.fid, ident))
                if v is None:
                    v = UNDEF
                if v is UNDEF:
                    return mk("unk", "undefined name " + ident)
                return v
            c = c.parent
        return self.global_name(ident, st, ctx)

    def global_name(self, ident, st, ctx):
        g = st.store.get(("v", 0, ctx.module.name + "." + ident))
        if g is not None:
            return g
        r = self.p.lookup(ctx.module, ident)
        if r is None:
            if ident == "__name__":
                return const(ctx.module.name)
            if ident == "__file__":
                return const(ctx.module.rel)
            if hasattr(builtins, ident):
                return mk("ext", "builtins." + ident)
            return mk("unk", "unresolved name " + ident)
        if r[0] == "value":
            mctx = Ctx(None, r[1], 0, None)
            return self.standing(r[2], st, mctx)
        return self.binding(r, ident)

    # ---------------------------------------------------------------- expressions
    def ev(self, n, st, ctx):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.note(ctx, n, "unsupported expression %s" % type(n).__name__)
            return unk("unsupported expression %s" % type(n).__name__)
        return m(n, st, ctx)

    def evp(self, n, st, ctx):
        return self.pure(self.ev(n, st, ctx), st)

    def e_Constant(self, n, st, ctx):
        if n.value is Ellipsis:
            return mk("const", "ellipsis", "...")
        if isinstance(n.value, bytes):
            return mk("const", "bytes", n.value)
        if isinstance(n.value, complex):
            return unk("complex")
        return const(n.value)

    def e_Name(self, n, st, ctx):
        return self.name(n, st, ctx)

    def e_NamedExpr(self, n, st, ctx):
        v = self.ev(n.value, st, ctx)
        self.assign(n.target, v, st, ctx)
        return v

    def e_JoinedStr(self, n, st, ctx):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.evp(v.value, st, ctx)
                sp = self.evp(v.format_spec, st, ctx) if v.format_spec is not None else None
                parts.append(self.formatted(x, chr(v.conversion) if v.conversion != -1 else None, sp))
        return self.strcat(parts)

    def formatted(self, x, conversion, spec):
        if conversion == "r":
            x = fn("str", x) if kind(x) in ("num", "nat", "int", "node", "edge") else fn("repr", x)
        elif conversion:
            x = self.astext(x)
        if spec is not None and spec is not const(""):
            return fn("format", x, spec)
        return x

    def astext(self, x):
        return map_leaves(x, lambda p: p if p.op == "fmt" or kind(p) == "str" or p.op == "fn" and p.a[0] in ("format", "repr", "str") else fn("str", p))

    def strcat(self, parts):
        def f(*ps):
            out = []
            for p in ps:
                for q in (p.a if p.op == "fmt" else (p,)):
                    if q.op == "const" and q.a[0] == "str":
                        if not q.a[1]:
                            continue
                        if out and out[-1].op == "const":
                            out[-1] = const(out[-1].a[1] + q.a[1])
                            continue
                    out.append(q)
            if not out:
                return const("")
            return out[0] if len(out) == 1 else mk("fmt", *out)
        return lift(f, [self.astext(p) for p in parts])

    def template(self, text, args, kw):
        """the text that text.format(*args, **kw) gives, or None when it is not understood"""
        parts, auto = [], 0
        if any(a.op == "star" for a in args):
            return None
        try:
            items = list(string.Formatter().parse(text))
        except ValueError:
            return None

        def field(name):
            nonlocal auto
            if name == "":
                name, auto = str(auto), auto + 1
            if name.isdigit():
                return args[int(name)] if int(name) < len(args) else None
            return kw.get(name)
        for lit, name, spec, conv in items:
            if lit:
                parts.append(const(lit))
            if name is None:
                continue
            x = field(name)
            if x is None:
                return None
            sp = None
            if spec:
                inner = []
                for l2, n2, s2, c2 in string.Formatter().parse(spec):
                    if l2:
                        inner.append(const(l2))
                    if n2 is not None:
                        y = field(n2)
                        if y is None or s2 or c2:
                            return None
                        inner.append(y)
                sp = self.strcat(inner)
            parts.append(self.formatted(x, conv, sp))
        return self.strcat(parts)

    def percent(self, text, args):
        parts, rest, k = [], text, 0
        for m in re.finditer(r"%(%|([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z]))", text):
            lit = text[len(text) - len(rest):m.start()]
            rest = text[m.end():]
            if lit:
                parts.append(const(lit))
            if m.group(1) == "%":
                parts.append(const("%"))
                continue
            if k >= len(args):
                return None
            x, k = args[k], k + 1
            flags, conv = m.group(2), m.group(3)
            if flags == "" and conv == "s":
                parts.append(x)
            elif flags == "" and conv == "r":
                parts.append(self.formatted(x, "r", None))
            elif flags == "" and conv in ("d", "i") and kind(x) in ("nat", "int", "node"):
                parts.append(x)
            elif conv in "feEgG" and not re.match(r"[-# ]", flags):
                parts.append(fn("format", x, const(flags + conv)))
            else:
                return None
        if rest:
            parts.append(const(rest))
        return self.strcat(parts) if k == len(args) else None

    def e_FormattedValue(self, n, st, ctx):
        return self.evp(n.value, st, ctx)

    def e_Tuple(self, n, st, ctx):
        return self.elts(n.elts, st, ctx)

    def e_List(self, n, st, ctx):
        return self.new_ref(st, self.elts(n.elts, st, ctx), "list")

    def e_Set(self, n, st, ctx):
        return self.new_ref(st, self.elts(n.elts, st, ctx), "set")

    def elts(self, elts, st, ctx):
        parts = []
        cur = []
        for e in elts:
            if isinstance(e, ast.Starred):
                if cur:
                    parts.append(tm.mkseq(cur))
                    cur = []
                parts.append(self.aslist(self.ev(e.value, st, ctx), st))
            else:
                cur.append(self.ev(e, st, ctx))
        if cur or not parts:
            parts.append(tm.mkseq(cur))
        return cat(*parts) if len(parts) > 1 else parts[0]

    def e_Dict(self, n, st, ctx):
        m = EMPTYMAP
        for k, v in zip(n.keys, n.values):
            if k is None:
                other = self.evp(v, st, ctx)
                m = self.map_update(m, other)
            else:
                kk = self.evp(k, st, ctx)
                m = put(m, kk, self.ev(v, st, ctx))
        return self.new_ref(st, m, "dict")

    def map_update(self, m, other):
        def f(o):
            if o.op == "emptymap":
                return m
            if o.op == "put":
                return put(f(o.a[0]), o.a[1], o.a[2])
            if o.op == "ite":
                return ite(o.a[0], f(o.a[1]), f(o.a[2]))
            if m.op == "emptymap":
                return o
            return mk("fn", "dict.update", m, o)
        return f(other)

    def e_IfExp(self, n, st, ctx):
        c = truthy(self.evp(n.test, st, ctx))
        return self.fork(c, lambda s: self.ev(n.body, s, ctx), lambda s: self.ev(n.orelse, s, ctx), st)

    def fork(self, c, f, g, st):
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return g(st)
        s1, s2 = st.copy(), st.copy()
        a = f(s1)
        b = g(s2)
        for s, cc in ((s1, c), (s2, Not(c))):
            for (x, exc, snap) in s.pending:
                st.pending.append((And(cc, x), exc, snap))
            s.pending = []
        if s1.store != s2.store:
            st.store = self.merge(c, s1, s2).store
        return ite(c, a, b)

    def e_BoolOp(self, n, st, ctx):
        def go(i, s):
            v = self.ev(n.values[i], s, ctx)
            if i == len(n.values) - 1:
                return v
            c = truthy(self.pure(v, s))
            if isinstance(n.op, ast.And):
                return self.fork(c, lambda x: go(i + 1, x), lambda x: self.as_false(v, c), s)
            return self.fork(c, lambda x: self.as_true(v, c), lambda x: go(i + 1, x), s)
        return go(0, st)

    def as_false(self, v, c):
        if kind(v) == "bool" or v is c:
            return FALSE
        return v

    def as_true(self, v, c):
        if kind(v) == "bool" or v is c:
            return TRUE
        return v

    def e_UnaryOp(self, n, st, ctx):
        v = self.evp(n.operand, st, ctx)
        if isinstance(n.op, ast.Not):
            return Not(truthy(v))
        if isinstance(n.op, ast.USub):
            return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        return fn("invert", v)

    def e_BinOp(self, n, st, ctx):
        a = self.ev(n.left, st, ctx)
        b = self.ev(n.right, st, ctx)
        return self.binop(n.op, a, b, st, ctx, n)

    @staticmethod
    def counted(t):
        """A truth value in arithmetic counts as one or zero."""
        if not any(tm.is_bool_atom(x) or x is TRUE or x is FALSE for x in leaves(t)):
            return t
        return map_leaves(t, lambda x: ONE if x is TRUE else ZERO if x is FALSE else ite(x, ONE, ZERO) if tm.is_bool_atom(x) else x)

    def binop(self, op, a, b, st, ctx, n):
        ra = syminfo.get(a, {}).get("pykind") if a.op == "sym" else None
        rb = syminfo.get(b, {}).get("pykind") if b.op == "sym" else None
        pa, pb = self.pure(a, st), self.pure(b, st)
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            pa, pb = self.counted(pa), self.counted(pb)
        if (ra == "array" or rb == "array") and any(x.op == "fmap" for t in (pa, pb) for x in leaves(t)):
            f = {ast.Add: add, ast.Sub: sub, ast.Mult: self.models.times, ast.Div: div, ast.Pow: self.models.to_power}.get(type(op))
            if f is not None:
                return self.new_ref(st, self.models.elementwise(f, pa, pb), "array")
        if isinstance(op, ast.Pow) and kind(pa) == "vec":
            return self.models.to_power(pa, pb)
        if isinstance(op, ast.Mult) and kind(pa) == "vec" and kind(pb) == "vec":
            return self.models.times(pa, pb)
        if isinstance(op, ast.Add):
            if ra in ("list",) or rb in ("list",):
                if not (ra == "array" or rb == "array"):
                    return self.new_ref(st, cat(pa, pb), "list")
            if isinstance(getattr(n, "left", None), (ast.Tuple, ast.ListComp)) or isinstance(getattr(n, "right", None), ast.Tuple):
                return cat(pa, pb)
            if pa.op in ("fmap", "cat", "nodes", "edges", "keys", "slice") or pb.op in ("fmap", "cat", "slice"):
                if not (kind(pa) in ("num", "nat", "int") or kind(pb) in ("num", "nat", "int")):
                    return cat(pa, pb)
            if kind(pa) == "str" or kind(pb) == "str" or pa.op == "fmt" or pb.op == "fmt":
                return self.strcat([pa, pb])
            return add(pa, pb)
        if isinstance(op, ast.Sub):
            if ra == "set" or rb == "set" or (pa.op in ("nodes", "fmap") and pb.op in ("nodes", "fmap", "cat", "lend")) or pa.op == "setof":
                return self.set_diff(pa, pb)
            return sub(pa, pb)
        if isinstance(op, ast.Mult):
            for x, y, r in ((pa, pb, ra), (pb, pa, rb)):
                if r == "list" and x.op == "seq" and y.op == "num":
                    return self.new_ref(st, tm.mkseq(list(x.a) * int(y.a[0])), "list")
                if r == "list" and x.op == "seq" and len(x.a) == 1 and x.a[0] is ZERO:
                    return self.new_ref(st, mk("zeros", y), "list")
                if r == "list" and x.op == "seq" and len(x.a) == 1:
                    return self.new_ref(st, mk("fn", "repeat", x, y), "list")
            if kind(pa) == "str" or kind(pb) == "str":
                return fn("strmul", pa, pb)
            return mul(pa, pb)
        if isinstance(op, ast.Div):
            self.implicit(st, eq(pb, ZERO), "ZeroDivisionError")
            return div(pa, pb)
        if isinstance(op, ast.Pow):
            return power(pa, pb)
        if isinstance(op, ast.Mod):
            if kind(pa) == "str":
                if pa.op == "const":
                    r = self.percent(pa.a[1], list(pb.a) if pb.op == "seq" else [pb])
                    if r is not None and (pb.op == "seq" or kind(pb) in ("num", "nat", "int", "node", "str")):
                        return r
                return fn("percent", pa, pb)
            if pa.op == "num" and pb.op == "num" and pb.a[0]:
                return num(pa.a[0] % pb.a[0])
            return fn("mod", pa, pb)
        if isinstance(op, ast.FloorDiv):
            if pa.op == "num" and pb.op == "num" and pb.a[0]:
                return num(pa.a[0] // pb.a[0])
            return tm.floor(div(pa, pb))
        if isinstance(op, ast.BitOr):
            if ra == "set" or rb == "set":
                return self.new_ref(st, cat(pa, pb), "set")
            if ra == "dict" or rb == "dict":
                return self.new_ref(st, self.map_update(pa, pb), "dict")
            if kind(pa) == "bool" and kind(pb) == "bool":
                return Or(pa, pb)
        if isinstance(op, ast.BitAnd):
            if kind(pa) == "bool" and kind(pb) == "bool":
                return And(pa, pb)
            if ra == "set" or rb == "set":
                return self.set_inter(pa, pb)
        if isinstance(op, ast.MatMult):
            return tm.dot(pa, pb)
        return fn("op" + type(op).__name__, pa, pb)

    def set_diff(self, a, b):
        def f(a, b):
            e = fresh("e", dom=a, kind=tm.elemkind(a))
            p = fresh("p", kind="nat", posof=a, elem=e)
            return tm.over("fmap", a, e, p, ite(member(e, b), NIL, seq(e)))
        return lift(f, (a, b))

    def set_inter(self, a, b):
        def f(a, b):
            e = fresh("e", dom=a, kind=tm.elemkind(a))
            p = fresh("p", kind="nat", posof=a, elem=e)
            return tm.over("fmap", a, e, p, ite(member(e, b), seq(e), NIL))
        return lift(f, (a, b))

    def e_Compare(self, n, st, ctx):
        left = self.ev(n.left, st, ctx)
        res = TRUE
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st, ctx)
            res = And(res, self.compare(op, left, right, st))
            left = right
        return res

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            pa, pb = self.pure(a, st), self.pure(b, st)
            r = isnone(pa) if pb is NONE else isnone(pb) if pa is NONE else eq(pa, pb)
            return r if isinstance(op, ast.Is) else Not(r)
        pa, pb = self.pure(a, st), self.pure(b, st)
        if not isinstance(op, (ast.In, ast.NotIn)) and "set" in [syminfo.get(x, {}).get("pykind") for x in (a, b)]:
            return self.compare_sets(op, pa, pb)
        if isinstance(op, ast.Eq):
            return eq(pa, pb)
        if isinstance(op, ast.NotEq):
            return Not(eq(pa, pb))
        if isinstance(op, ast.Lt):
            return lt(pa, pb)
        if isinstance(op, ast.LtE):
            return le(pa, pb)
        if isinstance(op, ast.Gt):
            return lt(pb, pa)
        if isinstance(op, ast.GtE):
            return le(pb, pa)
        if isinstance(op, (ast.In, ast.NotIn)):
            if b.op == "attrs":
                if pa.op == "const":
                    v = self.get(st, ("A", b.a[0], pa.a[1]))
                    r = FALSE if v is UNDEF else mk("has", mk("attrmap", syminfo.get(b.a[0], {}).get("root", b.a[0])), pa) if ("A", b.a[0], pa.a[1]) not in st.store else TRUE
                else:
                    r = mk("has", mk("attrmap", b.a[0]), pa)
            else:
                r = member(pa, pb)
            return r if isinstance(op, ast.In) else Not(r)
        return unk("compare")

    def compare_sets(self, op, a, b):
        def within(x, y):
            if x.op == "seq":
                return And(*[member(z, y) for z in x.a])
            if x is y:
                return TRUE
            if y is NIL:
                return Not(truthy(x))
            return None
        if isinstance(op, (ast.Gt, ast.GtE)):
            a, b = b, a
        ab, ba = within(a, b), within(b, a)
        if ab is None or (ba is None and not isinstance(op, (ast.LtE, ast.GtE))):
            return unk("comparison of sets")
        if isinstance(op, (ast.LtE, ast.GtE)):
            return ab
        if isinstance(op, (ast.Lt, ast.Gt)):
            return And(ab, Not(ba))
        r = And(ab, ba)
        return r if isinstance(op, ast.Eq) else Not(r)

    def e_Lambda(self, n, st, ctx):
        return self.make_closure(n, ctx, "<lambda>")

    def e_Starred(self, n, st, ctx):
        return self.ev(n.value, st, ctx)

    def e_Await(self, n, st, ctx):
        return unk("await")

    def e_Yield(self, n, st, ctx):
        v = self.pure(self.ev(n.value, st, ctx), st) if n.value is not None else NONE
        loc = ("v", ctx.fid, "$yield")
        st.store[loc] = cat(self.get_yield(st, loc), mk("seq", v)) if v.op != "ite" else cat(self.get_yield(st, loc), seq(v))
        return NONE

    def get_yield(self, st, loc):
        v = st.store.get(loc)
        return NIL if v is None or v is UNDEF else v

    def e_YieldFrom(self, n, st, ctx):
        v = self.aslist(self.ev(n.value, st, ctx), st)
        loc = ("v", ctx.fid, "$yield")
        st.store[loc] = cat(self.get_yield(st, loc), v)
        return NONE

    def aslist(self, v, st):
        if v.op == "const" and v.a[0] == "str":
            return mk("seq", *[const(c) for c in v.a[1]])
        return self._aslist(v, st)

    def _aslist(self, v, st):
        p = self.iter_list(v, st)
        return self.pure(p, st)

    # comprehensions --------------------------------------------------------
    def comp(self, gens, st, ctx, finish, init):
        """nested for/if of a comprehension; finish(state, acc_loc)"""
        self.nfid += 1
        fid = self.nfid
        c2 = Ctx(ctx.func, ctx.module, fid, ctx.cls, ctx, None)
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    c2.locals.add(x.id)
        acc = ("v", fid, "$acc")
        st.store[acc] = init

        def level(i, s):
            if i == len(gens):
                finish(s, acc, c2)
                return self.simple(s)
            g = gens[i]
            itv = self.ev(g.iter, s, ctx if i == 0 else c2)
            pre = Outcome()
            self.flush(pre, s)
            out = Outcome()
            out.raises.extend(pre.raises)
            if "next" not in pre.d:
                return out
            alive, s, _ = pre.d["next"]

            def body(s2, elem, pos):
                self.assign(g.target, elem, s2, c2)

                def conds(j, s3):
                    if j == len(g.ifs):
                        return level(i + 1, s3)
                    cc = truthy(self.pure(self.ev(g.ifs[j], s3, c2), s3))
                    o = Outcome()
                    pre2 = Outcome()
                    self.flush(pre2, s3)
                    o.raises.extend(pre2.raises)
                    if "next" not in pre2.d:
                        return o
                    al, s3, _ = pre2.d["next"]
                    if cc is not FALSE:
                        self.join(o, conds(j + 1, s3.copy()), And(al, cc))
                    if cc is not TRUE:
                        self.put_outcome(o, "next", And(al, Not(cc)), s3)
                    return o
                return conds(0, s2)
            res = self.iterate(s, self.iter_list(itv, s), body, c2, g, c2.locals)
            self.join(out, res, alive)
            return out
        o = level(0, st.copy())
        for (c, exc, s) in o.raises:
            st.pending.append((c, exc, s))
        if "next" not in o.d:
            return unk("comprehension never completes")
        c, s, _ = o.d["next"]
        v = s.store.pop(acc, UNDEF)
        for k in list(s.store):
            if k[0] == "v" and k[1] == fid and fid not in self.fid_keep:
                del s.store[k]
        st.store = s.store
        return v

    def e_ListComp(self, n, st, ctx):
        def finish(s, acc, c2):
            v = self.ev(n.elt, s, c2)
            s.store[acc] = cat(s.store[acc], seq(v))
        return self.new_ref(st, self.comp(n.generators, st, ctx, finish, NIL), "list")

    def e_GeneratorExp(self, n, st, ctx):
        def finish(s, acc, c2):
            v = self.ev(n.elt, s, c2)
            s.store[acc] = cat(s.store[acc], seq(v))
        return self.comp(n.generators, st, ctx, finish, NIL)

    def e_SetComp(self, n, st, ctx):
        def finish(s, acc, c2):
            v = self.ev(n.elt, s, c2)
            s.store[acc] = cat(s.store[acc], seq(v))
        return self.new_ref(st, self.comp(n.generators, st, ctx, finish, NIL), "set")

    def e_DictComp(self, n, st, ctx):
        def finish(s, acc, c2):
            k = self.evp(n.key, s, c2)
            v = self.ev(n.value, s, c2)
            s.store[acc] = put(s.store[acc], k, v)
        return self.new_ref(st, self.comp(n.generators, st, ctx, finish, EMPTYMAP), "dict")

    def list_loop(self, st, lst, f, ctx, node):
        """[f(state, elem)] concatenated, for library functions taking callbacks"""
        self.nfid += 1
        acc = ("v", self.nfid, "$acc")
        st.store[acc] = NIL

        def body(s, elem, pos):
            piece = f(s, elem, pos)
            s.store[acc] = cat(s.store[acc], piece)
            return self.simple(s)
        o = self.iterate(st.copy(), lst, body, ctx, node, frozenset())
        for (c, exc, s) in o.raises:
            st.pending.append((c, exc, s))
        if "next" not in o.d:
            return unk("loop never completes")
        c, s, _ = o.d["next"]
        v = s.store.pop(acc)
        st.store = s.store
        return v

    # subscripts ------------------------------------------------------------
    def e_Subscript(self, n, st, ctx):
        b = self.ev(n.value, st, ctx)
        if isinstance(n.slice, ast.Slice):
            p = self.pure(b, st)
            lo = self.evp(n.slice.lower, st, ctx) if n.slice.lower is not None else NONE
            hi = self.evp(n.slice.upper, st, ctx) if n.slice.upper is not None else NONE
            stp = self.evp(n.slice.step, st, ctx) if n.slice.step is not None else NONE
            if stp is num(-1) and lo is NONE and hi is NONE:
                return reverse(p)
            if stp is not NONE and stp is not ONE:
                return fn("slice3", p, lo, hi, stp)
            if lo is NONE and hi is NONE:
                return self.new_ref(st, p, "list")
            return tm.slice_(p, lo, hi)
        k = self.evp(n.slice, st, ctx)
        return self.subscript(b, k, st)

    def subscript(self, b, k, st):
        if b.op == "ite":
            return self.fork(b.a[0], lambda s: self.subscript(b.a[1], k, s), lambda s: self.subscript(b.a[2], k, s), st)
        if b.op == "attrs":
            if k.op == "const":
                v = self.get(st, ("A", b.a[0], k.a[1]))
                return v if v is not UNDEF else unk("missing attribute", k)
            return mk("fn", "attributes", b.a[0], k)
        if b.op == "dattrs":
            return self.read_elem(st, b.a[0], b.a[1], b.a[2], k)
        c = b
        if self.is_ref(b):
            c = self.get(st, ("c", b))
        return self.index(c, k, st, True)

    def read_elem(self, st, which, obj, key, name):
        if name.op == "const":
            dyn = st.store.get(("dyn", obj))
            m = self.get(st, (which, obj, name.a[1]))
            if dyn is not None and dyn is not self.default(("dyn", obj)):
                return rd(mk("dynmap", dyn, m), key)
            return rd(m, key)
        if name.op == "ite":
            return ite(name.a[0], self.read_elem(st, which, obj, key, name.a[1]), self.read_elem(st, which, obj, key, name.a[2]))
        if name is UNDEF:
            return UNDEF
        return mk("fn", "elem_attr", const(which), self.snap(obj, st), key, name)

    def index(self, c, k, st, implicit=False):
        if c.op == "ite":
            return ite(c.a[0], self.index(c.a[1], k, st), self.index(c.a[2], k, st))
        listed = False
        if self.is_ref(c):
            listed = syminfo.get(c, {}).get("pykind") == "list"
            c = self.get(st, ("c", c))
        if c.op == "seq" and k.op == "num":
            return idx(c, k)
        if c.op == "put":
            # keep references stored in the map
            b, k1, v1 = c.a
            if k1 is k:
                return v1
            if tm.distinct(k1, k):
                return self.index(b, k, st)
        c = self.pure(c, st)
        if kind(c) == "map" or c.op in ("emptymap", "put", "mapdel", "lend", "lmu") or c.op == "sym" and syminfo.get(c, {}).get("kind") == "map":
            self.implicit(st, Not(has(c, k)), "KeyError")
            return rd(c, k)
        if k.op == "const" and k.a[0] == "str":
            return rd(c, k)
        if kind(k) in ("node", "edge"):
            return rd(c, k)
        if k.op == "sym" and syminfo.get(k, {}).get("posof") is not None:
            return idx(c, k)
        if not listed and c.op in ("rd", "fld", "attr", "sym", "m", "fn") and kind(c) not in ("list", "vec", "edge", "trail"):
            if kind(k) in ("nat", "int") and k.op == "num":
                return idx(c, k)
            return rd(c, k)
        return idx(c, k)

    def e_Attribute(self, n, st, ctx):
        o = self.ev(n.value, st, ctx)
        return self.attr(o, n.attr, st, ctx, n)

    def attr(self, o, name, st, ctx, n):
        if o.op == "ite":
            return self.fork(o.a[0], lambda s: self.attr(o.a[1], name, s, ctx, n), lambda s: self.attr(o.a[2], name, s, ctx, n), st)
        if o.op == "ext":
            v = self.models.ext_const(o.a[0] + "." + name)
            return v if v is not None else mk("ext", o.a[0] + "." + name)
        if o.op == "mod":
            r = self.p.lookup(self.p.modules[o.a[0]], name)
            if r is None:
                return unk("missing attribute of module", name)
            if r[0] == "value":
                return self.ev(r[2], st, Ctx(None, r[1], 0, None))
            return self.binding(r, name)
        if o.op == "super":
            cls = self.class_by_qual(o.a[0])
            selfobj = o.a[1]
            scls = self.cls_of(selfobj, st)
            if selfobj.op == "cls":
                scls = self.class_by_qual(selfobj.a[0])
            if scls is not None and cls in scls.mro():
                r = scls.find(name, after=cls)
                if r is not None and not self.ext_first(scls, cls, name, r):
                    if r[0] == "getter":
                        return self.call_func(r[1], [selfobj], {}, st, ctx, n)
                    return mk("bound", selfobj, mk("func", r[1].qual))
            return mk("extmeth", selfobj, name)
        if o.op == "cls":
            cls = self.class_by_qual(o.a[0])
            if name == "__name__":
                return const(cls.name)
            r = cls.find(name)
            if r is not None:
                if r[0] == "method":
                    if r[1].kind == "classmethod":
                        return mk("bound", o, mk("func", r[1].qual))
                    return mk("func", r[1].qual)
                if r[0] == "attr":
                    return self.standing(r[1][1], st, Ctx(None, r[1][0].module, 0, None))
                return mk("prop", o, name)
            return mk("extmeth", o, name)
        if o.op == "sym" and not self.is_ref(o):
            cls = syminfo.get(o, {}).get("cls")
            fl = st.store.get(("f", o, name))
            if cls is not None:
                if name == "attributes" and self.is_diagram(cls):
                    return mk("attrs", o)
                if name == "__class__":
                    return mk("cls", cls.qual) if syminfo[o].get("new") else mk("clsof", o)
                r = cls.find(name)
                if r is not None and r[0] == "getter":
                    return self.call_func(r[1], [o], {}, st, ctx, n)
                if fl is not None and fl is not UNDEF:
                    return fl
                if r is not None:
                    if r[0] == "method":
                        if r[1].kind == "staticmethod":
                            return mk("func", r[1].qual)
                        if r[1].kind == "classmethod":
                            return mk("bound", mk("cls", cls.qual), mk("func", r[1].qual))
                        return mk("bound", o, mk("func", r[1].qual))
                    return self.standing(r[1][1], st, Ctx(None, r[1][0].module, 0, None))
                if self.is_diagram(cls) and name in self.models.NETWORK:
                    return mk("extmeth", o, name)
                if syminfo[o].get("new"):
                    if fl is UNDEF or fl is None:
                        return mk("extmeth", o, name)
                # input object: unknown field
                if self.is_diagram(cls):
                    return mk("extmeth", o, name)
                return self.get(st, ("f", o, name))
            if fl is not None and fl is not UNDEF:
                return fl
            return mk("xmeth", o, name)
        if name == "size" and (self.is_ref(o) or o.op in ("zeros", "fmap", "seq", "fn")):
            return length(self.pure(o, st))
        if o.op == "objval":
            for k, nm, v in o.a[2]:
                if k == "f" and nm == name:
                    return v
            return mk("xmeth", o, name)
        if name.startswith("_") and not name.startswith("__") and o.op in ("rd", "idx", "sym") and not self.is_ref(o):
            acc = self.p.accessor(name)
            if acc is not None:
                return mk("m", acc[0], self.pure(o, st)) if acc[1] == "method" else mk("xmeth", o, acc[0])
        return mk("xmeth", o, name)

    def ext_first(self, scls, cls, name, r):
        """an external base implementing the method precedes the found class in the MRO"""
        m = scls.mro()
        i = m.index(cls)
        owner = r[1].cls if r[0] in ("method", "getter") else r[1][0]
        j = m.index(owner)
        for c in m[i + 1:j]:
            if not isinstance(c, Class) and c[1].endswith("Network") and name in self.models.NETWORK:
                return True
        return False

    def cls_of(self, o, st):
        if o.op == "sym":
            return syminfo.get(o, {}).get("cls")
        return None

    def class_by_qual(self, q):
        r = self.p.find(q)
        return r[1] if r else None

    def is_diagram(self, cls):
        return any(e.endswith(".Network") for e in cls.ext_bases())

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, st, ctx):
        f = n.func
        # super()
        if isinstance(f, ast.Name) and f.id == "super" and "super" not in ctx.locals:
            if n.args:
                c = self.ev(n.args[0], st, ctx)
                o = self.ev(n.args[1], st, ctx)
            else:
                c = mk("cls", ctx.cls.qual)
                first = ctx.node.args.args[0].arg
                o = self.name(ast.Name(first, ast.Load()), st, ctx)
            return mk("super", c.a[0], o)
        if isinstance(f, ast.Name) and f.id == "print" and f.id not in ctx.locals:
            return NONE
        if (isinstance(f, ast.Attribute) and f.attr == "fromkeys" and isinstance(f.value, ast.Name) and f.value.id == "dict"
                and "dict" not in ctx.locals and not n.keywords and 1 <= len(n.args) <= 2 and not any(isinstance(a, ast.Starred) for a in n.args)):
            v = self.ev(n.args[1], st, ctx) if len(n.args) == 2 else NONE
            if "pykind" not in (syminfo.get(v, {}) if v.op == "sym" else {}):
                k = ast.Name("$key", ast.Store())
                g = ast.comprehension(target=k, iter=n.args[0], ifs=[], is_async=0)
                for x in ast.walk(g):
                    ast.copy_location(x, n) if not hasattr(x, "lineno") else None

                def finish(s, acc, c2):
                    s.store[acc] = put(s.store[acc], self.evp(ast.copy_location(ast.Name("$key", ast.Load()), n), s, c2), v)
                return self.new_ref(st, self.comp([g], st, ctx, finish, EMPTYMAP), "dict")
        if isinstance(f, ast.Attribute):
            o = self.ev(f.value, st, ctx)
            r = self.container_method(f, o, n, st, ctx)
            if r is not None:
                return r
            fv = self.attr(o, f.attr, st, ctx, f)
        else:
            fv = self.ev(f, st, ctx)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.pure(self.ev(a.value, st, ctx), st)
                lv = self.aslist(v, st)
                if lv.op == "seq":
                    args.extend(lv.a)
                elif kind(v) == "edge":
                    args.extend([idx(v, ZERO), idx(v, ONE)])
                elif lv.op == "ite" and all(x.op == "seq" for x in leaves(lv)) and len({len(x.a) for x in leaves(lv)}) == 1:
                    args.extend([idx(lv, num(i)) for i in range(len(leaves(lv)[0].a))])
                else:
                    args.append(mk("star", lv))
            else:
                args.append(self.ev(a, st, ctx))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                m = self.ev(k.value, st, ctx)
                c = self.get(st, ("c", m)) if self.is_ref(m) else m
                while c.op == "put":
                    if c.a[1].op == "const":
                        kw.setdefault(c.a[1].a[1], c.a[2])
                    else:
                        kw["**"] = c
                    c = c.a[0]
                if c.op != "emptymap":
                    kw["**"] = self.pure(c, st)
            else:
                kw[k.arg] = self.ev(k.value, st, ctx)
        return self.call(fv, args, kw, st, ctx, n)

    def call(self, f, args, kw, st, ctx, n):
        if f.op == "ite":
            return self.fork(f.a[0], lambda s: self.call(f.a[1], args, kw, s, ctx, n), lambda s: self.call(f.a[2], args, kw, s, ctx, n), st)
        op = f.op
        if op == "func":
            fo = self.func_by_qual(f.a[0])
            if fo is None:
                return unk("missing function", f.a[0])
            return self.call_func(fo, args, kw, st, ctx, n)
        if op == "bound":
            fo = self.func_by_qual(f.a[1].a[0])
            if fo is None:
                return unk("missing method", f.a[1].a[0])
            return self.call_func(fo, [f.a[0]] + list(args), kw, st, ctx, n)
        if op == "clo":
            c = self.closures[f.a[0]]
            return self.call_closure(c, args, kw, st, ctx, n)
        if op == "partial":
            g, a0, k0 = f.a
            k2 = dict(k0)
            k2.update(kw)
            self.in_partial += 1
            try:
                return self.call(g, list(a0) + list(args), k2, st, ctx, n)
            finally:
                self.in_partial -= 1
        if op == "cls":
            return self.instantiate(self.class_by_qual(f.a[0]), args, kw, st, ctx, n)
        if op == "clsof":
            return mk("fn", "construct", f, *[self.reify(a, st) for a in args])
        if op == "ext":
            return self.models.call_ext(self, f.a[0], args, kw, st, ctx, n)
        if op == "extmeth":
            return self.models.call_network(self, f.a[0], f.a[1], args, kw, st, ctx, n)
        if op == "xmeth":
            return self.models.call_method(self, f.a[0], f.a[1], args, kw, st, ctx, n)
        if op == "unk":
            return unk("call of unknown", f)
        # unknown callable (callback)
        a = [self.snap(x, st) for x in args] + [mk("kw", k, self.snap(v, st)) for k, v in sorted(kw.items())]
        fp = self.pure(f, st)
        if fp.op in ("fn",):
            r = mk("fn", "apply", fp, *a)
            return r
        self.effect(st, mk("calleff", fp, *a))
        return lift(lambda *x: mk("fn", "apply", *x), [fp] + a)

    def instantiate(self, cls, args, kw, st, ctx, n):
        if any(isinstance(c, Class) is False and c[1].endswith("Exception") for c in cls.mro()):
            return mk("exc", cls.name)
        o = self.new_obj(st, cls)
        init = cls.find("__init__")
        if init is not None and init[0] == "method":
            self.call_func(init[1], [o] + list(args), kw, st, ctx, n)
        return o

    def bind(self, fnode, args, kw, st, dctx, bound_ctx):
        """map parameter names to values; None if the call does not fit"""
        a = fnode.args
        pos = list(a.posonlyargs) + list(a.args)
        res = {}
        extra = []
        star = [x for x in args if x.op == "star"]
        if star:
            # f(*list): positional parameters indexed from the list
            i0 = args.index(star[0])
            for p, v in zip(pos, args[:i0]):
                res[p.arg] = v
            for j, p in enumerate(pos[i0:]):
                if p.arg in kw:
                    break
                res[p.arg] = idx(star[0].a[0], num(j))
            if a.vararg:
                res[a.vararg.arg] = star[0].a[0]
        else:
            for p, v in zip(pos, args):
                res[p.arg] = v
            if len(args) > len(pos):
                if a.vararg is None:
                    return None
                extra = args[len(pos):]
        names = {p.arg for p in pos} | {p.arg for p in a.kwonlyargs}
        rest = {}
        for k, v in kw.items():
            if k == "**":
                continue
            if k in names:
                if k in res and not star:
                    return None
                res[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                return None
        if "**" in kw:
            m = kw["**"]
            for p in pos:
                if p.arg not in res:
                    res[p.arg] = rd(m, const(p.arg))
        d = a.defaults
        for p, dv in zip(pos[len(pos) - len(d):], d):
            if p.arg not in res:
                res[p.arg] = self.standing(dv, st, dctx) if dctx.parent is None and not dctx.fid else self.ev(dv, st, dctx)
        for p, dv in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in res and dv is not None:
                res[p.arg] = self.standing(dv, st, dctx) if dctx.parent is None and not dctx.fid else self.ev(dv, st, dctx)
        for p in pos + list(a.kwonlyargs):
            if p.arg not in res:
                return None
        if a.vararg and a.vararg.arg not in res:
            res[a.vararg.arg] = tm.mkseq(extra)
        if a.kwarg:
            m = EMPTYMAP
            for k in sorted(rest):
                m = put(m, const(k), rest[k])
            res[a.kwarg.arg] = self.new_ref(st, m, "dict")
        return res

    def call_func(self, fo, args, kw, st, ctx, n):
        self.visited[fo.qual] = fo
        if fo.kind == "classmethod" and (not args or args[0].op not in ("cls", "clsof", "sym") or (args[0].op == "sym" and False)):
            args = [mk("cls", fo.cls.qual)] + list(args)
        mctx = Ctx(fo, fo.module, 0, fo.cls)
        if ctx is not None and ctx.entry is fo:
            return self.inline(fo.node, fo, args, kw, st, ctx, n, mctx, None, fo.qual)
        if fo.qual in self.override:
            b = self.bind(fo.node, args, kw, st, mctx, ctx)
            if b is None:
                self.misfit(ctx, n, fo.qual, args, kw)
                return unk("call does not match signature", fo.qual)
            return self.override[fo.qual](self, b, st)
        if fo.qual in self.opaque or fo.name in self.opaque or (fo.cls is not None and "%s.%s" % (fo.cls.name, fo.name) in self.opaque):
            return self.opaque_call(fo, args, kw, st, ctx, n)
        return self.inline(fo.node, fo, args, kw, st, ctx, n, mctx, None, fo.qual)

    def opaque_call(self, fo, args, kw, st, ctx, n):
        b = self.bind(fo.node, args, kw, st, Ctx(fo, fo.module, 0, fo.cls), ctx)
        nm = ("%s.%s" % (fo.cls.name, fo.name)) if fo.cls is not None else fo.name
        if b is None:
            self.misfit(ctx, n, fo.qual, args, kw)
            return unk("call does not match signature", nm)
        items = []
        for k in sorted(b):
            items.append(mk("kw", k, self.snap(b[k], st)))
        r = mk("fn", "call:" + nm, *items)
        eff = self.models.OPAQUE_EFFECTS.get(nm) or self.models.OPAQUE_EFFECTS.get("." + fo.name)
        if eff is not None:
            eff(self, b, st, r)
        return r

    def call_closure(self, c, args, kw, st, ctx, n):
        return self.inline(c.node, c.ctx.func, args, kw, st, ctx, n, c.ctx, c.ctx, c.ctx.module.name + ":" + c.name)

    def inline(self, node, fo, args, kw, st, ctx, n, dctx, parent, qual):
        self.calls += 1
        key = (qual, id(node))
        depth = self.stack.count(key)
        if len(self.stack) > MAX_DEPTH or depth >= 2:
            self.note(ctx, n if n is not None else node, "recursion on %s not unfolded" % qual)
            return unk("recursion", qual)
        b = self.bind(node, args, kw, st, dctx, ctx)
        if b is None:
            self.misfit(ctx, n if n is not None else node, qual, args, kw)
            return unk("call does not match signature", qual)
        self.nfid += 1
        fid = self.nfid
        c2 = Ctx(fo, dctx.module, fid, dctx.cls, parent, node)
        if isinstance(node, ast.Lambda):
            names, gl, nl = set(), set(), set()
        else:
            names, gl, nl = assigned_memo(node)
        c2.locals = set(names) | set(b)
        c2.globals, c2.nonlocals = gl, nl
        for k, v in b.items():
            st.store[("v", fid, k)] = v
        self.stack.append(key)
        try:
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body, st, c2)
            else:
                gen = has_yield(node)
                if gen:
                    st.store[("v", fid, "$yield")] = NIL
                s_in = st.copy()
                out = self.block(node.body, s_in, c2)
                for (c, exc, s) in out.raises:
                    st.pending.append((c, exc, s))
                ret = out.d.get("return")
                nxt = out.d.get("next")
                if ret is None and nxt is None:
                    # never returns
                    return unk("no return", qual) if not out.raises else UNDEF
                if ret is None:
                    s, v = nxt[1], NONE
                    alive = nxt[0]
                elif nxt is None:
                    s, v = ret[1], ret[2]
                    alive = ret[0]
                else:
                    s = self.merge(ret[0], ret[1], nxt[1])
                    alive = Or(ret[0], nxt[0])
                    v = ite(ret[0], ret[2], NONE)
                v = constrain(v, alive)
                if gen:
                    v = self.get(s, ("v", fid, "$yield"))
                st.store = s.store
        finally:
            self.stack.pop()
        if fid not in self.fid_keep:
            for k in [k for k in st.store if k[0] == "v" and k[1] == fid]:
                del st.store[k]
        return v

    # container methods -------------------------------------------------------
    def container_method(self, f, o, n, st, ctx):
        """methods of lists, dictionaries, sets and strings; None if not applicable"""
        name = f.attr
        if name not in self.models.CONTAINER_METHODS:
            return None
        if o.op in ("ext", "mod", "cls", "super"):
            return None
        if o.op == "sym" and not self.is_ref(o):
            info = syminfo.get(o, {})
            if info.get("cls") is not None or info.get("kind") == "obj":
                return None
        if o.op in ("objval", "xobj"):
            return None
        if name in ("update", "add", "copy", "remove", "clear", "index", "count", "pop", "get") and o.op in ("fn", "m") and kind(o) is None:
            return None
        return self.models.container_call(self, f, o, name, n, st, ctx)

    # ---------------------------------------------------------------- entry points
    def run(self, fo, args=None, kw=None, st=None):
        """analyse function fo on the given argument values; returns Result"""
        st = st or State()
        ctx = Ctx(None, fo.module, 0, fo.cls)
        ctx.entry = fo
        st.pending = []
        if fo.kind == "classmethod" and args and args[0].op != "cls":
            pass
        v = self.call_func(fo, list(args or []), dict(kw or {}), st, ctx, None)
        r = Result()
        r.value = v
        r.state = st
        r.raises = st.pending
        st.pending = []
        r.interp = self
        r.func = fo
        return r


class Result(object):
    def reified(self):
        return self.interp.reify(self.value, self.state)

    def raise_cond(self, exc=None):
        c = FALSE
        for (cc, e, s) in self.raises:
            if exc is None or e == exc:
                c = Or(c, cc)
        return c

    def effects(self):
        return self.interp.pure(self.interp.get(self.state, ("$eff",)), self.state)
