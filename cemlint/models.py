"""Library models: transfer functions of builtins, compas.geometry, numpy, and the diagram (graph) primitives.

Everything that is not modelled becomes an uninterpreted function of its arguments.
"""
import ast
import posixpath

from . import terms as tm
from .terms import (T, mk, fresh, syminfo, const, num, TRUE, FALSE, NONE, ZERO, ONE, UNDEF, NIL, EMPTYMAP, ite, Not, And, Or,
                    lift, leaves, map_leaves, seq, cat, idx, rd, put, has, keys, member, length, reverse, truthy, isnone,
                    eq, lt, le, add, sub, mul, div, neg, fn, subst, kind, unk)
from .project import Class


def ext_const(d):
    if d in ("math.pi", "numpy.pi", "autograd.numpy.pi"):
        return mk("pi")
    if d in ("numpy.inf", "autograd.numpy.inf", "math.inf"):
        return const(float("inf"))
    if d in ("numpy.nan", "autograd.numpy.nan", "math.nan"):
        return const(float("nan"))
    if d == "compas.PRECISION":
        return const("3f")
    return None


def kwmerge(names, args, kw, defaults=None):
    """positional + keyword arguments by parameter name"""
    r = dict(defaults or {})
    for nm, a in zip(names, args):
        r[nm] = a
    for k, v in kw.items():
        r[k] = v
    return r


# ---------------------------------------------------------------- sequences
def each(lst, f):
    """[f(e, p) for ...] as one list term; f returns a list term"""
    def g(lst):
        e = fresh("e", dom=lst, kind=tm.elemkind(lst))
        p = fresh("p", kind="nat", posof=lst, elem=e)
        if lst.op == "rangen":
            e = p
        return tm.over("fmap", lst, e, p, f(e, p))
    return lift(g, (lst,))


def rangen(n):
    if n.op == "num" and n.a[0] <= 0:
        return NIL
    return mk("rangen", n)


def do_range(args):
    if len(args) == 1:
        return rangen(args[0])
    if len(args) == 2:
        a, b = args
        if a is ZERO:
            return rangen(b)
        return each(rangen(sub(b, a)), lambda e, p: seq(add(p, a)))
    a, b, s = args
    if s is ONE:
        return do_range([a, b])
    if s is num(-1):
        # a, a-1, ..., b+1
        return each(rangen(sub(a, b)), lambda e, p: seq(sub(a, p))) if b is not num(-1) else reverse(rangen(add(a, ONE)))
    return fn("range", a, b, s)


def pairs(l):
    def f(l):
        if l.op == "seq":
            return mk("seq", *[tm.mkseq([x, y]) for x, y in zip(l.a, l.a[1:])])
        return mk("pairs", l)
    return lift(f, (l,))


def chars(p):
    return mk("seq", *[const(c) for c in p.a[1]])


def do_zip(ls):
    def f(*ls):
        if any(l.op == "seq" for l in ls):
            # a literal fixes the length; vectors have three components
            n = min([len(l.a) for l in ls if l.op == "seq"])
            if all(l.op == "seq" or (kind(l) == "vec" and n <= 3) or (kind(l) == "edge" and n <= 2) for l in ls):
                ls = [l if l.op == "seq" else mk("seq", *[idx(l, num(i)) for i in range(n)]) for l in ls]
        if all(l.op == "seq" for l in ls):
            return mk("seq", *[tm.mkseq(list(x)) for x in zip(*[l.a for l in ls])])
        if len(ls) == 2 and ls[1].op == "slice" and ls[1].a[0] is ls[0] and ls[1].a[1] is ONE and ls[1].a[2] is NONE:
            return pairs(ls[0])
        if len(ls) == 2 and ls[0].op == "slice" and ls[1].op == "slice" and ls[0].a[0] is ls[1].a[0] and ls[0].a[1] is ZERO \
                and ls[0].a[2] is num(-1) and ls[1].a[1] is ONE and ls[1].a[2] is NONE:
            return pairs(ls[0].a[0])
        # counting list first: enumerate
        if len(ls) == 2 and ls[0].op == "rangen" and ls[0].a[0] is length(ls[1]):
            return each(ls[1], lambda e, p: seq(seq(p, e)))
        doms = {l.a[0] for l in ls if l.op == "fmap"}
        if len(doms) == 1:
            D = doms.pop()
            e = fresh("e", dom=D, kind=tm.elemkind(D))
            p = fresh("p", kind="nat", posof=D, elem=e)
            if D.op == "rangen":
                e = p
            gs, its = [], []
            for l in ls:
                if l is D:
                    gs.append(TRUE)
                    its.append(e)
                elif l.op == "fmap":
                    o = tm.open_fmap(l)
                    b = subst(o["body"], {o["elem"]: e, o["pos"]: p})
                    if not all(x.op == "seq" and len(x.a) <= 1 for x in leaves(b)):
                        break
                    g = map_leaves(b, lambda x: TRUE if x.a else FALSE)
                    gs.append(g)
                    its.append(tm.constrain(map_leaves(b, lambda x: x.a[0] if x.a else UNDEF), g))
                else:
                    break
            else:
                if all(g is gs[0] for g in gs):
                    return tm.over("fmap", D, e, p, ite(gs[0], seq(seq(*its)), NIL))
        lit = [l for l in ls if l.op == "seq"]
        if lit:
            n = min(len(l.a) for l in lit)
            return mk("seq", *[tm.mkseq([idx(l, num(i)) for l in ls]) for i in range(n)])
        return each(ls[0], lambda e, p: seq(tm.mkseq([e] + [idx(l, p) for l in ls[1:]])))
    return lift(f, tuple(ls))


def map_items(m):
    return each(keys(m), lambda e, p: seq(mk("seq", e, rd(m, e)) if rd(m, e).op != "ite" else seq(e, rd(m, e))))


def map_values(m):
    return each(keys(m), lambda e, p: seq(rd(m, e)))


def asmap(m):
    return m


# ---------------------------------------------------------------- vectors
def vsum(v):
    def f(v):
        if v.op == "seq":
            return add(*v.a) if v.a else ZERO
        if v.op == "sq":
            return tm.dot(v.a[0], v.a[0])
        e = fresh("e", dom=v, kind=tm.elemkind(v))
        p = fresh("p", kind="nat", posof=v, elem=e)
        if v.op == "rangen":
            e = p
        return tm.over("sum", v, e, p, e)
    return lift(f, (v,))


def npsum(v):
    """sum of all the entries (nested lists of vectors included)"""
    def f(v):
        if v.op == "sq":
            return tm.dot(v.a[0], v.a[0])
        if v.op == "fn" and v.a[0] == "np.multiply":
            return tm.dot(v.a[1], v.a[2])
        if v.op == "fmap":
            o = tm.open_fmap(v)
            if all(x.op == "seq" and len(x.a) == 1 for x in leaves(o["body"])):
                body = map_leaves(o["body"], lambda x: inner(x.a[0]))
                return tm.summation(v.a[0], o["elem"], o["pos"], body)
        return vsum(v)

    def inner(x):
        if x.op == "sq":
            return tm.dot(x.a[0], x.a[0])
        if x.op == "fn" and x.a[0] == "np.multiply":
            return tm.dot(x.a[1], x.a[2])
        if x.op == "seq" and x.a:
            return add(*x.a)
        return x
    return lift(f, (v,))


def elementwise(f, *vs):
    """apply f elementwise over arrays that are lists over a common domain"""
    def g(*vs):
        lists = [v for v in vs if v.op == "fmap"]
        if lists and all(v.op != "fmap" or v.a[0] is lists[0].a[0] for v in vs):
            dom = lists[0].a[0]
            e = fresh("e", dom=dom, kind=tm.elemkind(dom))
            p = fresh("p", kind="nat", posof=dom, elem=e)
            if dom.op == "rangen":
                e = p
            parts = []
            for v in vs:
                if v.op == "fmap":
                    o = tm.open_fmap(v)
                    if not all(x.op == "seq" and len(x.a) == 1 for x in leaves(o["body"])):
                        return f(*vs)
                    parts.append(subst(map_leaves(o["body"], lambda x: x.a[0]), {o["elem"]: e, o["pos"]: p}))
                else:
                    parts.append(v)
            return tm.over("fmap", dom, e, p, seq(f(*parts)))
        return f(*vs)
    return lift(g, vs)


def square(v):
    def f(v):
        if tm._numeric(v) and kind(v) != "vec":
            return mul(v, v)
        return mk("sq", v)
    return elementwise(lambda x: lift(f, (x,)), v)


def to_power(v, n):
    """power of an array, entry by entry"""
    def f(v, n):
        if kind(v) == "vec" and n is not ONE:
            return mk("sq", v) if n is tm.num(2) else mk("fn", "np.power", v, n)
        return tm.power(v, n)
    return lift(f, (v, n))


def times(a, b):
    """product of arrays, entry by entry"""
    def f(a, b):
        if kind(a) == "vec" and kind(b) == "vec":
            return mk("sq", a) if a is b else mk("fn", "np.multiply", *sorted((a, b), key=lambda x: x.id))
        return mul(a, b)
    return lift(f, (a, b))


def array_norm(v):
    def f(v):
        if v.op == "fmap":
            return tm.sqrt(npsum(square(v)))
        return tm.norm(v)
    return lift(f, (v,))


def line_foot(p, line):
    """orthogonal projection of a point on a line through two points"""
    def f(p, line):
        if line.op != "seq" or len(line.a) != 2:
            return mk("fn", "compas.geometry.closest_point_on_line", p, line)
        a, b = line.a
        ab = sub(b, a)
        return add(a, mul(div(tm.dot(sub(p, a), ab), tm.dot(ab, ab)), ab))
    return lift(f, (p, line))


def plane_foot(p, plane):
    def f(p, plane):
        if plane.op != "seq" or len(plane.a) != 2:
            return mk("fn", "compas.geometry.closest_point_on_plane", p, plane)
        base, n = plane.a
        u = tm.unit(n)
        return sub(p, mul(tm.dot(sub(p, base), u), u))
    return lift(f, (p, plane))


def nearest(p, cloud):
    """position in the cloud of its point nearest to p"""
    return lift(lambda p, c: mk("fn", "nearest", p, c), (p, cloud))


def moved(ps, v):
    if ps.op != "seq":
        raise TypeError
    return mk("seq", *[add(p, v) for p in ps.a])


GEO = {
    "closest_point_on_line": line_foot,
    "closest_point_on_plane": plane_foot,
    "add_vectors": lambda a, b: add(a, b),
    "subtract_vectors": lambda a, b: sub(a, b),
    "scale_vector": lambda a, s: mul(s, a),
    "normalize_vector": tm.unit,
    "length_vector": tm.norm,
    "length_vector_sqrd": lambda a: tm.dot(a, a),
    "dot_vectors": tm.dot,
    "distance_point_point": lambda a, b: tm.norm(sub(a, b)),
    "distance_point_point_sqrd": lambda a, b: tm.dot(sub(a, b), sub(a, b)),
    "sum_vectors": vsum,
    "from_start_end": lambda a, b: sub(b, a),
    "translate_points": lambda ps, v: moved(ps, v),
}
GEO_ARGS = {"closest_point_on_line": ("point", "line"), "closest_point_on_plane": ("point", "plane"), "add_vectors": ("u", "v"), "subtract_vectors": ("u", "v"), "scale_vector": ("vector", "factor"), "normalize_vector": ("vector",),
            "length_vector": ("vector",), "length_vector_sqrd": ("vector",), "dot_vectors": ("u", "v"),
            "distance_point_point": ("a", "b"), "distance_point_point_sqrd": ("a", "b"), "sum_vectors": ("vectors", "axis"),
            "from_start_end": ("start", "end"), "translate_points": ("points", "vector")}


# ---------------------------------------------------------------- external functions
def call_ext(I, d, args, kw, st, ctx, n):
    mod, _, name = d.rpartition(".")
    if mod == "builtins":
        h = BUILTINS.get(name)
        if h is not None:
            return h(I, args, kw, st, ctx, n)
        if name.endswith("Error") or name in ("Exception", "StopIteration"):
            return mk("exc", name)
        return generic(I, "builtins." + name, args, kw, st)
    if name == "register" and mod.split(".")[0] in ("compas", "compas_view2") and mod.split(".")[-1] in ("Artist", "Object"):
        b = kwmerge(("item_type", "artist_type", "context") if mod.endswith("Artist") else ("dtype", "otype"), args, kw)
        I.effect(st, mk("registered", mod.split(".")[-1], *[mk("kw", k, I.pure(v, st)) for k, v in sorted(b.items())]))
        return NONE
    if d in ("os.path.join", "os.path.dirname", "os.path.basename", "os.path.abspath", "os.path.realpath", "os.path.normpath") and args and not kw:
        ps = [I.pure(a, st) for a in args]
        if all(p.op == "const" and p.a[0] == "str" for p in ps):
            t = [p.a[1] for p in ps]
            if name in ("abspath", "realpath", "normpath"):
                return const(posixpath.normpath(t[0]))
            r = getattr(posixpath, name)(*t)
            return const(posixpath.normpath(r) if name == "join" and ".." in r else r)
    if d == "functools.partial":
        f = args[0]
        if f.op == "partial":
            g, a0, k0 = f.a
            k = dict(k0)
            k.update(kw)
            return mk("partial", g, tuple(a0) + tuple(args[1:]), tuple(sorted(k.items())))
        return mk("partial", f, tuple(args[1:]), tuple(sorted(kw.items())))
    if d.startswith("compas.geometry") and name in GEO:
        b = kwmerge(GEO_ARGS[name], args, kw)
        ps = [I.pure(b[k], st) for k in GEO_ARGS[name] if k in b]
        d = "compas.geometry." + name
        try:
            return GEO[name](*ps)
        except TypeError:
            return generic(I, d, args, kw, st)
    if d.startswith("compas.geometry.") and name.startswith("closest_point_on_"):
        return generic(I, "compas.geometry." + name, args, kw, st)
    if d.startswith("compas.geometry") and name == "closest_points_in_cloud_numpy":
        b = kwmerge(("points", "cloud", "threshold", "distances", "num_nbrs"), args, kw)
        ps = I.pure(b["points"], st)
        if b.get("distances") is FALSE and "num_nbrs" not in b and "threshold" not in b and ps.op == "seq":
            c = I.pure(b["cloud"], st)
            return mk("seq", *[nearest(x, c) for x in ps.a])
    if d.startswith("compas.geometry") and name == "closest_point_in_cloud":
        b = kwmerge(("point", "cloud"), args, kw)
        q, c = I.pure(b["point"], st), I.pure(b["cloud"], st)
        i = nearest(q, c)
        return seq(tm.norm(sub(q, idx(c, i))), idx(c, i), i)
    if d.startswith("compas.geometry") and name in ("Point", "Vector") and not kw and 1 <= len(args) <= 3:
        ps = [I.pure(a, st) for a in args]
        if len(ps) == 3:
            return seq(*ps)
        if len(ps) == 1:
            return ps[0].a[0] if ps[0].op == "star" else ps[0]
    if d.startswith("compas.geometry") and name == "Line" and len(args) == 2 and not kw:
        return seq(*[I.pure(a, st) for a in args])
    if d in ("compas.utilities.pairwise", "itertools.pairwise", "compas.itertools.pairwise"):
        return pairs(I.aslist(args[0], st))
    if d in ("compas.utilities.geometric_key",):
        b = kwmerge(("xyz", "precision", "sanitize"), args, kw)
        return fn("geometric_key", I.pure(b["xyz"], st), I.pure(b.get("precision", NONE), st))
    if d.startswith("compas.geometry") and name == "from_vector" or d in ("compas.geometry.Translation.from_vector",):
        return generic(I, d, args, kw, st)
    if mod in ("numpy", "autograd.numpy", "numpy.linalg", "autograd.numpy.linalg"):
        r = call_numpy(I, name, mod.endswith("linalg"), args, kw, st, ctx, n)
        if r is not None:
            return r
        return generic(I, "np." + name, args, kw, st)
    if d in ("compas_plotters.artists.NetworkArtist.edge_width.fset", "compas_plotters.artists.NetworkArtist.edge_width.fget") and args and args[0].op == "sym":
        o, loc = args[0], ("f", args[0], "_edge_width")
        if name == "fget":
            return I.get(st, loc)
        v = args[1]
        p = I.pure(v, st)
        if kind(p) == "map":
            st.store[loc] = v
        elif kind(p) in ("num", "nat"):
            st.store[loc] = mk("fn", "same_width", p)
        elif kind(p) not in ("pair", "edge") and p.op != "seq":
            st.store[loc] = unk("edge width", p)
        return NONE
    if mod == "math":
        ps = [I.pure(a, st) for a in args]
        if name == "copysign":
            return tm.copysign(*ps)
        if name == "fabs":
            return tm.absv(ps[0])
        if name == "sqrt":
            return tm.sqrt(ps[0])
        if name == "floor":
            return tm.floor(ps[0])
        if name == "isnan":
            return mk("truthy", fn("isnan", ps[0])) if fn("isnan", ps[0]).op != "ite" else truthy(fn("isnan", ps[0]))
        return fn("math." + name, *ps)
    if d == "autograd.grad":
        return mk("fn", "autograd.grad", canon_callable(I, args[0], 1, st, ctx, n))
    if d in ("nlopt.opt",):
        o = fresh("obj")
        syminfo[o] = dict(new=True, kind="obj", xkind="nlopt.opt")
        ps = [I.reify(a, st) for a in args]
        st.store[("x", o)] = mk("seq", mk("seq", const("new"), *ps))
        return o
    if d in ("copy.copy", "copy.deepcopy"):
        v = args[0]
        if v.op == "sym" and not I.is_ref(v):
            c = syminfo.get(v, {}).get("cls")
            if isinstance(c, Class) and I.is_diagram(c):
                return copy_diagram(I, v, c, st)
            return I.pure(v, st)
        if I.is_ref(v):
            return I.new_ref(st, I.pure(v, st), syminfo[v].get("pykind"))
        return v
    if d == "time.time":
        # successive readings of the clock are told apart by what happened before
        return mk("now", I.loop_depth, st.store.get(("$t",), ZERO))
    if d == "ast.literal_eval" and len(args) == 1:
        return from_literal(I.pure(args[0], st))
    if d == "json.dumps" and args:
        return fn("json", I.pure(args[0], st))
    if d == "json.loads" and args:
        return I.new_ref(st, lift(lambda x: through_json(x.a[1]) if x.op == "fn" and x.a[0] == "json" else mk("fn", "json.loads", x), (I.pure(args[0], st),)), "dict")
    if d.endswith("cls_from_dtype"):
        return fn("cls_from_dtype", *[I.pure(a, st) for a in args])
    if d == "operator.itemgetter" and len(args) == 1:
        return fn("itemgetter", I.pure(args[0], st))
    return generic(I, d, args, kw, st)


PURE_EXT = ("compas.", "numpy.", "math.", "np.", "builtins.", "os.", "itertools.", "ast.", "random.", "json.")


def generic(I, d, args, kw, st):
    a = [I.snap(x, st) for x in args] + [mk("kw", k, I.snap(v, st)) for k, v in sorted(kw.items())]
    if any(x.op in ("clo", "partial", "bound") for x in args):
        pass
    return lift(lambda *x: mk("fn", d, *x), a)


def canon_callable(I, f, nparams, st, ctx, n, arrays=()):
    """a callable as a function term of its parameters: value and contents of array parameters after the call"""
    if f.op == "fn":
        return f
    s2 = st.copy()
    s2.pending = []
    params = []
    pures = []
    for i in range(nparams):
        c = fresh("arg", kind=None)
        pures.append(c)
        r = fresh("ref")
        syminfo[r] = dict(ref=True, init=c, pykind="array", kind=None)
        s2.store[("c", r)] = c
        params.append(r)
    nl = len(I.loops)
    v = I.call(f, params, {}, s2, ctx, n)
    v = I.reify(v, s2)
    after = [I.reify(r, s2) for r in params]
    rz = FALSE
    for (c, exc, s) in s2.pending:
        rz = Or(rz, I.pure(c, s2))
    body = mk("seq", v, rz, *after)
    body = I.reify(body, s2)
    return tm.lam(pures, body)


def call_numpy(I, name, linalg, args, kw, st, ctx, n):
    if name in ("array", "asarray", "copy", "float64", "asanyarray", "fromiter"):
        v = args[0]
        p = I.pure(v, st)
        if kind(p) in ("num", "nat", "int") or p.op in ("num",):
            return p
        return I.new_ref(st, p, "array")
    if name == "zeros":
        p = I.pure(args[0], st)
        if p.op == "seq" and len(p.a) == 1:
            p = p.a[0]
        if p.op == "num" and p.a[0] <= 16:
            return I.new_ref(st, mk("seq", *([ZERO] * int(p.a[0]))), "array")
        return I.new_ref(st, mk("zeros", p), "array")
    if name in ("zeros_like",):
        return I.new_ref(st, mk("zeros", length(I.pure(args[0], st))), "array")
    ps = [I.pure(a, st) for a in args]
    if kw:
        return None
    if name in ("empty",):
        return I.new_ref(st, mk("zeros", ps[0]), "array")
    if name == "norm":
        return array_norm(ps[0]) if len(ps) == 1 else None
    if linalg:
        return None
    if name == "sqrt":
        return tm.sqrt(ps[0])
    if name == "square":
        return square(ps[0])
    if name == "sum" and len(ps) == 1:
        return npsum(ps[0])
    if name in ("abs", "absolute", "fabs"):
        return tm.absv(ps[0])
    if name == "dot" and len(ps) == 2:
        return tm.dot(*ps)
    if name == "copysign":
        return tm.copysign(*ps)
    if name == "sign" and len(ps) == 1 and kind(ps[0]) not in ("vec", "list") and ps[0].op not in ("unit", "seq", "idxvec"):
        return tm.ite(tm.lt(tm.ZERO, ps[0]), tm.ONE, tm.ite(tm.lt(ps[0], tm.ZERO), tm.num(-1), tm.ZERO))
    if name == "subtract":
        return elementwise(sub, *ps)
    if name == "add":
        return elementwise(add, *ps)
    if name == "multiply":
        return elementwise(mul, *ps)
    if name == "negative":
        return neg(ps[0])
    if name == "isnan":
        return lift(lambda x: mk("truthy", mk("fn", "isnan", x)), (ps[0],))
    if name == "array_equal" and len(ps) == 2:
        return tm.eq(*ps)
    if name in ("max", "amax", "min", "amin") and len(ps) == 1:
        return lift(lambda x: mk("fn", name.strip("a") if name[0] == "a" else name, x), (ps[0],))
    if name in ("float", "float_"):
        return ps[0]
    return None


# ---------------------------------------------------------------- builtins
def _b_len(I, a, kw, st, ctx, n):
    v = a[0]
    if v.op == "sym" and not I.is_ref(v):
        c = syminfo.get(v, {}).get("cls")
        if isinstance(c, Class):
            m = c.find("__len__")
            if m is not None:
                return I.call_func(m[1], [v], {}, st, ctx, n)
    c = I.pure(v, st)
    if syminfo.get(v, {}).get("pykind") == "set" and c.op == "seq":
        # equal items count once
        return tm.add(*[ite(Or(*[tm.eq(x, y) for y in c.a[:i]]), ZERO, ONE) for i, x in enumerate(c.a)]) if c.a else ZERO
    r = length(c)
    if c.op in ("cat", "fmap"):
        I.lenof[r] = c
    return r


def _b_enumerate(I, a, kw, st, ctx, n):
    start = I.pure(kw.get("start", a[1] if len(a) > 1 else ZERO), st)
    lst = I.iter_list(a[0], st)
    lst = I.pure(lst, st)
    return each(lst, lambda e, p: seq(seq(add(p, start), e)))


def _b_list(I, a, kw, st, ctx, n):
    return I.new_ref(st, I.aslist(a[0], st) if a else NIL, "list")


def _b_tuple(I, a, kw, st, ctx, n):
    if a:
        p = I.pure(a[0], st)
        if p.op == "fn" and p.a[0] == "listed":
            return p.a[1]
    return I.aslist(a[0], st) if a else NIL


def dedup(l):
    """a set of the elements of l: duplicates do not matter"""
    def f(l):
        if l.op == "reversed":
            return f(l.a[0])
        if l.op == "fn" and l.a[0] == "distinct":
            return l.a[1]
        if l.op == "seq":
            out = []
            for x in l.a:
                if x not in out:
                    out.append(x)
            return mk("seq", *out)
        return l
    return lift(f, (l,))


def _b_set(I, a, kw, st, ctx, n):
    return I.new_ref(st, dedup(I.aslist(a[0], st)) if a else NIL, "set")


def _b_frozenset(I, a, kw, st, ctx, n):
    return dedup(I.aslist(a[0], st)) if a else NIL


def _b_dict(I, a, kw, st, ctx, n):
    m = EMPTYMAP
    if a:
        p = I.pure(a[0], st)
        if kind(p) == "list" or p.op in ("seq", "cat", "fmap", "pairs"):
            lst = p
            loc = None

            def f(s, e, pos):
                return seq(e)
            I.nfid += 1
            acc = ("v", I.nfid, "$acc")
            st.store[acc] = EMPTYMAP

            def body(s, e, pos):
                s.store[acc] = put(s.store[acc], idx(e, ZERO), idx(e, ONE))
                return I.simple(s)
            o = I.iterate(st.copy(), lst, body, ctx, n, frozenset())
            if "next" in o.d:
                s = o.d["next"][1]
                m = s.store.pop(acc)
                st.store = s.store
            st.store.pop(acc, None)
        else:
            m = p
    for k in sorted(kw):
        if k == "**":
            m = I.map_update(m, kw[k])
        else:
            m = put(m, const(k), kw[k])
    return I.new_ref(st, m, "dict")


def _b_range(I, a, kw, st, ctx, n):
    return do_range([I.pure(x, st) for x in a])


def _b_zip(I, a, kw, st, ctx, n):
    if any(x.op == "star" for x in a):
        return generic(I, "zip", a, kw, st)
    return do_zip([I.aslist(x, st) for x in a])


def _b_isinstance(I, a, kw, st, ctx, n):
    x = a[0]
    cl = a[1]
    cls = cl.a if cl.op == "seq" else (cl,)
    names = {c.a[0] for c in cls if c.op == "ext"}
    if {"builtins.int", "builtins.float"} <= names:
        # any number
        def f(p):
            k = kind(p)
            if k in ("num", "nat", "int", "node"):
                return TRUE
            return Or(*[isinst(I, p, c, st) for c in cls])
        return lift(f, (I.pure(x, st),))
    return Or(*[isinst(I, x, c, st) for c in cls])


NUM_KINDS = ("nat", "int", "node")


def isinst(I, x, c, st):
    px = x
    if x.op == "sym" and not I.is_ref(x):
        xc = syminfo.get(x, {}).get("cls")
        if isinstance(xc, Class):
            if c.op == "cls":
                cc = I.class_by_qual(c.a[0])
                if cc is not None:
                    if xc.is_sub(cc):
                        return TRUE
                    if syminfo[x].get("new"):
                        return FALSE
                    if not cc.is_sub(xc):
                        return FALSE
            elif c.op == "ext" and c.a[0].startswith("builtins."):
                return FALSE
    px = I.pure(x, st)

    def f(px):
        nm = c.a[0] if c.a else "?"
        if px is NONE and c.op in ("ext", "cls") and nm not in ("builtins.object", "types.NoneType"):
            return FALSE
        if c.op == "cls" and px.op in ("seq", "const", "num"):
            if nm.startswith("compas_cem.diagrams"):
                return FALSE
        if c.op == "ext" and c.a[0].startswith("builtins."):
            t = c.a[0].split(".")[1]
            k = kind(px)
            if px is NONE or k == "bool" and t not in ("bool", "int"):
                return FALSE
            if t == "int":
                if k in ("node", "nat", "int"):
                    return TRUE
                if k in ("list", "map", "str", "edge", "vec") or px.op in ("seq", "poly") and k not in ("nat", "int"):
                    return FALSE
            if t == "float" and (k in ("list", "map", "str", "edge", "vec", "pair") or px.op in ("seq", "const")):
                return FALSE
            if t == "float" and k in NUM_KINDS:
                return FALSE
            if t == "float" and k == "num":
                # a number that is no integer
                return Not(mk("isinst", px, "builtins.int")) if px.op == "sym" else mk("isinst", px, nm)
            if t == "dict":
                if k == "map":
                    return TRUE
                if k in ("node", "num", "nat", "int", "str", "list", "edge", "pair", "vec", "bool") or px.op in ("seq", "const", "num"):
                    return FALSE
            if t == "bool" and k == "bool":
                return TRUE
            if t in ("list", "tuple") and k in ("node", "num", "nat", "int", "str", "map"):
                return FALSE
            if t == "str":
                if k == "str":
                    return TRUE
                if k in ("node", "num", "nat", "int", "list", "map"):
                    return FALSE
        if nm in ("collections.abc.Iterable", "typing.Iterable") and (px.op == "seq" or kind(px) in ("list", "map", "str", "pair", "edge")):
            return TRUE
        return mk("isinst", px, nm)
    return lift(f, (px,))


def _b_any(I, a, kw, st, ctx, n):
    l = I.aslist(a[0], st)

    def f(l):
        if l.op == "seq":
            return Or(*[truthy(x) for x in l.a])
        e = fresh("e", dom=l, kind=tm.elemkind(l))
        p = fresh("p", kind="nat", posof=l, elem=e)
        if l.op == "rangen":
            e = p
        return tm.over("exists", l, e, p, truthy(e))
    return lift(f, (l,))


def _b_all(I, a, kw, st, ctx, n):
    l = I.aslist(a[0], st)

    def f(l):
        if l.op == "seq":
            return And(*[truthy(x) for x in l.a])
        if l.op == "cat":
            return And(*[f(x) for x in l.a])
        if l.op == "fmap":
            o = tm.open_fmap(l)
            b = o["body"]
            if all(x.op == "seq" for x in leaves(b)):
                g = map_leaves(b, lambda x: Not(And(*[truthy(y) for y in x.a])))
                return Not(tm.over("exists", l.a[0], o["elem"], o["pos"], g))
        e = fresh("e", dom=l, kind=tm.elemkind(l))
        p = fresh("p", kind="nat", posof=l, elem=e)
        return Not(tm.over("exists", l, e, p, Not(truthy(e))))
    return lift(f, (l,))


def _b_sum(I, a, kw, st, ctx, n):
    start = I.pure(kw.get("start", a[1] if len(a) > 1 else ZERO), st)
    return add(start, vsum(I.aslist(a[0], st)))


def by_key(I, name, lst, key, st, ctx, n):
    """min or max of a list by a key function"""
    l = I.aslist(lst, st)

    def g(l):
        if name == "min":
            e = fresh("e", dom=l, kind=tm.elemkind(l) or "vec")
            s2 = st.copy()
            s2.pending = []
            v = I.pure(I.call(key, [e], {}, s2, ctx, n), s2)
            ws = []
            if v.op == "norm":
                ws = [v.a[0]]
            for x in tm.subterms(v):
                if x.op == "norm":
                    ws.append(x.a[0])
            for w in ws:
                for q in (add(w, e), sub(e, w)):
                    if e not in q.fs and v in (tm.norm(sub(q, e)), tm.dot(sub(q, e), sub(q, e))):
                        return idx(l, nearest(q, l))
        if l.op == "fmap":
            # the extreme value of a function over a list: the value at the extreme element
            o = tm.open_fmap(l)
            dom, e, p, body = o["dom"], o["elem"], o["pos"], o["body"]
            if body.op == "seq" and len(body.a) == 1 and p not in body.fs and dom.op != "fmap":
                e1 = fresh("e", dom=dom, kind=tm.elemkind(dom))
                s2 = st.copy()
                s2.pending = []
                v = I.pure(I.call(key, [subst(body.a[0], {e: e1})], {}, s2, ctx, n), s2)
                if not s2.pending:
                    return subst(body.a[0], {e: mk("fn", name + "_by", dom, tm.lam([e1], mk("seq", v, FALSE, e1)))})
        return mk("fn", name + "_by", l, canon_callable(I, key, 1, st, ctx, n))
    return lift(g, (l,))


def minmax(name):
    def f(I, a, kw, st, ctx, n):
        if kw.get("key") is not None:
            if len(a) == 1:
                return by_key(I, name, a[0], kw["key"], st, ctx, n)
            return generic(I, name + "_by", a, kw, st)
        if len(a) == 1:
            l = I.aslist(a[0], st)
            ext = []
            if "default" in kw:
                ext = [mk("kw", "default", I.pure(kw["default"], st))]

            def g(l):
                while l.op in ("reversed", "sorted") or l.op == "fn" and l.a[0] == "distinct":
                    l = l.a[0] if l.op != "fn" else l.a[1]
                if l.op == "seq" and len(l.a) == 1:
                    return l.a[0]
                if l.op == "seq" and not ext:
                    return two(*l.a)
                return mk("fn", name, l, *ext)
            return lift(g, (l,))
        return two(*[I.pure(x, st) for x in a])

    def two(*xs):
        r = xs[0]
        for y in xs[1:]:
            c = lt(y, r) if name == "min" else lt(r, y)
            r = ite(c, y, r)
        return r
    return f


def _b_abs(I, a, kw, st, ctx, n):
    return tm.absv(I.pure(a[0], st))


def _b_float(I, a, kw, st, ctx, n):
    p = I.pure(a[0], st) if a else ZERO
    if p.op == "const" and p.a[0] == "str":
        try:
            return const(float(p.a[1]))
        except ValueError:
            pass
    if kind(p) == "str":
        return fn("float", p)
    if p is NONE:
        I.raise_if(st, TRUE, "TypeError")
    return p


def _b_int(I, a, kw, st, ctx, n):
    p = I.pure(a[0], st)
    if kind(p) in ("nat", "int", "node"):
        return p
    d = tm._terms(p) if p.op in ("poly", "num") else None
    if d is not None and all(c >= 0 for c in d.values()) and all(e > 0 and kind(x) == "nat" for m in d for x, e in m):
        return tm.floor(p)
    return fn("int", p)


def _b_bool(I, a, kw, st, ctx, n):
    return truthy(I.pure(a[0], st))


def _b_getattr(I, a, kw, st, ctx, n):
    nm = I.pure(a[1], st)
    if nm.op == "const":
        if len(a) > 2:
            o = a[0]
            c = syminfo.get(o, {}).get("cls") if o.op == "sym" else None
            if isinstance(c, Class) and (c.find(nm.a[1]) is not None or ("f", o, nm.a[1]) in st.store):
                return I.attr(o, nm.a[1], st, ctx, n)
            h = has_field(I, o, c, nm.a[1], st)
            if h is not None:
                return a[2] if h is FALSE else I.attr(o, nm.a[1], st, ctx, n) if h is TRUE else ite(h, I.attr(o, nm.a[1], st, ctx, n), a[2])
            return fn("getattr", I.snap(o, st), nm, I.pure(a[2], st))
        return I.attr(a[0], nm.a[1], st, ctx, n)
    return fn("getattr", I.snap(a[0], st), nm)


def _b_setattr(I, a, kw, st, ctx, n):
    nm = I.pure(a[1], st)
    if nm.op == "const":
        I.set_attr(a[0], nm.a[1], a[2], st, ctx)
    else:
        o = a[0]
        if o.op == "sym":
            st.store[("x", o)] = cat(I.get(st, ("x", o)), mk("seq", mk("seq", const("setattr"), nm, I.pure(a[2], st))))
        else:
            I.effect(st, mk("setattr", I.pure(o, st), nm, I.pure(a[2], st)))
    return NONE


def _b_sorted(I, a, kw, st, ctx, n):
    l = I.aslist(a[0], st)
    if kw:
        k = kw.get("key")
        r = kw.get("reverse", FALSE)
        return I.new_ref(st, fn("sorted_by", l, I.pure(k, st) if k is not None else NONE, I.pure(r, st)), "list")

    def f(l):
        if l.op in ("rangen", "sorted"):
            return l
        if l.op == "reversed":
            return f(l.a[0])
        return mk("sorted", l)
    return I.new_ref(st, lift(f, (l,)), "list")


def _b_reversed(I, a, kw, st, ctx, n):
    return reverse(I.aslist(a[0], st))


def _b_iter(I, a, kw, st, ctx, n):
    return a[0]


def _b_next(I, a, kw, st, ctx, n):
    src = n.args[0] if n is not None and n.args else None
    if not isinstance(src, (ast.Call, ast.GeneratorExp)):
        # an iterator kept under a name moves on with every call
        loads = [x for x in ast.walk(ctx.node) if isinstance(x, ast.Name) and isinstance(src, ast.Name) and x.id == src.id] if ctx.node is not None else []
        if not isinstance(src, ast.Name) or len(loads) != 2:
            I.note(ctx, n, "iterator kept between calls of next")
            return unk("next of a kept iterator")
    l = I.aslist(a[0], st)
    d = I.pure(a[1], st) if len(a) > 1 else None

    def f(l):
        if l.op == "fmap":
            o = tm.open_fmap(l)
            b = o["body"]
            if all(x.op == "seq" and len(x.a) <= 1 for x in leaves(b)):
                g = map_leaves(b, lambda x: TRUE if x.a else FALSE)
                item = map_leaves(b, lambda x: x.a[0] if x.a else UNDEF)
                item = tm.constrain(item, g)
                fe = tm.firstel(l.a[0], o["elem"], o["pos"], g)
                m = {o["elem"]: fe}
                if o["pos"] in item.fs:
                    m[o["pos"]] = tm.firstel(l.a[0], o["elem"], o["pos"], g, "firstpos")
                r = subst(item, m)
                ex = tm.exists(l.a[0], o["elem"], o["pos"], g)
                return ite(ex, r, d) if d is not None else r
        r = idx(l, ZERO)
        return ite(truthy(l), r, d) if d is not None else r
    return lift(f, (l,))


def _b_map(I, a, kw, st, ctx, n):
    f = a[0]
    l = I.aslist(a[1], st) if len(a) == 2 else do_zip([I.aslist(x, st) for x in a[1:]])

    def g(s, e, p):
        xs = [e] if len(a) == 2 else [idx(e, num(i)) for i in range(len(a) - 1)]
        return seq(I.pure(I.call(f, xs, {}, s, ctx, n), s))
    return I.list_loop(st, l, g, ctx, n)


def _b_filter(I, a, kw, st, ctx, n):
    f = a[0]
    l = I.aslist(a[1], st)

    def g(s, e, p):
        c = truthy(I.pure(I.call(f, [e], {}, s, ctx, n), s)) if f is not NONE else truthy(e)
        return ite(c, seq(e), NIL)
    return I.list_loop(st, l, g, ctx, n)


def _b_type(I, a, kw, st, ctx, n):
    o = a[0]
    if o.op == "sym":
        c = syminfo.get(o, {}).get("cls")
        if isinstance(c, Class):
            return mk("cls", c.qual) if syminfo[o].get("new") else mk("clsof", o)
    return fn("type", I.pure(o, st))


def _b_str(I, a, kw, st, ctx, n):
    p = I.snap(a[0], st) if a else const("")
    return p if kind(p) == "str" else fn("str", p)


def _b_repr(I, a, kw, st, ctx, n):
    p = I.snap(a[0], st)
    return fn("str", p) if kind(p) in ("num", "nat", "int", "node", "edge") else fn("repr", p)


def _b_format(I, a, kw, st, ctx, n):
    return I.strcat([I.formatted(I.pure(a[0], st), None, I.pure(a[1], st) if len(a) > 1 else None)])


def from_literal(p):
    def f(p):
        if p.op == "fn" and p.a[0] in ("str", "repr") and len(p.a) == 2:
            return p.a[1]
        return mk("fn", "ast.literal_eval", p)
    return lift(f, (p,))


def through_json(p):
    """what JSON keeps of a value: tuples come back as lists, keys as strings"""
    def f(p):
        if p.op == "put":
            return put(through_json(p.a[0]), p.a[1] if kind(p.a[1]) == "str" else fn("str", p.a[1]), through_json(p.a[2]))
        if kind(p) == "edge":
            return mk("fn", "listed", p)
        return p
    return lift(f, (p,))


def _b_callable(I, a, kw, st, ctx, n):
    return truthy(fn("callable", I.snap(a[0], st)))


def _b_hasattr(I, a, kw, st, ctx, n):
    o = a[0]
    nm = I.pure(a[1], st)
    c = syminfo.get(o, {}).get("cls") if o.op == "sym" else None
    if isinstance(c, Class) and nm.op == "const" and c.find(nm.a[1]) is not None:
        return TRUE
    if isinstance(c, Class) and nm.op == "const":
        if ("f", o, nm.a[1]) in st.store:
            return TRUE
        h = has_field(I, o, c, nm.a[1], st)
        if h is not None:
            return h
    return truthy(fn("hasattr", I.snap(o, st), nm))


def has_field(I, o, c, name, st):
    """whether an object has a field that its class does not define: not when it was made here, else as earlier calls left it"""
    if not isinstance(c, Class) or not name.startswith("_") or name.startswith("__"):
        return None
    if syminfo[o].get("new"):
        return FALSE
    if syminfo[o].get("root") is not None:
        return None
    own, set_in = False, False
    for k in c.mro():
        for m in () if not isinstance(k, Class) else list(k.methods.values()) + list(k.setters.values()) + list(k.getters.values()):
            for x in ast.walk(m.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name and isinstance(x.value, ast.Name) and x.value.id == "self":
                    set_in = True
                    own = own or m.name == "__init__"
    if own:
        return TRUE
    return truthy(tm.sym("%s has %s" % (tm.pretty(o, 2), name), kind="bool")) if set_in else None


def _b_round(I, a, kw, st, ctx, n):
    return fn("round", *[I.pure(x, st) for x in a])


def _b_none(I, a, kw, st, ctx, n):
    return NONE


BUILTINS = {
    "len": _b_len, "enumerate": _b_enumerate, "list": _b_list, "tuple": _b_tuple, "set": _b_set, "frozenset": _b_frozenset,
    "dict": _b_dict, "range": _b_range, "xrange": _b_range, "zip": _b_zip, "isinstance": _b_isinstance, "any": _b_any, "all": _b_all,
    "sum": _b_sum, "max": minmax("max"), "min": minmax("min"), "abs": _b_abs, "float": _b_float, "int": _b_int,
    "bool": _b_bool, "getattr": _b_getattr, "setattr": _b_setattr, "sorted": _b_sorted, "reversed": _b_reversed,
    "iter": _b_iter, "next": _b_next, "map": _b_map, "filter": _b_filter, "type": _b_type, "str": _b_str, "repr": _b_repr, "format": _b_format,
    "callable": _b_callable, "hasattr": _b_hasattr, "round": _b_round, "print": _b_none,
}

# ---------------------------------------------------------------- containers
CONTAINER_METHODS = {"append", "add", "extend", "update", "pop", "popleft", "appendleft", "remove", "discard", "insert", "clear", "reverse", "sort",
                     "setdefault", "get", "items", "keys", "values", "copy", "index", "count", "join", "format", "startswith",
                     "endswith", "lower", "upper", "strip", "split", "replace", "union", "difference", "intersection", "issubset",
                     "iteritems", "itervalues", "tolist", "popitem", "difference_update", "dot"}
STR = {"join", "format", "startswith", "endswith", "lower", "upper", "strip", "split", "replace"}


def container_call(I, f, o, name, n, st, ctx):
    if o.op in ("clo", "func", "bound", "partial", "cls", "super", "unk") and o.op != "unk" or o is NONE:
        return None
    if o.op == "attrs":
        if name == "get":
            k = I.evp(n.args[0], st, ctx)
            dflt = I.ev(n.args[1], st, ctx) if len(n.args) > 1 else NONE
            if k.op == "const":
                v = I.get(st, ("A", o.a[0], k.a[1]))
                return dflt if v is UNDEF else v
        if name == "update":
            arg = I.ev(n.args[0], st, ctx) if n.args else None
            m = (I.get(st, ("c", arg)) if I.is_ref(arg) else I.pure(arg, st)) if arg is not None else EMPTYMAP
            while m.op == "put" and m.a[1].op == "const":
                st.store[("A", o.a[0], m.a[1].a[1])] = m.a[2]
                m = m.a[0]
            for k in n.keywords:
                if k.arg:
                    st.store[("A", o.a[0], k.arg)] = I.ev(k.value, st, ctx)
            if m is not EMPTYMAP:
                I.effect(st, mk("inplace", o))
            return NONE
        if name == "pop":
            k = I.evp(n.args[0], st, ctx)
            if k.op == "const":
                v = I.get(st, ("A", o.a[0], k.a[1]))
                st.store[("A", o.a[0], k.a[1])] = UNDEF
                if v is UNDEF:
                    return I.ev(n.args[1], st, ctx) if len(n.args) > 1 else NONE
                return v
        if name in ("items", "keys", "values", "iteritems"):
            return mk("fn", "attributes." + name, I.snap(o.a[0], st))
        if name == "setdefault":
            k = I.evp(n.args[0], st, ctx)
            if k.op == "const":
                v = I.get(st, ("A", o.a[0], k.a[1]))
                if v is UNDEF:
                    v = st.store[("A", o.a[0], k.a[1])] = I.ev(n.args[1], st, ctx) if len(n.args) > 1 else NONE
                return v
        if name in ("copy", "count", "index"):
            return None
        I.note(ctx, n, "attributes of a diagram used in a way that is not tracked")
        return unk("attributes." + name)
    if o.op == "xmeth" and name not in ("items", "keys", "values", "get", "append", "extend", "update", "add"):
        return None
    args = []
    for a in n.args:
        if isinstance(a, ast.Starred):
            lv = I.aslist(I.ev(a.value, st, ctx), st)
            if lv.op == "seq":
                args.extend(lv.a)
            elif kind(lv) in ("edge", "pair"):
                args.extend((idx(lv, ZERO), idx(lv, ONE)))
            else:
                args.append(mk("star", lv))
        else:
            args.append(I.ev(a, st, ctx))
    kw = {k.arg: I.ev(k.value, st, ctx) for k in n.keywords if k.arg}
    content = I.get(st, ("c", o)) if I.is_ref(o) else o
    if content.op == "ite" and not I.is_ref(o) and any(I.is_ref(x) for x in leaves(o)) and name in ("append", "extend", "add", "update", "items", "keys", "values", "get", "copy"):
        pass
    c = content
    pc = I.pure(c, st)

    def upd(g):
        I.store_container(f.value, o, g, st, ctx)
        return NONE
    ps = [I.pure(a, st) for a in args]
    if name in STR and (kind(pc) == "str" or pc.op in ("fmt",) or name in ("format",)):
        if name == "join":
            l = I.aslist(args[0], st)
            if l.op == "seq":
                return I.strcat([y for i, x in enumerate(l.a) for y in ((pc, x) if i else (x,))])
            return lift(lambda *x: mk("fn", "str.join", *x), (pc, l))
        if name == "format" and not any(k.arg is None for k in n.keywords):
            def given(text):
                if text.op != "const" or text.a[0] != "str":
                    return None
                return I.template(text.a[1], ps, {k: I.pure(v, st) for k, v in kw.items()})
            r = [given(x) for x in leaves(pc)]
            if all(x is not None for x in r):
                return map_leaves(pc, given)
        if name in ("startswith", "endswith"):
            if pc.op == "const" and ps[0].op == "const":
                return TRUE if getattr(pc.a[1], name)(ps[0].a[1]) else FALSE
            return truthy(fn(name, pc, *ps))
        if name in ("lower", "upper", "strip") and pc.op == "const" and not ps:
            return const(getattr(pc.a[1], name)())
        return fn("str." + name, pc, *(ps + [mk("kw", k, I.pure(v, st)) for k, v in sorted(kw.items())]))
    if name in STR:
        return None
    if name in ("items", "iteritems"):
        return map_leaves_list(pc, map_items)
    if name == "keys":
        return map_leaves_list(pc, keys)
    if name in ("values", "itervalues"):
        return map_leaves_list(pc, map_values)
    if name == "get":
        dflt = args[1] if len(args) > 1 else kw.get("default", NONE)
        k = ps[0]

        def g(m):
            if m.op == "put":
                return ite(eq(m.a[1], k), m.a[2], g(m.a[0])) if m.a[1] is not k else m.a[2]
            if m.op == "emptymap":
                return dflt
            if m.op == "ite":
                return ite(m.a[0], g(m.a[1]), g(m.a[2]))
            h = has(m, k)
            return ite(h, rd(m, k), dflt)
        return g(c if c.op in ("put", "emptymap") else pc)
    if name == "append":
        x = args[0]
        return upd(lambda m: cat(m, seq(x)))
    if name == "appendleft":
        x = args[0]
        return upd(lambda m: cat(seq(x), m))
    if name == "add":
        x = ps[0]
        return upd(lambda m: set_add(m, x))
    if name == "extend":
        l = I.aslist(args[0], st)
        return upd(lambda m: cat(m, l))
    if name in ("update", "union", "difference_update"):
        pk = syminfo.get(o, {}).get("pykind") if o.op == "sym" else None
        if pk == "set" or (args and kind(ps[0]) == "list" and kind(pc) != "map"):
            l = I.aslist(args[0], st) if args else NIL
            if name == "union":
                return I.new_ref(st, cat(pc, l), "set")
            if name == "difference_update":
                return upd(lambda m: I.set_diff(m, l))
            return upd(lambda m: cat(m, l))
        raw = (I.get(st, ("c", args[0])) if I.is_ref(args[0]) else ps[0]) if args else EMPTYMAP
        for k in sorted(kw):
            raw = put(raw, const(k), kw[k])
        return upd(lambda m: I.map_update(m, raw))
    if name in ("pop", "popleft"):
        if kind(pc) == "map" or pc.op in ("put", "emptymap", "mapdel"):
            k = ps[0]
            v = I.index(c, k, st)
            if len(args) > 1:
                v = ite(has(pc, k), v, args[1])
            else:
                I.implicit(st, Not(has(pc, k)), "KeyError")
            upd(lambda m: tm.mapdel(m, k))
            return v
        if name == "popleft" or (ps and ps[0] is ZERO):
            v = I.index(c, ZERO, st)
            upd(lambda m: tm.slice_(m, ONE, NONE))
            return v
        if not ps or ps[0] is num(-1):
            v = I.index(c, num(-1), st)
            upd(lambda m: tm.slice_(m, ZERO, num(-1)))
            return v
        upd(lambda m: unk("pop"))
        return unk("pop")
    if name in ("remove", "discard"):
        x = ps[0]
        return upd(lambda m: fn("list.remove", I.pure(m, st), x))
    if name == "insert":
        if ps[0] is ZERO:
            x = args[1]
            return upd(lambda m: cat(seq(x), m))
        x = ps[1]
        return upd(lambda m: fn("list.insert", I.pure(m, st), ps[0], x))
    if name == "clear":
        return upd(lambda m: EMPTYMAP if kind(pc) == "map" else NIL)
    if name == "reverse":
        return upd(lambda m: reverse(m))
    if name == "sort":
        if kw:
            kv = {k: I.pure(v, st) for k, v in kw.items()}
            return upd(lambda m: fn("sorted_by", I.pure(m, st), kv.get("key", NONE), kv.get("reverse", FALSE)))
        return upd(lambda m: lift(lambda x: mk("sorted", x), (I.pure(m, st),)))
    if name == "setdefault":
        k = ps[0]
        d = args[1] if len(args) > 1 else NONE
        h = has(pc, k)
        upd(lambda m: ite(h, m, put(m, k, I.pure(d, st))))
        return ite(h, rd(pc, k), I.pure(d, st))
    if name in ("copy", "tolist"):
        if o.op == "sym" and not I.is_ref(o):
            return None
        pk = syminfo.get(o, {}).get("pykind") if o.op == "sym" else None
        return I.new_ref(st, pc, "list" if name == "tolist" else pk)
    if name == "index":
        x = ps[0]

        def g(l):
            e = fresh("e", dom=l, kind=tm.elemkind(l))
            p = fresh("p", kind="nat", posof=l, elem=e)
            return tm.firstel(l, e, p, eq(e, x), "firstpos")
        return lift(g, (pc,))
    if name == "count":
        return fn("list.count", pc, *ps)
    if name == "difference":
        return I.new_ref(st, I.set_diff(pc, I.aslist(args[0], st)), "set")
    if name == "intersection":
        return I.new_ref(st, I.set_inter(pc, I.aslist(args[0], st)), "set")
    if name == "dot":
        return tm.dot(pc, ps[0])
    return fn("container." + name, pc, *ps)


def set_add(m, x):
    return cat(m, seq(x))


def map_leaves_list(p, f):
    return lift(f, (p,))


# ---------------------------------------------------------------- unknown objects
PURE = {"penalty", "reference", "target", "start_value", "bound_low", "bound_up", "attr_name", "key", "weight", "last_optimum_value",
        "get_numevals", "last_optimize_result", "vertices", "vertex_coordinates", "edge_length", "polyedges", "edges", "nodes", "copy",
        "transformed", "edge_vector", "points", "to_data", "tolist", "is_grasshopper", "unitized", "from_data", "faces", "lines", "segments", "to_compas", "get"}


def call_method(I, o, name, args, kw, st, ctx, n):
    if o.op == "ite":
        return I.fork(o.a[0], lambda s: call_method(I, o.a[1], name, args, kw, s, ctx, n),
                      lambda s: call_method(I, o.a[2], name, args, kw, s, ctx, n), st)
    po = I.pure(o, st)
    xk = syminfo.get(o, {}).get("xkind") if o.op == "sym" else None
    if xk == "nlopt.opt":
        return nlopt_method(I, o, name, args, kw, st, ctx, n)
    a = [I.snap(x, st) for x in args] + [mk("kw", k, I.snap(v, st)) for k, v in sorted(kw.items())]
    if name == "from_data" and len(a) == 1 and po.op == "fn" and po.a[0] == "cls_from_dtype":
        src = [x.a[1] for x in (a[0],) if x.op == "m" and x.a[0] == "to_data"] + [x.a[0] for x in (a[0],) if x.op in ("fld", "xmeth") and x.a[1] == "data"]
        if src and po.a[1].op in ("fld", "xmeth") and po.a[1].a[1] == "dtype" and po.a[1].a[0] is src[0]:
            return src[0]
    if name == "polyedges" and o.op == "sym" and not I.is_ref(o):
        # what a mesh lists depends on what was collected before
        po = mk("after", po, I.get(st, ("x", o)))
    if name not in PURE and po.op not in ("ext", "const", "fmt", "obj") and not I.is_ref(o):
        defs = I.p.definers(name)
        if defs:
            return dispatch(I, o, name, defs, args, kw, st, ctx, n)
    if name in PURE or po.op in ("ext", "const", "fmt"):
        return lift(lambda *x: mk("m", name, *x), [po] + a)
    if o.op == "sym" and not I.is_ref(o):
        h = I.get(st, ("x", o))
        st.store[("x", o)] = cat(h, mk("seq", mk("seq", const(name), *a)))
        return mk("m", name, h, *a)
    I.effect(st, mk("mcall", name, po, *a))
    return lift(lambda *x: mk("m", name, *x), [po] + a)


def dispatch(I, o, name, defs, args, kw, st, ctx, n):
    """a method of an object of unknown class: what each class of the project that has it does"""
    def go(ds, s):
        c = ds[0]
        f = c.methods[name]

        def here(s):
            return I.call_func(f, [o] + list(args), kw, s, ctx, n)
        if f.kind != "func":
            return unk("method of an object of unknown class", name)
        if len(ds) == 1:
            if all(x.is_sub(c) for x in defs):
                return here(s)
            return I.fork(mk("isinst", I.pure(o, s), c.qual), here, lambda s: unk("method of an object of unknown class", name), s)
        return I.fork(mk("isinst", I.pure(o, s), c.qual), here, lambda s: go(ds[1:], s), s)
    return go(defs, st)


def nlopt_method(I, o, name, args, kw, st, ctx, n):
    loc = ("x", o)
    h = I.get(st, loc)
    if name == "set_min_objective" or name == "set_max_objective":
        f = canon_callable(I, args[0], 2, st, ctx, n)
        ent = mk("seq", const(name), f)
        tops = callable_diagrams(I, args[0], st)
        syminfo[o].setdefault("tops", []).extend(tops)
    else:
        ent = mk("seq", const(name), *[I.reify(a, st) for a in args])
    if name.startswith("set_"):
        st.store[loc] = set_entry(h, ent)
        return NONE
    if name == "optimize":
        x = I.pure(args[0], st)
        hv = I.reify(h, st)
        r = mk("fn", "nlopt.optimize", hv, x)
        st.store[("$t",)] = add(st.store.get(("$t",), ZERO), ONE)
        for t in syminfo[o].get("tops", []):
            st.store[("dyn", t)] = mk("seq", mk("fn", "nlopt.lastx", hv, x))
        I.implicit(st, mk("raises", "RoundoffLimited", hv, x), "RoundoffLimited")
        I.implicit(st, mk("raises", "RuntimeError", hv, x), "RuntimeError")
        st.store[loc] = mk("seq", mk("seq", const("optimized"), r))
        return r
    if name in ("last_optimum_value", "get_numevals", "last_optimize_result"):
        return mk("fn", "nlopt." + name, I.reify(h, st))
    st.store[loc] = cat(h, mk("seq", ent))
    return mk("fn", "nlopt." + name, I.reify(h, st))


def set_entry(h, ent):
    """settings of a solver: order does not matter, the last one wins"""
    def f(h):
        if h.op != "seq":
            return cat(h, mk("seq", ent))
        items = [x for x in h.a if not (x.op == "seq" and x.a[0] is ent.a[0] and ent.a[0].a[1] != "set_param")]
        items.append(ent)
        head = [x for x in items if not (x.op == "seq" and x.a[0].op == "const" and str(x.a[0].a[1]).startswith("set_"))]
        sets = sorted([x for x in items if x not in head], key=lambda x: str(x.a[0].a[1]))
        return mk("seq", *(head + sets))
    return lift(f, (h,))


def callable_diagrams(I, f, st):
    """input diagrams reachable from a callable (partial arguments, closure variables)"""
    out = []
    seen = set()

    def visit(x):
        if x in seen or not isinstance(x, T):
            return
        seen.add(x)
        if x.op == "clo":
            c = I.closures[x.a[0]]
            cx = c.ctx
            while cx is not None:
                for k, v in st.store.items():
                    if k[0] == "v" and k[1] == cx.fid and cx.fid:
                        names = {y.id for y in ast.walk(c.node) if isinstance(y, ast.Name)}
                        if k[2] in names:
                            visit(v)
                cx = cx.parent
            return
        if x.op == "partial":
            visit(x.a[0])
            for v in x.a[1]:
                visit(v)
            for k, v in x.a[2]:
                visit(v)
            return
        for s in x.fs:
            info = syminfo.get(s, {})
            c = info.get("cls")
            if isinstance(c, Class) and I.is_diagram(c) and s not in out:
                out.append(s)
    visit(f)
    return out


# ---------------------------------------------------------------- diagrams
NETWORK = {"add_node", "add_edge", "nodes", "edges", "node_attribute", "node_attributes", "nodes_attribute", "nodes_attributes", "edge_attribute",
           "edge_attributes", "edges_attribute", "edges_attributes", "nodes_where", "nodes_where_predicate", "edges_where", "edges_where_predicate",
           "neighbors", "connected_edges", "has_edge", "has_node", "number_of_nodes", "number_of_edges", "node_coordinates",
           "edge_coordinates", "edge_length", "edge_vector", "edge_direction", "copy", "update_default_node_attributes",
           "update_default_edge_attributes", "delete_node", "delete_edge", "__init__", "edge_midpoint", "unset_node_attribute",
           "degree", "gkey_key", "key_gkey", "to_data", "clear", "transform", "transformed", "node", "edge", "to_json", "to_obj",
           "is_leaf", "leaves", "key_index", "adjacency", "default_node_attributes", "default_edge_attributes", "name", "data"}


def elem_names(I, names, st):
    p = I.pure(names, st)
    if p.op == "const" and p.a[0] == "str":
        p = chars(p)
    return p.a if p.op == "seq" and all(x.op == "const" for x in p.a) else None


def read(I, st, which, obj, key, name):
    return I.read_elem(st, which, obj, key, name)


def write(I, st, which, obj, key, name, v):
    I.write_elem(st, which, obj, key, name, v)


def nodes_of(I, o, st):
    return I.get(st, ("N", o))


def edges_of(I, o, st):
    return I.get(st, ("E", o))


def eroot(E):
    return E


def edge_ok(I, o, key, st):
    I.implicit(st, Not(member(key, edges_of(I, o, st))), "KeyError")


DRAW = {"draw_nodes", "draw_edges", "draw_nodelabels", "draw_edgelabels", "clear", "clear_nodes", "clear_edges"}


def drawing(I, o, cls, name, args, kw, st):
    """constructors and drawing calls of the artists and viewer objects of other packages"""
    if not isinstance(cls, Class) or o.op != "sym":
        return None
    base = [b[1] for b in cls.mro() if not isinstance(b, Class)]
    if any(b.startswith("compas_plotters.") and b.endswith("NetworkArtist") for b in base):
        if name == "__init__":
            net = args[0] if args else kw.get("network")
            if net is None:
                return None
            st.store[("f", o, "network")] = net
            for k in ("nodes", "edges"):
                v = kw.get(k)
                if v is None or v is NONE:
                    v = I.new_ref(st, (nodes_of if k == "nodes" else edges_of)(I, net, st), "list") if net.op == "sym" else None
                st.store[("f", o, k)] = v
            st.store[("f", o, "node_size")] = tm.sym("plotted.node_size", kind="map")
            st.store[("f", o, "_edge_width")] = NONE
            st.store[("f", o, "_edgecollection")] = tm.sym("plotted.edges")
            st.store[("f", o, "plotter")] = tm.sym("plotter", kind="obj", given=True)
            for k in ("show_nodes", "show_edges"):
                st.store[("f", o, k)] = kw.get(k, TRUE)
            I.effect(st, mk("drawing", *[mk("kw", k, I.snap(v, st)) for k, v in sorted(kw.items()) if k not in ("nodes", "edges", "network")]))
            return NONE
    elif any(b.startswith("compas_view2.") or b.startswith("compas_ghpython.") and b.endswith("NetworkArtist") for b in base):
        if name == "__init__":
            # what the class of the other package was made with
            given = [I.snap(x, st) for x in args] + [I.snap(kw[k], st) for k in ("network", "data") if k in kw]
            st.store[("f", o, "_made_with")] = mk("seq", *(given + [mk("kw", k, I.snap(v, st)) for k, v in sorted(kw.items()) if k not in ("network", "data")]))
            return NONE
    else:
        return None
    if name in DRAW:
        I.effect(st, mk("drawing", const(name), *([I.snap(x, st) for x in args] + [mk("kw", k, I.snap(v, st)) for k, v in sorted(kw.items())])))
        return NONE
    return None


def call_network(I, o, name, args, kw, st, ctx, n):
    if o.op == "ite":
        return I.fork(o.a[0], lambda s: call_network(I, o.a[1], name, args, kw, s, ctx, n),
                      lambda s: call_network(I, o.a[2], name, args, kw, s, ctx, n), st)
    cls = syminfo.get(o, {}).get("cls") if o.op == "sym" else None
    if o.op == "cls":
        a = [I.snap(x, st) for x in args] + [mk("kw", k, I.snap(v, st)) for k, v in sorted(kw.items())]
        return mk("fn", "classmethod", o, const(name), *a)
    if not (isinstance(cls, Class) and I.is_diagram(cls)):
        d = drawing(I, o, cls, name, args, kw, st)
        if d is not None:
            return d
        if name == "__init__":
            if o.op == "sym":
                a = [I.snap(x, st) for x in args] + [mk("kw", k, I.snap(v, st)) for k, v in sorted(kw.items())]
                if a:
                    st.store[("x", o)] = cat(I.get(st, ("x", o)), mk("seq", mk("seq", const(name), *a)))
            return NONE
        return call_method(I, o, name, args, kw, st, ctx, n)
    h = NET.get(name)
    if h is None:
        a = [I.snap(x, st) for x in args] + [mk("kw", k, I.snap(v, st)) for k, v in sorted(kw.items())]
        if name == "to_json":
            I.effect(st, mk("mcall", name, I.snap(o, st), *[x for x in a if x.op != "kw" or x.a[0] != "pretty"]))
            return NONE
        if name in ("to_data", "gkey_key", "key_gkey", "edge_midpoint", "degree", "key_index", "is_leaf", "leaves", "transformed", "to_json", "to_obj"):
            return mk("fn", "network." + name, I.snap(o, st), *a)
        st.store[("dyn", o)] = cat(I.get(st, ("dyn", o)), mk("seq", mk("seq", const(name), *a)))
        return mk("fn", "network." + name, I.snap(o, st), *a)
    return h(I, o, args, kw, st, ctx, n)


def _n_nodes(I, o, args, kw, st, ctx, n):
    b = kwmerge(("data",), args, kw)
    N = nodes_of(I, o, st)
    d = b.get("data", FALSE)
    if d is not FALSE:
        return ite(truthy(I.pure(d, st)), each(N, lambda e, p: seq(mk("seq", e, mk("dattrs", "na", o, e)))), N)
    return N


def _n_edges(I, o, args, kw, st, ctx, n):
    b = kwmerge(("data",), args, kw)
    E = edges_of(I, o, st)
    d = b.get("data", FALSE)
    if d is not FALSE:
        return ite(truthy(I.pure(d, st)), each(E, lambda e, p: seq(mk("seq", e, mk("dattrs", "ea", o, e)))), E)
    return E


def getset(which):
    def f(I, o, args, kw, st, ctx, n):
        b = kwmerge(("key", "name", "value"), args, kw)
        key = I.pure(b["key"], st)
        name = I.pure(b["name"], st)
        if which == "ea":
            edge_ok(I, o, key, st)
        v = b.get("value", NONE)
        pv = I.pure(v, st)
        w = Not(isnone(pv))
        if w is FALSE:
            return read(I, st, which, o, key, name)
        if w is TRUE:
            write(I, st, which, o, key, name, pv)
            return NONE
        if pv.op not in ("ite",) and not (b.get("value") is NONE):
            # a value whose absence is unknown: reading when None
            pass
        return I.fork(w, lambda s: (write(I, s, which, o, key, name, tm.constrain(pv, w)), NONE)[1],
                      lambda s: read(I, s, which, o, key, name), st)
    return f


def getset_many(which):
    def f(I, o, args, kw, st, ctx, n):
        b = kwmerge(("key", "names", "values"), args, kw)
        key = I.pure(b["key"], st)
        if which == "ea":
            edge_ok(I, o, key, st)
        if "names" not in b or I.pure(b["names"], st) is NONE:
            return mk("dattrs", which, o, key)
        names = elem_names(I, b["names"], st)
        v = b.get("values", NONE)
        if names is None:
            pn = I.pure(b["names"], st)
            if I.pure(v, st) is NONE:
                return fn("elem_attrs", const(which), I.snap(o, st), key, pn)
            st.store[("dyn", o)] = cat(I.get(st, ("dyn", o)), mk("seq", mk("seq", const(which), key, pn, I.pure(v, st))))
            return NONE
        pv = I.pure(v, st)
        w = Not(isnone(pv))

        def wr(s):
            for i, nm in enumerate(names):
                write(I, s, which, o, key, nm, idx(pv, num(i)))
            return NONE

        def rdd(s):
            return I.new_ref(s, seq(*[read(I, s, which, o, key, nm) for nm in names]), "list")
        if w is FALSE:
            return rdd(st)
        if w is TRUE or "values" in b:
            return wr(st)
        return I.fork(w, wr, rdd, st)
    return f


def getset_all(which):
    def f(I, o, args, kw, st, ctx, n):
        b = kwmerge(("name", "value", "keys"), args, kw)
        ks = b.get("keys", NONE)
        pk = I.pure(ks, st)
        allk = nodes_of(I, o, st) if which == "na" else edges_of(I, o, st)
        name = I.pure(b["name"], st)
        v = I.pure(b.get("value", NONE), st)
        if pk is NONE:
            l = allk
        else:
            l = ite(isnone(pk), allk, pk) if isnone(pk) is not FALSE else I.aslist(ks, st)
        if v is not NONE:
            def body(s, e, p):
                write(I, s, which, o, e, name, v)
                return I.simple(s)
            r = I.iterate(st.copy(), l, body, ctx, n, frozenset())
            if "next" in r.d:
                st.store = r.d["next"][1].store
            return NONE
        # keys falsy -> all in compas for edges: `keys = keys or self.edges()`
        return I.new_ref(st, each(l, lambda e, p: seq(read(I, st, which, o, e, name))), "list")
    return f


def getset_all_many(which):
    def f(I, o, args, kw, st, ctx, n):
        b = kwmerge(("names", "values", "keys"), args, kw)
        names = elem_names(I, b.get("names", NONE), st)
        pk = I.pure(b.get("keys", NONE), st)
        l = (nodes_of(I, o, st) if which == "na" else edges_of(I, o, st)) if pk is NONE else pk
        v = I.pure(b.get("values", NONE), st)
        if names is None:
            if v is not NONE:
                st.store[("dyn", o)] = cat(I.get(st, ("dyn", o)), mk("seq", mk("seq", const("set"), unk("attributes"))))
            return unk("attributes")
        if v is not NONE:
            def body(s, e, p):
                for i, nm in enumerate(names):
                    write(I, s, which, o, e, nm, idx(v, num(i)))
                return I.simple(s)
            r = I.iterate(st.copy(), l, body, ctx, n, frozenset())
            if "next" in r.d:
                st.store = r.d["next"][1].store
            return NONE
        return I.new_ref(st, each(l, lambda e, p: seq(seq(*[read(I, st, which, o, e, nm) for nm in names]))), "list")
    return f


def where(which):
    def f(I, o, args, kw, st, ctx, n):
        b = kwmerge(("conditions", "data"), args, {k: v for k, v in kw.items() if k in ("conditions", "data")})
        extra = {k: v for k, v in kw.items() if k not in ("conditions", "data")}
        m = I.pure(b.get("conditions", NONE), st)
        conds = []
        while m.op == "put":
            conds.append((m.a[1], m.a[2]))
            m = m.a[0]
        for k, v in extra.items():
            conds.append((const(k), I.pure(v, st)))
        if m.op not in ("emptymap",) and m is not NONE:
            return unk("where")
        l = nodes_of(I, o, st) if which == "na" else edges_of(I, o, st)
        data = truthy(I.pure(b.get("data", FALSE), st))

        def item(e):
            return ite(data, seq(mk("seq", e, mk("dattrs", which, o, e))), seq(e)) if data is not FALSE else seq(e)

        def g(e, p):
            c = TRUE
            for k, v in conds:
                x = read(I, st, which, o, e, k)
                if v.op == "seq" and len(v.a) == 2:
                    c = And(c, le(v.a[0], x), le(x, v.a[1]))
                else:
                    c = And(c, eq(x, v))
            return ite(c, item(e), NIL)
        return each(l, g)
    return f


def where_pred(which):
    def f(I, o, args, kw, st, ctx, n):
        b = kwmerge(("predicate", "data"), args, kw)
        l = nodes_of(I, o, st) if which == "na" else edges_of(I, o, st)
        data = truthy(I.pure(b.get("data", FALSE), st))

        def g(s, e, p):
            at = mk("dattrs", which, o, e)
            c = truthy(I.pure(I.call(b["predicate"], [e, at], {}, s, ctx, n), s))
            it = ite(data, seq(mk("seq", e, at)), seq(e)) if data is not FALSE else seq(e)
            return ite(c, it, NIL)
        return I.list_loop(st, l, g, ctx, n)
    return f


def neighbors_of(E, key):
    return mk("neighbors", E, key)


def _n_neighbors(I, o, args, kw, st, ctx, n):
    b = kwmerge(("key",), args, kw)
    E = edges_of(I, o, st)
    k = I.pure(b["key"], st)
    return I.new_ref(st, lift(neighbors_of, (E, k)), "list")


def _n_connected(I, o, args, kw, st, ctx, n):
    b = kwmerge(("key",), args, kw)
    E = edges_of(I, o, st)
    k = I.pure(b["key"], st)
    return I.new_ref(st, lift(lambda E, k: mk("conn_edges", E, k), (E, k)), "list")


def _n_has_edge(I, o, args, kw, st, ctx, n):
    b = kwmerge(("u", "v", "directed"), args, kw)
    u, v = I.pure(b["u"], st), I.pure(b["v"], st)
    E = edges_of(I, o, st)
    d = truthy(I.pure(b.get("directed", TRUE), st))
    a = member(seq(u, v), E)
    return ite(d, a, Or(a, member(seq(v, u), E)))


def _n_has_node(I, o, args, kw, st, ctx, n):
    return member(I.pure(args[0] if args else kw["key"], st), nodes_of(I, o, st))


def _n_num_nodes(I, o, args, kw, st, ctx, n):
    return length(nodes_of(I, o, st))


def _n_num_edges(I, o, args, kw, st, ctx, n):
    return length(edges_of(I, o, st))


def coords(I, o, key, st):
    return seq(*[read(I, st, "na", o, key, const(c)) for c in "xyz"])


def _n_coords(I, o, args, kw, st, ctx, n):
    b = kwmerge(("key", "axes"), args, kw)
    key = I.pure(b["key"], st)
    ax = b.get("axes")
    if ax is not None and ax.op == "const":
        return I.new_ref(st, seq(*[read(I, st, "na", o, key, const(c)) for c in ax.a[1]]), "list")
    return I.new_ref(st, coords(I, o, key, st), "list")


def uv(I, args, kw, st):
    b = kwmerge(("u", "v"), args, kw)
    if "edge" in b:
        e = I.pure(b["edge"], st)
        return idx(e, ZERO), idx(e, ONE)
    if "v" not in b:
        e = I.pure(b["u"], st)
        return idx(e, ZERO), idx(e, ONE)
    return I.pure(b["u"], st), I.pure(b["v"], st)


def _n_ecoords(I, o, args, kw, st, ctx, n):
    u, v = uv(I, args, kw, st)
    return seq(coords(I, o, u, st), coords(I, o, v, st))


def _n_elength(I, o, args, kw, st, ctx, n):
    u, v = uv(I, args, kw, st)
    return tm.norm(sub(coords(I, o, v, st), coords(I, o, u, st)))


def _n_evector(I, o, args, kw, st, ctx, n):
    u, v = uv(I, args, kw, st)
    return sub(coords(I, o, v, st), coords(I, o, u, st))


def _n_edir(I, o, args, kw, st, ctx, n):
    u, v = uv(I, args, kw, st)
    return tm.unit(sub(coords(I, o, v, st), coords(I, o, u, st)))


def _n_add_node(I, o, args, kw, st, ctx, n):
    b = kwmerge(("key", "attr_dict"), args, {k: v for k, v in kw.items()})
    key = I.pure(b.pop("key", NONE), st)
    N = nodes_of(I, o, st)
    nn = isnone(key)
    if nn is not FALSE:
        new = mk("newnode", N)
        key = ite(nn, new, key)
    ad = b.pop("attr_dict", NONE)
    attrs = []
    m = I.pure(ad, st)
    while m.op == "put" and m.a[1].op == "const":
        attrs.append((m.a[1], m.a[2]))
        m = m.a[0]
    if m not in (NONE, EMPTYMAP):
        st.store[("dyn", o)] = cat(I.get(st, ("dyn", o)), mk("seq", mk("seq", const("na*"), key, m)))
    for k, v in b.items():
        attrs.append((const(k), I.pure(v, st)))
    inside = lift(lambda k, N: FALSE if k.op == "newnode" else member(k, N), (key, N))
    st.store[("N", o)] = cat(N, ite(inside, NIL, seq(key)))
    for k, v in attrs:
        write(I, st, "na", o, key, k, v)
    return key


def _n_add_edge(I, o, args, kw, st, ctx, n):
    b = kwmerge(("u", "v", "attr_dict"), args, kw)
    u, v = I.pure(b.pop("u"), st), I.pure(b.pop("v"), st)
    key = tm.seq(u, v)
    E = edges_of(I, o, st)
    ad = b.pop("attr_dict", NONE)
    attrs = []
    m = I.pure(ad, st)
    while m.op == "put" and m.a[1].op == "const":
        attrs.append((m.a[1], m.a[2]))
        m = m.a[0]
    if m not in (NONE, EMPTYMAP):
        st.store[("dyn", o)] = cat(I.get(st, ("dyn", o)), mk("seq", mk("seq", const("ea*"), key, m)))
    for k, x in b.items():
        attrs.append((const(k), I.pure(x, st)))
    st.store[("E", o)] = cat(E, ite(member(key, E), NIL, seq(key)))
    for k, x in attrs:
        write(I, st, "ea", o, key, k, x)
    return key


def copy_diagram(I, o, cls, st):
    c = fresh("copy")
    info = dict(cls=cls, kind="obj", root=syminfo.get(o, {}).get("root", o))
    if syminfo.get(o, {}).get("new"):
        info["new"] = True
        info.pop("root")
    syminfo[c] = info
    for loc, v in list(st.store.items()):
        if len(loc) > 1 and loc[1] is o and loc[0] in ("na", "ea", "A", "N", "E", "dyn"):
            if I.is_ref(v):
                if loc[0] == "A" and ("c", v) not in st.store:
                    continue
                v = I.new_ref(st, I.pure(v, st), syminfo[v].get("pykind"))
            elif v.op == "ite" and any(I.is_ref(x) for x in leaves(v)):
                v = I.new_ref(st, I.pure(v, st), None)
            st.store[(loc[0], c) + tuple(loc[2:])] = v
    # changed contents of input containers
    for loc, v in list(st.store.items()):
        if loc[0] == "c" and syminfo.get(loc[1], {}).get("attr_of", (None,))[0] is o:
            nm = syminfo[loc[1]]["attr_of"][1]
            if ("A", c, nm) not in st.store:
                st.store[("A", c, nm)] = I.new_ref(st, v, "dict" if kind(v) == "map" else "list")
    return c


def _n_copy(I, o, args, kw, st, ctx, n):
    b = kwmerge(("cls",), args, kw)
    c = b.get("cls", NONE)
    cls = syminfo[o]["cls"]
    if c.op == "cls":
        cls = I.class_by_qual(c.a[0])
    return copy_diagram(I, o, cls, st)


def defaults(which):
    def f(I, o, args, kw, st, ctx, n):
        m = I.pure(args[0], st) if args else I.pure(kw.get("attr_dict", EMPTYMAP), st)
        items = []
        while m.op == "put" and m.a[1].op == "const":
            items.append((m.a[1].a[1], m.a[2]))
            m = m.a[0]
        for k, v in kw.items():
            if k != "attr_dict":
                items.append((k, I.pure(v, st)))
        for k, v in items:
            st.store[(which, o, k)] = mk("defmap", v)
        return NONE
    return f


def _n_init(I, o, args, kw, st, ctx, n):
    if args or any(k != "**" for k in kw):
        a = [I.snap(x, st) for x in args] + [mk("kw", k, I.snap(v, st)) for k, v in sorted(kw.items())]
        st.store[("x", o)] = cat(I.get(st, ("x", o)), mk("seq", mk("seq", const("__init__"), *a)))
    return NONE


def default_of(cls, which, name):
    """constant default of an attribute, as written in the constructors of a diagram class"""
    fname = "update_default_node_attributes" if which == "na" else "update_default_edge_attributes"
    for c in cls.mro():
        if not isinstance(c, Class):
            continue
        for x in ast.walk(c.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == fname:
                for d in x.args:
                    if isinstance(d, ast.Dict):
                        for k, v in zip(d.keys, d.values):
                            if isinstance(k, ast.Constant) and k.value == name and isinstance(v, ast.Constant):
                                return num(v.value) if isinstance(v.value, (int, float)) and not isinstance(v.value, bool) else const(v.value)
    return None


def unset(which):
    def f(I, o, args, kw, st, ctx, n):
        b = kwmerge(("key", "name"), args, kw)
        nm = I.pure(b["name"], st)
        cls = syminfo.get(o, {}).get("cls")
        if nm.op != "const" or cls is None:
            st.store[("dyn", o)] = cat(I.get(st, ("dyn", o)), mk("seq", mk("seq", const("unset"), nm)))
            return unk("attribute unset")
        v = default_of(cls, which, nm.a[1])
        if v is None:
            v = NONE
        loc = (which, o, nm.a[1])
        st.store[loc] = put(I.get(st, loc), I.pure(b["key"], st), v)
        return NONE
    return f


def _n_delete_edge(I, o, args, kw, st, ctx, n):
    u, v = uv(I, args, kw, st)
    E = edges_of(I, o, st)
    st.store[("E", o)] = each(E, lambda e, p: ite(eq(e, seq(u, v)), NIL, seq(e)))
    return NONE


NET = {
    "nodes": _n_nodes, "edges": _n_edges, "node_attribute": getset("na"), "edge_attribute": getset("ea"),
    "node_attributes": getset_many("na"), "edge_attributes": getset_many("ea"), "nodes_attribute": getset_all("na"),
    "edges_attribute": getset_all("ea"), "nodes_attributes": getset_all_many("na"), "edges_attributes": getset_all_many("ea"),
    "nodes_where": where("na"), "edges_where": where("ea"), "nodes_where_predicate": where_pred("na"),
    "edges_where_predicate": where_pred("ea"), "neighbors": _n_neighbors, "connected_edges": _n_connected, "has_edge": _n_has_edge,
    "has_node": _n_has_node, "number_of_nodes": _n_num_nodes, "number_of_edges": _n_num_edges, "node_coordinates": _n_coords,
    "edge_coordinates": _n_ecoords, "edge_length": _n_elength, "edge_vector": _n_evector, "edge_direction": _n_edir,
    "add_node": _n_add_node, "add_edge": _n_add_edge, "copy": _n_copy, "update_default_node_attributes": defaults("na"),
    "update_default_edge_attributes": defaults("ea"), "__init__": _n_init, "delete_edge": _n_delete_edge,
    "unset_node_attribute": unset("na"), "unset_edge_attribute": unset("ea"),
}


# ---------------------------------------------------------------- effects of calls kept opaque
# fields that opaque methods of a class may read (the others hold results)
INPUT_FIELDS = {"Optimizer": ("parameters", "constraints", "_pkey", "_ckey")}


def _eff_update_parameters(I, b, st, r):
    t = b.get("topology")
    if t is not None and t.op == "sym":
        st.store[("dyn", t)] = mk("seq", mk("fn", "written", I.snap(b.get("self", NONE), st), I.pure(b.get("parameters", NONE), st)))


def recorded(what, after=False):
    """keeps, on the diagram, the list of what the method was called with; after: together with what had been done before"""
    def f(I, b, st, r):
        o = b.get("self")
        if o is None or o.op != "sym":
            return
        args = [mk("kw", k, I.snap(v, st)) for k, v in sorted(b.items()) if k != "self"]
        if after:
            args.append(I.snap(o, st))
        loc = ("x", o, what)
        old = st.store.get(loc, NIL)
        st.store[loc] = cat(I.pure(old, st), mk("seq", mk("fn", "did:" + what, *args)))
    return f


OPAQUE_EFFECTS = {".add_edge": recorded("add_edge"), ".add_load": recorded("add_load"), ".add_support": recorded("add_support"), ".build_trails": recorded("build_trails", True),
                  "Optimizer._update_parameters": _eff_update_parameters, "Optimizer._optimize_form": _eff_update_parameters}
