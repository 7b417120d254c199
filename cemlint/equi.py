"""Form-finding loops taken apart: iteration / sequence / trail frames with named roles."""
from . import terms as tm
from .interp import Abort, Lacking
from .terms import (sym, fresh, syminfo, subst, replace, leaves, map_leaves, mk, NONE, ZERO, ONE, FALSE, TRUE, num, add, kind,
                    subterms, Not, rd, const)

ROLES = ("node_xyz", "trail_forces", "trail_directions", "reaction_forces")
PASSED = "force passed on"
T0 = sym("iteration", kind="nat")
K0 = sym("sequence", kind="nat")


class Frames(object):
    def __init__(self, r):
        self.r = r
        I = r.interp
        self.raw = {}
        for role in ROLES:
            v = self.field(r.value, const(role))
            if v is not None and not r.interp.notes and not v.unk and v.op == "rd" and v.a[0] is tm.EMPTYMAP:
                raise Lacking("the equilibrium state has no %s" % role)
            if v is not None and not r.interp.notes and I.is_ref(v) and I.get(r.state, ("c", v)) is tm.EMPTYMAP:
                raise Lacking("the %s of the equilibrium state are never filled" % role)
            if v is None or not I.is_ref(v):
                raise Abort("%s is not a dictionary filled in place" % role)
            self.raw[role] = ("c", v)
        self.levels = []
        cur = None
        recs = [x for x in I.loops if x.cut]
        nloc = self.raw["node_xyz"]
        for depth in range(3):
            cand = [x for x in recs if self.mu(x, nloc) is not None and (
                self.starts_outside(x, nloc, recs) if cur is None else x.plocs[self.mu(x, nloc)][0] is self.mu(cur, nloc))]
            if not cand:
                raise Abort("the iteration over %s was not found" % ("iterations", "sequences", "trails")[depth])
            cur = cand[-1]
            self.levels.append(cur)
        L2 = self.levels[2]
        rest = [loc for mu, loc in L2.musyms.items() if loc[0] == "c" and loc not in self.raw.values() and L2.plocs[mu][1] is not mu]
        if len(rest) != 1:
            raise Abort("the force passed along the trail was not identified (%d candidates)" % len(rest))
        self.raw[PASSED] = rest[0]
        self.build()

    def field(self, v, key):
        I, st = self.r.interp, self.r.state
        if not I.is_ref(v):
            return None
        c = I.get(st, ("c", v))
        return rd(c, key)

    @staticmethod
    def mu(rec, loc):
        for m, l in rec.musyms.items():
            if l == loc:
                return m
        return None

    def starts_outside(self, x, loc, recs):
        i = x.plocs[self.mu(x, loc)][0]
        return not any(self.mu(y, loc) is not None and i is self.mu(y, loc) for y in recs if y is not x)

    def build(self):
        m = {}
        self.sym = {}
        for d, rec in enumerate(self.levels):
            for role, loc in self.raw.items():
                mu = self.mu(rec, loc)
                if mu is None:
                    raise Abort("%s is not carried through the iteration" % role)
                info = {k: v for k, v in syminfo.get(mu, {}).items() if k in ("kind", "valkind", "keykind")}
                s = sym("%s@%d" % (role, d), kind="map", keykind="edge" if role in ("trail_forces", "trail_directions") else "node",
                        valkind="num" if role == "trail_forces" else "vec")
                m[mu] = s
                self.sym[role, d] = s
                if mu in rec.end:
                    m[rec.end[mu]] = sym("%s@%d.end" % (role, d), kind="map", keykind=syminfo[s]["keykind"], valkind=syminfo[s]["valkind"])
                if mu in rec.at:
                    m[rec.at[mu]] = sym("%s@%d.at" % (role, d), kind="map", keykind=syminfo[s]["keykind"], valkind=syminfo[s]["valkind"])
            if rec.broke is not None:
                m[rec.broke] = sym("broke@%d" % d)
            if rec.pos in rec.at:
                m[rec.at[rec.pos]] = sym("last iteration@%d" % d, kind="nat")
            if d < 2:
                if rec.elem is not rec.pos and rec.elem.op == "sym":
                    raise Abort("iterations are not counted by a range")
                m[rec.pos] = (T0, K0)[d]
            else:
                m[rec.elem] = sym("trail key", kind="node", dom=rec.dom)
                if rec.elem is not rec.pos:
                    m[rec.pos] = sym("trail position", kind="nat")
        self.m = m
        # other carried values at the iteration level, matched by what they are
        self.doms = [subst(rec.dom, m) for rec in self.levels]
        if not any(x.op == "attr" and x.a[1] == "_trails" for x in subterms(self.doms[2])):
            raise Abort("trails are not taken from the diagram's trails")
        self.init = {role: subst(self.levels[0].plocs[self.mu(self.levels[0], loc)][0], m) for role, loc in self.raw.items()}
        self.up = {}
        for d, rec in enumerate(self.levels):
            for role, loc in self.raw.items():
                self.up[role, d] = subst(rec.plocs[self.mu(rec, loc)][1], m)
        L0 = self.levels[0]
        self.others = {}
        for mu, e in L0.end.items():
            if e in m:
                continue
            me = sym("@self")
            mm = dict(m)
            mm[mu] = me
            self.others[e] = (subst(L0.plocs[mu][0], mm), subst(L0.plocs[mu][1], mm))
        self.exits = [subst(rec.pexits, m) for rec in self.levels]

    def view(self, t):
        """term after the loops, with canonical symbols; other carried values become descriptions of themselves"""
        mm = dict(self.m)
        for e, (i, u) in self.others.items():
            mm[e] = mk("fn", "final", i, u)
        return subst(t, mm)


    def outcomes(self, t):
        """a condition tested after the iterations: when they were left early (so the exit condition held) and when they ran out (at least one was made)"""
        n = self.doms[0].a[0] if self.doms[0].op == "rangen" else None
        p = sym("iterations-1", kind="nat")
        left = {T0: sym("last iteration@0", kind="nat")}
        for role in self.raw:
            left[self.sym[role, 0]] = sym("%s@0.at" % role)
        mm, early = dict(self.m), dict(self.m)
        for e, (i, u) in self.others.items():
            v = early[e] = mk("fn", "final", i, u)
            if n is not None:
                q, me = sym("iterations-2", kind="nat"), sym("@self")
                v = tm.ite(tm.lt(n, num(2)), subst(u, {T0: ZERO, me: i}), subst(subst(u, {T0: add(q, ONE)}), {q: tm.sub(n, num(2))}))
                if me in subterms(v):
                    v = early[e]
            mm[e] = v

        def fix(t, val):
            return tm.rewrite(t, lambda x: val if x.op == "lbroke" else x)
        ran = fix(subst(t, mm), FALSE)
        if n is not None:
            ran = subst(ran, {T0: tm.sub(n, ONE)})
            if n.op == "sym":
                ran = subst(ran, {n: add(p, ONE)})
        return [("left early", tm.And(subst(self.exits[0], left), fix(subst(t, early), TRUE))), ("ran out", ran)]


def cases(t):
    """first iteration, later iterations"""
    p = sym("iteration-1", kind="nat")
    return [("first iteration", subst(t, {T0: ZERO})), ("later iterations", subst(t, {T0: add(p, ONE)}))]


def drop_forces(t):
    """the same step at a node without load and without deviation edges"""
    m = {}
    for x in subterms(t):
        if x.op == "sum" and x.a[0].op == "conn_edges":
            m[x] = ZERO
    return replace(t, m) if m else t


def gates_only(t):
    """keep which entries are written and when; forget the written values"""
    star = sym("*")

    def leaf(x):
        if x.op == "put":
            return mk("put", leaf(x.a[0]), x.a[1], star)
        return x
    return map_leaves(t, leaf)


def nan_test(x, outcome):
    """tests for something that is not a number, of a number or of any component of a vector"""
    if x.op == "truthy" and x.a[0].op == "fn" and x.a[0].a[0] in ("isnan", "numpy.isnan"):
        return TRUE if outcome else FALSE
    a = x.a[0] if x.op == "truthy" and x.a[0].op in ("fn", "m", "mcall") else x
    if a.op in ("fn", "m", "mcall", "exists", "forall") and any(y in (TRUE, FALSE) for y in a.a) and (a.op in ("exists", "forall") or str(a.a[0]).split(".")[-1] in ("any", "all")):
        return [y for y in a.a if y in (TRUE, FALSE)][0]
    return x


def plain_vectors(t):
    """unit vectors as vector over length, signs as case splits, positive factors out of sign tests: valid away from zero forces"""
    def fn(x):
        if x.op == "unit":
            return tm.mul(x.a[0], tm.power(tm.norm(x.a[0]), num(-1)))
        if x.op == "copysign":
            m, s = x.a
            return tm.ite(sign(s), tm.neg(tm.absv(m)), tm.absv(m))
        if x.op == "lt0":
            return sign(x.a[0])
        if x.op == "eq0" and x.a[0] is RHO or x.op == "eq" and RHO in x.a and ZERO in x.a:
            return FALSE
        return nan_test(x, False)
    return tm.rewrite(t, fn)


RHO = sym("force leaving the node", kind="vec")
NAN = sym("not a number")


def at_rest(t):
    """the same step when no force is left: the unit vector of nothing is nothing, dividing by its length is not a number"""
    gone = {RHO: ZERO}

    def fn(x):
        if x.op == "unit" and RHO in x.fs and subst(x.a[0], gone) is ZERO:
            return ZERO
        if RHO in x.fs and x.op not in ("norm", "unit", "ite", "put"):
            for mono in tm._terms(x):
                for y, e in mono:
                    if e < 0 and y.op == "norm" and RHO in y.fs and subst(y.a[0], gone) is ZERO:
                        return NAN
        return nan_test(x, NAN in x.fs)
    return subst(tm.rewrite(t, fn), gone)


def sign(p):
    """p < 0 with positive factors (lengths) dropped"""
    d = tm._terms(p)
    common = None
    for mono in d:
        pos = {(x, e) for x, e in mono if x.op in ("norm", "sqrt") or x.op == "dot" and x.a[0] is x.a[1]}
        common = pos if common is None else common & pos
    if common:
        d = {tuple(xe for xe in mono if xe not in common): c for mono, c in d.items()}
        return tm.lt(tm._poly(d), ZERO)
    return tm.lt(p, ZERO)


def leaving(frames, sub):
    """(node, force leaving it) as written to the reactions, in one case; None if there is no single such write"""
    u = sub(frames.up["reaction_forces", 2])
    vals = set()
    for lf in leaves(u):
        if lf.op == "put" and lf.a[0] is frames.sym["reaction_forces", 2]:
            vals.add((lf.a[1], lf.a[2]))
        elif lf is not frames.sym["reaction_forces", 2]:
            return None
    return vals.pop() if len(vals) == 1 else None


def by_leaving_force(frames, sub):
    """change of variables: the force entering a node is expressed by the force leaving it"""
    nv = leaving(frames, sub)
    if nv is None:
        return None
    node, r = nv
    entering = rd(frames.sym[PASSED, 2], node)
    rest = tm.sub(r, entering)
    if any(x is entering for x in subterms(rest)) or rest.op == "ite":
        return None
    return lambda t: replace(sub(t), {entering: tm.sub(RHO, rest)})


def along_trails(t):
    """facts about stored trails: consecutive nodes are joined by a trail edge, stored in one of the two directions"""
    after = add(K0, ONE)

    def fn(x):
        if x.op == "eq" and any(y is const("trail") for y in x.a) and K0 in x.fs:
            return TRUE
        if x.op == "in" and K0 in x.fs:
            for y in x.a:
                if isinstance(y, tm.T) and y.op == "seq" and len(y.a) == 2 and y.a[0].op == "rd" and y.a[0].a[1] is after and y.a[1].op == "rd" and y.a[1].a[1] is K0:
                    return TRUE
        return x
    return tm.rewrite(t, fn)


def numbered(t):
    """every node has a sequence number (trails were built)"""
    def fn(x):
        if x.op == "isnone" and x.a[0].op == "rd" and x.a[0].a[0].op == "na" and "_k" in x.a[0].a[0].a:
            return FALSE
        return x
    return tm.rewrite(t, fn)


# ---------------------------------------------------------------- running both sides
IMPLS = (("compas_cem.equilibrium.force:equilibrium_state", "spec.equilibrium:state"),
         ("compas_cem.equilibrium.force_numpy:equilibrium_state_numpy", "spec.equilibrium:state_numpy"))


def run_result(ck, qual, kmax, spec=False):
    fo = ck.func(qual)
    vals = dict(topology=ck.topology(), kmax=kmax, tmax=sym("tmax", kind="int"), eta=sym("eta", kind="num"),
                verbose=sym("verbose"), callback=NONE)
    args, kw = [], {}
    for a in fo.node.args.args + fo.node.args.kwonlyargs:
        if a.arg in vals:
            kw[a.arg] = vals[a.arg]
    return ck.run(fo, args, kw, spec=spec, cut=True)


def run_frames(ck, qual, kmax, spec=False):
    r = run_result(ck, qual, kmax, spec)
    f = Frames(r)
    f.fo = ck.func(qual)
    f.notes = ["%s" % (n,) for n in r.interp.notes]
    return f


def both(t):
    return along_trails(plain_vectors(t))


def compare(ck, rule, fc, fs, c, s):
    """congruent as they stand, or after spelling unit vectors and signs out"""
    if c is not s:
        c, s = numbered(both(c)), numbered(both(s))
    return ck.judge(rule, fc.fo, c, s, fc.notes)


def pairs(ck, kmax, impls=IMPLS):
    for q, sq in impls:
        name = q.split(":")[1]
        with ck.guard(name + ": loop structure", q):
            fs = run_frames(ck, sq, kmax, spec=True)
            fc = run_frames(ck, q, kmax)
            yield name, fc, fs


def case_views(f):
    """[(case name, substitution)]"""
    return [("first iteration", lambda t: cases(t)[0][1]), ("later iterations", lambda t: cases(t)[1][1])]


def without_plane(t):
    def fn(x):
        if x.op in ("truthy", "isnone") and K0 in x.fs and x.a[0].op == "rd" and x.a[0].a[0].op == "ea" and "plane" in x.a[0].a[0].a:
            return FALSE if x.op == "truthy" else TRUE
        return x
    return tm.rewrite(t, fn)


# ---------------------------------------------------------------- from state to form diagram
STATE = {role: sym(role, kind="map", keykind="edge" if role in ("trail_forces", "trail_directions") else "node",
                   valkind="num" if role == "trail_forces" else "vec") for role in ROLES}
WRAPPERS = (("compas_cem.equilibrium.force:static_equilibrium", "compas_cem.equilibrium.force:equilibrium_state", "spec.form:static"),
            ("compas_cem.equilibrium.force_numpy:static_equilibrium_numpy", "compas_cem.equilibrium.force_numpy:equilibrium_state_numpy", "spec.form:static_numpy"))


def run_wrapper(ck, qual, inner, spec=False):
    """form diagram made from an arbitrary equilibrium state; (result, bound arguments of the inner call)"""
    calls = []

    def stub(I, b, st):
        calls.append({k: I.pure(v, st) for k, v in b.items()})
        c = tm.EMPTYMAP
        for role in ROLES:
            c = tm.mk("put", c, const(role), STATE[role])
        return I.new_ref(st, c, "dict")
    fo = ck.func(qual)
    topo = ck.topology()
    vals = dict(topology=topo, kmax=sym("kmax", kind="int", optional=True), tmax=sym("tmax", kind="int"), eta=sym("eta", kind="num"),
                verbose=sym("verbose"), callback=NONE)
    kw = {a.arg: vals[a.arg] for a in fo.node.args.args + fo.node.args.kwonlyargs if a.arg in vals}
    r = ck.run(fo, [], kw, spec=spec, override={inner: stub})
    r.fo = fo
    return r, calls, vals, kw


def form_state(ck, r):
    """contents of the returned diagram as {location: term}"""
    from .core import post_state
    info = syminfo.get(r.value, {})
    if r.value.op != "sym" or info.get("kind") != "obj" and "cls" not in info:
        raise Abort("the result is not a single new diagram")
    topo = ck.topology()
    m = {tm.keys(STATE["node_xyz"]): mk("nodes", topo, ZERO)}
    return {loc: replace(v, m) for loc, v in post_state(r, r.value).items()}, info
