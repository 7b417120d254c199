"""Obligations: a function of the repository against a reference, both reduced to value terms."""
import ast
import os
import signal
import time
import traceback

from . import terms as tm
from .interp import Interp, State, Abort, Lacking
from .project import Project, Class, Func
from .terms import T, FALSE, TRUE, NONE, Or, Not, leaves, pretty, sym, syminfo

HERE = os.path.dirname(os.path.abspath(__file__))
TOPO = "compas_cem.diagrams.topology.topology:TopologyDiagram"
FORM = "compas_cem.diagrams.form:FormDiagram"


class Broken(Exception):
    """the analysis has lost an anchor: no verdict possible"""


class Finding(object):
    def __init__(self, rule, where, construct, text):
        self.rule, self.where, self.construct, self.text = rule, where, construct, text

    @property
    def key(self):
        return "%s @ %s" % (self.rule, self.construct)


import os
LONG = (40, 20000) if os.environ.get("CEM_LONG") else (12, 900)


def flat(t):
    """conditions pulled out of tuples and calls, where that stays small"""
    def f(x):
        if x.op == "slice" and x.a[1].op in ("num", "poly") and x.a[2].op in ("num", "poly"):
            # a few neighbouring items, one by one
            w = tm.sub(x.a[2], x.a[1])
            if w.op == "num" and w.a[0] in (1, 2, 3) and (x.a[1].op != "num" or x.a[1].a[0] >= 0):
                return tm.mkseq([tm.idx(x.a[0], tm.add(x.a[1], tm.num(i))) for i in range(int(w.a[0]))])
        if x.op in ("seq", "fn", "m", "kw", "drawing"):
            n = 1
            for y in x.a:
                if isinstance(y, tm.T) and y.op == "ite":
                    n *= len(leaves(y))
            if 1 < n <= 128:
                return tm.lift(lambda *a: tm.mk(x.op, *a), x.a)
        return x
    try:
        return tm.rewrite(t, f)
    except RecursionError:
        return t


def signs(t):
    """signs as case splits, zero without a sign (real arithmetic)"""
    def f(x):
        if x.op == "copysign":
            m, s = x.a
            return tm.ite(tm.lt(s, tm.ZERO), tm.neg(f(tm.absv(m))), f(tm.absv(m)))
        if x.op == "abs":
            return tm.ite(tm.lt(x.a[0], tm.ZERO), tm.neg(x.a[0]), x.a[0])
        return x
    try:
        return tm.rewrite(t, f)
    except RecursionError:
        return t


def by_values(code, spec):
    """two terms that test an input against constants agree for each of these constants and for anything else"""
    def tests(t):
        out = {}
        for x in tm.subterms(t):
            if x.op == "eq0" and x.a[0].op in ("poly", "sym"):
                d = dict(tm._terms(x.a[0]))
                c = d.pop((), 0)
                if len(d) == 1:
                    (m, k), = d.items()
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sym":
                        out.setdefault(m[0][0], {})[x] = tm.num(-c / k)
        return out
    tc, ts = tests(code), tests(spec)
    for s in sorted(set(tc) & set(ts), key=lambda x: x.id):
        vals = {v for t in (tc, ts) for v in t[s].values()}
        if not 1 < len(vals) <= 24:
            continue
        if all(tm.subst(code, {s: v}) is tm.subst(spec, {s: v}) for v in vals):
            none = {x: tm.FALSE for t in (tc, ts) for x in t[s]}
            c, r = tm.replace(code, none), tm.replace(spec, none)
            if c is r or flat(c) is flat(r):
                return True
    return False


def by_class(code, spec, closed):
    """two terms that ask for the class of an object agree for each of these classes, and for any other

    closed: an object of none of these classes raises an error, which is compared on its own"""
    found = {x for t in (code, spec) for x in tm.subterms(t) if x.op == "isinst"}
    names = sorted({x.a[1] for x in found})
    # one object only, the same wherever its class is asked for
    if not 1 < len(names) <= 6 or len({x.a[0] for x in found}) != 1:
        return False
    if not all(a == b or tm.apart[0](a, b) for a in names for b in names):
        return False
    for name in names + ([] if closed else [None]):
        def f(x):
            return (TRUE if x.a[1] == name else FALSE) if x.op == "isinst" else x
        c, r = tm.rewrite(code, f), tm.rewrite(spec, f)
        if c is not r and flat(c) is not flat(r):
            return False
    return True


def assumed(view, c, s):
    """a view of single terms, or one that looks at both"""
    if getattr(view, "pair", False):
        return view(c, s)
    return view(c), view(s)


class Check(object):
    """One run of the check of a property."""

    def __init__(self, pid, project, tier="quick"):
        self.pid, self.p, self.tier = pid, project, tier
        self.closed = False
        self.findings = []
        self.undecided = []
        self.obligations = []
        self.functions = {}
        self.misfits = set()
        self.assumptions = []
        self.stats = {}
        self.strict = bool(os.environ.get("CEMLINT_STRICT"))
        self.t0 = time.time()

    # -- anchors
    def func(self, qual):
        r = self.p.find(qual)
        if r is None or r[0] not in ("func", "method", "property", "getter"):
            raise Broken("public function %s not found" % qual)
        return r[1]

    def cls(self, qual):
        r = self.p.find(qual)
        if r is None or r[0] != "class":
            raise Broken("public class %s not found" % qual)
        return r[1]

    def obj(self, name, qual, **info):
        return sym(name, cls=self.cls(qual), kind="obj", **info)

    def array(self, name):
        """an array passed in: a container whose contents are symbolic"""
        r = sym("&" + name)
        syminfo[r] = dict(ref=True, init=sym(name, kind="list", elemkind="num"), pykind="array", kind=None)
        return r

    def topology(self, name="topology"):
        return self.obj(name, TOPO)

    def form(self, name="form"):
        return self.obj(name, FORM)

    # -- results
    def ok(self, name, where=None, detail=None):
        self.obligations.append((name, "ok", where, detail))

    def fail(self, rule, func, construct, text, where=None):
        w = where or (func.where() if isinstance(func, Func) else str(func))
        self.obligations.append((rule, "violated", w, text))
        self.findings.append(Finding(rule, w, construct, text))

    def skip(self, rule, func, text):
        w = func.where() if isinstance(func, Func) else str(func)
        self.obligations.append((rule, "undecided", w, text))
        self.undecided.append((rule, w, text))

    # -- runs
    def run(self, fo, args, kw=None, opaque=(), state=None, spec=False, cut=False, override=None, watch=()):
        I = Interp(self.p, opaque=opaque, cut=cut, override=override)
        if watch:
            I.try_stack.append(list(watch))
        r = I.run(fo, args, kw, state)
        if not spec:
            for q, f in list(I.visited.items()) + [(fo.qual, fo)]:
                if not q.startswith("spec."):
                    self.functions[q] = f
        for where, q, text in I.misfits:
            if (where, q) not in self.misfits:
                self.misfits.add((where, q))
                self.fail("calls fit the signatures of the functions called", where, q, "a call passes %s to %s, which does not accept that" % (text, q))
        return r

    def judge(self, rule, fo, code, spec, notes=(), construct=None, extra_doubts=()):
        """compare two terms; record the outcome"""
        construct = construct or fo.qual
        if code is spec:
            self.ok(rule, fo.where())
            return True
        if not code.unk and not spec.unk:
            if flat(code) is flat(spec) or flat(signs(code)) is flat(signs(spec)):
                self.ok(rule, fo.where())
                return True
            if by_values(code, spec) or by_class(code, spec, self.closed):
                self.ok(rule, fo.where())
                return True
        ds = list(extra_doubts) + doubts(code, spec) + [n for n in notes]
        path, a, b = locate(code, spec)
        text = "computes  %s\n      where the property requires  %s" % (pretty(a, LONG[0])[:LONG[1]], pretty(b, LONG[0])[:LONG[1]])
        if path:
            text = "in %s: " % " / ".join(path) + text
        if ds and not notes and not extra_doubts:
            pair = certain_case(code, spec)
            if pair is not None:
                cond, a, b = pair
                path, a, b = locate(a, b)
                text = "where %s: %scomputes  %s\n      where the property requires  %s" % (pretty(cond, 8)[:300], "in %s: " % " / ".join(path) if path else "", pretty(a, LONG[0])[:LONG[1]], pretty(b, LONG[0])[:LONG[1]])
                ds = []
        if ds and not notes and not extra_doubts and tm.total_nodes(code) and tm.total_nodes(spec):
            # values kept per node are compared at one node that can be any
            node = tm.fresh("node", kind="node")
            a, b = tm.rd(code, node), tm.rd(spec, node)
            if a is b:
                self.ok(rule, fo.where())
                return True
            if not doubts(a, b):
                text = "for a node: computes  %s\n      where the property requires  %s" % (pretty(a, LONG[0])[:LONG[1]], pretty(b, LONG[0])[:LONG[1]])
                ds = []
        if ds and not notes and not extra_doubts:
            lost = ignored(code, spec)
            if lost:
                text = "does not depend on %s; %s" % (", ".join(sorted(pretty(x, 4) for x in lost)[:3]), text)
                ds = []
        if ds:
            self.skip(rule, fo, "no verdict (%s); %s" % ("; ".join(str(d) for d in ds[:4]), text))
            return None
        self.fail(rule, fo, construct, text)
        return False

    def same(self, qual, spec_qual, args, kw=None, value=True, raises=None, post=(), rule=None, opaque=(), state=None, assume=None, view=None, override=None, anchor=None, effects=False, unless=()):
        """the repository function and the reference agree on value, failures and final state

        anchor: the repository function to report, when qual is a harness calling it"""
        rule = rule or qual.split(":")[1]
        with self.guard(rule, anchor or qual):
            try:
                return self._same(self.func(qual), spec_qual, args, kw or {}, value, raises, post, rule, opaque, state, assume, view, override, self.func(anchor) if anchor else None, effects, unless)
            finally:
                self.closed = False

    def guard(self, rule, where):
        """whatever goes wrong inside ends as an undecided obligation, not as a crash"""
        return Guard(self, rule, where)

    def _same(self, fo, spec_qual, args, kw, value, raises, post, rule, opaque, state, assume, view, override, anchor=None, effects=False, unless=()):
        so = self.func(spec_qual)
        try:
            # a failing look-up counts as much as an error raised in so many words
            watch = [e for e in raises or () if e == "KeyError"]
            rc = self.run(fo, args, kw, opaque=opaque, state=state() if state else None, override=override, watch=watch)
            rs = self.run(so, args, kw, opaque=opaque, state=state() if state else None, spec=True, override=override, watch=watch)
        except Abort as e:
            self.skip(rule, fo, "analysis gave up: %s" % e)
            return None
        if anchor is not None:
            fo = anchor
        notes = ["%s" % (n,) for n in rc.interp.notes]
        snotes = rs.interp.notes
        if snotes:
            raise Broken("reference %s not analysable: %s" % (spec_qual, snotes[:3]))
        oks = []
        view = view or (lambda t: t)
        fine = TRUE
        for exc in raises or ():
            for r in (rc, rs):
                fine = tm.And(fine, Not(r.interp.pure(r.raise_cond(exc), r.state)))

        def care(c, s):
            """values matter where neither fails in a way that is compared separately"""
            if assume is not None:
                c, s = assumed(assume, c, s)
            if c is not s and fine is not TRUE and fine is not FALSE and not c.unk:
                c, s = tm.constrain(c, fine), tm.constrain(s, fine)
            return c, s
        if value:
            c, s = care(view(rc.reified()), view(rs.reified()))
            oks.append(self.judge(rule + ": result", fo, c, s, notes))
        if raises:
            for exc in raises:
                c, s = rc.raise_cond(exc), rs.raise_cond(exc)
                c, s = rc.interp.pure(c, rc.state), rs.interp.pure(s, rs.state)
                if assume is not None:
                    c, s = assumed(assume, c, s)
                oks.append(self.judge(rule + ": raises %s" % (exc or "an error"), fo, c, s, notes))
        if effects:
            oks.append(self.judge(rule + ": calls made", fo, rc.interp.reify(rc.effects(), rc.state), rs.interp.reify(rs.effects(), rs.state), notes))
        self.closed = "TypeError" in (raises or ())
        for loc in unless:
            # locations a failing call leaves alone
            kept = rc.interp.default(loc)
            for c, exc, s in rc.raises:
                v = rc.interp.get(s, loc)
                if v is not kept and rc.interp.pure(c, s) is not FALSE:
                    pv = rc.interp.reify(v, s)
                    if pv.unk or notes:
                        self.skip(rule + ": %s when it fails" % (loc[-1],), fo, "value not tracked")
                    else:
                        self.fail(rule + ": %s when it fails" % (loc[-1],), fo, fo.qual, "already replaced by %s when the call fails" % pretty(pv, 8)[:300])
                    oks.append(None)
                    break
            else:
                self.ok(rule + ": %s when it fails" % (loc[-1],), fo.where())
        for o in post:
            if rc.interp.is_ref(o):
                c, s = rc.interp.reify(o, rc.state), rs.interp.reify(o, rs.state)
                if assume is not None:
                    c, s = assumed(assume, c, s)
                oks.append(self.judge(rule + ": leaves contents of %s" % o.a[0].lstrip("&"), fo, c, s, notes))
                continue
            pc, ps = post_state(rc, o), post_state(rs, o)
            for loc in sorted(set(pc) | set(ps), key=repr):
                c = pc.get(loc)
                s = ps.get(loc)
                if c is None:
                    c = loc_default(rc, o, loc)
                if s is None:
                    s = loc_default(rs, o, loc)
                c, s = care(c, s)
                oks.append(self.judge(rule + ": leaves %s" % loc_name(o, loc), fo, c, s, notes))
        return all(x is True for x in oks)


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


class Guard(object):
    LIMIT = 150

    def __init__(self, ck, rule, where):
        self.ck, self.rule, self.where = ck, rule, where

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.LIMIT)
        return self

    def __exit__(self, et, e, tb):
        signal.alarm(0)
        if et is None or not issubclass(et, Exception):
            return False
        if isinstance(e, Timeout):
            text = "analysis exceeded its time limit"
        elif isinstance(e, (Abort, Broken)):
            text = "analysis gave up: %s" % e
        else:
            text = "analysis failed: %s: %s (%s)" % (et.__name__, e, " < ".join("%s:%d" % (f.name, f.lineno) for f in traceback.extract_tb(tb)[-3:]))
        if self.ck.strict:
            raise
        if isinstance(e, Lacking):
            where = self.ck.func(self.where) if isinstance(self.where, str) and ":" in self.where else self.where
            self.ck.fail(self.rule, where, str(self.where), str(e))
            return True
        self.ck.skip(self.rule, self.where, text)
        return True


LOCN = {"f": "attribute %s", "na": "node attribute %s", "ea": "edge attribute %s", "A": "diagram attribute %s",
        "N": "nodes%s", "E": "edges%s", "x": "state %s", "dyn": "content%s"}


def loc_name(o, loc):
    return pretty(o) + " " + LOCN[loc[0]] % (loc[1],)


def full_loc(o, loc):
    return (loc[0], o, loc[1]) if loc[1] != "" else (loc[0], o)


def loc_default(r, o, loc):
    v = r.interp.default(full_loc(o, loc))
    return r.interp.reify(v, State())


def post_state(r, o):
    """changed locations of object o: {(kind, name): term}"""
    out = {}
    for loc, v in r.state.store.items():
        if len(loc) > 1 and loc[1] is o and loc[0] in LOCN:
            key = (loc[0], loc[2] if len(loc) > 2 else "")
            pv = r.interp.reify(v, r.state)
            if pv is loc_default(r, o, key) or v is tm.UNDEF and loc[0] not in ("f", "A"):
                continue
            out[key] = pv
    # contents of input containers reached from the object
    for loc, v in r.state.store.items():
        if loc[0] == "c":
            init = syminfo.get(loc[1], {}).get("init")
            if init is not None and init is not tm.UNDEF and init.op in ("attr", "fld") and init.a[0] is o:
                pv = r.interp.reify(v, r.state)
                if pv is not init:
                    out.setdefault(("A" if init.op == "attr" else "f", init.a[1]), pv)
    return out


# ---------------------------------------------------------------- confidence in a difference
CERTAIN_FN = {"max", "min", "str", "fmt", "inv0", "pow", "geokey", "geometric_key", "listed", "distinct", "apply", "did:build_trails", "did:add_edge", "did:add_load", "did:add_support", "call:nlopt_status", "nlopt.last_optimize_result", "compas.geometry.closest_point_on_segment", "nearest",
              # these change values on purpose
              "round", "np.clip", "np.nan_to_num", "np.round", "np.around", "np.floor", "np.ceil", "np.rint", "np.trunc"}


def free(x):
    """a test of what an arbitrary function returned"""
    while x.op in ("truthy", "fn") and (x.op == "truthy" or x.a[0] in ("isnan", "np.any", "np.all")):
        x = x.a[-1]
    return x.op == "fn" and x.a[0] == "apply"


def kept(x):
    """entries added to a table that was there before, by a table that does not depend on it: old entries may remain"""
    m, o = x.a[1], x.a[2]
    inner = set(tm.subterms(m))
    return not m.unk and not any(y.op in ("fn", "m", "loop", "put", "emptymap", "bv", "ite") for y in inner) and m not in set(tm.subterms(o))


def heads(t):
    out = set()
    for x in tm.subterms(t):
        if x.op == "fn" and free(x):
            continue
        if x.op == "fn" and x.a[0] == "dict.update" and kept(x):
            continue
        if x.op == "fn" and x.a[0] == "cmp" and any(y.op == "const" for y in x.a[1:]):
            # the order of a text among others
            continue
        if x.op in ("fn", "m"):
            out.add((x.op, x.a[0]))
        elif x.op == "poly":
            out |= {("ext", y.a[0]) for m in tm._terms(x) for y, e in m if y.op == "ext"}
        elif x.op in ("xobj", "badop"):
            out.add((x.op, x.a[0] if x.a and not isinstance(x.a[0], T) else ""))
    return out


def part_copy(l):
    """the entries of an input table that pass a test, copied into a new one: the table itself only if all pass"""
    d = l.a[0]
    if d.op != "keys" or tuple(l.a[2]) != (tm.EMPTYMAP,):
        return False
    m, n = d.a[0], l.a[3][0] if isinstance(l.a[3], tuple) else l.a[3]
    if any(y.op in ("fn", "m", "loop", "put", "bv", "ite") for y in tm.subterms(m)) or n.op != "ite":
        return False
    puts = [y for y in n.a[1:] if y.op == "put"]
    return len(puts) == 1 and len([y for y in n.a[1:] if y.op == "bv"]) == 1 and len(puts[0].a[2].a) == 2 and tuple(puts[0].a[2].a) == (m, puts[0].a[1])


def loops_of(t):
    out = {}
    for x in tm.subterms(t):
        if x.op == "loop":
            d = x.a[0]
            if part_copy(x):
                continue
            # an open recurrence is comparable with one that starts from the same values (others may come from a loop around it)
            k = d.op if d is not tm.NONE else "while from %s" % ", ".join(sorted(pretty(i, 6) for i in x.a[2] if i.op != "bv" or i.a[1] < 2))
            out[k] = out.get(k, 0) + 1
    return out


def doubts(code, spec, loops=True):
    """reasons why two different normal forms might still denote the same value"""
    out = []
    if code.unk:
        whys = sorted({str(x.a[0]) for x in tm.subterms(code) if x.op == "unk"})
        out.append("value not tracked: %s" % ", ".join(whys[:3]))
    if spec.unk:
        out.append("reference value not tracked")
    new = {h for h in heads(code) - heads(spec) if h[1] not in CERTAIN_FN}
    if new:
        out.append("operations without a model: %s" % ", ".join(sorted("%s" % (h[1],) for h in new)[:4]))
    lc, ls = loops_of(code), loops_of(spec)
    if loops and set(lc) != set(ls) and (lc or any(x.op == "bv" for x in tm.subterms(code))):
        out.append("loops not comparable: %s against %s" % (sorted(lc.items()), sorted(ls.items())))
    for x in tm.subterms(code):
        if x.op in ("dynmap", "dyn", "dyn0") and not any(y.op == x.op for y in tm.subterms(spec)):
            out.append("attribute names not known")
            break
    split = components(code) - components(spec)
    if split:
        out.append("vector taken apart into components: %s" % pretty(min(split, key=lambda x: x.id), 4)[:80])
    return out


def ignored(code, spec):
    """inputs the required value depends on and the computed value does not mention (a value cannot follow an input it is not made from, whatever its operations are)"""
    if code.unk or spec.unk or any(x.op in ("dyn", "dyn0", "dynmap", "xmeth", "extmeth") for x in tm.subterms(code)):
        return set()
    inputs = [{x for x in tm.subterms(t) if x.op == "sym"} for t in (code, spec)]
    if any("#" in str(x.a[0]) for x in inputs[0]):
        return set()
    return {x for x in inputs[1] - inputs[0] if "#" not in str(x.a[0]) and not str(x.a[0]).startswith("in:") and not syminfo.get(x, {}).get("ref")}


CASES = 200


def certain_case(code, spec):
    """(condition, value, required value) of one case in which the two differ for certain, though they are not comparable in others"""
    atoms_ok = {}

    def usable(v):
        r = atoms_ok.get(v)
        if r is None:
            r = atoms_ok[v] = not v.unk and not (loops_of(v) and not any(x is v for x in tm.subterms(spec))) and not doubts(v, spec, loops=False)
        return r
    budget = [CASES]

    def go(c, s, cond):
        if c is s or budget[0] <= 0:
            return None
        budget[0] -= 1
        tops = [x for x in (tm._top(c) if c.op == "ite" or tm.is_bool_atom(c) else None, tm._top(s) if s.op == "ite" or tm.is_bool_atom(s) else None) if x is not None]
        if not tops:
            return (cond, c, s) if cond is not TRUE and not doubts(c, s) else None
        v = min(tops, key=lambda x: x.id)
        if not usable(v):
            return None
        for pol in (True, False):
            r = go(tm.cofactor(c, v, pol), tm.cofactor(s, v, pol), tm.And(cond, v if pol else Not(v)))
            if r is not None:
                return r
        return None
    return go(code, spec, TRUE)


def components(t):
    """vectors of which single components are used"""
    return {x.a[0] for x in tm.subterms(t) if x.op == "idx" and x.a[1].op == "num" and tm.kind(x.a[0]) == "vec"}


# ---------------------------------------------------------------- localisation (for reports only)
def locate(a, b, path=(), depth=0):
    """smallest differing pair of subterms reached by a parallel walk"""
    if depth > 60 or a is b or not isinstance(a, T) or not isinstance(b, T):
        return path, a, b
    if a.op == "ite" and b.op == "ite" and a.a[0] is b.a[0]:
        if a.a[1] is b.a[1]:
            return locate(a.a[2], b.a[2], path, depth + 1)
        if a.a[2] is b.a[2]:
            return locate(a.a[1], b.a[1], path, depth + 1)
        return locate(a.a[1], b.a[1], path, depth + 1)
    if a.op != b.op or len(a.a) != len(b.a):
        return path, a, b
    if a.op in ("sym", "const", "num", "bv", "poly"):
        return path, a, b
    flat_a, flat_b = [], []
    for x, y in zip(a.a, b.a):
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            flat_a.extend(x)
            flat_b.extend(y)
        else:
            flat_a.append(x)
            flat_b.append(y)
    diff = [(x, y) for x, y in zip(flat_a, flat_b) if x is not y and (isinstance(x, T) or x != y)]
    if len(diff) == 1 and isinstance(diff[0][0], T) and isinstance(diff[0][1], T):
        lab = {"put": "write", "fmap": "list", "sum": "sum", "exists": "condition over a collection", "loop": "loop"}.get(a.op)
        return locate(diff[0][0], diff[0][1], path + ((lab,) if lab and (not path or path[-1] != lab) else ()), depth + 1)
    return path, a, b
