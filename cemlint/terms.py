"""Hash-consed value terms with smart constructors (the abstract domain of the value-flow analysis).

Terms denote the values a variable, attribute or result can hold, as a function of the inputs of the analysed
function.  Constructors normalise: numbers to polynomials, booleans and gated values to ordered decision diagrams,
lists to concatenations / flat-maps, dictionaries and attributes to maps with writes, loops to sums, flat-maps or
canonical recurrences.  Two terms are congruent iff they are the same object.
"""
from fractions import Fraction
import itertools
import sys

sys.setrecursionlimit(20000)

_table = {}
_counter = itertools.count()
_fresh = itertools.count()

EMPTY = frozenset()


class T(object):
    __slots__ = ("op", "a", "id", "fs", "h", "unk")

    def __repr__(self):
        return pretty(self)


def _scan(x, fs, hh, uu):
    if isinstance(x, T):
        if x.fs:
            fs.append(x.fs)
        if x.h > hh[0]:
            hh[0] = x.h
        if x.unk:
            uu[0] = True
    elif isinstance(x, tuple):
        for y in x:
            _scan(y, fs, hh, uu)


def mk(op, *a):
    key = (op, a)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.id = next(_counter)
    fs = []
    hh = [0]
    uu = [op == "unk"]
    for x in a:
        _scan(x, fs, hh, uu)
    if op == "sym":
        t.fs = frozenset((t,))
    else:
        t.fs = frozenset().union(*fs) if fs else EMPTY
    if op == "bv":
        hh[0] = max(hh[0], a[0])
    t.h = hh[0]
    t.unk = uu[0]
    _table[key] = t
    return t


# ---------------------------------------------------------------- symbols
syminfo = {}


def sym(name, **info):
    t = mk("sym", name)
    if info:
        syminfo.setdefault(t, {}).update(info)
    return t


def fresh(prefix, **info):
    return sym("%s#%d" % (prefix, next(_fresh)), **info)


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, Fraction)):
        return num(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("const", "float", repr(v))
        return num(Fraction(repr(v)))
    return mk("const", type(v).__name__, v)


def num(v):
    return mk("num", Fraction(v))


TRUE = mk("const", "bool", True)
FALSE = mk("const", "bool", False)
NONE = mk("const", "NoneType", None)
ZERO = num(0)
ONE = num(1)
UNDEF = mk("const", "undef", None)
NIL = mk("seq")


def is_const(t):
    return t.op in ("const", "num")


def unk(why, *args):
    return mk("unk", why, *args)


# ---------------------------------------------------------------- decision diagrams
# gated values: ("ite", atom, hi, lo), atom of boolean kind, ordered by atom id
_ite_memo = {}
_cof_memo = {}


def cofactor(t, atom, val):
    """Value of t when the atom is val (only looks at the gating structure)."""
    if t.op != "ite":
        if t is atom:
            return TRUE if val else FALSE
        return t
    key = (t.id, atom.id, val)
    r = _cof_memo.get(key)
    if r is not None:
        return r
    c, hi, lo = t.a
    if c is atom:
        r = hi if val else lo
    elif c.id > atom.id and atom.id not in _atoms_ids(t):
        r = t
    else:
        r = _node(c, cofactor(hi, atom, val), cofactor(lo, atom, val))
    _cof_memo[key] = r
    return r


_atoms_memo = {}


def atoms(t):
    """Atoms of the gating structure of t (booleans: their atoms)."""
    r = _atoms_memo.get(t.id)
    if r is None:
        if t.op == "ite":
            r = frozenset((t.a[0],)) | atoms(t.a[1]) | atoms(t.a[2])
        elif is_bool_atom(t):
            r = frozenset((t,))
        else:
            r = EMPTY
        _atoms_memo[t.id] = r
    return r


def _atoms_ids(t):
    return {x.id for x in atoms(t)}


BOOL_OPS = {"lt0", "eq0", "eq", "in", "has", "truthy", "isnone", "isinst", "exists", "lbroke", "raises"}


def is_bool_atom(t):
    return t.op in BOOL_OPS


def _top(t):
    if t.op == "ite":
        return t.a[0]
    if is_bool_atom(t):
        return t
    return None


def _node(atom, hi, lo):
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return atom
    if atom.op == "truthy" and not (hi.op == "const" and lo.op == "const"):
        # branch already covered by the empty collection
        d = atom.a[0]
        if is_collection(d) and (occurs(d, hi) or occurs(d, lo)):
            try:
                e = replace(hi, {d: NIL})
                l2 = replace(lo, {d: NIL})
            except RecursionError:
                e = l2 = None
            if e is not None and e is l2 and (e is lo or l2 is not lo):
                return hi
    if atom.op == "exists" and not (is_const(hi) and is_const(lo)):
        lo = _none_such(atom, lo)
        if hi is lo or _none_such(atom, hi) is lo:
            return hi
    if atom.op == "exists":
        nxt = lo if lo.op == "exists" and hi is TRUE else lo.a[0] if lo.op == "ite" and lo.a[1] is hi else None
        if nxt is not None and nxt.op == "exists" and nxt.a[0] is atom.a[0]:
            # any(a) or any(b) over one domain
            e, p, _, (c1, c2) = open_two(atom, nxt)
            return ite(exists(atom.a[0], e, p, Or(c1, c2)), hi, FALSE if lo is nxt else lo.a[2])
    if hi.op == "put" and lo.op == "put" and hi.a[0] is lo.a[0] and hi.a[1] is lo.a[1]:
        return mk("put", hi.a[0], hi.a[1], ite(atom, hi.a[2], lo.a[2]))
    if atom.op in ("eq0", "lt0", "eq", "isinst"):
        # what cannot hold together with the atom
        for x in _excluded(atom, hi):
            hi = cofactor(hi, x, False)
        if hi is lo:
            return hi
        ex = _excluded(atom, lo)
        if ex:
            l2 = lo
            for x in ex:
                l2 = cofactor(l2, x, False)
            if l2 is hi:
                return lo
        if hi is TRUE and lo is FALSE:
            return atom
    if atom.op in ("eq",):
        a, b = atom.a
        # when a == b both branches agree -> no gate needed
        if hi.op != "const" or lo.op != "const":
            src, dst = (a, b) if not is_const(a) else (b, a)
            if src.op == "sym" and hi.h == 0 and lo.h == 0 and (src in hi.fs or src in lo.fs):
                l2 = replace(lo, {src: dst})
                if l2 is replace(hi, {src: dst}) and src in hi.fs | lo.fs:
                    return lo
    return mk("ite", atom, hi, lo)


_PLAIN = ("builtins.int", "builtins.float", "builtins.str", "builtins.dict", "builtins.list", "builtins.tuple", "builtins.set")
apart = [lambda a, b: False]     # whether two classes of the analysed project have no instance in common


def _excluded(atom, t):
    if t.op != "ite" and not is_bool_atom(t):
        return ()
    if atom.op == "isinst":
        o, q = atom.a
        return [x for x in atoms(t) if x.op == "isinst" and x is not atom and x.a[0] is o
                and (x.a[1] in _PLAIN and q in _PLAIN or apart[0](q, x.a[1]))]
    if atom.op == "eq":
        a, b = atom.a
        if not is_const(a):
            a, b = b, a
        if not is_const(a):
            return ()
        out = []
        for x in atoms(t):
            if x.op == "eq" and x is not atom:
                c, d = x.a
                if c is b and is_const(d) or d is b and is_const(c):
                    out.append(x)
        return out
    p, other = atom.a[0], "lt0" if atom.op == "eq0" else "eq0"
    if atom.op == "eq0":
        return [x for x in atoms(t) if x is not atom and (x.op == "lt0" and x.a[0] is p or x.op == "eq0" and sub(x.a[0], p).op == "num")]
    return [x for x in atoms(t) if x.op == other and x.a[0] is p]


_none_memo = {}


def _none_such(atom, t):
    """t when no element of the domain of the `exists` atom satisfies its condition: the sums, concatenations and
    searches over those elements are empty."""
    dom = atom.a[0]
    if dom not in _doms(t):
        return t
    key = (atom.id, t.id)
    r = _none_memo.get(key)
    if r is not None:
        return r
    m = {}
    for x in subterms(t):
        if x.op in ("sum", "fmap", "exists") and x.a[0] is dom and x is not atom:
            e, p, _, (c, b) = open_two(atom, x)
            if x.op == "exists":
                if And(b, Not(c)) is FALSE:
                    m[x] = FALSE
            else:
                zero = ZERO if x.op == "sum" else NIL
                if ite(c, zero, b) is zero:
                    m[x] = zero
    r = replace(t, m) if m else t
    _none_memo[key] = r
    return r


def open_two(a, b):
    """bodies of two binders over one domain, opened with the same symbols"""
    dom = a.a[0]
    e, p, _, (x,) = open_parts(a.a[1], [a.a[2]], dom)
    y = subst(b.a[2], {bv(b.a[1], 0): e, bv(b.a[1], 1): p}, raw=True)
    return e, p, None, (x, y)


_occ_memo = {}


def occurs(d, t):
    """d is a subterm of t"""
    if not d.fs <= t.fs:
        return False
    memo = _occ_memo.setdefault(d.id, {})

    def inn(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return any(inn(z) for z in y)
        return False

    def go(x):
        if x is d:
            return True
        r = memo.get(x.id)
        if r is None:
            r = d.fs <= x.fs and x.id > d.id and any(inn(y) for y in x.a)
            memo[x.id] = r
        return r
    return go(t)


_doms_memo = {}


def _doms(t):
    """domains of the sums, flat-maps and searches anywhere in t"""
    r = _doms_memo.get(t.id)
    if r is None:
        out = set()
        for y in t.a:
            _doms_in(y, out)
        if t.op in ("sum", "fmap", "exists"):
            out.add(t.a[0])
        r = frozenset(out)
        _doms_memo[t.id] = r
    return r


def _doms_in(y, out):
    if isinstance(y, T):
        out |= _doms(y)
    elif isinstance(y, tuple):
        for z in y:
            _doms_in(z, out)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.unk and c.op == "unk":
        return mk("ite", mk("truthy", c), a, b)
    key = (c.id, a.id, b.id)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    assert c.op == "ite" or is_bool_atom(c), ("non boolean gate", c)
    tops = [x for x in (_top(c), _top(a), _top(b)) if x is not None]
    v = min(tops, key=lambda x: x.id)
    r = _node(v,
              ite(cofactor(c, v, True), cofactor(a, v, True), cofactor(b, v, True)),
              ite(cofactor(c, v, False), cofactor(a, v, False), cofactor(b, v, False)))
    _ite_memo[key] = r
    return r


def Not(c):
    return ite(c, FALSE, TRUE)


def And(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def Or(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def constrain(f, c):
    """f on the care set c (generalised cofactor)."""
    if c is TRUE or c is FALSE:
        return f
    if f.op not in ("ite", "put") and not is_bool_atom(f):
        return f
    memo = {}

    def go(f, c):
        if f.op == "put" and c is not TRUE and c is not FALSE:
            v = go(f.a[2], c)
            return f if v is f.a[2] else mk("put", f.a[0], f.a[1], v)
        if c is TRUE or c is FALSE or (f.op != "ite" and not is_bool_atom(f)):
            return f
        key = (f.id, c.id)
        r = memo.get(key)
        if r is not None:
            return r
        tops = [x for x in (_top(c), _top(f)) if x is not None]
        v = min(tops, key=lambda x: x.id)
        c1, c0 = cofactor(c, v, True), cofactor(c, v, False)
        f1, f0 = cofactor(f, v, True), cofactor(f, v, False)
        if c1 is FALSE:
            r = go(f0, c0)
        elif c0 is FALSE:
            r = go(f1, c1)
        else:
            r = _node(v, go(f1, c1), go(f0, c0))
        memo[key] = r
        return r
    return go(f, c)


def lift(fn, args):
    """Apply fn to args with the gates of the args lifted outside."""
    tops = [x.a[0] for x in args if isinstance(x, T) and x.op == "ite"]
    if not tops:
        return fn(*args)
    v = min(tops, key=lambda x: x.id)
    hi = [cofactor(x, v, True) if isinstance(x, T) and x.op == "ite" else x for x in args]
    lo = [cofactor(x, v, False) if isinstance(x, T) and x.op == "ite" else x for x in args]
    # subterms equal to the atom itself also take its value
    return ite(v, lift(fn, hi), lift(fn, lo))


def leaves(t):
    """Set of non gated leaves of t."""
    out = []
    seen = set()

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.op == "ite":
            go(x.a[1])
            go(x.a[2])
        else:
            out.append(x)
    go(t)
    return out


def map_leaves(t, fn):
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            if x.op == "ite":
                r = ite(x.a[0], go(x.a[1]), go(x.a[2]))
            else:
                r = fn(x)
            memo[x.id] = r
        return r
    return go(t)


# ---------------------------------------------------------------- kinds
def kind(t):
    op = t.op
    if op == "num":
        return "nat" if t.a[0].denominator == 1 and t.a[0] >= 0 else "num"
    if op == "poly":
        ks = set()
        for mono, c in t.a[0]:
            if c.denominator != 1:
                ks.add("num")
            for at, e in mono:
                ks.add(kind(at) if e > 0 else "num")
        if "vec" in ks:
            return "vec"
        if ks <= {"nat", "int"}:
            return "int"
        return "num"
    if op == "sym":
        return syminfo.get(t, {}).get("kind")
    if op == "const":
        return {"str": "str", "bool": "bool", "NoneType": "none"}.get(t.a[0])
    if op == "floor":
        return "int"
    if op == "fmt" or op == "fn" and t.a[0] in ("str", "repr", "format", "str.join", "str.format", "percent"):
        return "str"
    if op in ("idx", "rd") and isinstance(t.a[1], T) and t.a[1].op == "num" and t.a[0].op == "sym" and kind(t.a[0]) == "edge":
        return "node"
    if op in ("idx", "rd") and isinstance(t.a[1], T) and t.a[1].op == "num" and t.a[0].op == "rd" and t.a[0].a[0].op == "ea" and t.a[0].a[0].a[-1] == "plane":
        return "vec"
    if op in ("attr", "fld"):
        return MAP_FIELDS.get(t.a[1])
    if op in ("len", "firstpos", "lpos"):
        return "nat"
    if op in ("norm", "dot", "copysign", "abs", "sum"):
        return kind(t.a[-1]) if op == "sum" and kind(t.a[-1]) == "vec" else "num"
    if op in ("seq",):
        return "list"
    if op in ("cat", "fmap", "reversed", "nodes", "edges", "neighbors", "conn_edges", "keys", "rangen", "sorted", "slice", "upto"):
        return "list"
    if op in ("unit", "cross"):
        return "vec"
    if op == "newnode":
        return "node"
    if op in ("put", "emptymap"):
        return "map"
    if op == "bv":
        return None
    if op in ("firstel", "lel", "lastel"):
        d = t.a[0]
        if op == "lel":
            d = d.a[0]
        return elemkind(d)
    if op == "idx":
        return "num" if kind(t.a[0]) == "vec" else elemkind(t.a[0])
    if op == "rd":
        return valkind(t.a[0])
    if op in ("lend", "lmu", "liter"):
        loop, j = t.a
        return kind(loop.a[2][j])
    if op == "ite":
        ks = {kind(x) for x in leaves(t)}
        return ks.pop() if len(ks) == 1 else None
    if op == "obj":
        return "obj"
    if op == "m" and t.a[0] == "to_compas" and str(t.a[1]).startswith(("compas_rhino.geometry.RhinoPoint.", "compas_rhino.geometry.RhinoVector.")):
        return "vec"
    if op in BOOL_OPS:
        return "bool"
    return None


MAP_FIELDS = {"_trails": "map", "_auxiliary_trails": "map", "gkey_node": "map", "parameters": "map", "constraints": "map", "attributes": "map"}


def valkind(m):
    """kind of the values of map m."""
    if m.op == "na" and m.a[1] in ("x", "y", "z", "qx", "qy", "qz", "rx", "ry", "rz"):
        return "num"
    if m.op == "na" and m.a[1] == "_k":
        return "optnat"
    if m.op == "ea" and m.a[1] in ("length", "force"):
        return "num"
    if m.op == "ea" and m.a[1] == "plane":
        return "opt"
    if m.op in ("na", "ea") and m.a[1] == "type":
        return "type"
    if m.op == "sym":
        return syminfo.get(m, {}).get("valkind")
    if m.op == "put":
        return _storedkind(m.a[2])
    if m.op in ("lend", "lmu", "liter"):
        loop, j = m.a
        up = loop.a[3][j]
        for lf in leaves(up):
            if lf.op == "put":
                return kind_open(lf.a[2], loop)
        return valkind(loop.a[2][j])
    if m.op == "attr" and m.a[1] == "_trails":
        return "trail"
    if m.op == "attr" and m.a[1] == "gkey_node":
        return "node"
    if m.op == "rd" and valkind(m.a[0]) == "trail":
        return "node"
    return None


def _storedkind(v):
    if v.op == "seq" and len(v.a) == 3 and all(kind(x) in ("num", "nat", "int") for x in v.a):
        return "vec"
    return kind(v)


NUMERIC = ("nat", "int", "num")


def kinds_agree(a, b):
    """values of these kinds may follow one another in a variable without being told apart"""
    return a == b or (a in NUMERIC and b in NUMERIC) or "none" not in (a, b)


def kind_open(t, loop):
    # kind of a term inside a closed loop body
    if t.op == "bv":
        if t.a[1] == 0:
            return elemkind(loop.a[0])
        if t.a[1] == 1:
            return "nat"
    return _storedkind(t)


def elemkind(d):
    if d.op == "nodes":
        return "node"
    if d.op in ("edges", "conn_edges"):
        return "edge"
    if d.op == "neighbors":
        return "node"
    if d.op in ("reversed", "sorted", "slice", "upto"):
        return elemkind(d.a[0])
    if d.op == "rangen":
        return "nat"
    if d.op == "rd" and valkind(d.a[0]) == "trail":
        return "node"
    if d.op == "fmap":
        b = d.a[2]
        for lf in leaves(b):
            if lf.op == "seq" and len(lf.a) == 1:
                it = lf.a[0]
                if it.op == "bv":
                    return elemkind(d.a[0]) if it.a[1] == 0 else "nat"
                return kind(it)
        ks = {elemkind(lf) for lf in leaves(b) if lf is not NIL}
        return ks.pop() if len(ks) == 1 else None
    if d.op == "cat":
        ks = {elemkind(x) for x in d.a}
        return ks.pop() if len(ks) == 1 else None
    if d.op == "pairs":
        return "pair"
    if d.op == "sym":
        return syminfo.get(d, {}).get("elemkind")
    if d.op == "keys":
        return keykind(d.a[0])
    if d.op == "seq" and d.a:
        return kind(d.a[0])
    return None


def keykind(m):
    if m.op == "attr" and m.a[1] == "_trails":
        return "node"
    if m.op == "put":
        return kind(m.a[1])
    if m.op == "sym":
        return syminfo.get(m, {}).get("keykind")
    if m.op in ("lend", "lmu"):
        loop, j = m.a
        for lf in leaves(loop.a[3][j]):
            if lf.op == "put":
                return kind_open(lf.a[1], loop)
        return keykind(loop.a[2][j])
    return None


def is_collection(t):
    k = kind(t)
    return k in ("list", "map") or t.op in ("rd",) and k in ("trail",)


NOT_NONE = {"pair", "nat", "int", "num", "str", "bool", "list", "map", "vec", "node", "edge", "obj", "trail"}
ALWAYS_TRUE_KINDS = {"pair", "edge", "obj"}


# ---------------------------------------------------------------- arithmetic
def _terms(t):
    """t as {mono: coeff}"""
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        return dict(t.a[0])
    if t.op == "seq" and t.a and all(x is ZERO for x in t.a):
        return {}
    if t.op == "zeros":
        return {}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, 1),): Fraction(1)}


COMPONENTS = {}
for _names in (("x", "y", "z"), ("qx", "qy", "qz"), ("rx", "ry", "rz")):
    for _i, _n in enumerate(_names):
        COMPONENTS[_n] = (_i, _names)


_comp_memo = {}


def component(x):
    """(i, v) if the scalar atom x is the i-th component of the vector term v"""
    r = _comp_memo.get(x.id, 0)
    if r == 0:
        r = None
        if x.op == "idx" and x.a[1].op == "num" and x.a[1].a[0] in (0, 1, 2) and kind(x.a[0]) not in ("edge", "list") and x.a[0].op not in ("poly", "ite", "fmap"):
            r = (int(x.a[1].a[0]), x.a[0])
        elif x.op == "rd" and x.a[0].op == "na" and x.a[0].a[1] in COMPONENTS:
            i, names = COMPONENTS[x.a[0].a[1]]
            o = x.a[0].a[0]
            r = (i, mk("seq", *[mk("rd", mk("na", o, n), x.a[1]) for n in names]))
        _comp_memo[x.id] = r
    return r


def _pair(m):
    """monomial that is a product of two components of one index: (i, scalars, v, w)"""
    cs = []
    sc = []
    for x, e in m:
        c = component(x) if e in (1, 2) else None
        if c is not None:
            cs.extend([c] * e)
        else:
            sc.append((x, e))
    if len(cs) == 2 and cs[0][0] == cs[1][0]:
        return cs[0][0], tuple(sc), cs[0][1], cs[1][1]
    return None


def _group_components(d):
    """x0*y0 + x1*y1 + x2*y2 -> dot(x, y)"""
    if len(d) < 3:
        return d
    groups = {}
    for m, c in d.items():
        p = _pair(m) if m else None
        if p is not None:
            i, sc, v, w = p
            if v.id > w.id:
                v, w = w, v
            groups.setdefault((sc, v, w), {})[i] = (m, c)
    hit = [(k, g) for k, g in groups.items() if len(g) == 3 and len({c for m, c in g.values()}) == 1]
    if not hit:
        return d
    d = dict(d)
    for (sc, v, w), g in hit:
        for m, c in g.values():
            del d[m]
        mm = _mono_mul(sc, ((_dot_atom(v, w), 1),))
        d[mm] = d.get(mm, 0) + c
    return {m: c for m, c in d.items() if c}


def _poly(d):
    d = {m: c for m, c in d.items() if c}
    d = _group_components(d)
    if not d:
        return ZERO
    lits = [(m, c) for m, c in d.items() if any(x.op == "seq" and e == 1 and not _isvec(x) for x, e in m)]
    if lits and (len(lits) > 1 or lits[0][1] != 1 or len(lits[0][0]) > 1):
        # literal vectors are summed component by component
        n = {len(x.a) for m, c in lits for x, e in m if x.op == "seq" and not _isvec(x)}
        one = all(sum(1 for x, e in m if kind(x) in ("list", "vec")) == 1 for m, c in lits)
        if len(n) == 1 and one:
            items = [[] for _ in range(n.pop())]
            for m, c in lits:
                v = [x for x, e in m if x.op == "seq" and not _isvec(x)][0]
                sc = _poly({tuple(p for p in m if p[0] is not v): c})
                for i, it in enumerate(v.a):
                    items[i].append(mul(sc, it))
                del d[m]
            return add(_poly(d), seq(*[add(*x) for x in items]))
    groups = {}
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sum" and m[0][0].a[2].op == "ite":
            groups.setdefault(m[0][0].a[0], []).append((m, c))
    for dom, ms in groups.items():
        if len(ms) > 1 or abs(ms[0][1]) != 1:
            # gated sums over one domain are kept as one sum
            e, p, _, _b = open_parts(0, [], dom)
            bodies = []
            for m, c in ms:
                x = m[0][0]
                bodies.append(mul(num(c), subst(x.a[2], {bv(x.a[1], 0): e, bv(x.a[1], 1): p}, raw=True)))
                del d[m]
            return add(_poly(d), summation(dom, e, p, add(*bodies)))
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=lambda kv: [(x.id, e) for x, e in kv[0]])))


def _mono_mul(m1, m2):
    d = dict()
    for x, e in m1 + m2:
        d[x] = d.get(x, 0) + e
    # abs(x)^2 = x^2, norm(v)^2 = dot(v, v) are handled in mul
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda p: p[0].id))


def add(*ts):
    return lift(_add, ts)


def _add(*ts):
    for t in ts:
        if t.op == "const" and t.a[0] in ("NoneType", "str", "undef"):
            return mk("badop", "+") if len(ts) > 1 else t
    big = {t for t in ts if t.op == "const" and t.a[0] == "float" and t.a[1] in ("inf", "-inf")}
    if len(big) == 1:
        # what is added to infinity is finite
        return big.pop()
    d = {}
    for t in ts:
        for m, c in _terms(t).items():
            d[m] = d.get(m, 0) + c
    return _poly(d)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    return lift(_mul, ts)


def _mul(*ts):
    big = [t for t in ts if t.op == "const" and t.a[0] == "float" and t.a[1] in ("inf", "-inf")]
    if big and all(t in big or (t.op == "num" and t.a[0] != 0) for t in ts):
        sign = 1
        for t in ts:
            if t.a[1] == "-inf" if t in big else t.a[0] < 0:
                sign = -sign
        return mk("const", "float", "inf" if sign > 0 else "-inf")
    d = {(): Fraction(1)}
    for t in ts:
        n = {}
        for m1, c1 in d.items():
            for m2, c2 in _terms(t).items():
                m = _mono_mul(m1, m2)
                n[m] = n.get(m, 0) + c1 * c2
        d = n
    return _fix_squares(d)


def _fix_squares(d):
    again = False
    out = {}
    for m, c in d.items():
        parts = [(m, c)]
        for x, e in m:
            if x.op in ("abs", "norm", "sqrt") and (e >= 2 or e <= -2) and e % 2 == 0:
                rest = tuple(p for p in m if p[0] is not x)
                if x.op == "abs":
                    base = _pow(x.a[0], e)
                elif x.op == "norm":
                    base = _pow(dot(x.a[0], x.a[0]), e // 2)
                else:
                    base = _pow(x.a[0], e // 2)
                parts = None
                prod = _mul(_poly({rest: c}), base)
                for mm, cc in _terms(prod).items():
                    out[mm] = out.get(mm, 0) + cc
                break
        if parts is not None:
            out[m] = out.get(m, 0) + c
    return _poly(out)


def div(a, b):
    return lift(lambda x, y: _mul(x, _pow(y, -1)), (a, b))


def power(a, b):
    def f(a, b):
        if b.op == "num" and b.a[0].denominator == 1:
            return _pow(a, int(b.a[0]))
        if b.op == "num" and b.a[0] == Fraction(1, 2):
            return sqrt(a)
        if b.op == "num" and b.a[0] == Fraction(-1, 2):
            return _pow(sqrt(a), -1)
        return mk("fn", "pow", a, b)
    return lift(f, (a, b))


def _pow(t, n):
    if n == 0:
        return ONE
    if t.op == "num":
        if t.a[0] == 0 and n < 0:
            return mk("fn", "inv0")
        return num(t.a[0] ** n)
    if n > 0:
        r = ONE
        for _ in range(n):
            r = _mul(r, t)
        return r
    d = _terms(t)
    if not d:
        return mk("fn", "inv0")
    if len(d) == 1:
        (m, c), = d.items()
        r = _poly({tuple((x, -e) for x, e in m): 1 / c})
        return _pow(r, -n) if n != -1 else r
    # common scale out
    lead = t.a[0][0][1]
    p = _poly({m: c / lead for m, c in d.items()})
    return _poly({((p, n),): lead ** n})


def sqrt(t):
    def f(t):
        if t.op == "num" and t.a[0] >= 0:
            import math
            n, dd = t.a[0].numerator, t.a[0].denominator
            if math.isqrt(n) ** 2 == n and math.isqrt(dd) ** 2 == dd:
                return num(Fraction(math.isqrt(n), math.isqrt(dd)))
        v = _as_dot_square(t)
        if v is not None:
            return norm(v)
        return mk("sqrt", t)
    return lift(f, (t,))


def _as_dot_square(t):
    """If t is dot(v, v) expanded, give v (up to sign)."""
    d = _terms(t)
    sq = {}
    for m, c in d.items():
        if len(m) != 1 or m[0][0].op != "dot" or m[0][1] != 1:
            return None
        a, b = m[0][0].a
        if a is b:
            import math
            if c <= 0:
                return None
            n, dd = c.numerator, c.denominator
            if math.isqrt(n) ** 2 != n or math.isqrt(dd) ** 2 != dd:
                return None
            sq[a] = Fraction(math.isqrt(n), math.isqrt(dd))
    if not sq:
        return None
    # try sign assignments relative to the first
    ats = sorted(sq, key=lambda x: x.id)
    first = ats[0]
    v = {first: sq[first]}
    for x in ats[1:]:
        cross = d.get(((_dot_atom(first, x), 1),), 0)
        if cross == 0:
            return None
        v[x] = sq[x] if cross > 0 else -sq[x]
    vec = _poly({((x, 1),): c for x, c in v.items()})
    return vec if dot(vec, vec) is t else None


def _dot_atom(a, b):
    if a.id > b.id:
        a, b = b, a
    return mk("dot", a, b)


SCALAR_OPS = {"norm", "dot", "abs", "len", "sqrt", "rd", "copysign"}


def _split_scalar(m):
    """split a monomial into (scalar factors, vector atom)"""
    vec = None
    sc = []
    for x, e in m:
        k = kind(x)
        if e == 1 and vec is None and (k in ("vec", "list") or x.op in ("unit", "seq", "idxvec")):
            vec = x
        else:
            sc.append((x, e))
    if vec is None:
        cand = [i for i, (x, e) in enumerate(sc) if e == 1 and kind(x) not in ("num", "nat", "int")]
        if cand:
            vec = sc.pop(cand[0])[0]
    if vec is None and sc and sc[-1][1] == 1:
        for i in range(len(sc)):
            if sc[i][1] == 1:
                vec = sc.pop(i)[0]
                break
    return tuple(sc), vec


def _isvec(v):
    """atom usable in dot products: not a literal of unrelated scalars"""
    return v.op != "seq" or not v.a or component(v.a[0]) is not None and component(v.a[0])[1] is v


def dot(a, b):
    def f(a, b):
        if (a.op == "seq" or b.op == "seq") and not (_isvec(a) and _isvec(b)):
            n = len(a.a) if a.op == "seq" else len(b.a)
            return add(*[mul(idx(a, num(i)), idx(b, num(i))) for i in range(n)])
        da, db = _terms(a), _terms(b)
        if a is b and len(da) == 1 and any(e < 0 and x.op == "norm" for m in da for x, e in m) and all(_isvec(x) for m in da for x, e in m):
            # a vector over its length is not a number when there is no length; do not cancel
            return _dot_atom(a, a)
        out = {}
        extra = []
        for m1, c1 in da.items():
            s1, v1 = _split_scalar(m1)
            for m2, c2 in db.items():
                s2, v2 = _split_scalar(m2)
                if v1 is None or v2 is None:
                    return mk("fn", "dot", a, b)
                if not _isvec(v1) or not _isvec(v2):
                    extra.append(mul(_poly({_mono_mul(s1, s2): c1 * c2}), dot(v1, v2)))
                    continue
                m = _mono_mul(_mono_mul(s1, s2), ((_dot_atom(v1, v2), 1),))
                out[m] = out.get(m, 0) + c1 * c2
        return add(_poly(out), *extra) if extra else _poly(out)
    return lift(f, (a, b))


def _posnorm(t):
    """t up to sign: canonical representative."""
    d = _terms(t)
    if not d:
        return t
    p = _poly(d)
    if p.op == "poly":
        if p.a[0][0][1] < 0:
            return _mul(num(-1), p)
    return p


def norm(v):
    def f(v):
        d = _terms(v)
        if not d:
            return ZERO
        if v.op == "seq" and all(component(x) is None or component(x)[1] is not v for x in v.a):
            return sqrt(add(*[power(x, num(2)) for x in v.a]))
        if any(x.op == "seq" and not _isvec(x) for m in d for x, e in m):
            return sqrt(dot(v, v))
        return mk("norm", _posnorm(v))
    return lift(f, (v,))


def unit(v):
    def f(v):
        d = _terms(v)
        if not d:
            return ZERO
        p = _posnorm(v)
        if p is not _poly(d):
            return neg(mk("unit", p))
        return mk("unit", p)
    return lift(f, (v,))


def absv(t):
    def f(t):
        if t.op == "num":
            return num(abs(t.a[0]))
        if t.op in ("norm", "abs", "len"):
            return t
        return mk("abs", _posnorm(t))
    return lift(f, (t,))


def nonneg(t):
    if t.op in ("norm", "abs", "len", "sqrt"):
        return True
    if t.op == "num":
        return t.a[0] >= 0
    return kind(t) == "nat"


def copysign(m, s):
    def f(m, s):
        if m.op == "abs":
            m = m.a[0]
        if s.op == "num":
            return absv(m) if s.a[0] >= 0 else neg(absv(m))
        d = _terms(m)
        if len(d) == 1 and () in d:
            return _mul(num(abs(d[()])), mk("copysign", ONE, s))
        return mk("copysign", _posnorm(m), s)
    return lift(f, (m, s))


# ---------------------------------------------------------------- comparisons
def _intpoly(d):
    for m, c in d.items():
        if c.denominator != 1:
            return False
        for x, e in m:
            if e < 0 or kind(x) not in ("nat", "int"):
                return False
    return True


def lt(a, b):
    """a < b"""
    return lift(_lt, (a, b))


def _lt(a, b):
    if a is b:
        return FALSE
    inf = mk("const", "float", "inf")
    ninf = mk("const", "float", "-inf")
    if b is ninf or a is inf:
        return FALSE
    if a is ninf or b is inf:
        return TRUE
    if a.op == "const" or b.op == "const":
        if not (a in (TRUE, FALSE) or b in (TRUE, FALSE)):
            return mk("lt0", mk("fn", "cmp", a, b))
    d = _terms(_add(a, _mul(num(-1), b)))
    return _lt0(d)


def _lt0(d):
    if not d:
        return FALSE
    if set(d) == {()}:
        return TRUE if d[()] < 0 else FALSE
    if _intpoly(d):
        from math import gcd
        g = 0
        for m, c in d.items():
            if m != ():
                g = gcd(g, int(abs(c)))
        if g > 1:
            # sum g*x + c < 0  <=>  sum x < -c/g <=> sum x <= ceil(-c/g)-1
            c0 = d.get((), Fraction(0))
            import math
            bound = math.ceil(Fraction(-c0, g))
            d = {m: c / g for m, c in d.items() if m != ()}
            if bound:
                d[()] = Fraction(-bound)
        lead = _lead(d)
        if lead < 0:
            # p < 0  <=> not (-p-1 < 0)
            n = {m: -c for m, c in d.items()}
            n[()] = n.get((), 0) - 1
            n = {m: c for m, c in n.items() if c}
            return Not(_lt0(n)) if n else TRUE
        # nat bounds: x + c < 0 with x >= 0
        nonconst = [m for m in d if m != ()]
        if all(d[m] > 0 for m in nonconst) and all(kind(x) == "nat" for m in nonconst for x, e in m):
            if d.get((), 0) >= 0:
                return FALSE
            if len(nonconst) == 1 and len(nonconst[0]) == 1 and d.get((), 0) == -1:
                x = nonconst[0][0][0]
                if x.op == "len":
                    return Not(truthy(x.a[0]))
        p = _poly(d)
        return mk("lt0", p)
    both = [m for m in d if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "abs"]
    if len(both) == 1 and len(d) > 1:
        # |x| + r < 0 is x + r < 0 and -x + r < 0
        c, x = d[both[0]], both[0][0][0].a[0]
        r = _poly({m: k for m, k in d.items() if m is not both[0]})
        cs = [_lt0(_terms(_add(r, _mul(num(abs(c) if c > 0 else -abs(c)), y)))) for y in (x, _mul(num(-1), x))]
        return And(*cs) if c > 0 else Or(*cs)
    # real: scale by positive, fixed lead magnitude 1
    lead = _lead(d)
    if lead < 0:
        n = {m: -c for m, c in d.items()}
        return And(Not(_lt0(n)), Not(_eq0(n)))
    d = {m: c / lead for m, c in d.items()}
    p = _poly(d)
    if p.op in ("norm", "abs", "len"):
        return FALSE
    return mk("lt0", p)


def _lead(d):
    items = sorted(((m, c) for m, c in d.items() if m != ()), key=lambda kv: [(x.id, e) for x, e in kv[0]])
    return items[0][1]


def le(a, b):
    return Not(lt(b, a))


def eq(a, b):
    return lift(_eq, (a, b))


def _numeric(t):
    return t.op in ("num", "poly") or kind(t) in ("num", "nat", "int")


def _eq(a, b):
    if a is b:
        return TRUE
    if a is NONE:
        return isnone(b)
    if b is NONE:
        return isnone(a)
    if a.op == "const" and b.op == "const" or a.op == "cls" and b.op == "cls":
        return FALSE
    ka, kb = kind(a), kind(b)
    if (a.op == "const" and a.a[0] == "str" and (b.op == "num" or kb in ("node", "edge", "num", "nat", "int", "list"))) or \
       (b.op == "const" and b.a[0] == "str" and (a.op == "num" or ka in ("node", "edge", "num", "nat", "int", "list"))):
        return FALSE
    if a in (TRUE, FALSE) and (is_bool_atom(b) or b.op == "ite"):
        return b if a is TRUE else Not(b)
    if b in (TRUE, FALSE) and (is_bool_atom(a) or a.op == "ite"):
        return a if b is TRUE else Not(a)
    if a.op == "seq" and b.op == "seq" and len(a.a) == len(b.a):
        return And(*[eq(x, y) for x, y in zip(a.a, b.a)])
    if a.op == "seq" and b.op == "seq":
        return FALSE
    if _numeric(a) and _numeric(b) or a.op == "num" or b.op == "num" or a.op == "poly" or b.op == "poly":
        d = _terms(_add(a, _mul(num(-1), b)))
        return _eq0(d)
    # no self loops: a neighbour differs from the node
    for x, y in ((a, b), (b, a)):
        dd = elem_domain(x)
        if dd is not None and dd.op in ("neighbors",) and dd.a[1] is y:
            return FALSE
    if TWO_TYPES:
        for x, y in ((a, b), (b, a)):
            if y is _DEVIATION and x.op == "rd" and x.a[0].op == "ea" and x.a[0].a[1] == "type":
                return Not(_eq(x, const("trail")))
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


# set while a property that speaks of edges added as trail or deviation edges is decided
TWO_TYPES = []
_DEVIATION = const("deviation")


def elem_domain(x):
    if x.op == "sym":
        d = syminfo.get(x, {}).get("dom")
    elif x.op == "firstel":
        d = x.a[0]
    else:
        return None
    while d is not None and d.op in ("reversed", "sorted", "slice", "upto"):
        d = d.a[0]
    return d


def _eq0(d):
    if not d:
        return TRUE
    if set(d) == {()}:
        return FALSE
    # drop common monomial factors with negative exponents
    neg_f = {}
    for m in d:
        for x, e in m:
            if e < 0:
                neg_f[x] = min(neg_f.get(x, 0), e)
    if neg_f:
        f = tuple((x, -e) for x, e in neg_f.items())
        n = {}
        for m, c in d.items():
            mm = _mono_mul(m, f)
            n[mm] = n.get(mm, 0) + c
        d = n
    if len(d) == 1:
        (m, c), = d.items()
        if len(m) > 1:
            return Or(*[_eq0({((x, 1),): Fraction(1)}) for x, e in m])
        x = m[0][0]
        if kind(x) == "nat":
            return _lt0({((x, 1),): Fraction(1), (): Fraction(-1)})
        if x.op == "norm":
            return mk("eq0", x.a[0])
        if x.op == "copysign" and x.a[0] is ONE:
            return FALSE
        if x.op == "abs":
            return _eq0(_terms(x.a[0]))
        return mk("eq0", x)
    if len(d) == 2 and () not in d:
        (m1, c1), (m2, c2) = d.items()
        if c1 == -c2 and len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1:
            a, b = m1[0][0], m2[0][0]
            if a.id > b.id:
                a, b = b, a
            return mk("eq", a, b)
    if len(d) == 2 and () in d:
        # nat x == 0 handled; x == c
        (m1, c1), = [(m, c) for m, c in d.items() if m != ()]
        if len(m1) == 1 and m1[0][1] == 1 and m1[0][0].op == "copysign" and m1[0][0].a[0] is ONE:
            v = -d[()] / c1
            if v not in (1, -1):
                return FALSE
            s = m1[0][0].a[1]
            # zero has a sign as well
            pos = Or(lt(ZERO, s), And(eq(s, ZERO), mk("eq0", _poly({m1: Fraction(1), (): Fraction(-1)}))))
            return pos if v == 1 else Not(pos)
    lead = _lead(d)
    d = {m: c / lead for m, c in d.items()}
    return mk("eq0", _poly(d))


def isnone(t):
    def f(t):
        if t is NONE:
            return TRUE
        if t.op == "const" or t.op in ("num", "poly", "seq", "cat", "fmap", "obj", "put", "emptymap", "norm", "dot", "fmt", "lam", "clo", "cls", "func", "bound", "partial"):
            return FALSE
        if is_bool_atom(t):
            return FALSE
        if kind(t) in NOT_NONE or given(t):
            return FALSE
        return mk("isnone", t)
    return lift(f, (t,))


def given(t):
    """a symbol standing for an input that was supplied: neither None nor empty nor zero"""
    return t.op == "sym" and bool(syminfo.get(t, {}).get("given"))


def truthy(t):
    def f(t):
        if t is TRUE or t is FALSE or is_bool_atom(t):
            return t
        if given(t):
            return TRUE
        if t is NONE:
            return FALSE
        if t.op == "const":
            if t.a[0] == "str":
                return TRUE if t.a[1] else FALSE
            return TRUE
        if t.op in ("num", "poly"):
            return Not(_eq0(_terms(t)))
        if t.op == "seq":
            return TRUE if t.a else FALSE
        if t.op == "cat":
            return Or(*[truthy(x) for x in t.a])
        if t.op == "fmap":
            return exists_closed(t.a[0], t.a[1], t.a[2])
        if t.op in ("reversed", "sorted", "keys", "listof"):
            return truthy(t.a[0])
        if t.op == "emptymap":
            return FALSE
        if t.op == "put":
            return TRUE
        if t.op in ("obj", "lam", "clo", "cls", "func", "bound", "partial"):
            return TRUE
        if t.op == "lend" and kind(t) == "map":
            p = fold_parts(t)
            if p is not None:
                dom, e, pos, guard, key, val, init = p
                return Or(truthy(init), exists(dom, e, pos, guard))
        if t.op == "rangen":
            return lt(ZERO, t.a[0])
        if t.op == "len":
            return truthy(t.a[0])
        k = kind(t)
        if k in ALWAYS_TRUE_KINDS:
            return TRUE
        if k == "opt":
            return Not(isnone(t))
        if k in ("num", "nat", "int"):
            return Not(_eq0(_terms(t)))
        return mk("truthy", t)
    return lift(f, (t,))


# ---------------------------------------------------------------- generic uninterpreted
def app(op, *args):
    return lift(lambda *a: mk(op, *a), args)


def fn(name, *args):
    return lift(lambda *a: mk("fn", name, *a), args)


# ---------------------------------------------------------------- lists
def seq(*items):
    return lift(lambda *a: _seq(*a), items)


def _seq(*items):
    # eta: (e[0], e[1]) -> e for pairs
    if len(items) == 2:
        a, b = items
        if a.op == "idx" and b.op == "idx" and a.a[0] is b.a[0] and a.a[1] is ZERO and b.a[1] is ONE:
            if kind(a.a[0]) in ("edge", "pair"):
                return a.a[0]
    if len(items) == 3:
        v = _vectorise(items)
        if v is not None:
            return v
    return mk("seq", *items)


def mkseq(items):
    """tuple / list literal: items keep their own gates"""
    return _seq(*items)


def mapdel(m, k):
    def f(m, k):
        if m.op == "put" and m.a[1] is k:
            return mapdel(m.a[0], k)
        if m.op == "put" and distinct(m.a[1], k):
            return put(mapdel(m.a[0], k), m.a[1], m.a[2])
        if m.op == "emptymap":
            return m
        return mk("mapdel", m, k)
    return lift(f, (m, k))


def slice_(t, lo, hi):
    def f(t, lo, hi):
        if lo is NONE:
            lo = ZERO
        if t.op == "seq" and lo.op == "num" and (hi is NONE or hi.op == "num"):
            return mk("seq", *t.a[int(lo.a[0]):(None if hi is NONE else int(hi.a[0]))])
        if lo is ZERO and hi is NONE:
            return t
        if t.op == "cat" and t.a[0].op == "seq" and lo.op == "num" and hi is NONE and 0 <= lo.a[0] <= len(t.a[0].a):
            return cat(mk("seq", *t.a[0].a[int(lo.a[0]):]), *t.a[1:])
        if t.op == "cat" and t.a[-1].op == "seq" and lo is ZERO and hi is not NONE and hi.op == "num" and 0 < -hi.a[0] <= len(t.a[-1].a):
            return cat(*(t.a[:-1] + (mk("seq", *t.a[-1].a[:int(hi.a[0])]),)))
        if t.op == "reversed" and lo.op == "num" and hi is NONE and lo.a[0] > 0:
            return reverse(slice_(t.a[0], ZERO, num(-lo.a[0])))
        if t.op == "reversed" and lo is ZERO and hi.op == "num" and hi.a[0] < 0:
            return reverse(slice_(t.a[0], num(-hi.a[0]), NONE))
        return mk("slice", t, lo, hi)
    return lift(f, (t, lo, hi))


def floor(t):
    def f(t):
        if t.op == "num":
            import math
            return num(math.floor(t.a[0]))
        if kind(t) in ("nat", "int") and _intpoly(_terms(t)):
            return t
        # integer part splits off: floor(x + n) = floor(x) + n
        d = _terms(t)
        c = d.get((), Fraction(0))
        import math
        n = math.floor(c)
        if n:
            d = dict(d)
            d[()] = c - n
            return add(num(n), mk("floor", _poly(d)))
        return mk("floor", t)
    return lift(f, (t,))


def _vectorise(items):
    """[f(a[0], b[0]) + r0, f(a[1], b[1]) + r1, f(a[2], b[2]) + r2] -> f(a, b) + [r0, r1, r2] for linear f"""
    if len(items) != 3 or any(it.op == "ite" or it.op == "const" for it in items):
        return None
    lin = []
    ds = []
    for i, it in enumerate(items):
        d = _terms(it)
        ds.append(d)
        out = {}
        for m, c in d.items():
            cs = [(x, component(x)) for x, e in m if e == 1]
            cs = [(x, k) for x, k in cs if k is not None and k[0] == i]
            if len(cs) != 1:
                continue
            x, k = cs[0]
            mm = _mono_mul(tuple(p for p in m if p[0] is not x), ((k[1], 1),))
            out[mm] = (c, m)
        lin.append(out)
    common = [mm for mm in lin[0] if mm in lin[1] and mm in lin[2] and lin[0][mm][0] == lin[1][mm][0] == lin[2][mm][0]]
    if not common:
        return None
    vec = {mm: lin[0][mm][0] for mm in common}
    rest = []
    for i in range(3):
        r = dict(ds[i])
        for mm in common:
            del r[lin[i][mm][1]]
        rest.append(_poly(r))
    if all(r is ZERO for r in rest):
        if len(common) == 1 and common[0] == ((mk("seq", *items), 1),) and vec[common[0]] == 1:
            return None
        return _poly(vec)
    return _add(_poly(vec), mk("seq", *rest))


def cat(*parts):
    return lift(_cat, parts)


def _cat(*parts):
    out = []
    for p in parts:
        if p.op == "cat":
            out.extend(p.a)
        elif p is NIL or p.op == "emptyset":
            continue
        else:
            out.append(p)
    res = []
    for p in out:
        if res and res[-1].op == "seq" and p.op == "seq":
            res[-1] = mk("seq", *(res[-1].a + p.a))
        else:
            res.append(p)
    if not res:
        return NIL
    if len(res) == 1:
        return res[0]
    return mk("cat", *res)


def reverse(t):
    def f(t):
        if t.op == "seq":
            return mk("seq", *reversed(t.a))
        if t.op == "cat":
            return cat(*[reverse(x) for x in reversed(t.a)])
        if t.op == "reversed":
            return t.a[0]
        if t.op == "neighbors":
            # the order of a node's neighbours carries no meaning
            return t
        return mk("reversed", t)
    return lift(f, (t,))


def length(t):
    def f(t):
        if t.op == "seq":
            return num(len(t.a))
        if t.op == "cat":
            return add(*[length(x) for x in t.a])
        if t.op in ("reversed", "sorted", "listof", "keys"):
            if t.op == "keys":
                return mk("len", t.a[0])
            return length(t.a[0])
        if t.op == "emptymap":
            return ZERO
        if t.op == "put":
            keys, m = set(), t
            while m.op == "put" and m.a[1].op in ("num", "const"):
                keys.add(m.a[1])
                m = m.a[0]
            if m.op == "emptymap":
                return num(len(keys))
        if t.op == "rangen":
            return t.a[0]
        if t.op == "zeros":
            return t.a[0]
        if t.op == "fmap":
            dom, h, body = t.a
            ls = leaves(body)
            if all(x.op == "seq" and len(x.a) == 1 for x in ls):
                return length(dom)
            if all(x.op == "seq" for x in ls):
                # how many, whatever they are
                return mk("len", mk("fmap", dom, h, map_leaves(body, lambda x: mk("seq", *[ONE] * len(x.a)))))
        if kind(t) in ("edge", "pair"):
            return num(2)
        return mk("len", t)
    return lift(f, (t,))


def idx(t, i):
    def f(t, i):
        while t.op == "listof":
            t = t.a[0]
        if i.op == "num" and i.a[0].denominator == 1:
            n = int(i.a[0])
            if t.op == "seq" and -len(t.a) <= n < len(t.a):
                return t.a[n]
            if t.op == "cat":
                if n >= 0 and t.a[0].op == "seq" and n < len(t.a[0].a):
                    return t.a[0].a[n]
                if n < 0 and t.a[-1].op == "seq" and -n <= len(t.a[-1].a):
                    return t.a[-1].a[n]
            if t.op == "reversed":
                return idx(t.a[0], num(-1 - n))
            if t.op == "slice":
                x, lo, hi = t.a
                half = (floor(_mul(num(Fraction(1, 2)), length(x))),)
                if hi is NONE and n >= 0 and (nonneg(lo) or lo in half):
                    return idx(x, add(lo, i))
                # one half of a list: lists taken apart have two entries or more
                if lo is ZERO and hi in half and n == -1:
                    return idx(x, sub(hi, ONE))
            if t.op == "sorted" and n in (0, -1) and len(t.a) == 1:
                return mk("fn", "max" if n else "min", t.a[0])
        if t.op == "zeros":
            return ZERO
        if t.op == "const" and t.a[0] == "str" and i.op == "num":
            return const(t.a[1][int(i.a[0])])
        # position variable of a loop over t
        if i.op == "sym":
            info = syminfo.get(i, {})
            if info.get("posof") is t:
                return info["elem"]
        if t.op == "rangen":
            return i
        if t.op == "fmap" and i.op == "sym" and syminfo.get(i, {}).get("posof") is t.a[0]:
            o = open_fmap(t)
            if all(x.op == "seq" and len(x.a) == 1 for x in leaves(o["body"])):
                return subst(map_leaves(o["body"], lambda x: x.a[0]), {o["elem"]: syminfo[i]["elem"], o["pos"]: i})
        if t.op == "fmap" and i.op == "sym" and "filterpos" in syminfo.get(i, {}):
            dom, g, e = syminfo[i]["filterpos"]
            if t.a[0] is dom:
                o = open_fmap(t)
                b = subst(o["body"], {o["elem"]: e})
                if o["pos"] not in b.fs and all(x.op == "seq" and len(x.a) <= 1 for x in leaves(b)) and \
                        map_leaves(b, lambda x: TRUE if x.a else FALSE) is g:
                    return constrain(map_leaves(b, lambda x: x.a[0] if x.a else UNDEF), g)
        if t.op == "fmap" and i.op == "num" and i.a[0] in (0, -1):
            # the first or last of the selected elements
            o = open_fmap(t)
            b = o["body"]
            if all(x.op == "seq" and len(x.a) <= 1 for x in leaves(b)) and (i.a[0] == 0 or o["pos"] not in b.fs):
                g = map_leaves(b, lambda x: TRUE if x.a else FALSE)
                item = constrain(map_leaves(b, lambda x: x.a[0] if x.a else UNDEF), g)
                d = t.a[0] if i.a[0] == 0 else reverse(t.a[0])
                m = {o["elem"]: firstel(d, o["elem"], o["pos"], g)}
                if o["pos"] in item.fs:
                    m[o["pos"]] = firstel(d, o["elem"], o["pos"], g, "firstpos")
                return subst(item, m)
        if t.op == "poly":
            # componentwise indexing of a vector polynomial
            out = []
            for m, c in t.a[0]:
                s, v = _split_scalar(m)
                if v is None:
                    return mk("idx", t, i)
                out.append(mul(_poly({s: c}), idx(v, i)))
            return add(*out)
        return mk("idx", t, i)
    return lift(f, (t, i))


# ---------------------------------------------------------------- maps
EMPTYMAP = mk("emptymap")


def put(m, k, v):
    def f(m, k):
        if m.op == "put":
            b, k1, v1 = m.a
            if k1 is k:
                return put(b, k, v)
            if distinct(k1, k) and k1.id > k.id:
                return put(put(b, k, v), k1, v1)
        if v.op == "rd" and v.a[0] is m and v.a[1] is k:
            return m
        if v.op == "idx" and v.a[0] is m and v.a[1] is k:
            return m
        return mk("put", m, k, v)
    return lift(f, (m, k))


def distinct(a, b):
    if a is b:
        return False
    if a.op == "seq" and b.op == "seq" and len(a.a) == len(b.a):
        return any(distinct(x, y) for x, y in zip(a.a, b.a))
    if a.op in ("cls", "func") and b.op in ("cls", "func"):
        return True
    return is_const(a) and is_const(b)


NOINFO = {}


def rd(m, k):
    def f(m, k):
        if m.op == "put":
            b, k1, v1 = m.a
            if k1 is k:
                return v1
            if distinct(k1, k):
                return rd(b, k)
            return ite(eq(k1, k), v1, rd(b, k))
        if m.op == "mapdel":
            b, k1 = m.a
            if distinct(k1, k):
                return rd(b, k)
        if m.op == "defmap":
            return m.a[0]
        if m.op == "sym" and k.op == "sym":
            own = syminfo.get(m, NOINFO).get("own")
            if own is not None and own[0] is k:
                return rd(own[1], k)
        if m.op == "lend":
            r = fold_read(m, k)
            if r is not None:
                return r
        if m.op in ("seq", "cat", "fmap", "zeros", "reversed"):
            return idx(m, k)
        return mk("rd", m, k)
    return lift(f, (m, k))


def has(m, k):
    def f(m, k):
        if m.op == "emptymap" or m is NIL:
            return FALSE
        if m.op == "put":
            b, k1, v1 = m.a
            if k1 is k:
                return TRUE
            if distinct(k1, k):
                return has(b, k)
            return Or(eq(k1, k), has(b, k))
        if m.op == "mapdel":
            b, k1 = m.a
            if k1 is k:
                return FALSE
            if distinct(k1, k):
                return has(b, k)
        if m.op == "lend":
            r = fold_has(m, k)
            if r is not None:
                return r
        if total_nodes(m) and kind(k) == "node":
            return TRUE
        if k.op == "sym":
            d = syminfo.get(k, {}).get("dom")
            if d is not None and d.op == "keys" and d.a[0] is m:
                return TRUE
        return mk("has", m, k)
    return lift(f, (m, k))


def total_nodes(m):
    """m is known to have every node of a diagram as key (and only nodes)."""
    if m.op == "sym":
        return bool(syminfo.get(m, {}).get("totalnodes"))
    if m.op == "put":
        return total_nodes(m.a[0]) and kind(m.a[1]) == "node"
    if m.op == "ite":
        return all(total_nodes(x) for x in leaves(m))
    if m.op in ("lend", "lmu", "liter"):
        loop, j = m.a
        init, up = loop.a[2][j], loop.a[3][j]
        if len(loop.a[2]) == 1 and loop.a[0].op == "nodes" and init is EMPTYMAP and up.op == "put" and up.a[1].op == "bv" and up.a[1].a[1] == 0:
            return True
        if total_nodes(init):
            o = open_loop(loop)
            mus = {s: syminfo.setdefault(s, {}) for s in o["mus"]}
            for s in o["mus"]:
                syminfo[s]["totalnodes"] = True
            # optimistic only for own location
            for jj, s in enumerate(o["mus"]):
                if jj != j:
                    syminfo[s]["totalnodes"] = False
            return total_nodes(o["ups"][j])
    if m.op == "na":
        return True
    return False


def keys(m):
    def f(m):
        if m.op == "emptymap":
            return NIL
        if total_nodes(m):
            o = diagram_of(m)
            if o is not None:
                return mk("nodes", o, ZERO)
        if m.op == "put" and m.a[0] is EMPTYMAP:
            return mk("seq", m.a[1])
        if m.op == "put":
            ks = keys(m.a[0])
            if ks.op == "seq" and all(distinct(x, m.a[1]) for x in ks.a):
                return mk("seq", *(ks.a + (m.a[1],)))
        if m.op == "lend":
            loop, j = m.a
            dom, h, inits, ups, ex = loop.a
            if len(inits) == 1 and ex is FALSE and inits[0] is EMPTYMAP:
                o = open_loop(loop)
                up = o["ups"][0]

                def leaf(x):
                    if x.op == "put" and x.a[0] is o["mus"][0]:
                        return seq(x.a[1])
                    if x is o["mus"][0]:
                        return NIL
                    return None
                if all(leaf(x) is not None for x in leaves(up)):
                    body = map_leaves(up, leaf)
                    if o["mus"][0] not in body.fs and o["elem"] is body_single(body):
                        return fmap(dom, o["elem"], o["pos"], body)
        return mk("keys", m)
    return lift(f, (m,))


def body_single(body):
    s = None
    for x in leaves(body):
        if x.op == "seq" and len(x.a) == 1:
            if s is not None and s is not x.a[0]:
                return None
            s = x.a[0]
        elif x is not NIL:
            return None
    return s


def diagram_of(m):
    if m.op in ("na",):
        return m.a[0]
    if m.op == "sym":
        return syminfo.get(m, {}).get("diagram")
    if m.op == "put":
        return diagram_of(m.a[0])
    if m.op == "ite":
        return diagram_of(m.a[1])
    if m.op in ("lend", "lmu", "liter"):
        loop, j = m.a
        if loop.a[0].op == "nodes" and loop.a[2][j] is EMPTYMAP:
            return loop.a[0].a[0]
        return diagram_of(loop.a[2][j])
    return None


def fold_parts(m):
    """lend of a one-location map loop whose update writes at most one key per element."""
    loop, j = m.a
    dom, h, inits, ups, ex = loop.a
    if len(inits) != 1 or ex is not FALSE:
        return None
    o = open_loop(loop)
    up, mu, e = o["ups"][0], o["mus"][0], o["elem"]
    key = val = None
    guard = FALSE

    def leaf_guard(x):
        if x.op == "put" and x.a[0] is mu:
            return TRUE
        if x is mu:
            return FALSE
        return None
    gs = [leaf_guard(x) for x in leaves(up)]
    if any(g is None for g in gs):
        return None
    ks = {x.a[1] for x in leaves(up) if x.op == "put"}
    if len(ks) != 1:
        return None
    key = ks.pop()
    guard = map_leaves(up, leaf_guard)
    val = map_leaves(up, lambda x: x.a[2] if x.op == "put" else UNDEF)
    if mu in guard.fs or mu in val.fs or mu in key.fs:
        return None
    return dom, e, o["pos"], guard, key, val, inits[0]


def group_read(m, k):
    """an entry of a dictionary of lists that a loop appends to under fixed keys"""
    loop, j = m.a
    dom, h, inits, ups, ex = loop.a
    if len(inits) != 1 or ex is not FALSE or not is_const(k):
        return None
    init = inits[0]
    if not (init.op == "fn" and init.a[0] == "collections.defaultdict" and len(init.a) == 2 and init.a[1].op == "ext" and init.a[1].a[0] == "builtins.list"):
        return None
    o = open_loop(loop)
    up, mu, e = o["ups"][0], o["mus"][0], o["elem"]

    def part(x):
        if x is mu:
            return NIL
        if x.op != "put" or x.a[0] is not mu or not is_const(x.a[1]):
            return None
        if x.a[1] is not k:
            return NIL
        v = x.a[2]
        if v.op == "cat" and v.a and v.a[0] is rd(mu, k):
            r = _cat(*v.a[1:])
            return None if mu in r.fs else r
        return None
    ps = [part(x) for x in leaves(up)]
    if any(x is None for x in ps):
        return None
    body = map_leaves(up, part)
    if mu in body.fs:
        return None
    return fmap(dom, e, o["pos"], body)


def fold_read(m, k):
    p = fold_parts(m)
    if p is None:
        return group_read(m, k)
    dom, e, pos, guard, key, val, init = p
    if key is e and pos not in val.fs and pos not in guard.fs:
        v = constrain(val, guard) if guard is not TRUE else val
        if init is EMPTYMAP or guard is TRUE and in_dom(k, dom) is TRUE:
            return subst(v, {e: k})
        if dom.op in ("nodes", "keys", "edges") and in_dom(k, dom) is TRUE:
            return ite(subst(guard, {e: k}), subst(v, {e: k}), rd(init, k))
    return None


def fold_has(m, k):
    p = fold_parts(m)
    if p is None:
        return None
    dom, e, pos, guard, key, val, init = p
    if key is e and pos not in guard.fs and init is EMPTYMAP:
        return And(member(k, dom), subst(guard, {e: k}))
    return None


def in_dom(k, dom):
    if k.op == "sym" and syminfo.get(k, {}).get("dom") is dom:
        return TRUE
    if dom.op == "nodes" and kind(k) == "node":
        return TRUE
    return member(k, dom)


def member(k, coll):
    def f(k, coll):
        if coll.op == "seq":
            return Or(*[eq(k, x) for x in coll.a])
        if coll.op == "cat":
            return Or(*[member(k, x) for x in coll.a])
        if coll.op in ("reversed", "sorted", "listof"):
            return member(k, coll.a[0])
        if coll.op == "fn" and coll.a[0] == "distinct":
            return member(k, coll.a[1])
        if coll.op == "keys":
            return has(coll.a[0], k)
        if coll.op in ("put", "emptymap", "mapdel") or kind(coll) == "map":
            return has(coll, k)
        if coll.op == "nodes" and kind(k) == "node":
            return TRUE
        if coll.op == "edges" and kind(k) == "edge":
            return TRUE
        if coll.op == "rangen":
            if kind(k) in ("nat", "int", None, "optnat"):
                return And(le(ZERO, k), lt(k, coll.a[0]))
        if k.op == "sym" and syminfo.get(k, {}).get("dom") is coll:
            return TRUE
        if coll.op == "fmap":
            o = open_fmap(coll)
            body = o["body"]
            x = body_single(body)
            if x is not None and x is o["elem"] and o["pos"] not in body.fs:
                g = map_leaves(body, lambda l: TRUE if l.op == "seq" and l.a else FALSE)
                return And(member(k, coll.a[0]), subst(g, {o["elem"]: k}))
            if all(l.op == "seq" for l in leaves(body)) or not all(l.op == "seq" and len(l.a) <= 1 for l in leaves(body)):
                return exists(coll.a[0], o["elem"], o["pos"], member(k, body))
        if coll.op == "lend":
            r = fold_has(coll, k)
            if r is not None:
                return r
        return mk("in", k, coll)
    return lift(f, (k, coll))


# ---------------------------------------------------------------- binders
# (op, dom, h, body...) with bv(h,0)=element, bv(h,1)=position, bv(h,2+j)=carried j

def bv(h, j):
    return mk("bv", h, j)


def close(parts, syms):
    """replace syms by bound variables of a new height; returns (h, parts)"""
    h = 1
    for p in parts:
        if p.h >= h:
            h = p.h + 1
    m = {s: bv(h, j) for j, s in enumerate(syms)}
    return h, [subst(p, m, raw=True) for p in parts]


def open_parts(h, parts, dom, n=0, inits=None):
    e = fresh("e", dom=dom, kind=elemkind(dom) if dom is not None else None)
    p = fresh("p", kind="nat", posof=dom, elem=e)
    if dom is not None and dom.op == "rangen":
        e = p
    mus = []
    for j in range(n):
        info = {}
        if inits is not None:
            k = kind(inits[j])
            info = dict(kind=k, valkind=valkind(inits[j]), keykind=keykind(inits[j]))
        mus.append(fresh("u", **info))
    m = {bv(h, 0): e, bv(h, 1): p}
    for j, s in enumerate(mus):
        m[bv(h, 2 + j)] = s
    return e, p, mus, [subst(x, m, raw=True) for x in parts]


_open_memo = {}


def open_fmap(t):
    r = _open_memo.get(t.id)
    if r is None:
        dom, h, body = t.a
        e, p, _, (b,) = open_parts(h, [body], dom)
        r = dict(elem=e, pos=p, body=b, dom=dom)
        _open_memo[t.id] = r
    return r


def open_loop(loop):
    r = _open_memo.get(loop.id)
    if r is None:
        dom, h, inits, ups, ex = loop.a
        e, p, mus, parts = open_parts(h, list(ups) + [ex], dom if dom is not NONE else None, len(inits), inits)
        r = dict(elem=e, pos=p, mus=mus, ups=parts[:-1], ex=parts[-1], inits=inits, dom=dom)
        _open_memo[loop.id] = r
    return r


def _lift_free(body, bound, rebuild):
    """Lift gates of body that do not depend on the bound symbols."""
    bound = set(bound)
    free = [x for x in atoms(body) if not (x.fs & bound)] if body.op == "ite" else []
    if free:
        v = min(free, key=lambda x: x.id)
        return ite(v, _lift_free(cofactor(body, v, True), bound, rebuild),
                   _lift_free(cofactor(body, v, False), bound, rebuild))
    return rebuild(body)


def fmap(dom, elem, pos, body):
    """concatenation of list `body` over the elements of dom"""
    if dom.op == "ite":
        return lift(lambda d: fmap(d, elem, pos, body), (dom,))

    def build(body):
        if body is NIL:
            return NIL
        if body.op == "seq" and len(body.a) == 1 and body.a[0] is elem:
            return dom
        if dom.op == "rangen" and body.op == "seq" and len(body.a) == 1 and body.a[0] is pos:
            return dom
        # vectors: [a_i + b_i for ...] over zip handled by caller
        h, (b,) = close([body], [elem, pos])
        return mk("fmap", dom, h, b)
    return _lift_free(body, (elem, pos), build)


def _zero_gates(t):
    """x * y if x else 0 is x * y"""
    if t.op != "ite":
        return t
    c, hi, lo = t.a
    hi, lo = _zero_gates(hi), _zero_gates(lo)
    x = c.a[0] if c.op in ("truthy", "eq0") else None
    if x is not None and x.op in ("rd", "idx", "fld", "sym"):
        nz, z = (hi, lo) if c.op == "truthy" else (lo, hi)
        if z is ZERO and all(any(y is x and e > 0 for y, e in m) for lf in leaves(nz) for m in _terms(lf)):
            return nz
    return ite(c, hi, lo)


def summation(dom, elem, pos, body):
    if dom.op == "ite":
        return lift(lambda d: summation(d, elem, pos, body), (dom,))
    bound = {elem, pos}
    body = _zero_gates(body)

    def build(body):
        if body.op == "ite":
            h, (b,) = close([body], [elem, pos])
            for lf in leaves(b):
                if lf.op == "num" and lf.a[0] != 0 or lf.op == "poly":
                    c = lf.a[0] if lf.op == "num" else lf.a[0][0][1]
                    if c < 0:
                        return _mul(num(-1), mk("sum", dom, h, map_leaves(b, neg)))
                    break
                if lf.op != "num":
                    break
            if all(lf in (ZERO, ONE) for lf in leaves(b)):
                return mk("len", mk("fmap", dom, h, map_leaves(b, lambda x: mk("seq", *[ONE] * int(x.a[0])))))
            return mk("sum", dom, h, b)
        out = []
        for m, c in _terms(body).items():
            inside = tuple((x, e) for x, e in m if x.fs & bound)
            outside = tuple((x, e) for x, e in m if not (x.fs & bound))
            if not inside:
                s = length(dom)
            else:
                h, (b,) = close([_poly({inside: Fraction(1)})], [elem, pos])
                s = mk("sum", dom, h, b)
            out.append(mul(_poly({outside: c}), s))
        return add(*out) if out else ZERO
    return _lift_free(body, bound, build)


def exists(dom, elem, pos, cond):
    if dom.op == "ite":
        return lift(lambda d: exists(d, elem, pos, cond), (dom,))

    def build(c):
        if c is FALSE:
            return FALSE
        if c is TRUE:
            return truthy(dom)
        dom2 = dom
        while dom2.op in ("reversed", "sorted", "listof") and pos not in c.fs:
            dom2 = dom2.a[0]
        h, (b,) = close([c], [elem, pos])
        return mk("exists", dom2, h, b)
    return _lift_free(cond, (elem, pos), build)


def exists_closed(dom, h, listbody):
    e, p, _, (b,) = open_parts(h, [listbody], dom)
    return exists(dom, e, p, truthy(b))


def firstel(dom, elem, pos, cond, what="firstel"):
    """first element of dom that meets cond (firstel), its position (firstpos), the elements before it (upto: all, if none meets it)"""
    if what == "upto":
        if dom.op == "ite":
            return lift(lambda d: firstel(d, elem, pos, cond, what), (dom,))
        if cond is TRUE:
            return NIL
        if cond is FALSE:
            return dom
    if cond is TRUE:
        return idx(dom, ZERO) if what == "firstel" else ZERO
    h, (b,) = close([cond], [elem, pos])
    return mk(what, dom, h, b)


def lam(params, body):
    h, (b,) = close([body], params)
    return mk("lam", len(params), h, b)


def eloop(dom, elem, pos, guard, eff):
    h, (g, e) = close([guard, eff], [elem, pos])
    return mk("eloop", dom, h, g, e)


# generic recurrences --------------------------------------------------------
_mkloop_memo = {}


def make_loop(dom, elem, pos, locs, exit_cond, need):
    """Canonical recurrence for the needed carried locations.

    locs: {mu_sym: (init, update)}.  Returns (loop term, {mu: rank}).
    """
    todo = list(need) + [s for s in exit_cond.fs if s in locs]
    clos = []
    seen = set()
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        clos.append(s)
        for x in locs[s][1].fs:
            if x in locs and x not in seen:
                todo.append(x)
    mkey = (dom, elem, pos, frozenset((s, locs[s]) for s in clos), exit_cond)
    hit = _mkloop_memo.get(mkey)
    if hit is not None:
        return hit
    # optimistic congruence by iterated colours
    col = {s: mk("col", locs[s][0]) for s in clos}
    part = len(set(col.values()))
    while part < len(clos):
        m = dict(col)
        new = {s: mk("col2", col[s], subst(locs[s][1], m, raw=True)) for s in clos}
        n = len(set(new.values()))
        if n == part:
            break
        col, part = new, n
    classes = {}
    for s in clos:
        classes.setdefault(col[s], []).append(s)
    order = sorted(classes, key=lambda c: c.id)
    rank = {}
    rep = []
    for i, c in enumerate(order):
        ss = sorted(classes[c], key=lambda s: s.id)
        rep.append(ss[0])
        for s in ss:
            rank[s] = i
    same = {s: rep[rank[s]] for s in clos if rep[rank[s]] is not s}
    ups = [subst(locs[s][1], same) if same else locs[s][1] for s in rep]
    ex = subst(exit_cond, same) if same else exit_cond
    h, parts = close(ups + [ex], [elem, pos] + rep)
    loop = mk("loop", dom if dom is not None else NONE, h, tuple(locs[s][0] for s in rep), tuple(parts[:-1]), parts[-1])
    _mkloop_memo[mkey] = (loop, rank)
    return loop, rank


# the loop tuple is (dom, h, inits, ups, exit); keep accessor order in one place
def loop_fields(loop):
    return loop.a


# ---------------------------------------------------------------- substitution
def subst(t, m, raw=False):
    """Substitute symbols / bound variables (keys of m) in t.

    raw=True: the values are plain symbols or bound variables of fresh height, no renormalisation of binders needed.
    """
    keys_sym = {k for k in m if k.op == "sym"}
    has_bv = any(k.op == "bv" for k in m)
    memo = {}

    def go(x):
        if not has_bv and not (x.fs & keys_sym):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif x.op in ("sym", "const", "num", "bv"):
            r = x
        elif has_bv and x.h == 0 and not (x.fs & keys_sym):
            r = x
        else:
            r = rebuild(x, go, m)
        memo[x.id] = r
        return r
    return go(t)


def replace(t, m):
    """Replace arbitrary subterms."""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif x.op in ("sym", "const", "num", "bv"):
            r = x
        else:
            r = rebuild(x, go, m)
        memo[x.id] = r
        return r
    return go(t)


def _map_tuple(x, go):
    if isinstance(x, T):
        return go(x)
    if isinstance(x, tuple):
        return tuple(_map_tuple(y, go) for y in x)
    return x


def rebuild(x, go, m=None):
    op, a = x.op, x.a
    if op == "ite":
        c = go(a[0])
        return ite(c if (is_bool_atom(c) or c.op in ("ite",) or c in (TRUE, FALSE)) else truthy(c), go(a[1]), go(a[2]))
    if op == "poly":
        out = []
        for mono, c in a[0]:
            fs = [num(c)]
            for at, e in mono:
                g = go(at)
                fs.append(power(g, num(e)) if e != 1 else g)
            out.append(mul(*fs))
        return add(*out)
    if op == "fmap":
        o = open_fmap(x)
        return fmap_iter(go(a[0]), o, go)
    if op in ("sum", "exists", "firstel", "firstpos", "upto"):
        dom, h, b = a
        e, p, _, (ob,) = open_parts(h, [b], dom)
        nd = go(dom)
        if nd is not dom:
            e2 = fresh("e", dom=nd, kind=elemkind(nd))
            p2 = fresh("p", kind="nat", posof=nd, elem=e2)
            if nd.op == "rangen":
                e2 = p2
            ob = subst(ob, {e: e2, p: p2})
            e, p = e2, p2
        ob = go_open(ob, go, m)
        if nd.op in ("seq", "fmap", "cat", "ite") and nd is not dom:
            return over(op, nd, e, p, ob)
        if op == "sum":
            return summation(nd, e, p, ob)
        if op == "exists":
            return exists(nd, e, p, truthy(ob))
        return firstel(nd, e, p, ob, op)
    if op == "loop":
        o = open_loop(x)
        ups = [go_open(u, go, m) for u in o["ups"]]
        ex = go_open(o["ex"], go, m)
        inits = tuple(go(i) for i in o["inits"])
        dom = go(a[0])
        locs = {s: (i, u) for s, i, u in zip(o["mus"], inits, ups)}
        loop, rank = make_loop(dom if dom is not NONE else None, o["elem"], o["pos"], locs, ex, list(o["mus"]))
        _loop_rank[(loop.id, x.id)] = [rank[s] for s in o["mus"]]
        _loop_re[x.id] = loop
        return loop
    if op in ("lend", "lmu", "liter", "lel", "lpos", "lbroke", "lastidx"):
        loop = a[0]
        nl = go(loop)
        if len(a) == 2:
            j = a[1]
            if nl is not loop:
                j = _loop_rank[(nl.id, loop.id)][j]
            if op == "lend" and nl.a[0] is NIL:
                return nl.a[2][j]
            return mk(op, nl, j)
        return mk(op, nl)
    if op == "eloop":
        dom, h, g, e_ = a
        e, p, _, (og, oe) = open_parts(h, [g, e_], dom)
        return eloop(go(dom), e, p, go_open(og, go, m), go_open(oe, go, m))
    if op == "lam":
        n, h, b = a
        e, p, mus, (ob,) = open_parts(h, [b], None, max(0, n - 2))
        return lam(([e, p] + mus)[:n], go_open(ob, go, m))
    args = tuple(_map_tuple(y, go) for y in a)
    f = SMART.get(op)
    if f is not None:
        return f(*args)
    if op == "fn":
        f = FN_SMART.get(a[0])
        if f is not None:
            return f(*args[1:])
    if all(isinstance(y, T) or not isinstance(y, tuple) for y in args):
        return lift(lambda *b: mk(op, *b), args)
    return mk(op, *args)


_loop_rank = {}
_loop_re = {}


def go_open(t, go, m):
    return go(t)


def fmap_iter(nd, o, go):
    dom = o["dom"]
    e, p = o["elem"], o["pos"]
    body = o["body"]
    if nd is not dom:
        e2 = fresh("e", dom=nd, kind=elemkind(nd))
        p2 = fresh("p", kind="nat", posof=nd, elem=e2)
        if nd.op == "rangen":
            e2 = p2
        body = subst(body, {e: e2, p: p2})
        e, p = e2, p2
    body = go(body)
    if nd.op in ("seq", "fmap", "cat", "ite") and nd is not dom:
        return over("fmap", nd, e, p, body)
    return fmap(nd, e, p, body)


def over(op, dom, e, p, body):
    """Comprehension-like construct over a structured domain (fusion)."""
    if dom.op == "ite":
        return ite(dom.a[0], over(op, dom.a[1], e, p, body), over(op, dom.a[2], e, p, body))
    if dom.op == "seq":
        parts = [subst(body, {e: x, p: num(i)} if e is not p else {p: num(i)}) for i, x in enumerate(dom.a)]
        if op == "fmap":
            return cat(*parts)
        if op == "sum":
            return add(*parts) if parts else ZERO
        if op == "exists":
            return Or(*[truthy(x) for x in parts])
    if dom.op == "cat" and p not in body.fs:
        rs = []
        for part in dom.a:
            e2 = fresh("e", dom=part, kind=elemkind(part))
            rs.append(over(op, part, e2, p, subst(body, {e: e2})))
        if op == "fmap":
            return cat(*rs)
        if op == "sum":
            return add(*rs)
        if op == "exists":
            return Or(*rs)
    if dom.op == "fmap":
        o = open_fmap(dom)
        # fuse
        single = all(x.op == "seq" and len(x.a) <= 1 for x in leaves(o["body"]))
        always = all(x.op == "seq" and len(x.a) == 1 for x in leaves(o["body"]))
        if single and (p not in body.fs or always):
            def leaf(l):
                if not l.a:
                    return {"fmap": NIL, "sum": ZERO, "exists": FALSE}.get(op)
                return subst(body, {e: l.a[0], p: o["pos"]} if e is not p else {p: o["pos"]})
            if op in ("fmap", "sum", "exists"):
                nb = map_leaves(o["body"], leaf)
                return over(op, dom.a[0], o["elem"], o["pos"], nb)
            if op == "firstel":
                g = map_leaves(o["body"], lambda l: subst(body, {e: l.a[0]}) if l.a else FALSE)
                x = body_single(o["body"])
                if x is not None:
                    return subst(x, {o["elem"]: firstel(dom.a[0], o["elem"], o["pos"], g)})
    if op == "fmap":
        return fmap(dom, e, p, body)
    if op == "sum":
        return summation(dom, e, p, body)
    if op == "exists":
        return exists(dom, e, p, truthy(body))
    return firstel(dom, e, p, body, op)


SMART = {
    "seq": seq, "cat": cat, "idx": idx, "len": length, "reversed": reverse, "put": put, "rd": rd, "has": has,
    "in": member, "keys": keys, "norm": norm, "unit": unit, "abs": absv, "copysign": copysign, "dot": dot, "sqrt": sqrt,
    "truthy": truthy, "isnone": isnone, "eq": eq,
    "rangen": lambda n: mk("rangen", n), "mapdel": mapdel, "slice": slice_, "floor": floor,
    "lt0": lambda p: lt(p, ZERO), "eq0": lambda p: eq(p, ZERO),
}
FN_SMART = {"dot": dot, "pow": power}


# ---------------------------------------------------------------- inspection
def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)


def pretty(t, depth=9):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(pretty(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "..."
    op, a = t.op, t.a
    d = depth - 1

    def p(x):
        return pretty(x, d)
    if op == "const":
        return repr(a[1]) if a[0] != "undef" else "<undefined>"
    if op == "num":
        f = a[0]
        return str(f.numerator) if f.denominator == 1 else ("%g" % float(f))
    if op == "sym":
        return a[0].split("#")[0] if "#" in a[0] else a[0]
    if op == "bv":
        return "%s%d" % ("xi"[a[1]] if a[1] < 2 else "u%d_" % (a[1] - 2), a[0])
    if op == "ite":
        if t.a[1] is TRUE and False:
            return p(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return "not %s" % p(a[0])
        if a[2] is FALSE:
            return "(%s and %s)" % (p(a[0]), p(a[1]))
        if a[1] is FALSE:
            return "(not %s and %s)" % (p(a[0]), p(a[2]))
        if a[1] is TRUE:
            return "(%s or %s)" % (p(a[0]), p(a[2]))
        return "(%s if %s else %s)" % (p(a[1]), p(a[0]), p(a[2]))
    if op == "poly":
        out = []
        for m, c in a[0]:
            fs = []
            if c != 1 or not m:
                fs.append(pretty(num(c)))
            for x, e in m:
                fs.append(p(x) + ("" if e == 1 else "**%d" % e))
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if op == "lt0":
        return "%s < 0" % p(a[0])
    if op == "eq0":
        return "%s == 0" % p(a[0])
    if op == "eq":
        return "%s == %s" % (p(a[0]), p(a[1]))
    if op == "isnone":
        return "%s is None" % p(a[0])
    if op == "truthy":
        return "bool(%s)" % p(a[0])
    if op in ("in", ):
        return "%s in %s" % (p(a[0]), p(a[1]))
    if op == "has":
        return "%s in %s" % (p(a[1]), p(a[0]))
    if op in ("rd", "idx"):
        return "%s[%s]" % (p(a[0]), p(a[1]))
    if op == "put":
        return "%s{%s := %s}" % (p(a[0]), p(a[1]), p(a[2]))
    if op == "seq":
        return "[" + ", ".join(p(x) for x in a) + "]"
    if op in ("na", "ea"):
        return "%s.%s" % ({"na": "node", "ea": "edge"}[op], a[1])
    if op == "attr":
        return "attributes['%s']" % a[1]
    if op == "fmap":
        return "[%s for x%d in %s]" % (p(a[2]), a[1], p(a[0]))
    if op == "sum":
        return "sum(%s for x%d in %s)" % (p(a[2]), a[1], p(a[0]))
    if op == "exists":
        return "any(%s for x%d in %s)" % (p(a[2]), a[1], p(a[0]))
    if op in ("fn", "m"):
        return "%s(%s)" % (a[0], ", ".join(p(x) for x in a[1:]))
    if op == "loop":
        return "loop<%s; %d carried>" % (p(a[0]), len(a[2]))
    if op in ("lend", "lmu"):
        loop, j = a
        return "%s(%s: init %s, next %s)" % (op, pretty(loop.a[0], d), pretty(loop.a[2][j], d), pretty(loop.a[3][j], d))
    return "%s(%s)" % (op, ", ".join(p(x) for x in a))


def rewrite(t, fn):
    """Bottom-up rewriting; fn(x) returns the replacement of a rebuilt subterm (or x itself)."""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op in ("sym", "const", "num", "bv"):
            r = x
        else:
            r = rebuild(x, go)
        r = fn(r)
        memo[x.id] = r
        return r
    return go(t)
