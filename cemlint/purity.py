"""State kept between calls: changed default arguments, module-level and class-level containers, globals, result caches."""
import ast

CORE = ("compas_cem.diagrams", "compas_cem.equilibrium", "compas_cem.optimization", "compas_cem.elements", "compas_cem.loads", "compas_cem.supports", "compas_cem.data")
MUTATORS = {"append", "extend", "insert", "add", "update", "setdefault", "pop", "popitem", "remove", "clear", "discard", "sort", "reverse", "appendleft", "__setitem__"}
MAKERS = {"list", "dict", "set", "defaultdict", "OrderedDict", "deque", "WeakKeyDictionary", "WeakValueDictionary", "Counter"}
CACHES = {"lru_cache", "cache", "cached_property", "memoize", "memoized"}


def mutable(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        return n in MAKERS
    return False


def root(e):
    """name (or self.attribute) a subscript/attribute chain starts from"""
    while isinstance(e, ast.Subscript):
        e = e.value
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ("self", "cls"):
        return "self." + e.attr
    return None


def mutations(fn):
    """[(root, node)] containers changed in place by the body of fn"""
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
            yield root(x.func.value), x
        elif isinstance(x, (ast.Assign, ast.AnnAssign)):
            for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                for y in ast.walk(t):
                    if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store):
                        yield root(y), x
        elif isinstance(x, ast.AugAssign):
            yield root(x.target), x
        elif isinstance(x, ast.Delete):
            for y in x.targets:
                if isinstance(y, ast.Subscript):
                    yield root(y), x


def rebound(fn):
    out = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
    return out


def functions(tree):
    for x in ast.walk(tree):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield x


def main_guard(st):
    return isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and isinstance(st.test.left, ast.Name) and st.test.left.id == "__name__"


def reads(fn, name):
    """the function uses what the container holds, beyond putting something in or taking it out without looking at it"""
    blind = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr in MUTATORS:
            blind.update(id(y) for y in ast.walk(x.value.func))
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
            blind.add(id(x.value))
    for x in ast.walk(fn):
        if id(x) in blind:
            continue
        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
            return True
        if isinstance(x, ast.Attribute) and "self." + x.attr == name and isinstance(x.ctx, ast.Load):
            return True
    return False


def between_calls(ck, only=None):
    """only: the functions (qualified names) whose results are at stake; None for the whole core of the package"""
    rule = "no state kept between calls"
    n = 0
    for name, mod in sorted(ck.p.modules.items()):
        if only is None and not name.startswith(CORE) or name.startswith("spec."):
            continue
        body = [st for st in mod.tree.body if not main_guard(st)]
        glob = {}
        for st in body:
            if isinstance(st, ast.Assign) and mutable(st.value):
                for t in st.targets:
                    if isinstance(t, ast.Name) and t.id != "__all__":
                        glob[t.id] = st
        todo = []
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                cls = st if isinstance(st, ast.ClassDef) else None
                todo.extend((f, cls) for f in functions(st))
        for f, cls in todo:
            n += 1
            where = "%s:%d" % (mod.rel, f.lineno)
            qual = "%s:%s%s" % (name, cls.name + "." if cls else "", f.name)
            if only is not None and qual not in only:
                continue
            bad = []
            a = f.args
            pos = a.posonlyargs + a.args
            defaults = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults))
            defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            muts = list(mutations(f))
            again = rebound(f)
            params = {x.arg for x in pos + a.kwonlyargs}
            for arg, d in defaults.items():
                if mutable(d) and arg not in again:
                    for r, x in muts:
                        if r == arg and (only is None or any(reads(y, r) for y, _ in todo)):
                            bad.append((x.lineno, "changes its default argument %s" % arg))
            local = again | params
            globs = {g for x in ast.walk(f) if isinstance(x, ast.Global) for g in x.names}
            for g in sorted(globs):
                if (g in again or any(r == g for r, _ in muts)) and (only is None or any(reads(y, g) for y, _ in todo)):
                    bad.append((f.lineno, "rebinds the global %s" % g))
            for r, x in muts:
                if r in glob and r not in local and (only is None or any(reads(y, r) for y, _ in todo)):
                    bad.append((x.lineno, "changes the module-level container %s" % r))
            if cls is not None:
                inst = {t.attr for y in ast.walk(cls) if isinstance(y, ast.Assign) for t in y.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"}
                shared = {t.id for st in cls.body if isinstance(st, ast.Assign) and mutable(st.value) for t in st.targets if isinstance(t, ast.Name)} - inst
                for r, x in muts:
                    if r is not None and r.startswith("self.") and r[5:] in shared and (only is None or any(reads(y, r) for y, _ in todo)):
                        bad.append((x.lineno, "changes %s, a container shared by all instances" % r[5:]))
            for d in f.decorator_list:
                e = d.func if isinstance(d, ast.Call) else d
                dn = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None
                if dn in CACHES and (cls is not None or params & {"topology", "form", "diagram", "node_xyz"}):
                    bad.append((f.lineno, "caches its result (%s) although what it reads may change" % dn))
            for line, text in bad:
                ck.fail(rule, None, qual, text, where="%s:%d" % (mod.rel, line))
            if not bad and only is None:
                ck.ok("%s: %s" % (rule, qual.split(":")[1]), where)
