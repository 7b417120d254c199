"""Source model of the analysed package: modules, imports, classes, method resolution (pure ast, nothing is imported)."""
import ast
import os

PKG = "compas_cem"


class Func(object):
    def __init__(self, node, module, cls=None, prop=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.prop = prop
        self.kind = "func"
        for d in node.decorator_list:
            n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if n in ("classmethod", "staticmethod", "property", "setter", "abstractmethod", "cached_property"):
                if n != "abstractmethod":
                    self.kind = "property" if n == "cached_property" else n
            elif n is not None or not isinstance(d, ast.Name):
                self.deco = d

    @property
    def name(self):
        return self.node.name

    @property
    def qual(self):
        return "%s:%s%s" % (self.module.name, self.cls.name + "." if self.cls else "", self.node.name)

    def where(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return "%s:%d" % (self.module.rel, n.lineno)


class Class(object):
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.getters = {}
        self.setters = {}
        self.attrs = {}
        for st in _flat(node.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(st, module, self)
                if f.kind == "property":
                    self.getters[st.name] = f
                elif f.kind == "setter":
                    self.setters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value
        self._mro = None
        self.shadowed = None

    @property
    def qual(self):
        return "%s:%s" % (self.module.name, self.name)

    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.module.project.resolve_expr(self.module, b)
            if r is not None and r[0] == "class" and r[1] is self:
                # class X(X): the base is what the name meant before
                old = self.shadowed
                r = None
                if old is not None and old[0] == "from":
                    m = self.module.project.modules.get(old[1])
                    r = self.module.project.lookup(m, old[2]) if m is not None else ("ext", old[1] + "." + old[2])
                elif old is not None and old[0] == "class":
                    r = old
            out.append(r)
        return out

    def mro(self):
        """list of Class and ('ext', dotted)"""
        if self._mro is None:
            self._mro = [self]  # cycle guard
            seqs = []
            bs = []
            for b in self.bases():
                if b and b[0] == "class":
                    seqs.append(list(b[1].mro()))
                    bs.append(b[1])
                elif b and b[0] == "ext":
                    seqs.append([("ext", b[1])])
                    bs.append(("ext", b[1]))
                else:
                    seqs.append([("ext", "?")])
                    bs.append(("ext", "?"))
            seqs.append(bs)
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in o[1:] for o in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                seqs = [[x for x in s if x != c] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def find(self, name, after=None):
        """(kind, object) of attribute name along the MRO, optionally after a class."""
        m = self.mro()
        if after is not None:
            if after not in m:
                return None
            m = m[m.index(after) + 1:]
        for c in m:
            if isinstance(c, Class):
                if name in c.getters:
                    return "getter", c.getters[name]
                if name in c.methods:
                    return "method", c.methods[name]
                if name in c.attrs:
                    return "attr", (c, c.attrs[name])
            else:
                pass
        return None

    def find_setter(self, name):
        for c in self.mro():
            if isinstance(c, Class) and name in c.setters:
                return c.setters[name]
        return None

    def ext_bases(self):
        return [c[1] for c in self.mro() if not isinstance(c, Class)]

    def is_sub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<%s>" % self.qual


def _flat(body):
    for st in body:
        yield st
        if isinstance(st, ast.If):
            if _is_main(st):
                continue
            for x in _flat(st.body + st.orelse):
                yield x
        elif isinstance(st, ast.Try):
            for x in _flat(st.body + [y for h in st.handlers for y in h.body] + st.orelse + st.finalbody):
                yield x
        elif isinstance(st, (ast.With,)):
            for x in _flat(st.body):
                yield x


def _is_main(st):
    t = st.test
    return (isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__")


class Module(object):
    def __init__(self, project, name, path, rel, tree, is_pkg):
        self.project = project
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.is_pkg = is_pkg
        self.names = {}
        self.stars = []
        self.all = None
        self.allnode = None
        for st in _flat(tree.body):
            self._bind(st)

    def _abs(self, level, mod):
        if level == 0:
            return mod or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return ".".join(parts + ([mod] if mod else []))

    def _bind(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.names[st.name] = ("func", Func(st, self))
        elif isinstance(st, ast.ClassDef):
            c = Class(st, self)
            c.shadowed = self.names.get(st.name)
            self.names[st.name] = ("class", c)
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    self.names[a.asname] = ("modref", a.name)
                else:
                    self.names[a.name.split(".")[0]] = ("modref", a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            base = self._abs(st.level, st.module)
            for a in st.names:
                if a.name == "*":
                    self.stars.append(base)
                else:
                    self.names[a.asname or a.name] = ("from", base, a.name)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.names[t.id] = ("assign", st.value)
                    if t.id == "__all__":
                        self.allnode = st.value
                        if isinstance(st.value, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in st.value.elts):
                            self.all = [e.value for e in st.value.elts]
                        else:
                            self.all = None
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for e in t.elts:
                        if isinstance(e, ast.Name):
                            self.names[e.id] = ("opaque", st)
        elif isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name) and st.target.id == "__all__" and self.all is not None:
                if isinstance(st.value, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in st.value.elts):
                    self.all = self.all + [e.value for e in st.value.elts]
                else:
                    self.all = None
        elif isinstance(st, ast.AnnAssign):
            if isinstance(st.target, ast.Name) and st.value is not None:
                self.names[st.target.id] = ("assign", st.value)
        elif isinstance(st, (ast.For, ast.While)):
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.names.setdefault(n.id, ("opaque", st))

    def __repr__(self):
        return "<module %s>" % self.name


class Project(object):
    def __init__(self, root):
        """root: the repository; sources under root/src/compas_cem"""
        self.root = root
        self.src = os.path.join(root, "src")
        self.modules = {}
        self._classes, self._apart = None, {}
        self.errors = []
        for d, ds, fs in sorted(os.walk(os.path.join(self.src, PKG))):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                mod = os.path.relpath(p, self.src)[:-3].replace(os.sep, ".")
                is_pkg = False
                if mod.endswith(".__init__"):
                    mod = mod[:-9]
                    is_pkg = True
                try:
                    with open(p, encoding="utf-8") as fh:
                        tree = ast.parse(fh.read(), p)
                except SyntaxError as e:
                    self.errors.append((rel, str(e)))
                    continue
                self.modules[mod] = Module(self, mod, p, rel, tree, is_pkg)

    def all_classes(self):
        if self._classes is None:
            self._classes = [v[1] for m in self.modules.values() for v in m.names.values() if v[0] == "class"]
        return self._classes

    def definers(self, name):
        """classes of the optimisation package that define a method, most derived first"""
        out = [c for c in self.all_classes() if c.module.name.startswith("compas_cem.optimization") and name in c.methods]
        return sorted(out, key=lambda c: (-len(c.mro()), c.qual))

    def accessor(self, name):
        """method or property that returns nothing but the attribute `name`, wherever it is defined"""
        plain = name.lstrip("_")
        if plain == name:
            return None
        fs = [(f, k) for c in self.all_classes() if c.module.name.startswith("compas_cem.optimization")
              for k, tab in (("method", c.methods), ("getter", c.getters)) for n, f in tab.items() if n == plain]
        for f, k in fs:
            body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
            if not (len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute)
                    and body[0].value.attr == name and isinstance(body[0].value.value, ast.Name)):
                return None
        kinds = {k for f, k in fs}
        return (plain, kinds.pop()) if len(kinds) == 1 else None

    def apart(self, a, b):
        """no class of the project derives from both"""
        r = self._apart.get((a, b))
        if r is None:
            ca, cb = self.find(a), self.find(b)
            r = bool(ca and cb and ca[0] == cb[0] == "class" and not any(c.is_sub(ca[1]) and c.is_sub(cb[1]) for c in self.all_classes()))
            self._apart[(a, b)] = r
        return r

    # -------------------------------------------------------------- resolve
    def lookup(self, module, name, seen=None):
        """resolve a global name in module: (kind, ...) or None"""
        seen = seen or set()
        key = (module.name, name)
        if key in seen:
            return None
        seen.add(key)
        b = module.names.get(name)
        if b is None:
            for base in module.stars:
                m = self.modules.get(base)
                if m is None:
                    if not base.startswith(PKG):
                        return ("ext", base + "." + name)
                    continue
                if m.all is not None:
                    if name not in m.all:
                        continue
                elif name.startswith("_"):
                    continue
                r = self.lookup(m, name, seen)
                if r is not None:
                    return r
            sub = self.modules.get(module.name + "." + name) if module.is_pkg else None
            if sub is not None:
                return ("module", sub)
            return None
        if b[0] == "modref":
            if b[1] in self.modules:
                return ("module", self.modules[b[1]])
            if b[1].split(".")[0] == PKG:
                return None
            return ("ext", b[1])
        if b[0] == "from":
            base, n = b[1], b[2]
            m = self.modules.get(base)
            if m is None:
                if base.split(".")[0] == PKG:
                    return None
                if base == "__future__":
                    return ("ext", base + "." + n)
                return ("ext", (base + "." + n).lstrip("."))
            r = self.lookup(m, n, seen)
            if r is None and base + "." + n in self.modules:
                return ("module", self.modules[base + "." + n])
            return r
        if b[0] == "assign":
            if isinstance(b[1], (ast.Name, ast.Attribute)):
                r = self.resolve_expr(module, b[1], seen)
                if r is not None and r[0] in ("func", "class", "ext", "module"):
                    return r
            return ("value", module, b[1])
        if b[0] == "opaque":
            return ("opaque", module, name)
        return b

    def resolve_expr(self, module, e, seen=None):
        if isinstance(e, ast.Name):
            r = self.lookup(module, e.id, seen)
            if r is None:
                return ("ext", "builtins." + e.id)
            return r
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(module, e.value, seen)
            if r is None:
                return None
            if r[0] == "ext":
                return ("ext", r[1] + "." + e.attr)
            if r[0] == "module":
                return self.lookup(r[1], e.attr)
        return None

    def find(self, dotted):
        """find 'compas_cem.equilibrium.force:node_equilibrium' or ':Class.method'"""
        mod, q = dotted.split(":")
        m = self.modules.get(mod)
        if m is None:
            return None
        parts = q.split(".")
        r = self.lookup(m, parts[0])
        if r is None or len(parts) == 1:
            return r
        if r[0] != "class":
            return None
        f = r[1].find(parts[1])
        return f

    def add_spec(self, name, path):
        """reference functions (never part of the analysed program) as one more module"""
        with open(path, encoding="utf-8") as fh:
            tree = ast.parse(fh.read(), path)
        m = Module(self, name, path, path, tree, False)
        self.modules[name] = m
        return m
