"""References inside the package: imports, names, attributes, call signatures, reads before assignment (C23)."""
import ast
import builtins
import glob
import os
import re
import string
import symtable

from .project import Class, Func, Module, Project, PKG, _flat, _is_main

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__", "__class__", "ghenv", "unicode", "basestring", "xrange", "long"}
SITES = ["/opt/venv/lib/python3*/site-packages"]
PARAM_TYPES = {"topology": "compas_cem.diagrams.topology.topology:TopologyDiagram", "form": "compas_cem.diagrams.form:FormDiagram",
               "diagram": "compas_cem.diagrams.diagram:Diagram"}
OBJECT = set(dir(object)) | {"__dict__", "__module__", "__name__", "__qualname__", "__weakref__", "__mro__"}


# what compas_view2's objects (not installed here) offer to their subclasses
VIEW2 = set("""app data name parent children is_selected is_visible show_points show_lines show_faces show_edges show_nodes pointcolor linecolor facecolor pointcolors linecolors facecolors
linewidth pointsize opacity matrix translation rotation scale instance_color bounding_box bounding_box_center init update draw draw_instance create add remove delete properties visualisation otype
vertices buffer make_buffer_from_data make_buffers update_buffers network item view viewer""".split())

class Lib(object):
    """sources of installed dependencies, parsed on demand"""

    def __init__(self):
        self.mods = {}
        self.roots = [d for pat in SITES for d in glob.glob(pat)]

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        self.mods[name] = None
        if not name or name.split(".")[0] == PKG or not name.startswith("compas"):
            return None
        for r in self.roots:
            p = os.path.join(r, *name.split("."))
            for path, pkg in ((p + ".py", False), (os.path.join(p, "__init__.py"), True)):
                if os.path.exists(path):
                    try:
                        m = Module(None, name, path, path, ast.parse(open(path, encoding="utf-8").read()), pkg)
                    except (SyntaxError, UnicodeDecodeError):
                        return None
                    self.mods[name] = m
                    return m
        return None

    def lookup(self, dotted, depth=0):
        """class or function a dotted external name denotes, as ('class', Class) ..., or None"""
        if depth > 12 or "." not in dotted:
            return None
        mod, name = dotted.rsplit(".", 1)
        m = self.module(mod)
        if m is None:
            return None
        b = m.names.get(name)
        if b is None:
            for s in m.stars:
                r = self.lookup(s + "." + name, depth + 1)
                if r is not None:
                    return r
            return None
        if b[0] == "from":
            return self.lookup(b[1] + "." + b[2], depth + 1)
        if b[0] in ("class", "func"):
            return b
        return None

    def bases(self, cls):
        out = []
        for e in cls.node.bases:
            n = ast.unparse(e)
            first = n.split(".")[0]
            b = cls.module.names.get(first)
            if b is not None and b[0] == "class" and b[1] is cls:
                b = cls.shadowed
            r = None
            if b is None:
                if n in ("object", "Exception", "ValueError", "TypeError", "RuntimeError", "dict", "list"):
                    out.append(("builtin", n))
                    continue
            elif b[0] == "class" and "." not in n:
                r = b
            elif b[0] == "from":
                r = self.lookup(".".join([b[1], b[2]] + n.split(".")[1:]))
            elif b[0] == "modref":
                r = self.lookup(".".join([b[1]] + n.split(".")[1:]))
            if r is None and b is not None and b[0] == "from" and b[1].split(".")[0] in ("abc", "collections"):
                out.append(("builtin", {"ABC": "object", "OrderedDict": "dict", "MutableMapping": "dict", "Mapping": "dict", "MutableSequence": "list"}.get(b[2], "object")))
                continue
            out.append(r if r is not None and r[0] == "class" else None)
        return out


LIB = Lib()


def own_attrs(cls):
    """(names, complete) defined by the class body itself"""
    names = set(cls.methods) | set(cls.getters) | set(cls.setters) | set(cls.attrs)
    full = True
    for x in ast.walk(cls.node):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in ("self", "cls"):
            names.add(x.attr)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not cls.node:
            names.add(x.name)
            if x.name in ("__getattr__", "__getattribute__"):
                full = False
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr":
            if x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == "self":
                if len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                    names.add(x.args[1].value)
                else:
                    full = False
        elif isinstance(x, ast.Attribute) and x.attr == "__dict__" and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load):
            full = full and True
    for st in cls.node.body:
        for x in ast.walk(st) if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) else ():
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                names.update((a.asname or a.name).split(".")[0] for a in x.names)
    if cls.node.decorator_list:
        full = False
    if any(k.arg == "metaclass" and not ast.unparse(k.value).endswith("ABCMeta") for k in cls.node.keywords):
        full = False
    return names, full


_memo = {}


def attrs_of(cls):
    """(every attribute name of instances, whether that is known to be all)"""
    k = id(cls)
    if k in _memo:
        return _memo[k]
    _memo[k] = (set(), False)
    names, full = own_attrs(cls)
    names |= OBJECT
    proj = cls.module.project
    if proj is not None:
        bases = []
        for b in cls.bases():
            if b and b[0] == "class":
                bases.append(b)
            elif b and b[0] == "ext":
                n = b[1]
                if n.split(".")[-1] in ("object", "Exception", "ValueError", "TypeError", "RuntimeError", "dict", "list") and n.split(".")[0] in ("builtins", n):
                    bases.append(("builtin", n.split(".")[-1]))
                else:
                    r = LIB.lookup(n)
                    bases.append(r if r is not None and r[0] == "class" else None)
            else:
                bases.append(None)
    else:
        bases = LIB.bases(cls)
    for b in bases:
        if b is None:
            full = False
        elif b[0] == "builtin":
            names |= set(dir(getattr(builtins, b[1], object)))
        else:
            n2, f2 = attrs_of(b[1])
            names |= n2
            full = full and f2
    _memo[k] = (names, full)
    return _memo[k]


def blank_main(mod):
    """source text with the demonstration block under __main__ blanked out"""
    lines = open(mod.path, encoding="utf-8").read().split("\n")
    for st in mod.tree.body:
        if isinstance(st, ast.If) and _is_main(st):
            for i in range(st.lineno - 1, st.end_lineno):
                lines[i] = ""
    return "\n".join(lines)


def walk_live(mod):
    """(node, enclosing class name, enclosing function nodes) outside demonstration blocks"""
    def go(x, cls, fns):
        yield x, cls, fns
        for y in ast.iter_child_nodes(x):
            if isinstance(x, ast.Module) and isinstance(y, ast.If) and _is_main(y):
                continue
            if isinstance(x, ast.ClassDef):
                yield from go(y, x, fns)
            elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                outer = y in x.decorator_list or y is x.args
                yield from go(y, cls, fns if outer else fns + (x,))
            else:
                yield from go(y, cls, fns)
    yield from go(mod.tree, None, ())


class In(object):
    """a construct of a module, for the list of what was analysed"""

    def __init__(self, mod):
        self.module = mod


def iterators(ck):
    """the functions a property was read from use their iterators as the lists they are taken for"""
    by = {}
    for f in ck.functions.values():
        node = getattr(f, "node", None)
        if isinstance(node, ast.FunctionDef) and not f.module.name.startswith("spec."):
            by.setdefault(f.module, set()).add(node)
    r = Refs(ck)
    for mod in sorted(by, key=lambda m: m.name):
        r.oneshot(mod, by[mod])
    for _ in range(r.counts.get("iterators", 0)):
        ck.obligations.append(("iterators are run through once", "ok", "", ""))


class Refs(object):
    def __init__(self, ck):
        self.once_memo = {}
        self.ck, self.p = ck, ck.p
        self.counts = {}

    def ok(self, rule):
        self.counts[rule] = self.counts.get(rule, 0) + 1

    def bad(self, rule, mod, node, construct, text):
        self.ck.fail(rule, None, "%s: %s" % (mod.name, construct), text, where="%s:%d" % (mod.rel, getattr(node, "lineno", 1)))

    # ------------------------------------------------------------ imports and names
    def imports(self, mod):
        for x, cls, fns in walk_live(mod):
            if isinstance(x, ast.Import):
                for a in x.names:
                    if a.name.split(".")[0] == PKG:
                        if a.name in self.p.modules:
                            self.ok("imports resolve")
                        else:
                            self.bad("imports resolve", mod, x, "import %s" % a.name, "there is no module %s" % a.name)
            elif isinstance(x, ast.ImportFrom):
                base = mod._abs(x.level, x.module)
                if base.split(".")[0] != PKG:
                    continue
                m = self.p.modules.get(base)
                if m is None:
                    self.bad("imports resolve", mod, x, "from %s" % base, "there is no module %s" % base)
                    continue
                for a in x.names:
                    if a.name == "*":
                        self.ok("imports resolve")
                    elif self.p.lookup(m, a.name) is None and base + "." + a.name not in self.p.modules:
                        self.bad("imports resolve", mod, x, "from %s import %s" % (base, a.name), "%s has no %s" % (base, a.name))
                    elif base + "." + a.name not in self.p.modules and not self.exported(m, a.name, set()):
                        self.bad("imports resolve", mod, x, "from %s import %s" % (base, a.name), "%s has no %s" % (base, a.name))
                    else:
                        self.ok("imports resolve")
        if mod.all is not None:
            for n in mod.all:
                if self.p.lookup(mod, n) is None:
                    self.bad("imports resolve", mod, mod.allnode, "__all__ %s" % n, "__all__ lists %s, which the module does not define" % n)
                else:
                    self.ok("imports resolve")

    def exported(self, m, name, seen):
        """a name the module binds itself or receives through a star import"""
        if m.name in seen:
            return False
        seen.add(m.name)
        if name in m.names:
            return True
        for b in m.stars:
            s = self.p.modules.get(b)
            if s is None:
                return True
            if s.all is not None and name not in s.all:
                continue
            if self.exported(s, name, seen):
                return True
        return self.p.modules.get(m.name + "." + name) is not None

    def names(self, mod):
        src = blank_main(mod)
        try:
            top = symtable.symtable(src, mod.path, "exec")
        except SyntaxError:
            return
        ext_star = any(b.split(".")[0] != PKG for b in mod.stars)
        known = {}

        def resolves(n):
            if n not in known:
                known[n] = n in BUILTINS or n in bound or self.exported(mod, n, set()) or ext_star
            return known[n]
        bound = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        # names a function declares global and assigns
        for x, cls, fns in walk_live(mod):
            if isinstance(x, ast.Global):
                bound.update(x.names)

        def go(t, path):
            for s in t.get_symbols():
                n = s.get_name()
                if not s.is_referenced():
                    continue
                isglob = s.is_global() if t.get_type() != "module" else not (s.is_assigned() or s.is_imported() or s.is_namespace())
                if not isglob:
                    continue
                if resolves(n):
                    self.ok("names resolve")
                else:
                    node = next((x for x, _, _ in walk_live(mod) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load)), None)
                    self.bad("names resolve", mod, node, ".".join(path) + " " + n, "the name %s is not defined" % n)
            for c in t.get_children():
                go(c, path + [c.get_name()])
        go(top, [])

    # ------------------------------------------------------------ attributes and calls
    def typer(self, mod, cls, fns):
        """function: expression -> Class of its value, if known"""
        env = {}
        f = fns[-1] if fns else None
        if f is not None:
            top = fns[0]
            args = top.args.posonlyargs + top.args.args + top.args.kwonlyargs
            stores = {}
            for x in ast.walk(top):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    stores[x.id] = stores.get(x.id, 0) + 1
            for a in args:
                if a.arg in PARAM_TYPES and a.arg not in stores:
                    r = self.p.find(PARAM_TYPES[a.arg])
                    if r is not None and r[0] == "class":
                        env[a.arg] = r[1]
            for x in ast.walk(top):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and stores.get(x.targets[0].id) == 1 and x.targets[0].id not in {a.arg for a in args}:
                    c = self.value_class(mod, top, x.value)
                    if c is not None:
                        env[x.targets[0].id] = c
            if cls is not None and args and args[0].arg == "self" and not any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in top.decorator_list):
                r = self.p.lookup(mod, cls.name)
                if r is not None and r[0] == "class" and r[1].node is cls:
                    env["self"] = r[1]
        return env

    def local_imports(self, mod, fns):
        out = {}
        for f in fns:
            for x in ast.walk(f):
                if isinstance(x, ast.ImportFrom):
                    base = mod._abs(x.level, x.module)
                    for a in x.names:
                        out[a.asname or a.name] = (base, a.name)
        return out

    def resolve(self, mod, fns, e):
        """('func'|'class'|'module', object) an expression denotes, through imports"""
        if isinstance(e, ast.Name):
            for f in reversed(fns):
                args = f.args.posonlyargs + f.args.args + f.args.kwonlyargs
                if e.id in {a.arg for a in args} or f.args.vararg and f.args.vararg.arg == e.id or f.args.kwarg and f.args.kwarg.arg == e.id:
                    return None
                for x in ast.walk(f):
                    if isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store):
                        return None
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == e.id and x is not f:
                        return None
            li = self.local_imports(mod, fns)
            if e.id in li:
                base, n = li[e.id]
                m = self.p.modules.get(base)
                if m is not None:
                    r = self.p.lookup(m, n)
                    return r if r is not None else (("module", self.p.modules[base + "." + n]) if base + "." + n in self.p.modules else None)
                return ("ext", base + "." + n)
            return self.p.lookup(mod, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve(mod, fns, e.value)
            if r is not None and r[0] == "module":
                return self.p.lookup(r[1], e.attr)
            if r is not None and r[0] == "ext":
                return ("ext", r[1] + "." + e.attr)
        return None

    def value_class(self, mod, top, v):
        if isinstance(v, ast.Call):
            r = self.resolve(mod, (top,), v.func)
            if r is not None and r[0] == "class":
                return r[1]
        return None

    def uses(self, mod):
        envs = {}
        for x, cls, fns in walk_live(mod):
            key = (id(cls), id(fns[0])) if fns else None
            if key is not None and key not in envs:
                envs[key] = self.typer(mod, cls, fns)
            env = envs.get(key, {})
            if isinstance(x, ast.Attribute):
                self.attribute(mod, cls, fns, env, x)
            if isinstance(x, ast.Call):
                self.call(mod, cls, fns, env, x)

    def attribute(self, mod, cls, fns, env, x):
        v = x.value
        if isinstance(v, ast.Name) and v.id in env:
            c = env[v.id]
            names, full = attrs_of(c)
            if x.attr in names:
                if isinstance(x.ctx, ast.Store):
                    r = c.find(x.attr)
                    if r is not None and r[0] == "getter" and c.find_setter(x.attr) is None:
                        self.bad("attributes exist", mod, x, "%s.%s" % (v.id, x.attr), "%s.%s is a read-only property but is assigned" % (c.name, x.attr))
                        return
                self.ok("attributes exist")
            elif isinstance(x.ctx, ast.Store) and v.id != "self":
                self.ok("attributes exist")
            elif full:
                if self.subclass_has(c, x.attr) or v.id == "form" and self.topology_has(x.attr):
                    return
                self.bad("attributes exist", mod, x, "%s.%s" % (v.id, x.attr), "%s has no attribute %s" % (c.name, x.attr))
            elif self.view2(c) and x.attr not in VIEW2 and not self.subclass_has(c, x.attr):
                self.bad("attributes exist", mod, x, "%s.%s" % (v.id, x.attr), "neither %s nor the viewer object it extends has an attribute %s" % (c.name, x.attr))
            return
        if isinstance(v, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load):
            r = self.resolve(mod, fns, v)
            if r is not None and r[0] == "module" and r[1].name.split(".")[0] == PKG:
                if self.p.lookup(r[1], x.attr) is None and r[1].name + "." + x.attr not in self.p.modules and not (x.attr.startswith("__") and x.attr.endswith("__")):
                    self.bad("attributes exist", mod, x, ast.unparse(x), "module %s has no %s" % (r[1].name, x.attr))
                else:
                    self.ok("attributes exist")
            elif r is not None and r[0] == "class":
                names, full = attrs_of(r[1])
                if x.attr in names:
                    self.ok("attributes exist")
                elif full:
                    self.bad("attributes exist", mod, x, ast.unparse(x), "class %s has no attribute %s" % (r[1].name, x.attr))

    def view2(self, c):
        """every base that could not be read is a viewer object"""
        ext = [b[1] for b in c.mro() if not isinstance(b, Class)]
        return bool(ext) and all(e.startswith("compas_view2.objects") or e == "builtins.object" for e in ext)

    def topology_has(self, attr):
        """the helpers of form-finding take either diagram under the name form"""
        r = self.p.find(PARAM_TYPES["topology"])
        return r is not None and r[0] == "class" and attr in attrs_of(r[1])[0]

    def subclass_has(self, c, attr):
        """a base class may rely on what every subclass provides"""
        for m in self.p.modules.values():
            for b in m.names.values():
                if b[0] == "class" and b[1] is not c and c in b[1].mro() and attr in attrs_of(b[1])[0]:
                    return True
        return False

    def target(self, mod, cls, fns, env, f):
        """(Func, number of leading arguments bound by the call form, description)"""
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Name) and v.id in env:
                r = env[v.id].find(f.attr)
                if r is not None and r[0] == "method" and self.first(env[v.id], f.attr, r[1]):
                    if placeholder(r[1].node):
                        return None
                    return r[1], 0 if r[1].kind == "staticmethod" else 1
                return None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and cls is not None and env.get("self") is not None:
                c = env["self"]
                r = c.find(f.attr, after=c)
                if r is not None and r[0] == "method" and self.first(c, f.attr, r[1], after=c):
                    return r[1], 0 if r[1].kind == "staticmethod" else 1
                return None
        r = self.resolve(mod, fns, f)
        if r is None and isinstance(f, ast.Attribute):
            rc = self.resolve(mod, fns, f.value)
            if rc is not None and rc[0] == "class":
                r2 = rc[1].find(f.attr)
                if r2 is not None and r2[0] == "method":
                    return r2[1], 1 if r2[1].kind == "classmethod" else 0
            return None
        if r is None:
            return None
        if r[0] == "func":
            return r[1], 0
        if r[0] == "class":
            q = r[1].find("__init__")
            n = r[1].find("__new__")
            if n is None and q is not None and q[0] == "method" and self.first(r[1], "__init__", q[1]):
                return q[1], 1
        return None

    def lib_target(self, mod, cls, fns, env, f):
        """(Func of an installed library, number of leading arguments bound by the call form)"""
        if isinstance(f, ast.Attribute):
            v = f.value
            c = after = None
            if isinstance(v, ast.Name) and v.id in env:
                c = env[v.id]
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and cls is not None and env.get("self") is not None:
                c = after = env["self"]
            if c is not None:
                m = self.lib_method(c, f.attr, after)
                return (m, 0 if m.kind == "staticmethod" else 1) if m is not None else None
        r = self.resolve(mod, fns, f)
        if r is not None and r[0] == "ext":
            q = LIB.lookup(r[1])
            if q is not None and q[0] == "func":
                return q[1], 0
        return None

    def lib_method(self, cls, name, after=None):
        """the library method a package class inherits, when nothing earlier in its resolution order could define the name"""
        m = cls.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if isinstance(c, Class):
                if name in own_attrs(c)[0]:
                    return None
                continue
            r = LIB.lookup(c[1]) if isinstance(c, tuple) else None
            if r is None or r[0] != "class":
                if isinstance(c, tuple) and c[1] == "builtins.object":
                    continue
                return None
            seen = []
            todo = [r[1]]
            while todo:
                k = todo.pop(0)
                if k in seen:
                    continue
                seen.append(k)
                if name in k.methods:
                    return k.methods[name]
                if name in own_attrs(k)[0]:
                    return None
                for b in LIB.bases(k):
                    if b is None:
                        return None
                    if b[0] == "class":
                        todo.append(b[1])
        return None

    def first(self, cls, name, func, after=None):
        """no external class earlier in the method resolution order could define it"""
        m = cls.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if isinstance(c, Class):
                if name in c.methods:
                    return c.methods[name] is func
            else:
                r = LIB.lookup(c[1]) if isinstance(c, tuple) else None
                if r is None or r[0] != "class":
                    if isinstance(c, tuple) and c[1] == "builtins.object":
                        continue
                    return False
                if name in own_attrs(r[1])[0]:
                    return False
        return False

    def call(self, mod, cls, fns, env, x):
        t = None
        extra = 0
        args, kws = x.args, x.keywords
        partial = False
        if isinstance(x.func, ast.Name) and x.func.id == "partial" and x.args:
            t = self.target(mod, cls, fns, env, x.args[0])
            args, partial = x.args[1:], True
        else:
            t = self.target(mod, cls, fns, env, x.func)
            if t is None:
                t = self.lib_target(mod, cls, fns, env, x.func)
                if t is not None and [d for d in t[0].node.decorator_list if not (isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "abstractmethod"))]:
                    t = None
        if t is None or getattr(t[0], "deco", None) is not None:
            return
        fo, skip = t
        a = fo.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        if len(pos) < skip:
            return
        pos = pos[skip:]
        ndef = len(a.defaults)
        required = pos[:len(pos) - ndef] if ndef <= len(pos) else []
        kwonly = [p.arg for p in a.kwonlyargs]
        reqkw = [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        star = any(isinstance(y, ast.Starred) for y in args)
        dstar = any(k.arg is None for k in kws)
        given = [y for y in args if not isinstance(y, ast.Starred)]
        what = ast.unparse(x.func if not partial else x.args[0])
        msg = None
        if len(given) > len(pos) and a.vararg is None:
            msg = "%d positional arguments where %s takes %d" % (len(given), fo.name, len(pos))
        names = [k.arg for k in kws if k.arg is not None]
        for k in names:
            if k not in pos and k not in kwonly and a.kwarg is None:
                msg = "%s has no parameter %s" % (fo.name, k)
            elif not star and k in pos[:len(given)]:
                msg = "%s gets its parameter %s twice" % (fo.name, k)
        if not star and not dstar and not partial and msg is None:
            miss = [p for p in required[len(given):] if p not in names] + [p for p in reqkw if p not in names]
            if miss:
                msg = "%s is not given its parameter %s" % (fo.name, miss[0])
        if msg is None:
            self.ok("calls fit signatures")
        else:
            self.bad("calls fit signatures", mod, x, "call of %s in %s" % (what, ".".join(f.name for f in fns) or "module"), msg)

    # ------------------------------------------------------------ iterators
    def oneshot(self, mod, only=None):
        """iterators that can be run through once are not measured, indexed, tested or run through twice"""
        for x, cls, fns in walk_live(mod):
            if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            if only is not None and not any(f in only for f in tuple(fns) + (x,)):
                continue
            inner = tuple(fns) + (x,)
            where = ".".join(f.name for f in inner)
            for what, node in misused(x, self.once_in(mod, cls, inner)):
                self.bad("iterators", mod, node, "%s in %s" % (ast.unparse(node)[:80], where), "%s can be run through only once, yet it is %s" % (ast.unparse(node)[:80], what))
            for name, node in late(x, self.once_in(mod, cls, inner)):
                self.bad("iterators", mod, node, "%s in %s" % (ast.unparse(node)[:80], where), "%s reads %s when it is run through, after the loop has given %s its next value" % (ast.unparse(node)[:80], name, name))
            for name, node in disturbed(x):
                self.bad("iterators", mod, node, "%s in %s" % (ast.unparse(node)[:80], where), "%s is changed while a loop runs through it" % name)
            self.ok("iterators")

    def once_in(self, mod, cls, inner):
        env = self.typer(mod, cls, inner)

        def once(e):
            if isinstance(e, ast.GeneratorExp):
                return True
            if isinstance(e, ast.IfExp):
                return once(e.body) and once(e.orelse)
            if isinstance(e, ast.Call):
                if isinstance(e.func, ast.Name) and e.func.id in ("map", "filter", "zip", "iter", "reversed", "enumerate") and self.resolve(mod, inner, e.func) is None:
                    return True
                t = self.target(mod, cls, inner, env, e.func) or self.lib_target(mod, cls, inner, env, e.func)
                return t is not None and self.gives_once(t[0])
            return False
        return once

    def gives_once(self, fo):
        """whether calling it gives an iterator that can be run through once"""
        node = fo.node
        if not isinstance(node, ast.FunctionDef) or [d for d in node.decorator_list if not (isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod"))]:
            return False
        if id(node) in self.once_memo:
            return self.once_memo[id(node)]
        self.once_memo[id(node)] = False
        if generates(node):
            r = True
        elif fo.module.project is None:
            r = False
        else:
            once = self.once_in(fo.module, fo.cls.node if fo.cls is not None else None, (node,))
            rets = [y for y in own_nodes(node) if isinstance(y, ast.Return)]
            r = bool(rets) and isinstance(node.body[-1], ast.Return) and all(y.value is not None and once(y.value) for y in rets)
        self.once_memo[id(node)] = r
        return r

    # ------------------------------------------------------------ text templates
    def templates(self, mod):
        """every placeholder of a text template is given a value"""
        for x, cls, fns in walk_live(mod):
            if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            texts = {}
            for y in own_nodes(x):
                for t in (y.targets if isinstance(y, ast.Assign) else [y.target] if isinstance(y, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)) else ()):
                    for z in ast.walk(t):
                        if isinstance(z, ast.Name):
                            texts.setdefault(z.id, []).append(y.value if isinstance(y, ast.Assign) and z is t else None)
            args = {a.arg for a in x.args.posonlyargs + x.args.args + x.args.kwonlyargs}
            near = {}
            for y in [x] + list(own_nodes(x)):
                for block in (getattr(y, "body", None), getattr(y, "orelse", None), getattr(y, "finalbody", None)):
                    if not isinstance(block, list):
                        continue
                    last = {}
                    for st in block:
                        if isinstance(st, (ast.Expr, ast.Assign, ast.Return, ast.Raise)):
                            for z in ast.walk(st):
                                if isinstance(z, ast.Name) and last.get(z.id) is not None:
                                    near[z] = last[z.id]
                        for z in ast.walk(st):
                            if isinstance(z, ast.Name) and isinstance(z.ctx, (ast.Store, ast.Del)):
                                last[z.id] = None
                        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                            last[st.targets[0].id] = st.value

            def text(e):
                if near.get(e) is not None:
                    return near[e].value if isinstance(near[e], ast.Constant) and isinstance(near[e].value, str) else None
                if isinstance(e, ast.Constant) and isinstance(e.value, str):
                    return e.value
                if isinstance(e, ast.Name) and e.id not in args and len(texts.get(e.id, ())) == 1:
                    v = texts[e.id][0]
                    return v.value if isinstance(v, ast.Constant) and isinstance(v.value, str) else None
                return None
            for y in own_nodes(x):
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "format" and text(y.func.value) is not None:
                    if any(isinstance(a, ast.Starred) for a in y.args) or any(k.arg is None for k in y.keywords):
                        continue
                    lack = unfilled(text(y.func.value), len(y.args), {k.arg for k in y.keywords})
                elif isinstance(y, ast.BinOp) and isinstance(y.op, ast.Mod) and text(y.left) is not None and isinstance(y.right, ast.Tuple) and not any(isinstance(a, ast.Starred) for a in y.right.elts):
                    want = len(re.findall(r"%(?:[-+ #0]*\d*(?:\.\d+)?[a-zA-Z])", text(y.left).replace("%%", "")))
                    lack = None if "%(" in text(y.left) or "*" in text(y.left) or want == len(y.right.elts) else "%d values for %d places" % (len(y.right.elts), want)
                else:
                    continue
                if lack:
                    self.bad("text templates", mod, y, "%s in %s" % (ast.unparse(y)[:80], x.name), "the text template lacks a value for a place: %s" % lack)
                else:
                    self.ok("text templates")

    # ------------------------------------------------------------ reads before assignment
    def assigned(self, mod):
        for x, cls, fns in walk_live(mod):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for v, node in Assigned(x).run():
                    self.bad("assigned before read", mod, node, "%s in %s" % (v, x.name), "%s can be read before anything is assigned to it" % v)
                self.ok("assigned before read")
                self.ck.functions["%s:%s" % (mod.name, ".".join(([cls.name] if cls is not None and not fns else []) + [f.name for f in fns] + [x.name]))] = In(mod)


def disturbed(fn):
    """(collection, statement) taken out of or put into a collection inside a loop running through that same collection, which then goes on"""
    for loop in own_nodes(fn):
        if not isinstance(loop, ast.For):
            continue
        it = loop.iter
        while isinstance(it, ast.Call) and (isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "iter", "reversed") and it.args or isinstance(it.func, ast.Attribute) and it.func.attr in ("items", "keys", "values") and not it.args):
            it = it.args[0] if isinstance(it.func, ast.Name) else it.func.value
        if not isinstance(it, (ast.Name, ast.Attribute, ast.Subscript)):
            continue
        what = ast.unparse(it)
        if isinstance(it, ast.Name) and any(isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == it.id for st in loop.body for y in ast.walk(st)):
            continue

        def blocks(body):
            leaves = bool(body) and isinstance(body[-1], (ast.Break, ast.Return, ast.Raise))
            for st in body:
                subs = [getattr(st, f) for f in ("body", "orelse", "finalbody") if isinstance(getattr(st, f, None), list)] + [h.body for h in getattr(st, "handlers", [])]
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    continue
                if subs:
                    for b in subs:
                        yield from blocks(b)
                elif not leaves:
                    yield st
        for st in blocks(loop.body):
            for y in ast.walk(st):
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("remove", "pop", "popitem", "clear", "insert", "discard", "reverse", "sort") and ast.unparse(y.func.value) == what:
                    yield what, st
                elif isinstance(y, ast.Delete) and any(isinstance(t, ast.Subscript) and ast.unparse(t.value) == what for t in y.targets):
                    yield what, st


def late(fn, once):
    """(variable, generator expression) handed out of a loop that goes on to change a variable the expression has yet to read"""
    for loop in own_nodes(fn):
        if not isinstance(loop, (ast.For, ast.While)):
            continue
        body = [y for st in loop.body for y in [st] + list(own_nodes(st))]
        changed = {y.id for y in (list(ast.walk(loop.target)) if isinstance(loop, ast.For) else []) + body if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        kept = []
        for y in body:
            if isinstance(y, ast.Yield) and y.value is not None:
                kept.append(y.value)
            elif isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("append", "add", "setdefault", "insert"):
                kept.extend(y.args)
            elif isinstance(y, ast.Assign) and any(isinstance(t, ast.Subscript) for t in y.targets):
                kept.append(y.value)
        names = {n.id for k in kept for n in ([k] + list(k.elts) if isinstance(k, ast.Tuple) else [k]) if isinstance(n, ast.Name)}
        for y in body:
            if isinstance(y, ast.Assign) and len(y.targets) == 1 and isinstance(y.targets[0], ast.Name) and y.targets[0].id in names:
                if sum(isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store) and z.id == y.targets[0].id for z in body) == 1:
                    kept.append(y.value)
        for k in kept:
            for g in list(k.elts) if isinstance(k, ast.Tuple) else [k]:
                if not isinstance(g, ast.GeneratorExp):
                    if isinstance(g, ast.Call) and once(g):
                        defs = {d.name: d for st in loop.body for d in ast.walk(st) if isinstance(d, ast.FunctionDef)}
                        for a in g.args + [w.value for w in g.keywords]:
                            f = a if isinstance(a, ast.Lambda) else defs.get(a.id) if isinstance(a, ast.Name) else None
                            if f is None:
                                continue
                            ps = {p.arg for p in f.args.args + f.args.kwonlyargs}
                            parts = f.body if isinstance(f.body, list) else [f.body]
                            mine = ps | {n.id for e in parts for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                            for name in sorted({n.id for e in parts for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} & changed - mine):
                                yield name, g
                    continue
                own = {n.id for c in g.generators for n in ast.walk(c.target) if isinstance(n, ast.Name)}
                parts = [g.elt] + [i for c in g.generators for i in c.ifs] + [c.iter for c in g.generators[1:]]
                read = {n.id for e in parts for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} - own
                for name in sorted(read & changed):
                    yield name, g


def own_nodes(x, top=True):
    """nodes of a function itself, without those of functions inside it"""
    for y in ast.iter_child_nodes(x):
        if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield y
        yield from own_nodes(y)


def generates(fnode):
    return isinstance(fnode, ast.FunctionDef) and any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in own_nodes(fnode))


CONSUME = {"list", "tuple", "set", "frozenset", "sorted", "sum", "max", "min", "dict", "any", "all", "zip", "enumerate", "map", "filter"}


def misused(fn, once):
    """(what, node) for iterators in fn that are used as if they were collections"""
    shots, other = {}, set()
    for y in own_nodes(fn):
        if isinstance(y, ast.Assign) and len(y.targets) == 1 and isinstance(y.targets[0], ast.Name):
            if once(y.value):
                shots.setdefault(y.targets[0].id, []).append(y)
            else:
                other.add(y.targets[0].id)
        elif isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
            pass
    stores = {}
    for y in ast.walk(fn):
        if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)):
            stores[y.id] = stores.get(y.id, 0) + 1
    params = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    single = {v: a[0] for v, a in shots.items() if len(a) == 1 and stores.get(v) == 1 and v not in params}

    def shot(e):
        return once(e) or isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and e.id in single

    for y in own_nodes(fn):
        if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "len" and len(y.args) == 1 and shot(y.args[0]):
            yield "measured", y.args[0]
        if isinstance(y, ast.Subscript) and shot(y.value):
            yield "indexed", y.value
        if isinstance(y, (ast.If, ast.While, ast.IfExp)) and shot(y.test):
            yield "tested for being empty", y.test
        if isinstance(y, ast.UnaryOp) and isinstance(y.op, ast.Not) and shot(y.operand):
            yield "tested for being empty", y.operand
        if isinstance(y, ast.BoolOp):
            for v in y.values[:-1]:
                if shot(v):
                    yield "tested for being empty", v
        if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "bool" and y.args and shot(y.args[0]):
            yield "tested for being empty", y.args[0]
    # run through twice on one path
    for v, a in single.items():
        found = []

        def consumed(e):
            return isinstance(e, ast.Name) and e.id == v and isinstance(e.ctx, ast.Load)

        def uses(e):
            """consuming occurrences in an expression, in no particular order; (node, repeated)"""
            out = []

            def go(z, rep):
                if isinstance(z, (ast.FunctionDef, ast.Lambda)):
                    return
                if isinstance(z, ast.IfExp):
                    go(z.test, rep)
                    a1, a2 = len(out), None
                    go(z.body, rep)
                    mid = len(out)
                    go(z.orelse, rep)
                    # only one of the two runs
                    n1, n2 = out[a1:mid], out[mid:]
                    del out[a1:]
                    out.extend(n1 if len(n1) >= len(n2) else n2)
                    return
                if isinstance(z, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    for i, g in enumerate(z.generators):
                        if consumed(g.iter):
                            out.append((g.iter, rep or i > 0))
                        else:
                            go(g.iter, rep or i > 0)
                        for c in g.ifs:
                            go(c, True)
                    for c in ([z.key, z.value] if isinstance(z, ast.DictComp) else [z.elt]):
                        go(c, True)
                    return
                if isinstance(z, ast.Call):
                    if isinstance(z.func, ast.Name) and z.func.id in CONSUME or isinstance(z.func, ast.Attribute) and z.func.attr in ("join", "extend"):
                        for g in z.args:
                            if consumed(g):
                                out.append((g, rep))
                    for g in z.args:
                        if isinstance(g, ast.Starred) and consumed(g.value):
                            out.append((g.value, rep))
                if isinstance(z, ast.Compare):
                    for o, g in zip(z.ops, z.comparators):
                        if isinstance(o, (ast.In, ast.NotIn)) and consumed(g):
                            out.append((g, rep))
                for c in ast.iter_child_nodes(z):
                    go(c, rep)
            go(e, False)
            return out

        def expr(e, n, loop):
            if e is None:
                return n
            for node, rep in uses(e):
                if (n or rep or loop) and not found:
                    found.append(node)
                n = 1
            return n

        # n: consumed before on some path; None: no path gets here
        def block(body, n, loop):
            for st in body:
                if n is None:
                    return None
                n = stmt(st, n, loop)
            return n

        def both(p, q):
            return q if p is None else p if q is None else max(p, q)

        def stmt(st, n, loop):
            if st is a:
                return 0
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                return n
            if isinstance(st, ast.If):
                n = expr(st.test, n, loop)
                return both(block(st.body, n, loop), block(st.orelse, n, loop))
            if isinstance(st, (ast.For, ast.While)):
                if isinstance(st, ast.For):
                    if consumed(st.iter):
                        if (n or loop) and not found:
                            found.append(st.iter)
                        n = 1
                    else:
                        n = expr(st.iter, n, loop)
                inside = any(y is a for y in ast.walk(st))
                leaves = any(isinstance(y, (ast.Break, ast.Return)) for b in st.body for y in ast.walk(b))
                m = block(st.body, n, (loop if inside else True) and not leaves if not inside else False)
                if isinstance(st, ast.While):
                    m = both(m, expr(st.test, n, loop or not inside))
                return block(st.orelse, both(n, m), loop) if st.orelse else both(n, m)
            if isinstance(st, ast.Try):
                m = block(st.body, n, loop)
                for h in st.handlers:
                    m = both(m, block(h.body, n, loop))
                return block(st.finalbody, both(m, n), loop) if st.finalbody else m
            if isinstance(st, ast.With):
                return block(st.body, n, loop)
            for e in ast.iter_child_nodes(st):
                if isinstance(e, ast.expr):
                    n = expr(e, n, loop)
            if isinstance(st, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                return None
            return n
        block(fn.body, 0, False)
        for node in found:
            yield "run through again", node


NEGOP = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
CAP = 200


def literals(test, pol):
    """list of (text, polarity) implied by test being pol, for what can be said without case distinction"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return literals(test.operand, not pol)
    if isinstance(test, ast.BoolOp):
        if isinstance(test.op, ast.And) == pol:
            return [l for v in test.values for l in literals(v, pol)]
        return []
    if isinstance(test, ast.Constant):
        return [("%r" % bool(test.value), pol)]
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op = test.ops[0]
        if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(test.left, ast.Constant) and not isinstance(test.comparators[0], ast.Constant):
            test = ast.Compare(test.comparators[0], [op], [test.left])
        if type(op) in NEGOP:
            t = ast.Compare(test.left, [NEGOP[type(op)]()], test.comparators)
            return [(ast.unparse(t), not pol)]
    return [(ast.unparse(test), pol)]


def contradicts(path):
    d = {}
    for t, p in path:
        if d.setdefault(t, p) != p:
            return True
    if d.get("True") is False or d.get("False") is True:
        return True
    # finite domains
    eqs, ins = {}, {}
    for t, p in path:
        try:
            e = ast.parse(t, mode="eval").body
        except SyntaxError:
            continue
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r = ast.unparse(e.left), e.comparators[0]
            if isinstance(e.ops[0], ast.Eq) and isinstance(r, ast.Constant):
                eqs.setdefault(l, []).append((r.value, p))
            if isinstance(e.ops[0], ast.In) and isinstance(r, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(c, ast.Constant) for c in r.elts):
                ins.setdefault(l, []).append(({c.value for c in r.elts}, p))
    for l, vs in eqs.items():
        true = {v for v, p in vs if p}
        false = {v for v, p in vs if not p}
        if len(true) > 1:
            return True
        if len(false) > 1 and not true:
            return True     # two or more options of one value: taken to cover all cases
        for s, p in ins.get(l, []):
            if p and (s <= false or true and not (true & s)):
                return True
            if not p and true & s:
                return True
    return False


def placeholder(fn):
    """a method that only subclasses give a body to, and perhaps further parameters"""
    body = [x for x in fn.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    if len(body) > 1:
        return False
    if not body or isinstance(body[0], ast.Pass):
        return any("abstract" in ast.unparse(d) for d in fn.decorator_list)
    return isinstance(body[0], ast.Raise) and body[0].exc is not None and "NotImplementedError" in ast.unparse(body[0].exc)


class Assigned(object):
    """per local name: is there a path to a read with no assignment (loops over collections run at least once)"""

    def __init__(self, fn):
        self.fn = fn
        a = fn.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())

    def own(self, x):
        """nodes of the function itself, not of nested scopes"""
        yield x
        for y in ast.iter_child_nodes(x):
            if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                yield y
                continue
            yield from self.own(y)

    def run(self):
        stores, skip = set(), set()
        for st in self.fn.body:
            for x in self.own(st):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    stores.add(x.id)
                elif isinstance(x, (ast.Global, ast.Nonlocal)):
                    skip.update(x.names)
                elif isinstance(x, ast.comprehension):
                    skip.update(y.id for y in ast.walk(x.target) if isinstance(y, ast.Name))
                elif isinstance(x, (ast.NamedExpr, ast.Delete, ast.Match)):
                    skip.update(y.id for y in ast.walk(x) if isinstance(y, ast.Name))
                elif isinstance(x, ast.Name) and x.id in ("locals", "exec", "eval"):
                    return
        for v in sorted(stores - self.params - skip):
            self.v, self.found, self.over = v, None, False
            self.loops = []
            self.block(self.fn.body, [frozenset()])
            if self.found is not None and not self.over:
                yield v, self.found

    # expressions: reads of v under the given paths
    def reads(self, e, paths):
        if not paths or e is None:
            return
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return
        if isinstance(e, ast.IfExp):
            self.reads(e.test, paths)
            self.reads(e.body, self.assume(paths, e.test, True))
            self.reads(e.orelse, self.assume(paths, e.test, False))
            return
        if isinstance(e, ast.BoolOp):
            p = paths
            for x in e.values:
                self.reads(x, p)
                p = self.assume(p, x, isinstance(e.op, ast.And))
            return
        if isinstance(e, ast.Name):
            if e.id == self.v and isinstance(e.ctx, ast.Load) and self.found is None and not self.carried():
                self.found = e
            return
        for y in ast.iter_child_nodes(e):
            self.reads(y, paths)

    def carried(self):
        """inside a loop that assigns v itself, below a condition: may be a value of the previous round"""
        return any(has and cond for has, cond in self.loops)

    def assume(self, paths, test, pol):
        ls = literals(test, pol)
        out = []
        for p in paths:
            q = p | frozenset(ls)
            if not contradicts(q):
                out.append(q)
        return out

    def kill(self, paths, names):
        if not names:
            return paths
        out = []
        for p in paths:
            q = frozenset(l for l in p if not (names & {y.id for y in ast.walk(ast.parse(l[0], mode="eval")) if isinstance(y, ast.Name)}))
            out.append(q)
        return list(dict.fromkeys(out))

    def targets(self, t):
        return {y.id for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}

    def cap(self, paths):
        paths = list(dict.fromkeys(paths))
        if len(paths) > CAP:
            self.over = True
            return []
        return paths

    def block(self, body, paths):
        """paths on which v is still unassigned after body; self.brk/cont collect those of jumps"""
        for st in body:
            if not paths:
                return []
            paths = self.cap(self.stmt(st, paths))
        return paths

    def dispatch(self, s, paths, least=2):
        """two or more alternatives without an else that all assign v: taken to cover all cases

        an alternative may itself be such a list of alternatives, one included"""
        keep, loops = self.found, list(self.loops)
        n = 0
        ok = True
        while ok:
            n += 1
            left = self.block(s.body[:-1], paths)
            ok = not self.block(s.body[-1:], left) or isinstance(s.body[-1], ast.If) and self.dispatch(s.body[-1], left, 1)
            ok = ok and any(isinstance(x, ast.Name) and x.id == self.v and isinstance(x.ctx, ast.Store) for y in s.body for x in self.own(y))
            if not s.orelse:
                break
            ok = ok and len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)
            s = s.orelse[0]
        self.found, self.loops = keep, loops
        return ok and n >= least

    def store(self, paths, names):
        if self.v in names:
            return []
        return self.kill(paths, names)

    def nested(self, body, paths, brk, cont, cond=False):
        return self.block(body, paths)

    def stmt(self, s, paths):
        if isinstance(s, ast.Assign):
            self.reads(s.value, paths)
            for t in s.targets:
                self.reads(t, paths)
            return self.store(paths, set().union(*[self.targets(t) for t in s.targets]))
        if isinstance(s, ast.AugAssign):
            self.reads(s.value, paths)
            if isinstance(s.target, ast.Name):
                if s.target.id == self.v and self.found is None and paths and not self.carried():
                    self.found = s.target
                return self.store(paths, {s.target.id})
            self.reads(s.target, paths)
            return paths
        if isinstance(s, ast.AnnAssign):
            self.reads(s.value, paths)
            return self.store(paths, self.targets(s.target)) if s.value is not None else paths
        if isinstance(s, ast.Return):
            self.reads(s.value, paths)
            return []
        if isinstance(s, ast.Raise):
            self.reads(s.exc, paths)
            return []
        if isinstance(s, ast.Assert):
            self.reads(s.test, paths)
            return self.assume(paths, s.test, True)
        if isinstance(s, ast.If):
            self.reads(s.test, paths)
            if self.loops:
                self.loops[-1], old = (self.loops[-1][0], True), self.loops[-1]
            a = self.block(s.body, self.assume(paths, s.test, True))
            b = self.block(s.orelse, self.assume(paths, s.test, False))
            if self.loops:
                # a condition that may have left the iteration makes what follows conditional too
                left = any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(s))
                self.loops[-1] = (old[0], old[1] or left)
            if b and not a and self.dispatch(s, paths):
                return []
            return a + b
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            w = isinstance(s, ast.While)
            self.reads(s.test if w else s.iter, paths)
            inside = set()
            for x in s.body:
                for y in self.own(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        inside.add(y.id)
            if not w:
                inside |= self.targets(s.target)
            p = self.kill(paths, inside - {self.v})
            forever = w and isinstance(s.test, ast.Constant) and s.test.value
            entry = p
            if not w and self.v in self.targets(s.target):
                p = []
            if w:
                p = self.assume(p, s.test, True)
            saved = getattr(self, "jumps", None)
            self.jumps = dict(brk=[], cont=[])
            self.loops.append((self.v in inside, False))
            out = self.block(s.body, p)
            self.loops.pop()
            j, self.jumps = self.jumps, saved
            end = out + j["cont"]
            if w and not forever:
                end = end + self.assume(entry, s.test, False)
            if forever:
                end = []
            end = self.block(s.orelse, self.kill(end, inside)) if s.orelse else end
            return self.cap(self.kill(end + j["brk"], inside))
        if isinstance(s, ast.Break):
            if getattr(self, "jumps", None) is not None:
                self.jumps["brk"].extend(paths)
            return []
        if isinstance(s, ast.Continue):
            if getattr(self, "jumps", None) is not None:
                self.jumps["cont"].extend(paths)
            return []
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.reads(i.context_expr, paths)
                if i.optional_vars is not None:
                    paths = self.store(paths, self.targets(i.optional_vars))
            return self.block(s.body, paths)
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            inside = set()
            for x in s.body:
                for y in self.own(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        inside.add(y.id)
            out = self.block(s.body, paths)
            out = self.block(s.orelse, out)
            for h in s.handlers:
                hp = self.kill(paths, inside - {self.v})
                if h.name == self.v:
                    hp = []
                out = out + self.block(h.body, hp)
            if s.finalbody:
                out = self.block(s.finalbody, out)
            return out
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return self.store(paths, {s.name})
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.store(paths, {(a.asname or a.name).split(".")[0] for a in s.names})
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.reads(e, paths)
        return paths


def unfilled(text, n, names):
    """the place of a format text that no argument fills, or None"""
    auto, todo = 0, [text]
    while todo:
        try:
            items = list(string.Formatter().parse(todo.pop(0)))
        except ValueError as e:
            return str(e)
        for _, field, spec, _ in items:
            if field is None:
                continue
            base = re.split(r"[.\[]", field)[0]
            if base == "":
                base, auto = str(auto), auto + 1
            if base.isdigit() and int(base) >= n or not base.isdigit() and base not in names:
                return "{%s}" % field
            if spec and "{" in spec:
                todo.insert(0, spec)
    return None
