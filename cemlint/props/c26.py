"""C26: every front end draws a diagram with the class made for it."""
import ast

from ..core import sym
from ..terms import mk, const

LEVEL = "proof"
RULE = ("Each registering function is executed abstractly and the set of registrations it makes must be that of the reference; every module with a plugin is announced in __all_plugins__ and vice versa, and each "
        "plugin carries the name the library looks up; the viewers package registers when it is loaded; what the viewer hands to the library's viewer is compared with the reference for each kind of object.")
TECHNIQUE = "static analysis: abstract interpretation of registration and hand-over functions into value terms, call resolution from module level, compared with a reference"
MIN_OBLIGATIONS = 6
ASSUMPTIONS = ["the library calls the plugins of announced modules by the names it declares for them"]
REG = (("plotter", "compas_cem.plotters.register:register_artists"), ("grasshopper", "compas_cem.ghpython.register:register_artists"), ("viewer", "compas_cem.viewers.register:register_objects"))
HOOKS = {"register_artists": "factories", "installable_rhino_packages": "install", "after_rhino_install": "install", "after_rhino_uninstall": "install"}
NEEDS = {"plotter": {"compas_plotters", "matplotlib"}, "grasshopper": {"Rhino", "Grasshopper", "compas_ghpython", "compas_rhino"}}
V = "compas_cem.viewers.viewer:Viewer"


def registrations(ck, f, **kw):
    r = ck.run(f, [], **kw)
    e = r.interp.reify(r.effects(), r.state)
    return mk("seq", *sorted(e.a, key=str)) if e.op == "seq" else e, [str(x) for x in r.interp.notes]


def announced(ck):
    r = ck.run(ck.func("spec.frontends:announced"), [])
    v = r.interp.reify(r.value, r.state)
    out = [x.a[1] for x in v.a if x.op == "const" and x.a[0] == "str"] if v.op == "seq" else []
    return out if v.op == "seq" and len(out) == len(v.a) else None


def plugins(ck, names):
    """The functions the library finds in the announced modules: (hook name, category, requirements, function)."""
    out, doubts = [], []
    for m in names:
        mod = ck.p.modules.get(m)
        if mod is None:
            continue
        for name in sorted(mod.names):
            b = ck.p.lookup(mod, name)
            if not b or b[0] != "func":
                continue
            f = b[1]
            for d in f.node.decorator_list:
                call = d if isinstance(d, ast.Call) else None
                e = call.func if call else d
                x = ck.p.lookup(f.module, e.id) if isinstance(e, ast.Name) else None
                if isinstance(e, ast.Attribute) and e.attr == "plugin":
                    x = ("ext", "compas.plugins.plugin")
                if x != ("ext", "compas.plugins.plugin"):
                    if x is None or x[0] != "ext":
                        doubts.append("decorator of %s" % f.qual)
                    continue
                kw, bad = {}, bool(call and call.args)
                for k in (call.keywords if call else ()):
                    try:
                        kw[k.arg] = ast.literal_eval(k.value)
                    except (ValueError, SyntaxError):
                        v = ck.p.lookup(f.module, k.value.id) if isinstance(k.value, ast.Name) else None
                        try:
                            kw[k.arg] = ast.literal_eval(v[2]) if v and v[0] == "value" else None
                            bad = bad or not (v and v[0] == "value")
                        except (ValueError, SyntaxError, TypeError):
                            bad = True
                if bad:
                    doubts.append("options of the plugin %s" % f.qual)
                out.append((kw.get("pluggable_name") or f.name, kw.get("category"), tuple(kw.get("requires") or ()), f))
    return out, doubts


def run(ck):
    for name, q in REG:
        with ck.guard(name + ": registrations", q):
            f = ck.func(q)
            code, notes = registrations(ck, f)
            want, _ = registrations(ck, ck.func("spec.frontends:" + name), spec=True)
            ck.judge(name + ": registrations", f, code, want, notes)
    with ck.guard("plugins announced", "compas_cem:__all_plugins__"):
        discovery(ck)
    with ck.guard("the viewers package registers when loaded", "compas_cem.viewers"):
        loading(ck)
    d = {"topology": lambda: ck.topology(), "form": lambda: ck.form()}
    for what, make in sorted(d.items()):
        for case in ("add_diagram", "add_diagram_plain"):
            args = [ck.obj("viewer", V), make()] + ([sym("in.value", kind="num")] if case == "add_diagram" else [])
            ck.same("spec.frontends:" + case, "spec.frontends:" + case + "_is", args, rule="viewer add %s: %s" % (what, case), anchor=V + ".add", effects=True)
    ck.same("spec.frontends:add_other", "spec.frontends:add_other_is", [ck.obj("viewer", V), sym("in.value", kind="num")], rule="viewer add: other", anchor=V + ".add", effects=True)


def discovery(ck):
    names = announced(ck)
    where = "src/compas_cem/__init__.py"
    if names is None:
        ck.skip("plugins announced", None, "the list of plugin modules is not understood")
        return
    found, doubts = plugins(ck, names)
    for m in names:
        if m not in ck.p.modules:
            ck.fail("plugins announced", None, m, "the announced plugin module does not exist", where)
        else:
            ck.ok("plugin module exists: " + m)
    hooks = {}
    for name, cat, req, f in found:
        if HOOKS.get(name) == cat:
            hooks.setdefault(name, []).append((req, f))
    for name, q in REG[:2]:
        want, _ = registrations(ck, ck.func("spec.frontends:" + name), spec=True)
        made = set()
        for req, f in hooks.get("register_artists", ()):
            if not set(req) <= NEEDS[name]:
                continue
            code, notes = registrations(ck, f)
            doubts = doubts + [n for n in notes if n not in doubts]
            if code.op == "seq":
                made |= {str(x) for x in code.a}
            else:
                doubts = doubts + ["the registrations of " + f.qual]
        missing = [x for x in want.a if str(x) not in made]
        if not missing:
            ck.ok("plugins announced: " + name)
        elif doubts:
            ck.skip("plugins announced: " + name, None, "; ".join(doubts)[:200])
        else:
            ck.fail("plugins announced: " + name, None, name, "no plugin in the announced modules registers, in the %s front end: %s" % (name, "; ".join(map(str, missing))), where)
    for hook in sorted(HOOKS):
        if hooks.get(hook):
            ck.ok("plugin provided: " + hook)
        elif doubts:
            ck.skip("plugin provided: " + hook, None, "; ".join(doubts)[:200])
        else:
            ck.fail("plugin provided: " + hook, None, hook, "no announced module provides the plugin %s (%s)" % (hook, HOOKS[hook]), where)
    for req, f in hooks.get("installable_rhino_packages", ()):
        ck.same(f.qual, "spec.frontends:installable", [], rule="installable packages")
    for hook, ref in (("after_rhino_install", "after_install"), ("after_rhino_uninstall", "after_uninstall")):
        for req, f in hooks.get(hook, ()):
            ck.same(f.qual, "spec.frontends:" + ref, [sym("in.packages", kind="list", elemkind="str")], rule=hook, effects=True)


def loading(ck):
    """Some statement executed when the viewers package loads (with compas_view2 present) calls the registering function."""
    mod = ck.p.modules["compas_cem.viewers"]
    target = ck.func(REG[2][1])
    seen, todo = set(), [(mod, st) for st in mod.tree.body]
    found = False
    while todo and not found:
        m, st = todo.pop()
        for n in ast.walk(st):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not st:
                continue
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                b = ck.p.lookup(m, n.func.id) if isinstance(n.func, ast.Name) else None
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                    o = ck.p.lookup(m, n.func.value.id)
                    b = ck.p.lookup(o[1], n.func.attr) if o and o[0] == "module" else None
                    if b is None and n.func.attr == target.name:
                        b = ("func", target)
                if b and b[0] == "func":
                    if b[1] is target:
                        found = True
                        break
                    if b[1].qual not in seen and isinstance(st, ast.stmt):
                        seen.add(b[1].qual)
                        todo += [(b[1].module, x) for x in b[1].node.body]
            if isinstance(n, (ast.Import, ast.ImportFrom)) and m.name.startswith("compas_cem.viewers"):
                for sub in submodules(ck, m, n):
                    if sub.name not in seen:
                        seen.add(sub.name)
                        todo += [(sub, x) for x in sub.tree.body if not isinstance(x, (ast.FunctionDef, ast.ClassDef))]
    if found:
        ck.ok("the viewers package registers when loaded", target)
    else:
        ck.fail("the viewers package registers when loaded", target, target.name, "nothing that runs when compas_cem.viewers is loaded calls the function that registers the diagram objects", mod.rel)


def submodules(ck, m, n):
    out = []
    for a in n.names:
        if isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                pkg = m.name if m.is_pkg else m.name.rsplit(".", 1)[0]
                for _ in range(n.level - 1):
                    pkg = pkg.rsplit(".", 1)[0]
                base = pkg + ("." + base if base else "")
            out += [base, base + "." + a.name]
        else:
            out.append(a.name)
    return [ck.p.modules[x] for x in out if x in ck.p.modules and x.startswith("compas_cem.viewers")]
