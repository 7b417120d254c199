"""C23: every internal reference in the package resolves."""
from ..refs import In, Refs

LEVEL = "proof"
RULE = ("Over every module of the package (demonstration blocks under __main__ aside): each import of a package name finds a binding of that name, followed through re-exports; "
        "each global name read in any scope is bound; each attribute read from self, from a diagram parameter, from an object built in the same function, from a package module or class exists in the class or "
        "any of its bases (bases in installed dependencies are read from their sources; where a base cannot be read, nothing is claimed); each call of a package function, constructor or method, or of a library function or method whose source is installed, fits its signature; an iterator that can be run through once (generator, map, zip, ...) is not measured, indexed, tested for being empty or run through twice on a path, no collection is taken from while a loop runs through it, and no iterator handed out of a loop has yet to read a variable the loop goes on to change; each place of a text template is given a value; "
        "no local name is read on a path that assigns it nowhere before (loops over collections taken to run at least once, contradictory conditions excluded).")
TECHNIQUE = "static analysis: name resolution over the module graph, class attribute tables, call/signature matching and definite-assignment dataflow"
ASSUMPTIONS = ["a parameter called topology, form or diagram is a diagram of that kind (form: either kind)", "a for loop over a collection runs at least once", "a chain of two or more alternatives without else, each assigning a variable, covers all cases"]


def run(ck):
    r = Refs(ck)
    for name, mod in sorted(ck.p.modules.items()):
        if name.startswith("spec."):
            continue
        ck.functions[name] = In(mod)
        r.imports(mod)
        r.names(mod)
        r.uses(mod)
        r.assigned(mod)
        r.oneshot(mod)
        r.templates(mod)
    for rel, err in ck.p.errors:
        ck.fail("modules parse", None, rel, err, where=rel)
    for rule, n in sorted(r.counts.items()):
        ck.stats[rule] = n
        for _ in range(n):
            ck.obligations.append((rule, "ok", "", ""))
