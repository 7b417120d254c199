"""C25: arguments left out take the default that the documentation states."""
import ast
import re

from ..refs import In

LEVEL = "proof"
RULE = ("Over every function, method and constructor of the package: each parameter whose documentation names a default ('Defaults to X' in its entry) "
        "must have that default in the signature (literals compared by value, names of module constants followed to their literal); a default of None that is "
        "replaced in the body is followed to the literal it is replaced by. A function the module exports may not require an argument documented as optional with a default.")
TECHNIQUE = "static analysis: cross-check of signature defaults against the parameter documentation on the syntax tree"
ASSUMPTIONS = ["the parameter documentation states what the caller relies on"]
MIN_OBLIGATIONS = 25

ENTRY = re.compile(r"^(\*{0,2}\w+(?:\s*,\s*\w+)*)\s*:\s*\S")
DEFAULT = re.compile(r"[Dd]efaults? to\s+(.+?)\.?\s*$")
GIVEN = re.compile(r"[Dd]efault(?:\s+is|\s*[:=])?\s+(`+[^`]+`+|None\b)")


OTHER = {"returns", "yields", "raises", "warns", "notes", "references", "examples", "example", "see", "todo", "warnings"}


def documented(doc):
    """Parameter name -> default value the docstring states (only literals)."""
    out = {}
    cur, indent, section = (), None, None
    lines = doc.split("\n")
    for i, line in enumerate(lines):
        nxt = lines[i + 1].strip() if i + 1 < len(lines) else ""
        if nxt and set(nxt) == {"-"}:
            section, cur = line.strip().lower(), ()
            continue
        if section is not None and section.split(" ")[0] in OTHER:
            continue
        m = ENTRY.match(line)
        if m:
            cur = [n.strip().strip("*") for n in m.group(1).split(",")]
        m = DEFAULT.search(line) or GIVEN.search(line)
        if m and cur:
            text = m.group(1).strip().strip("`").strip()
            try:
                val = ast.literal_eval(text)
            except (ValueError, SyntaxError):
                continue
            for n in cur:
                out.setdefault(n, val)
    return out


def literal(e, mod):
    if isinstance(e, ast.Name):
        for st in mod.tree.body:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in st.targets):
                e = st.value
                break
    try:
        return True, ast.literal_eval(e)
    except (ValueError, SyntaxError, TypeError):
        return False, None


def same(a, b):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def is_none_test(test, name):
    """'is' / 'not' when test says the name is / is not None, else None."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        if isinstance(test.operand, ast.Name) and test.operand.id == name:
            return "is"
    if isinstance(test, ast.Name) and test.id == name:
        return "not"
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id == name \
            and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
        return {"Is": "is", "Eq": "is", "IsNot": "not", "NotEq": "not"}.get(type(test.ops[0]).__name__)
    return None


def replaced(fn, name, mod):
    """The literals a None argument is replaced by in the body (or None when it is not replaced, or not by a literal)."""
    vals = []
    for n in ast.walk(fn):
        e = None
        if isinstance(n, ast.IfExp) and is_none_test(n.test, name):
            e = n.body if is_none_test(n.test, name) == "is" else n.orelse
        elif isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and isinstance(n.values[0], ast.Name) and n.values[0].id == name:
            e = n.values[1]
        elif isinstance(n, ast.If) and is_none_test(n.test, name):
            body = n.body if is_none_test(n.test, name) == "is" else n.orelse
            for st in body:
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
                    e = st.value
        if e is not None:
            vals.append(literal(e, mod))
    return vals


def exported(mod):
    for st in mod.tree.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in st.targets):
            try:
                return set(ast.literal_eval(st.value))
            except ValueError:
                return set()
    return set()


def functions(mod):
    """(qualified name, node, documentation, is exported) of every function and constructor."""
    public = exported(mod)

    def walk(body, prefix, outer, shown):
        for st in body:
            if isinstance(st, ast.ClassDef):
                yield from walk(st.body, prefix + st.name + ".", ast.get_docstring(st) or "", prefix + st.name in public)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                doc = ast.get_docstring(st) or ""
                if st.name == "__init__" and outer:
                    doc = outer + "\n\n" + doc
                yield prefix + st.name, st, doc, (shown if prefix else st.name in public)
            elif isinstance(st, (ast.If, ast.Try)):
                for part in ("body", "orelse", "finalbody"):
                    yield from walk(getattr(st, part, []), prefix, outer, shown)
    yield from walk(mod.tree.body, "", "", False)


def run(ck):
    for name, mod in sorted(ck.p.modules.items()):
        if name.startswith("spec."):
            continue
        for qual, fn, doc, public in functions(mod):
            want = documented(doc)
            if not want:
                continue
            ck.functions[name + ":" + qual] = In(mod)
            a = fn.args
            pos = a.posonlyargs + a.args
            given = {p.arg: None for p in pos + a.kwonlyargs}
            given.update({p.arg: d for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults)})
            given.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            for arg, val in sorted(want.items()):
                rule = "documented default"
                where = "%s:%d" % (mod.rel, fn.lineno)
                if arg not in given:
                    continue
                d = given[arg]
                if d is None:
                    if public:
                        ck.fail(rule, None, "%s:%s %s" % (name, qual, arg), "%s(%s) is documented as optional, defaulting to %r, but it is required" % (qual, arg, val), where=where)
                    continue
                known, got = literal(d, mod)
                if not known:
                    ck.skip(rule, "%s %s %s" % (where, qual, arg), "default is not a literal")
                elif same(got, val):
                    ck.ok("%s: %s(%s)" % (rule, qual, arg), where)
                elif got is None:
                    vals = replaced(fn, arg, mod)
                    if not vals or any(not k for k, _ in vals):
                        ck.skip(rule, "%s %s %s" % (where, qual, arg), "default is None, and not replaced by a literal")
                    elif any(same(v, val) for _, v in vals):
                        ck.ok("%s: %s(%s)" % (rule, qual, arg), where)
                    else:
                        ck.fail(rule, None, "%s:%s %s" % (name, qual, arg), "%s(%s) falls back on %r when it is left out, documented default %r" % (qual, arg, vals[0][1], val), where=where)
                else:
                    ck.fail(rule, None, "%s:%s %s" % (name, qual, arg), "%s(%s) defaults to %r, documented default %r" % (qual, arg, got, val), where=where)
