from .. import equi
from .. import terms as tm
from ..core import NONE, sym

RULE = ("The iteration loops of both form-finding routines with the work of one sweep abstracted to symbols: number of iterations and sequences, "
        "exit condition (the displacement between the positions before and after the sweep against the tolerance), what is returned after the "
        "loop, when an error is raised, and (with a symbolic last sequence) which entries a visit writes must be congruent to the reference.")
LEVEL = "proof"
MIN_OBLIGATIONS = 10
ASSUMPTIONS = ["every node has a sequence number", "at least one iteration is requested"]


def run(ck):
    kmax = sym("kmax", kind="int", optional=True)
    for name, fc, fs in equi.pairs(ck, kmax):
        for d, what in enumerate(("iterations", "sequences")):
            equi.compare(ck, "%s: number of %s" % (name, what), fc, fs, fc.doms[d], fs.doms[d])
        equi.compare(ck, name + ": stops when converged", fc, fs, equi.numbered(fc.exits[0]), equi.numbered(fs.exits[0]))
        for role in equi.ROLES + (equi.PASSED,):
            equi.compare(ck, "%s: entries of %s written by a visit" % (name, role), fc, fs,
                         equi.gates_only(equi.numbered(fc.up[role, 2])), equi.gates_only(equi.numbered(fs.up[role, 2])))
        for role in equi.ROLES:
            equi.compare(ck, "%s: %s after the last iteration" % (name, role), fc, fs,
                         *[f.view(f.r.interp.get(f.r.state, f.raw[role])) for f in (fc, fs)])
        equi.compare(ck, name + ": raises AssertionError", fc, fs,
                     *[equi.numbered(f.view(f.r.interp.pure(f.r.raise_cond("AssertionError"), f.r.state))) for f in (fc, fs)])
        for (what, c), (_, s) in zip(*[f.outcomes(f.r.interp.pure(f.r.raise_cond("ValueError"), f.r.state)) for f in (fc, fs)]):
            equi.compare(ck, "%s: raises ValueError, iterations %s" % (name, what), fc, fs, equi.numbered(c), equi.numbered(s))
    for q, inner, sq in equi.WRAPPERS:
        name = q.split(":")[1]
        with ck.guard(name + ": passes the limits on", q):
            r, calls, vals, kw = equi.run_wrapper(ck, q, inner)
            if not calls:
                ck.fail(name + ": passes the limits on", r.fo, q, "the form-finding routine is not called")
            for b in calls:
                for p in ("kmax", "tmax", "eta", "verbose", "callback"):
                    if p in kw and p in b:
                        ck.judge("%s: passes %s on" % (name, p), r.fo, b[p], kw[p], [str(n) for n in r.interp.notes])
