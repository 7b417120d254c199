from .. import equi
from ..core import NONE, loc_name, loc_default

RULE = ("The plain and the array-based form-finding routine are both reduced to frames (iterations, sequences, trails) with the same roles; what one "
        "visit of a trail node writes to positions, trail forces, directions, reactions and the force handed on must be congruent between the two, and "
        "so must the starting values, the sequences and trails visited, what is returned, and the form diagrams built from a given state.")
LEVEL = "proof"
MIN_OBLIGATIONS = 12
ASSUMPTIONS = ["vectors that are normalised do not vanish", "consecutive nodes of a stored trail are joined by a trail edge",
               "the two routines measure convergence differently (sum of distances against norm of all displacements); the property does not cover the measure"]


def run(ck):
    (qp, _), (qn, _) = equi.IMPLS
    with ck.guard("loop structure", qn):
        fp = equi.run_frames(ck, qp, NONE)
        fn = equi.run_frames(ck, qn, NONE)
        fn.notes = fn.notes + fp.notes

        def cmp(rule, f):
            equi.compare(ck, rule, fn, fp, f(fn), f(fp))
        for role in equi.ROLES + (equi.PASSED,):
            cmp("starting values of " + role, lambda f: f.init[role])
            for d, lev in ((1, "sequences"), (0, "iterations")):
                cmp("%s carried through the %s" % (role, lev), lambda f: f.up[role, d])
        for d, what in enumerate(("iterations", "sequences", "trails")):
            cmp(what + " visited", lambda f: f.doms[d])
        for d in (1, 2):
            cmp("early exit from the " + ("", "sequences", "trails")[d], lambda f: f.exits[d])
        for role in equi.ROLES:
            cmp(role + " after the last iteration", lambda f: f.view(f.r.interp.get(f.r.state, f.raw[role])))
        for case, sub in equi.case_views(fn):
            for role in ("reaction_forces", equi.PASSED):
                cmp("%s written by a visit, %s" % (role, case), lambda f: sub(f.up[role, 2]))
            vp, vn = equi.by_leaving_force(fp, sub), equi.by_leaving_force(fn, sub)
            for role in ("node_xyz", "trail_forces", "trail_directions"):
                rule = "%s written by a visit, %s" % (role, case)
                if vp is None or vn is None:
                    ck.skip(rule, fn.fo, "the force leaving a node was not isolated")
                    continue
                equi.compare(ck, rule, fn, fp, vn(fn.up[role, 2]), vp(fp.up[role, 2]))
    (wp, ip, _), (wn, i_n, _) = equi.WRAPPERS
    with ck.guard("form diagrams", wn):
        rp = equi.run_wrapper(ck, wp, ip)[0]
        rn = equi.run_wrapper(ck, wn, i_n)[0]
        notes = [str(n) for n in rn.interp.notes + rp.interp.notes]
        c, _ = equi.form_state(ck, rn)
        s, _ = equi.form_state(ck, rp)
        for loc in sorted(set(c) | set(s), key=repr):
            a = c[loc] if loc in c else loc_default(rn, rn.value, loc)
            b = s[loc] if loc in s else loc_default(rp, rp.value, loc)
            ck.judge("form's %s" % loc_name(rn.value, loc).split(" ", 1)[1], rn.fo, equi.both(a), equi.both(b), notes)
