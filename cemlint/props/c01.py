from .. import equi
from ..core import NONE

RULE = ("Both form-finding routines are reduced, loop by loop, to the terms that one visit of a trail node writes (first iteration and later "
        "iterations separately): the force reported at a support, the force handed to the next node and the signed trail force must be congruent "
        "to the reference nodal balance, for a symbolic diagram, and the starting values and the carrying of these values through the loops must agree.")
LEVEL = "proof"
MIN_OBLIGATIONS = 6
ASSUMPTIONS = ["vectors that are normalised do not vanish", "floating-point rounding is not modelled (real arithmetic)"]


def run(ck):
    for name, fc, fs in equi.pairs(ck, NONE):
        equi.compare(ck, name + ": force entering origins", fc, fs, fc.init[equi.PASSED], fs.init[equi.PASSED])
        for case, sub in equi.case_views(fc):
            for role, what in (("reaction_forces", "force reported at supports"), (equi.PASSED, "force handed to the next node")):
                equi.compare(ck, "%s: %s, %s" % (name, what, case), fc, fs, sub(fc.up[role, 2]), sub(fs.up[role, 2]))
            vc, vs = equi.by_leaving_force(fc, sub), equi.by_leaving_force(fs, sub)
            rule = "%s: trail force, %s" % (name, case)
            if vc is None:
                ck.skip(rule, fc.fo, "the force leaving a node was not isolated")
                continue
            equi.compare(ck, rule, fc, fs, equi.without_plane(vc(fc.up["trail_forces", 2])), equi.without_plane(vs(fs.up["trail_forces", 2])))
        for role in ("reaction_forces", equi.PASSED, "trail_forces"):
            for d, lev in ((1, "sequences"), (0, "iterations")):
                equi.compare(ck, "%s: %s carried through the %s" % (name, role, lev), fc, fs, fc.up[role, d], fs.up[role, d])
