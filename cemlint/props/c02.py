from .. import equi
from ..core import NONE

RULE = ("With the force leaving a node taken as a free variable (change of variables in the recurrence), the position written for the next node, "
        "the reported direction and, for edges with a plane, the sign of the force must be congruent to the reference placement rule; the trails "
        "and sequences visited, the starting positions and the carrying of positions through the loops must agree.")
LEVEL = "proof"
MIN_OBLIGATIONS = 6
ASSUMPTIONS = ["the force leaving a node does not vanish", "consecutive nodes of a stored trail are joined by a trail edge",
               "floating-point rounding is not modelled (real arithmetic)"]


def run(ck):
    for name, fc, fs in equi.pairs(ck, NONE):
        equi.compare(ck, name + ": starting positions", fc, fs, fc.init["node_xyz"], fs.init["node_xyz"])
        equi.compare(ck, name + ": trails visited", fc, fs, fc.doms[2], fs.doms[2])
        equi.compare(ck, name + ": sequences visited", fc, fs, fc.doms[1], fs.doms[1])
        for d in (1, 2):
            equi.compare(ck, "%s: no early exit from the %s" % (name, ("", "sequences", "trails")[d]), fc, fs, fc.exits[d], fs.exits[d])
        for case, sub in equi.case_views(fc):
            vc, vs = equi.by_leaving_force(fc, sub), equi.by_leaving_force(fs, sub)
            for role, what in (("node_xyz", "position of the next node"), ("trail_directions", "direction of the edge"), ("trail_forces", "force with plane")):
                rule = "%s: %s, %s" % (name, what, case)
                if vc is None:
                    ck.skip(rule, fc.fo, "the force leaving a node was not isolated")
                    continue
                c, s = vc(fc.up[role, 2]), vs(fs.up[role, 2])
                if role == "trail_forces":
                    if equi.both(equi.without_plane(c)) is not equi.both(equi.without_plane(s)):
                        ck.skip(rule, fc.fo, "the rule for edges without plane differs already (C01)")
                        continue
                equi.compare(ck, rule, fc, fs, c, s)
                if role == "node_xyz":
                    c, s = [equi.along_trails(equi.at_rest(equi.without_plane(x))) for x in (c, s)]
                    ck.judge("%s: position of the next node when no force is left, %s" % (name, case), fc.fo, c, s, fc.notes)
        for d, lev in ((1, "sequences"), (0, "iterations")):
            equi.compare(ck, "%s: positions carried through the %s" % (name, lev), fc, fs, fc.up["node_xyz", d], fs.up["node_xyz", d])
