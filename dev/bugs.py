"""Planted bugs: written from the property texts and the code; tools/seed.py confirms each and writes seeded/<id>/."""
P = '''
from math import sqrt
from compas_cem.diagrams import TopologyDiagram, FormDiagram
from compas_cem.elements import Node, TrailEdge, DeviationEdge
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport
from compas_cem.equilibrium import static_equilibrium


def near(a, b, tol=1e-4):
    return all(abs(i - j) < tol for i, j in zip(a, b))


def diagram(nodes, trails, deviations, supports, loads, planes=None):
    t = TopologyDiagram()
    for i, xyz in enumerate(nodes):
        t.add_node(Node(i, xyz))
    for u, v, l in trails:
        t.add_edge(TrailEdge(u, v, length=l, plane=(planes or {}).get((u, v))))
    for u, v, f in deviations:
        t.add_edge(DeviationEdge(u, v, force=f))
    for s in supports:
        t.add_support(NodeSupport(s))
    for n, vec in loads:
        t.add_load(NodeLoad(n, vec))
    return t


def residual(form, node):
    """Sum of loads, edge forces and reaction at a node; zero in equilibrium."""
    total = [a + b for a, b in zip(form.node_load(node), form.reaction_force(node))]
    p = form.node_coordinates(node)
    for edge in form.connected_edges(node):
        other = edge[0] if edge[1] == node else edge[1]
        q = form.node_coordinates(other)
        d = [b - a for a, b in zip(p, q)]
        l = sqrt(sum(c * c for c in d))
        f = form.edge_force(edge)
        total = [t + f * c / l for t, c in zip(total, d)]
    return total


def portal():
    return diagram([[0, 0, 0], [1, 0, 0], [2.5, 0, 0], [3.5, 0, 0]], [(1, 0, -1.0), (2, 3, -1.0)], [(1, 2, -1.0)], [0, 3],
                   [(1, [0, -1.0, 0]), (2, [0, -1.0, 0])])
'''

G = P + '''
import importlib.util
import sys
import types


def module(name, **names):
    m = types.ModuleType(name)
    m.__dict__.update(names)
    sys.modules[name] = m
    return m


def component(folder):
    """The component class of a Grasshopper script, with Rhino's own modules replaced by stand-ins."""
    class Point(object):
        def __init__(self, p):
            self.p = p

        @classmethod
        def from_geometry(cls, p):
            return cls(p)

        def to_compas(self):
            return self.p
    module("ghpythonlib")
    module("ghpythonlib.componentbase", executingcomponent=object)
    module("compas_rhino")
    module("compas_rhino.geometry", RhinoPoint=Point)
    module("rhinoscriptsyntax", AddPoint=lambda *p: p)
    sp = importlib.util.spec_from_file_location("component_", "src/compas_cem/ghpython/components/%s/code.py" % folder)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    cls = [c for c in vars(m).values() if isinstance(c, type) and hasattr(c, "RunScript")]
    return cls[-1]()


def gh_artists(lines):
    """The Grasshopper artists with drawing replaced by recording."""
    class NetworkArtist(object):
        def __init__(self, *args, **kwargs):
            pass
    rec = lambda x: lines.append(x) or x
    module("compas_ghpython", draw_points=rec, draw_lines=rec, draw_polylines=rec)
    module("compas_ghpython.artists", NetworkArtist=NetworkArtist)
    sp = importlib.util.spec_from_file_location("artists_", "src/compas_cem/ghpython/artists.py")
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m
'''

BUGS = [
    dict(id="zero-force-edge-stops-resultant", property="C01",
         edits=[("equilibrium/force.py", "    for force, dev_vec in zip(forces, vectors):\n", "    for force, dev_vec in zip(forces, vectors):\n        if not force:\n            break\n")],
         needs="a node with several deviation edges, one of which carries zero force and comes before another one",
         breaks="nodal balance: the deviation edges after a zero-force one are left out of the resultant",
         demo=P + '''
t = diagram([[0, 0, 0], [2, 0, 0], [1, 2, 0], [0, -1, 0], [2, -1, 0], [1, 3, 0]],
            [(0, 3, -1.0), (1, 4, -1.0), (2, 5, 1.0)], [(0, 1, 0.0), (0, 2, 0.5), (1, 2, 0.5)], [3, 4, 5],
            [(0, [0, -1.0, 0]), (1, [0, -1.0, 0]), (2, [0, 3.0, 0])])
t.build_trails()
form = static_equilibrium(t)
for node in form.nodes():
    assert near(residual(form, node), [0, 0, 0], 1e-6), (node, residual(form, node))
'''),
    dict(id="plane-behind-the-node", property="C02",
         edits=[("equilibrium/force.py", "                    if not plength:\n", "                    if not plength or plength < 0.0 < length:\n")],
         needs="a tension trail edge whose plane lies on the compression side of the residual",
         breaks="the next node is placed at the input length instead of on the edge's plane",
         demo=P + '''
from compas.geometry import Plane
t = diagram([[0, 0, 0], [0, -1, 0]], [(0, 1, 1.0)], [], [1], [(0, [0, -1.0, 0])], {(0, 1): Plane([0, -2.0, 0], [0, 1, 0])})
t.build_trails()
form = static_equilibrium(t)
assert near(form.node_coordinates(1), [0, -2.0, 0]), form.node_coordinates(1)
'''),
    dict(id="tolerance-per-node", property="C03",
         edits=[("equilibrium/force.py", "        if distance > eta:\n", "        if distance / len(node_xyz) > eta:\n")],
         needs="a diagram that has not converged within tmax, its total movement above eta but its mean movement per node below it",
         breaks="an unconverged form is returned instead of raising",
         demo=P + '''
def build():
    t = diagram([[0, 0, 0], [3, 0, 0], [-1, -1, 0], [4, -1, 0], [-2, -3, 0], [5, -3, 0]],
                [(0, 2, -1.0), (2, 4, -1.0), (1, 3, -1.0), (3, 5, -1.0)], [(0, 1, -0.6), (0, 3, -0.1), (1, 2, -0.1)], [4, 5],
                [(0, [0, -1.0, 0]), (1, [0, -1.0, 0])])
    t.build_trails()
    return t

def move(tmax):
    # movement during the last of tmax rounds, read from the error the function raises
    try:
        static_equilibrium(build(), tmax=tmax, eta=0.0)
    except ValueError as e:
        return float(str(e).split("Residual: ")[1].split(" ")[0])
    raise SystemExit("converged exactly")
m = move(3)
assert m > 0
try:
    static_equilibrium(build(), tmax=3, eta=m / 2.0)
except ValueError:
    pass
else:
    raise SystemExit("unconverged form returned")
'''),
    dict(id="numpy-plane-parallel", property="C04",
         edits=[("equilibrium/force_numpy.py", "    if np.abs(cos_nv) < tol:\n", "    if np.abs(cos_nv) < 1e3 * tol:\n")],
         needs="a trail whose residual is nearly parallel to its plane (cosine between 1e-6 and 1e-3)",
         breaks="the numpy engine falls back to the input length where the pure python engine intersects the plane",
         demo=P + '''
from compas.geometry import Plane
from compas_cem.equilibrium.force import equilibrium_state
from compas_cem.equilibrium.force_numpy import equilibrium_state_numpy
t = diagram([[0, 0, 0], [0, -1, 0]], [(0, 1, -1.0)], [], [1], [(0, [0, -1.0, 0])], {(0, 1): Plane([0.001, 0, 0], [1.0, -5e-4, 0])})
t.build_trails()
a = equilibrium_state(t)["node_xyz"][1]
b = equilibrium_state_numpy(t, tmax=100, eta=1e-6)["node_xyz"][1]
assert near(a, b), (a, b)
'''),
    dict(id="unloaded-edges-keep-length", property="C05",
         edits=[("equilibrium/force.py", "        length = copysign(length, force)\n", "        if not force:\n            continue\n        length = copysign(length, force)\n")],
         needs="an edge with zero force in the equilibrium state",
         breaks="the form reports the topology's length instead of the distance between the edge's nodes",
         demo=P + '''
t = portal()
t.add_edge(DeviationEdge(0, 3, force=0.0))
t.build_trails()
form = static_equilibrium(t)
assert abs(abs(form.edge_length_2((0, 3))) - form.edge_length(0, 3)) < 1e-6, form.edge_length_2((0, 3))
'''),
    dict(id="rebuild-keeps-shift", property="C07",
         edits=[("diagrams/topology/topology.py", "                self.node_attribute(node, \"_k\", index)\n", "                if self.node_attribute(node, \"_k\") is None or not self.has_trails():\n                    self.node_attribute(node, \"_k\", index)\n")],
         needs="build_trails, shift_trail, then build_trails again",
         breaks="rebuilding the trails leaves shifted sequence numbers in place",
         demo=P + '''
t = portal()
t.build_trails()
t.shift_trail(1, 2)
t.build_trails()
assert [t.node_sequence(n) for n in t.trail(1)] == [0, 1]
'''),
    dict(id="indirect-next-sequence-only", property="C08",
         edits=[("diagrams/topology/topology.py", "            if a != b:\n", "            if abs(a - b) == 1:\n")],
         needs="a deviation edge whose ends are two or more sequences apart",
         breaks="such an edge is neither direct nor indirect and drops out of the classification",
         demo=P + '''
t = diagram([[0, 0, 0], [0, -1, 0], [0, -2, 0], [1, 0, 0], [1, -1, 0], [1, -2, 0]],
            [(0, 1, -1.0), (1, 2, -1.0), (3, 4, -1.0), (4, 5, -1.0)], [(0, 5, -0.1)], [2, 5], [(0, [0, -1.0, 0]), (3, [0, -1.0, 0])])
t.build_trails()
assert list(t.indirect_deviation_edges()) == [(0, 5)]
'''),
    dict(id="sequence-gap", property="C09",
         edits=[("diagrams/topology/topology.py", "        return max(list(self.nodes_attribute(name=\"_k\")))\n", "        return len(set(self.nodes_attribute(name=\"_k\"))) - 1\n")],
         needs="a shift that leaves a gap in the sequences",
         breaks="the last sequence is under-counted, sequences() and the equilibrium loop stop early",
         demo=P + '''
t = diagram([[0, 0, 0], [0, -1, 0], [3, 0, 0], [3, -1, 0]], [(0, 1, -1.0), (2, 3, -1.0)], [], [1, 3], [(0, [0, -1.0, 0]), (2, [0, -1.0, 0])])
t.build_trails()
t.shift_trail(2, 3)
assert t.number_of_sequences() == 5
assert sum(len(s) for s in t.sequences()) == 4
'''),
    dict(id="load-keeps-zero-components", property="C10",
         edits=[("diagrams/topology/topology.py", "        self.node_attributes(node, [\"qx\", \"qy\", \"qz\"], load.vector)\n", "        for name, value in zip([\"qx\", \"qy\", \"qz\"], load.vector):\n            if value:\n                self.node_attribute(node, name, value)\n")],
         needs="a second load on the same node with a zero component where the first had none",
         breaks="the old component survives: the node's load is not the vector added last",
         demo=P + '''
t = portal()
t.add_load(NodeLoad(1, [1.0, 0.0, 2.0]))
t.add_load(NodeLoad(1, [0.0, -3.0, 0.0]))
assert t.node_load(1) == [0.0, -3.0, 0.0], t.node_load(1)
'''),
    dict(id="dual-mesh-odd-polyedge", property="C11",
         edits=[("diagrams/topology/mesh_mixins.py", "n = int(len(polyedge) / 2) - 1", "n = (len(polyedge) - 1) // 2")],
         needs="a polyedge between two supports with an odd number of vertices",
         breaks="the deviation edge that bridges the two trails is one edge further along",
         demo=P + '''
class Mesh:
    polys = {0: [0, 1, 2, 3, 4]}
    def collect_polyedges(self): pass
    def polyedges(self, data=False): return self.polys.items()
    def vertices(self): return range(5)
    def vertex_coordinates(self, k): return [float(k), 0.0, 0.0]
t = TopologyDiagram.from_dualquadmesh(Mesh(), [0, 4])
assert list(t.deviation_edges()) == [(1, 2)], list(t.deviation_edges())
'''),
    dict(id="parameter-key-reuse", property="C12",
         edits=[("optimization/optimizer.py", "        self._pkey += 1\n", "        self._pkey = len(self.parameters)\n")],
         needs="add two parameters, remove the first, add another one",
         breaks="the new parameter overwrites one that is still in use",
         demo=P + '''
from compas_cem.optimization import Optimizer, OriginNodeYParameter
o = Optimizer()
ps = [OriginNodeYParameter(i, 1.0, 1.0) for i in range(3)]
o.add_parameter(ps[0]); o.add_parameter(ps[1])
o.remove_parameter(0)
o.add_parameter(ps[2])
assert list(o.parameters.values()) == [ps[1], ps[2]]
'''),
    dict(id="zero-bound-is-unbounded", property="C13",
         edits=[("optimization/parameters/parameter.py", "        if self._bound_up is not None:\n", "        if self._bound_up:\n")],
         needs="an upper bound of exactly zero (the value may only go down)",
         breaks="the parameter becomes unbounded above",
         demo=P + '''
from compas_cem.optimization import DeviationEdgeParameter
t = portal()
assert DeviationEdgeParameter((1, 2), 1.0, 0.0).bound_up(t) == -1.0
'''),
    dict(id="roundoff-keeps-start-status", property="C14",
         edits=[("optimization/optimizer.py", "        self.gradient = grad_func(x_opt, np.zeros(x_opt.size))\n", "        self.gradient = grad_func(x, np.zeros(x_opt.size))\n")],
         needs="any solve that moves away from its start",
         breaks="the reported gradient and its norm are those at the start, not at the optimum",
         demo=P + '''
from compas.geometry import Point
from compas_cem.optimization import Optimizer, OriginNodeYParameter, PointConstraint
t = portal()
t.build_trails()
o = Optimizer()
o.add_parameter(OriginNodeYParameter(1, 5.0, 5.0))
o.add_constraint(PointConstraint(1, Point(1.0, 2.0, 0.0)))
o.solve(t, "SLSQP", eps=1e-12, kappa=1e-12)
assert o.gradient_norm < 1e-2, o.gradient_norm
'''),
    dict(id="fd-accumulates-steps", property="C15",
         edits=[("optimization/grad.py", "        _xi = _x[i]\n", "        _xi = x[i] if i == 0 else _x[i] + step_size\n")],
         needs="finite differences with two or more parameters that interact",
         breaks="later components are evaluated at a point displaced in the earlier ones",
         demo=P + '''
import numpy as np
from compas_cem.optimization.grad import grad_finite_differences
f = lambda x: x[0] * x[1] * x[2]
h = 0.5
g = grad_finite_differences(np.array([1.0, 2.0, 3.0]), np.zeros(3), f, h)
assert near(g, [6.0, 3.0, 2.0], 1e-9), g
'''),
    dict(id="line-as-segment", property="C16",
         edits=[("optimization/constraints/line.py", "from compas.geometry import closest_point_on_line\n", "from compas.geometry import closest_point_on_segment\n"),
                ("optimization/constraints/line.py", "        return closest_point_on_line(point, line)\n", "        return closest_point_on_segment(point, line)\n")],
         needs="a node that projects outside the two points that define the line",
         breaks="the penalty pulls towards the end of the segment although the node is on the line",
         demo=P + '''
from compas.geometry import Line
from compas_cem.optimization import LineConstraint
c = LineConstraint(0, Line([0, 0, 0], [1, 0, 0]))
assert c.penalty({"node_xyz": {0: [5.0, 0.0, 0.0]}}) < 1e-9
'''),
    dict(id="zero-ftol-ignored", property="C17",
         edits=[("optimization/nlopt.py", "    if eps is not None:\n", "    if eps and eps > 0.0:\n")],
         needs="eps=0.0",
         breaks="a requested stop value of zero is dropped",
         demo=P + '''
import numpy as np
from compas_cem.optimization.nlopt import nlopt_solver
s = nlopt_solver(lambda x, g: 0.0, "SLSQP", 1, np.array([1.0]), np.array([-1.0]), 10, 0.0, None)
assert s.get_stopval() == 0.0, s.get_stopval()
'''),
    dict(id="proxy-drops-kappa", property="C18",
         edits=[("optimization/proxy.py", "kappa=kappa,", "kappa=eps,")],
         needs="a proxy call whose kappa differs from eps",
         breaks="the proxied solve uses another convergence threshold than the direct one",
         demo=P + '''
from compas_cem.optimization import Optimizer
from compas_cem.optimization.proxy import solve_proxy
seen = {}
def solve(self, **kw):
    seen.update(kw)
Optimizer.solve = solve
solve_proxy(portal(), [], [], "SLSQP", 10, eps=1e-3, kappa=1e-7)
assert seen["kappa"] == 1e-7, seen
'''),
    dict(id="edge-constraint-weight-int", property="C19",
         edits=[("optimization/parameters/edge.py", "            if bound is not None:\n", "            if bound:\n"),
                ("optimization/parameters/edge.py", "            setattr(self, bound_name, bound)\n", "            setattr(self, bound_name, bound or None)\n")],
         needs="an edge parameter with a zero bound, serialised and read back",
         breaks="the zero bound comes back as None (unbounded)",
         demo=P + '''
from compas_cem.optimization import DeviationEdgeParameter
p = DeviationEdgeParameter((1, 2), 0.0, 2.0)
q = DeviationEdgeParameter.from_data(p.to_data())
assert q._bound_low == 0.0 and q._bound_up == 2.0, (q._bound_low, q._bound_up)
'''),
    dict(id="missed-plane-forgotten", property="C06",
         edits=[("equilibrium/force.py", """                        print("Falling back to input length: {}".format(length))
""", """                        print("Falling back to input length: {}".format(length))
                        # warn only once per edge
                        topology.unset_edge_attribute(edge, "plane")
""")],
         needs="a trail edge with a plane its force does not meet",
         breaks="form-finding erases the plane from the topology diagram it was given, so a later run with other loads ignores it",
         demo=P + '''
plane = ([0.0, -2.0, 0.0], [1.0, 0.0, 0.0])
t = diagram([[1, 0, 0], [1, -1, 0]], [(0, 1, -1.0)], [], [1], [(0, [0, -1.0, 0])], {(0, 1): plane})
t.build_trails()
static_equilibrium(t)
assert t.edge_attribute((0, 1), "plane") is not None
'''),
    dict(id="gh-edge-with-node-zero", property="C20",
         edits=[("ghpython/components/CompasCem_ParameterTrailEdge/code.py", "        if not edge_key:\n", "        if not edge_key or not all(edge_key):\n")],
         needs="the trail edge one of whose nodes has key 0",
         breaks="the component yields no parameter although its required input is set",
         demo=G + '''
assert component("CompasCem_ParameterTrailEdge").RunScript((3, 1), 0.5, 0.5) is not None
assert component("CompasCem_ParameterTrailEdge").RunScript((0, 1), 0.5, 0.5) is not None
'''),
    dict(id="gh-move-in-place", property="C21",
         edits=[("ghpython/components/CompasCem_OriginNodesMove/code.py", """        topology = topology.copy()
        points = iterable_like(origin_node_keys, points, points[-1])
""", """        if len(points) != len(origin_node_keys):
            topology = topology.copy()
            points = iterable_like(origin_node_keys, points, points[-1])
""")],
         needs="as many points as origin nodes",
         breaks="the diagram on the input wire is moved in place",
         demo=G + '''
t = portal()
t.build_trails()
c = component("CompasCem_OriginNodesMove")
out = c.RunScript(t, [1, 2], [[1.0, 1.0, 0.0], [2.5, 1.0, 0.0]])
assert near(out.node_coordinates(1), [1, 1, 0])
assert near(t.node_coordinates(1), [1, 0, 0]), t.node_coordinates(1)
'''),
    dict(id="gh-reaction-side", property="C22",
         edits=[("ghpython/artists.py", "max(forces, key=lambda f: fabs(f))", "max(forces)")],
         needs="a support at which a large compression meets a smaller tension",
         breaks="the reaction arrow is drawn on the pulling side although the largest force at the node pushes",
         demo=G + '''
t = diagram([[0, 0, 0], [0, -1, 0], [1, -1, 0], [1, 0, 0]], [(0, 1, -1.0), (3, 2, -1.0)], [(1, 2, 0.5)], [1, 2], [(0, [0, -5.0, 0]), (3, [0, -5.0, 0])])
t.build_trails()
form = static_equilibrium(t)
assert sorted(form.edge_force(e) < 0 for e in form.connected_edges(1)) == [False, True]
lines = []
gh_artists(lines).FormArtist(form).draw_reactions([1])
line = lines[-1][0]
tip = form.node_coordinates(1)
assert near(line["end"], tip), (line, tip)
'''),
    dict(id="auglag-local-solver", property="C23",
         edits=[("optimization/nlopt.py", 'solver.set_local_optimizer(opt(nlopt_algorithm("VAR"), dims))', 'solver.set_local_optimizer(opt(LD_VAR1, dims))')],
         needs="the AUGLAG algorithm",
         breaks="a name that is imported nowhere is read in the branch of one algorithm",
         demo=P + '''
import numpy as np
from compas_cem.optimization.nlopt import nlopt_solver
nlopt_solver(lambda x, g: 0.0, "AUGLAG", 1, np.array([1.0]), np.array([-1.0]), 10, None, None)
'''),
    dict(id="shared-aux-vector", property="C24",
         edits=[("diagrams/topology/topology.py", """        self.attributes["_aux_vector"] = [1.0, 1.0, 1.0]
""", """        self.attributes["_aux_vector"] = TopologyDiagram.AUX_VECTOR
"""), ("diagrams/topology/topology.py", """    def __init__(self, *args, **kwargs):
        super(TopologyDiagram, self).__init__(*args, **kwargs)
""", """    AUX_VECTOR = [1.0, 1.0, 1.0]

    def __init__(self, *args, **kwargs):
        super(TopologyDiagram, self).__init__(*args, **kwargs)
""")],
         needs="two diagrams alive, one of which had a component of its auxiliary trail vector changed",
         breaks="every new topology diagram holds the same list as the direction of its auxiliary trails",
         demo=P + '''
a, b = TopologyDiagram(), TopologyDiagram()
a.auxiliary_trail_vector[2] = -5.0
assert near(b.auxiliary_trail_vector, [1, 1, 1])
assert near(TopologyDiagram().auxiliary_trail_vector, [1, 1, 1])
'''),
    dict(id="looser-load-threshold", property="C25",
         edits=[("diagrams/diagram.py", "def is_node_loaded(self, node, min_force=1e-6)", "def is_node_loaded(self, node, min_force=1e-3)")],
         needs="a load between 1e-6 and 1e-3, and a call that leaves the threshold out",
         breaks="a node with a small load is not reported as loaded",
         demo=P + '''
t = portal()
t.add_load(NodeLoad(0, [0.0, 0.0, 1e-4]))
assert t.is_node_loaded(0)
assert not t.is_node_loaded(3)
'''),
    dict(id="viewer-options-lost", property="C26",
         edits=[("viewers/viewer.py", """            kwargs = kwargs or {}
            kwargs["viewer"] = self
""", """            kwargs = {"viewer": self}
""")],
         needs="a diagram added to the viewer together with a display option",
         breaks="the display options given for a diagram are dropped; only the viewer reaches the object",
         demo='''
import importlib.util, os, sys, types

app = types.ModuleType("compas_view2.app")


class App:
    def __init__(self, *args, **kwargs):
        self.added = []

    def add(self, data, **kwargs):
        self.added.append((data, kwargs))
        return kwargs


app.App = App
sys.modules["compas_view2"] = types.ModuleType("compas_view2")
sys.modules["compas_view2.app"] = app
import compas_cem
from compas_cem.diagrams import FormDiagram, TopologyDiagram
path = os.path.join(os.path.dirname(compas_cem.__file__), "viewers", "viewer.py")
spec = importlib.util.spec_from_file_location("cem_viewer_demo", path)
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
v = mod.Viewer()
for d in (FormDiagram(), TopologyDiagram()):
    got = v.add(d, show_loads=False, edgewidth=0.2)
    assert got == {"show_loads": False, "edgewidth": 0.2, "viewer": v}
assert v.add([1, 2], size=3) == {"size": 3}
'''),
    dict(id="form-plotted-as-topology", property="C26",
         edits=[("plotters/register.py", """    Artist.register(TopologyDiagram, TopologyArtist, context="Plotter")
    Artist.register(FormDiagram, FormArtist, context="Plotter")
""", """    for diagram in (TopologyDiagram, FormDiagram):
        artist = FormArtist if diagram is not TopologyDiagram else TopologyArtist
        Artist.register(TopologyDiagram, artist, context="Plotter")
""")],
         needs="a topology diagram plotted after the artists were registered",
         breaks="topology diagrams are drawn by the form artist and form diagrams by none of this package",
         demo='''
import importlib.util, os, sys, types
import compas_cem
plotters = types.ModuleType("compas_cem.plotters")


class TopologyArtist:
    pass


class FormArtist:
    pass


plotters.TopologyArtist, plotters.FormArtist = TopologyArtist, FormArtist
sys.modules["compas_cem.plotters"] = plotters
from compas.artists import Artist
from compas_cem.diagrams import FormDiagram, TopologyDiagram
made = {}
Artist.register = staticmethod(lambda item_type, artist_type, context=None: made.__setitem__((item_type, context), artist_type))
path = os.path.join(os.path.dirname(compas_cem.__file__), "plotters", "register.py")
spec = importlib.util.spec_from_file_location("cem_register_demo", path)
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
mod.register_artists()
assert made == {(TopologyDiagram, "Plotter"): TopologyArtist, (FormDiagram, "Plotter"): FormArtist}, made
'''),
    dict(id="shift-only-forward", property="C09",
         edits=[("diagrams/topology/topology.py", '''        trail = self.attributes["_trails"][key]
''', '''        trail = self.attributes["_trails"][key]
        if self.node_sequence(trail[0]) >= sequence:
            return

''')],
         needs="a trail that was shifted forward is shifted back to an earlier starting sequence",
         breaks="the trail keeps the later starting sequence",
         demo=P + '''
t = diagram([[0, 0, 0], [0, 1, 0], [1, 0, 0], [1, 1, 0]], [(0, 1, 1.0), (2, 3, 1.0)], [(0, 2, -1.0)], [1, 3], [(0, [0, -1, 0])])
t.build_trails()
t.shift_trail(0, 3)
assert [t.node_sequence(n) for n in t.trail(0)] == [3, 4]
t.shift_trail(0, 1)
assert [t.node_sequence(n) for n in t.trail(0)] == [1, 2]
assert [t.node_sequence(n) for n in t.trail(2)] == [0, 1]
'''),
    dict(id="best-penalty-of-all-runs", property="C14",
         edits=[("optimization/optimizer.py", '''        self.penalty = loss_opt
''', '''        self.penalty = loss_opt if self.penalty is None else min(self.penalty, loss_opt)
''')],
         needs="one optimizer used for two runs, the second ending at a larger penalty",
         breaks="the penalty reported after the second run is that of the first",
         demo=P + '''
from compas_cem.optimization import Optimizer, PointConstraint, TrailEdgeParameter


def problem(y):
    t = diagram([[0, 0, 0], [0, -1, 0]], [(0, 1, 1.0)], [], [1], [(0, [0, -1, 0])])
    t.build_trails()
    return t


opt = Optimizer()
opt.add_parameter(TrailEdgeParameter((0, 1), 0.5, 0.5))
opt.add_constraint(PointConstraint(1, [0.0, 1.2, 0.0]))
opt.solve(problem(0), algorithm="SLSQP", iters=50)
first = opt.penalty
opt.remove_constraint(0)
opt.add_constraint(PointConstraint(1, [3.0, 1.0, 0.0]))
opt.solve(problem(0), algorithm="SLSQP", iters=50)
assert first < 1e-3 and abs(opt.penalty - 9.0) < 1e-2, (first, opt.penalty)
'''),
    dict(id="polyline-first-segments", property="C16",
         edits=[("optimization/constraints/polyline.py", '''        for segment in pairwise(polyline):
''', '''        for segment in list(pairwise(polyline))[:20]:
''')],
         needs="a polyline target with more than twenty segments, the closest one beyond the twentieth",
         breaks="the target is not the closest point of the polyline",
         demo='''
from compas.geometry import Polyline
from compas_cem.optimization import PolylineConstraint
line = Polyline([[float(i), 0.0, 0.0] for i in range(41)])
c = PolylineConstraint(0, line)
for x in (3.25, 19.5, 20.5, 33.75):
    p = c.penalty({"node_xyz": {0: [x, 2.0, 0.0]}})
    assert abs(p - 4.0) < 1e-9, (x, p)
'''),
    dict(id="iterations-at-least-dims", property="C17",
         edits=[("optimization/nlopt.py", '''    solver.set_maxeval(iters)
''', '''    solver.set_maxeval(max(iters, dims))
''')],
         needs="more variables than iterations allowed",
         breaks="the solver runs past the iteration limit the caller gave",
         demo='''
import numpy as np
from compas_cem.optimization.nlopt import nlopt_solver
for dims, iters in ((2, 5), (8, 3)):
    s = nlopt_solver(lambda x, g: 0.0, "SLSQP", dims, np.ones(dims), -np.ones(dims), iters, 1e-6, 1e-8)
    assert s.get_maxeval() == iters, (dims, iters, s.get_maxeval())
'''),
    dict(id="zero-weight-restored-as-one", property="C19",
         edits=[("optimization/constraints/constraint.py", '''        self._weight = float(data["weight"])

        # TODO: Is''', '''        self._weight = float(data["weight"] or 1.0)

        # TODO: Is''')],
         needs="a constraint switched off by a weight of zero is exported and imported",
         breaks="it comes back with full weight",
         demo='''
from compas.geometry import Point
from compas_cem.optimization import PointConstraint
for w in (1.0, 0.25, 0.0):
    c = PointConstraint(3, Point(1.0, 2.0, 3.0), weight=w)
    d = PointConstraint()
    d.data = c.data
    assert d.key() == 3 and d.weight == w, d
'''),
]
