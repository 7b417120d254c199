"""Reference: optimisation problem bookkeeping (C12, C13)."""
import autograd.numpy as np

from compas_cem.optimization.parameters import NodeParameter
from compas_cem.optimization.parameters import EdgeParameter
from compas_cem.optimization import Optimizer
from compas_cem.optimization import PointConstraint
from compas_cem.optimization import EdgeDirectionConstraint
from compas_cem.optimization import TrailEdgeForceConstraint
from compas_cem.optimization import OriginNodeXParameter
from compas_cem.optimization import OriginNodeYParameter
from compas_cem.optimization import OriginNodeZParameter
from compas_cem.optimization import NodeLoadXParameter
from compas_cem.optimization import NodeLoadYParameter
from compas_cem.optimization import NodeLoadZParameter
from compas_cem.optimization import TrailEdgeParameter
from compas_cem.optimization import DeviationEdgeParameter


def made():
    o = Optimizer()
    return o.parameters, o.constraints


def made_ref():
    return {}, {}


def unsolved():
    o = Optimizer()
    return o.x_opt, o.time_opt, o.penalty, o.evals, o.gradient_norm, o.status


def unsolved_ref():
    return None, None, None, None, None, None


def first_parameters(a, b, c, d, e):
    o = Optimizer()
    o.add_parameter(a)
    o.add_constraint(b)
    o.add_parameter(b)
    o.add_parameter(c)
    o.remove_parameter(1)
    o.add_parameter(d)
    o.remove_parameter(3)
    o.add_parameter(e)
    return o.parameters


def first_parameters_ref(a, b, c, d, e):
    return {0: a, 2: c, 4: e}


def first_constraints(a, b, c, d, e):
    o = Optimizer()
    o.add_constraint(a)
    o.add_parameter(b)
    o.add_constraint(b)
    o.add_constraint(c)
    o.remove_constraint(1)
    o.add_constraint(d)
    o.remove_constraint(3)
    o.add_constraint(e)
    return o.constraints


def first_constraints_ref(a, b, c, d, e):
    return {0: a, 2: c, 4: e}


def two_parameters(o, one, other):
    o.add_parameter(one)
    o.add_parameter(other)


def two_constraints(o, one, other):
    o.add_constraint(one)
    o.add_constraint(other)


def parameter_after_removal(o, key, one):
    o.remove_parameter(key)
    o.add_parameter(one)


def constraint_after_removal(o, key, one):
    o.remove_constraint(key)
    o.add_constraint(one)


def number_of_parameters(self):
    return len(self.parameters)


def number_of_constraints(self):
    return len(self.constraints)


def remove_parameter(self, key):
    if key not in self.parameters:
        raise KeyError(key)
    del self.parameters[key]


def remove_constraint(self, key):
    if key not in self.constraints:
        raise KeyError(key)
    del self.constraints[key]


def start_values(self, topology):
    return np.array([p.start_value(topology) for p in self.parameters.values()])


def bounds(self, topology):
    low = np.array([p.bound_low(topology) for p in self.parameters.values()])
    up = np.array([p.bound_up(topology) for p in self.parameters.values()])
    return low, up


def update(self, topology, values):
    for i, p in enumerate(self.parameters.values()):
        if isinstance(p, NodeParameter):
            topology.node_attribute(key=p.key(), name=p.attr_name(), value=values[i])
        elif isinstance(p, EdgeParameter):
            topology.edge_attribute(key=p.key(), name=p.attr_name(), value=values[i])
        else:
            raise TypeError(p)


def sanity(self):
    if not self.parameters:
        raise ValueError("no parameters")
    if not self.constraints:
        raise ValueError("no constraints")


# ---------------------------------------------------------------- one parameter
def seen(p, topology):
    return p.key(), p.attr_name(), p.start_value(topology), p.bound_low(topology), p.bound_up(topology)


def wanted(key, name, start, low, up):
    return key, name, start, start - abs(low) if low is not None else float("-inf"), start + abs(up) if up is not None else float("inf")


def origin_x(topology, key, low, up):
    return seen(OriginNodeXParameter(key, low, up), topology)


def origin_y(topology, key, low, up):
    return seen(OriginNodeYParameter(key, low, up), topology)


def origin_z(topology, key, low, up):
    return seen(OriginNodeZParameter(key, low, up), topology)


def load_x(topology, key, low, up):
    return seen(NodeLoadXParameter(key, low, up), topology)


def load_y(topology, key, low, up):
    return seen(NodeLoadYParameter(key, low, up), topology)


def load_z(topology, key, low, up):
    return seen(NodeLoadZParameter(key, low, up), topology)


def trail(topology, key, low, up):
    return seen(TrailEdgeParameter(key, low, up), topology)


def deviation(topology, key, low, up):
    return seen(DeviationEdgeParameter(key, low, up), topology)


def named(topology, key, low, up):
    return seen(TrailEdgeParameter(bound_up=up, bound_low=low, key=key), topology)


def unset(make, topology, key):
    return seen(make(key), topology)


def low_only(make, topology, key, low):
    return seen(make(key, bound_low=low), topology)


def up_only(make, topology, key, up):
    return seen(make(key, bound_up=up), topology)


def node_again(make, topology, key, low, up, name, value):
    p = make(key, low, up)
    seen(p, topology)
    topology.node_attribute(key, name, value)
    return seen(p, topology)


def edge_again(make, topology, key, low, up, name, value):
    p = make(key, low, up)
    seen(p, topology)
    topology.edge_attribute(key, name, value)
    return seen(p, topology)


def node_again_ref(make, topology, key, low, up, name, value):
    topology.node_attribute(key, name, value)
    return wanted(key, name, value, low, up)


def edge_again_ref(make, topology, key, low, up, name, value):
    topology.edge_attribute(key, name, value)
    return wanted(key, name, value, low, up)


def unset_ref(make, topology, key):
    return seen(make(key, None, None), topology)


def low_only_ref(make, topology, key, low):
    return seen(make(key, low, None), topology)


def up_only_ref(make, topology, key, up):
    return seen(make(key, None, up), topology)


def origin_x_ref(topology, key, low, up):
    return wanted(key, "x", topology.node_attribute(key, "x"), low, up)


def origin_y_ref(topology, key, low, up):
    return wanted(key, "y", topology.node_attribute(key, "y"), low, up)


def origin_z_ref(topology, key, low, up):
    return wanted(key, "z", topology.node_attribute(key, "z"), low, up)


def load_x_ref(topology, key, low, up):
    return wanted(key, "qx", topology.node_attribute(key, "qx"), low, up)


def load_y_ref(topology, key, low, up):
    return wanted(key, "qy", topology.node_attribute(key, "qy"), low, up)


def load_z_ref(topology, key, low, up):
    return wanted(key, "qz", topology.node_attribute(key, "qz"), low, up)


def trail_ref(topology, key, low, up):
    return wanted(key, "length", topology.edge_attribute(key, "length"), low, up)


def deviation_ref(topology, key, low, up):
    return wanted(key, "force", topology.edge_attribute(key, "force"), low, up)


def repeated_parameters(edge, node, low, up):
    o = Optimizer()
    p = TrailEdgeParameter(edge, low, up)
    q = TrailEdgeParameter(edge, low, up)
    r = NodeLoadXParameter(node, low, up)
    s = NodeLoadYParameter(node, low, up)
    for one in (p, q, p, r, s):
        o.add_parameter(one)
    kept = o.parameters
    return len(kept), kept.get(0) is p, kept.get(1) is q, kept.get(2) is p, kept.get(3) is r, kept.get(4) is s


def repeated_constraints(edge, node, target, vector):
    o = Optimizer()
    p = PointConstraint(node, target)
    q = PointConstraint(node, target)
    r = EdgeDirectionConstraint(edge, vector)
    s = TrailEdgeForceConstraint(edge, 1.0)
    for one in (p, q, p, r, s):
        o.add_constraint(one)
    kept = o.constraints
    return len(kept), kept.get(0) is p, kept.get(1) is q, kept.get(2) is p, kept.get(3) is r, kept.get(4) is s


def repeated_ref(edge, node, one, other):
    return 5, True, True, True, True, True


# one vector, one table: read, bounded and written through the optimiser
def through(make, topology, key, other, value, low, up, name):
    o = Optimizer()
    o.add_parameter(NodeLoadZParameter(other, 1.0, 2.0))
    o.add_parameter(make(key, low, up))
    o.remove_parameter(0)
    start = o.optimization_parameters(topology)[0]
    below, above = o.optimization_bounds(topology)
    bounds = below[0], above[0]
    o._update_parameters(topology, [value])
    return start, bounds, o.optimization_parameters(topology)[0]


def through_node(make, topology, key, other, value, low, up, name):
    start = topology.node_attribute(key, name)
    bounds = wanted(key, name, start, low, up)[-2:]
    topology.node_attribute(key, name, value)
    return start, bounds, value


def through_edge(make, topology, key, other, value, low, up, name):
    start = topology.edge_attribute(key, name)
    bounds = wanted(key, name, start, low, up)[-2:]
    topology.edge_attribute(key, name, value)
    return start, bounds, value
