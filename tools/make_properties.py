"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os

S = "src/compas_cem/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Every node of a form-found structure is in force balance",
     "For every topology diagram, form-finding makes the trail force leaving a node equal to the force entering it minus the node's applied load and minus every deviation force connected to the node, each deviation force acting with its signed magnitude along the unit direction from the node to the edge's other end. "
     "Deviation edges joining nodes of the same sequence act from the first iteration, those joining different sequences act from the second iteration on, and no load, edge or node is left out, at supports either. "
     "At a support the remaining force is reported as the reaction, and each trail edge's reported force has the magnitude of the force it carries and the sign of its length.",
     ["inputs"], "all topology diagrams (any number of trails, loads, shifted trails, deviation edges, tension/compression mixes), both solver implementations",
     "The suite checks a few hand-made trusses with one load pattern; a term dropped or mis-signed for a node or edge configuration the fixtures do not have is invisible.",
     ["equilibrium/force.py", "equilibrium/force_numpy.py", "diagrams/topology/topology.py", "diagrams/diagram.py"],
     [("equilibrium loop", "equilibrium/force.py:equilibrium_state"), ("numpy equilibrium loop", "equilibrium/force_numpy.py:equilibrium_state_numpy"),
      ("nodal equilibrium", "equilibrium/force.py:node_equilibrium, trail_vector_out, deviation_edges_resultant_vector"),
      ("edge selection", "diagrams/topology/topology.py:_connected_direct_deviation_edges, _connected_indirect_deviation_edges")])

prop("C02", "Trail nodes are placed along the force at the prescribed length or plane",
     "In every iteration the next node of a trail is placed at the current node's position plus the signed edge length times the unit direction of the force leaving the node. "
     "If the trail edge has a target plane, the signed distance to the plane along that force direction replaces the length, unless force and plane are parallel or the distance vanishes, in which case the input length is used; origin nodes never move, and where no force is left the next node falls on the current one. "
     "Every node of every trail is visited in sequence order, whatever the direction in which its trail edge is stored.",
     ["inputs"], "all topology diagrams, edge orientations, planes and lengths of either sign, both solver implementations",
     "Only some fixtures carry planes or reversed edges; the tests assert final coordinates of those fixtures, not the placement rule.",
     ["equilibrium/force.py", "equilibrium/force_numpy.py"],
     [("position update", "equilibrium/force.py:equilibrium_state"), ("position update (numpy)", "equilibrium/force_numpy.py:equilibrium_state_numpy"),
      ("plane intersection", "equilibrium/force.py:trail_length_from_plane_intersection, equilibrium/force_numpy.py:trail_length_from_plane_intersection_numpy")])

prop("C03", "Form-finding only returns converged results and respects its limits",
     "Form-finding performs at most the requested number of iterations, and when it ran more than one it returns a result only if the displacement of all the nodes between the last two iterations does not exceed the requested tolerance; otherwise it raises an error. "
     "The displacement compares the positions before and after the same iteration over every node of the diagram. "
     "When a last sequence is requested, no node beyond that sequence is moved, no force is reported beyond it, and the nodes at that sequence report their remaining force; the limits and options given to the form-finding functions are the ones in effect; a diagram without trails and a negative last sequence are rejected.",
     ["inputs", "configurations"], "all diagrams and all values of the iteration, tolerance and last-sequence limits",
     "The suite never requests a last sequence, never runs out of iterations, and cannot see whether the stopping test compares the right snapshots on diagrams it does not contain.",
     ["equilibrium/force.py", "equilibrium/force_numpy.py"],
     [("stopping rule", "equilibrium/force.py:equilibrium_state"), ("stopping rule (numpy)", "equilibrium/force_numpy.py:equilibrium_state_numpy")])

prop("C04", "The two form-finding implementations compute the same result",
     "For every topology diagram and the same limits, the plain and the array-based form-finding routines apply the same equilibrium, placement and reporting rules: node positions, trail forces, trail directions, reaction forces and edge lengths are defined by the same formulas of the same input data.",
     ["inputs"], "all topology diagrams",
     "The suite compares both only on its fixtures; a divergence in a branch no fixture takes goes unnoticed and makes the optimiser (array-based) disagree with the returned form (plain).",
     ["equilibrium/force.py", "equilibrium/force_numpy.py"],
     [("plain", "equilibrium/force.py:static_equilibrium"), ("array-based", "equilibrium/force_numpy.py:static_equilibrium_numpy")])

prop("C05", "The form diagram reports exactly the computed equilibrium state",
     "The form diagram returned by form-finding has the nodes, edges, loads, supports and deviation forces of the topology diagram, the computed position for every node, the computed force for every trail edge, and the computed reaction for every support. "
     "Every edge's reported length has the magnitude of the distance between its end positions in the form and the sign of the edge's force. "
     "The form carries no trail bookkeeping of the topology diagram.",
     ["inputs"], "all topology diagrams, both implementations",
     "Tests compare a handful of attributes on fixtures; dropping an attribute for some kind of edge or node passes them.",
     ["equilibrium/force.py", "equilibrium/force_numpy.py", "diagrams/form.py"],
     [("writing the form", "equilibrium/force.py:form_update, equilibrium/force_numpy.py:form_update"), ("base form", "diagrams/form.py:FormDiagram.from_topology_diagram")])

prop("C06", "Form-finding and queries never modify the topology diagram they are given",
     "Computing an equilibrium state, a form diagram, a gradient's parameter vector or bounds, or any query on a diagram leaves every node, edge and diagram attribute of the given diagram as it was, so running them any number of times in any order gives the same answer. "
     "The form diagram shares no mutable state with the topology diagram.",
     ["inputs", "histories"], "all diagrams and all sequences of calls",
     "A test that runs form-finding once cannot see state left behind for the next call; no test re-runs on the same diagram and compares.",
     ["equilibrium/force.py", "equilibrium/force_numpy.py", "diagrams/form.py", "diagrams/diagram.py", "diagrams/topology/topology.py"],
     [("entry points", "equilibrium/force.py:static_equilibrium, equilibrium/force_numpy.py:static_equilibrium_numpy"),
      ("queries", "diagrams/diagram.py, diagrams/topology/topology.py: every query method"),
      ("copy", "diagrams/form.py:FormDiagram.from_topology_diagram")])

prop("C07", "Trails run from an origin to a support, cover all nodes, number consecutively",
     "Building trails produces, for every support, one trail that follows only trail edges without revisiting a node and stops where no unvisited trail neighbour is left; it is ordered from that end (the origin, which also keys the trail; after building, these nodes and no others are marked as origins) to the support. "
     "The nodes of a trail are numbered consecutively from zero at the origin. "
     "Building fails with an error, and stores no trails, if there are no trail edges, no supports, or a node belongs to no trail; with automatic auxiliary trails every such node first gets a new support node, offset from it by the auxiliary length along the unit auxiliary direction and joined to it by a trail edge of that length.",
     ["inputs", "histories"], "all diagrams, edge orientations, insertion orders and both values of the auxiliary option",
     "The suite builds a few small diagrams; graphs with other degrees, orientations or insertion orders are not sampled.",
     ["diagrams/topology/topology.py"],
     [("trail search", "diagrams/topology/topology.py:TopologyDiagram.build_trails")],
     [("trails", "mapping from origin node to ordered node keys"), ("auxiliary trails", "mapping from node to auxiliary edge")])

prop("C08", "Edge and node classifications, collections and counters agree",
     "An edge is a trail edge or a deviation edge exactly by its declared type; a deviation edge is direct exactly when its two ends have the same sequence and indirect exactly when they differ, so the two classes partition the deviation edges, and asking before sequences exist is an error. "
     "A node is a support, an origin or loaded exactly by its declared type or when its load magnitude exceeds the threshold. "
     "Every collection lists exactly the elements its membership test accepts, every 'connected' collection exactly the incident edges its test accepts, and every counter is the length of its collection.",
     ["inputs", "histories"], "all diagrams and any editing history",
     "Unit tests count elements of fixtures; they do not establish that collection, predicate and counter agree for all diagrams.",
     ["diagrams/topology/topology.py", "diagrams/diagram.py"],
     [("predicates and collections", "diagrams/topology/topology.py:TopologyDiagram"), ("base predicates", "diagrams/diagram.py:Diagram")])

prop("C09", "Sequence maps and trail shifting reflect the nodes' sequence numbers",
     "Shifting a trail to a starting sequence gives its i-th node the starting sequence plus i and changes no other trail; it refuses keys that are not origins. "
     "The map of a trail sends each of its nodes' sequence numbers to that node, the map of all trails collects these for every trail, the number of sequences is the largest sequence number plus one, and iterating the sequences lists, in ascending order without gaps, exactly the nodes with each number.",
     ["inputs", "histories"], "all diagrams and any history of building and shifting trails",
     "Tests shift one or two trails in fixtures only.",
     ["diagrams/topology/topology.py"],
     [("shift", "diagrams/topology/topology.py:TopologyDiagram.shift_trail"),
      ("maps", "diagrams/topology/topology.py:trail_sequences, trails_sequences, sequences, number_of_sequences, sequence_last, node_sequence, edge_sequence")])

prop("C10", "Elements land on the intended nodes; position lookup stays coherent",
     "Adding a node stores its coordinates and makes it findable by its position within the diagram's tolerance; moving a node makes it findable at the new position and no longer at the old one. "
     "Adding an edge joins the nodes its ends designate by key or by position, creating a node only where none exists, and stores the edge's own attributes, independent of the edge object. "
     "Supports and loads given by key or position act on exactly that node, replace its type or load vector only, and designating a position without a node is an error that changes nothing.",
     ["inputs", "histories"], "all node keys (including zero), positions, element kinds and orders of insertion and moves",
     "No test moves a node, looks nodes up by position after edits, or inserts edges by coordinates in mixed order.",
     ["diagrams/mixins/node_mixins.py", "diagrams/mixins/edge_mixins.py", "diagrams/topology/topology.py", "elements/edge.py", "elements/node.py", "elements/trail.py", "elements/deviation.py", "loads/node.py", "supports/node.py"],
     [("nodes and index", "diagrams/mixins/node_mixins.py:NodeMixins"), ("edges", "diagrams/mixins/edge_mixins.py:EdgeMixins.add_edge"),
      ("loads and supports", "diagrams/topology/topology.py:TopologyDiagram.add_support, add_load")],
     [("position index", "geometric key of a position to node key")])

prop("C11", "A topology diagram made from a quad mesh splits polyedges consistently",
     "Converting a mesh keeps every vertex as a node with its coordinates and key, and makes a support of exactly the given vertices. "
     "Closed polyedges and open ones without supported ends become deviation edges; an open one with one supported end becomes one run of trail edges; one with two supported ends is split into two trails joined by one central deviation edge, or skipped when its second vertex is supported. "
     "Trail edges get the given length, or else their length in the mesh, with the sign of the trail state; deviation edges get the given force with the sign of the deviation state.",
     ["inputs"], "all quad meshes, support sets, lengths and states",
     "No test converts a mesh.",
     ["diagrams/topology/mesh_mixins.py"],
     [("conversion", "diagrams/topology/mesh_mixins.py:MeshMixins.from_dualquadmesh")])

prop("C12", "Optimisation variables map one-to-one to diagram attributes",
     "For any history of adding and removing parameters, the start vector, both bound vectors and the write-back of a variable vector use one entry per remaining parameter in the same order, and each entry is read from and written to the same node or edge and the same attribute. "
     "Adding never overwrites an earlier parameter or constraint, removing an unknown key is an error, and writing variables changes nothing else in the diagram.",
     ["inputs", "histories"], "all histories of adding and removing parameters, all parameter kinds and keys",
     "The optimiser has no tests at all.",
     ["optimization/optimizer.py", "optimization/parameters/node.py", "optimization/parameters/edge.py", "optimization/parameters/parameter.py"],
     [("vectors", "optimization/optimizer.py:Optimizer.optimization_parameters, optimization_bounds"), ("write-back", "optimization/optimizer.py:Optimizer._update_parameters"),
      ("registry", "optimization/optimizer.py:Optimizer.add_parameter, remove_parameter, add_constraint, remove_constraint")])

prop("C13", "Parameters start at the diagram's value and are bounded around it",
     "Each kind of parameter addresses the attribute its name states: origin coordinates, load components, trail edge length, deviation edge force. "
     "Its start value is that attribute of the addressed node or edge in the given diagram; its lower bound is the start value minus the magnitude of the low bound and its upper bound the start value plus the magnitude of the up bound; a bound that is unset or left out is unbounded on that side only, and a bound of zero fixes that side.",
     ["inputs", "configurations"], "all parameter kinds, keys, diagrams and bounds of either sign, zero or unset",
     "Parameters have no tests.",
     ["optimization/parameters/parameter.py", "optimization/parameters/node.py", "optimization/parameters/edge.py", "optimization/parameters/origin.py", "optimization/parameters/load.py", "optimization/parameters/trail.py", "optimization/parameters/deviation.py"],
     [("bounds", "optimization/parameters/parameter.py:Parameter.bound_low, bound_up"), ("start", "optimization/parameters/node.py, edge.py:start_value"),
      ("attributes", "optimization/parameters/{origin,load,trail,deviation}.py")])

prop("C14", "The optimiser returns the form of its optimum and reports that run",
     "After a successful optimisation the given diagram holds the optimal variables, the returned form is the equilibrium of that diagram under the caller's iteration and tolerance limits, and the reported optimum, penalty, evaluation count, status, gradient and gradient norm all belong to that same run. "
     "The objective and its gradient are evaluated with the caller's limits, the gradient on a private copy of the diagram. "
     "Optimising without parameters or constraints, or with an unsupported gradient method, is rejected before anything is changed; an optimiser that has not run reports none of these results.",
     ["inputs", "configurations"], "all problems, algorithms, gradient methods and limits, including runs that stop early",
     "The optimiser has no tests; whether the last evaluated point equals the optimum depends on the algorithm's path.",
     ["optimization/optimizer.py", "optimization/objective_func.py"],
     [("solve", "optimization/optimizer.py:Optimizer.solve"), ("objective", "optimization/optimizer.py:Optimizer._optimize_form, objective_func; optimization/objective_func.py:objective_function_numpy")])

prop("C15", "The gradient handed to the solver is that of the objective",
     "Whenever the solver asks for a gradient, every component is written in place with the derivative of the same penalty function that is minimised: by automatic differentiation of it, or by the forward difference with the caller's step, perturbing only that component from the evaluated point and dividing by the same step. "
     "The solver's variable vector is never modified, and when no gradient is requested none is computed.",
     ["inputs"], "all variable vectors, dimensions, step sizes and both methods",
     "Gradients have no tests; a component left perturbed only shows in problems of two or more variables.",
     ["optimization/grad.py", "optimization/objective_func.py", "optimization/optimizer.py"],
     [("finite differences", "optimization/grad.py:grad_finite_differences"), ("automatic", "optimization/grad.py:grad_autograd"), ("hook-up", "optimization/objective_func.py:objective_function_numpy")])

prop("C16", "The penalty is the weighted sum of squared deviations from all targets",
     "The penalty of a form is the sum over all constraints, each contributing its weight (one if none is given) times the squared distance between its reference quantity and its target. "
     "The reference is what the constraint names for its own node or edge: node position, edge direction from first to second node, distance between the edge's ends, trail force or reaction force; the target is the given point, vector or number, or the closest point to the reference on the given line, plane or polyline, or the given direction as a unit vector flipped to the reference's side.",
     ["inputs"], "all constraint kinds, targets, weights and equilibrium states",
     "Constraints have no tests.",
     ["optimization/constraints/constraint.py", "optimization/constraints/point.py", "optimization/constraints/line.py", "optimization/constraints/plane.py", "optimization/constraints/polyline.py", "optimization/constraints/direction.py", "optimization/constraints/length.py", "optimization/constraints/force.py", "optimization/optimizer.py"],
     [("penalties", "optimization/constraints/constraint.py:VectorConstraint.penalty, FloatConstraint.penalty"), ("total", "optimization/optimizer.py:Optimizer._calculate_penalty")])

prop("C17", "The numerical solver is configured exactly as the caller asked",
     "The solver runs the algorithm the caller named, minimises the objective, and is given the lower and upper bounds on their own sides, the iteration limit, the objective-value threshold and the convergence tolerance whenever they are given, in their own roles. "
     "Unknown algorithm names are an error, and every solver result code is reported under its own name.",
     ["inputs", "configurations"], "all supported algorithms, bounds, limits and result codes",
     "No test drives the solver.",
     ["optimization/nlopt.py", "optimization/optimizer.py"],
     [("solver", "optimization/nlopt.py:nlopt_solver, nlopt_algorithms, nlopt_status"), ("arguments", "optimization/optimizer.py:Optimizer.solve")])

prop("C18", "The remote solve entry point hands everything through unchanged",
     "Solving through the remote entry point poses exactly the optimisation problem given: all constraints, all parameters, the algorithm and every limit reach the optimiser in their own roles. "
     "It returns the diagram, the form, the final objective, the gradient norm, the number of evaluations, the duration and the status, in this order, all from that run.",
     ["inputs", "configurations"], "all problems and settings passed through the remote entry point",
     "No test calls it.",
     ["optimization/proxy.py", "optimization/optimizer.py", "ghpython/components/CompasCem_ConstrainedFormFinding/code.py"],
     [("entry point", "optimization/proxy.py:solve_proxy"), ("caller", "ghpython/components/CompasCem_ConstrainedFormFinding/code.py:RunScript")])

prop("C19", "Saved parameters and constraints restore to the same problem",
     "The data exported from any parameter or constraint contains its key, its bounds or weight, its attribute or target, each under a name that the import reads back into the same field, with the inverse conversion. "
     "Importing restores every exported field and unset bounds stay unset.",
     ["inputs"], "all parameter and constraint kinds and field values",
     "No test serialises an optimisation object.",
     ["optimization/parameters/node.py", "optimization/parameters/edge.py", "optimization/constraints/constraint.py"],
     [("data getters and setters", "optimization/parameters/{node,edge}.py, optimization/constraints/constraint.py: data")])

prop("C20", "Visual components match their declared inputs and outputs",
     "Every Grasshopper component's script takes one parameter per input its metadata declares, matched by position, and returns on every successful path as many values as outputs are declared; each returned value is the one its output describes. "
     "Unset optional inputs fall back to the documented defaults, and missing required inputs yield no result instead of a failure.",
     ["configurations"], "all shipped components and all their execution paths",
     "The components cannot even be imported without Rhino, so no test can run them.",
     ["ghpython/components"],
     [("scripts and metadata", "ghpython/components/*/code.py:RunScript, ghpython/components/*/metadata.json")])

prop("C21", "Visual components never alter the diagrams wired into them",
     "A Grasshopper component that edits a diagram (moves nodes, shifts trails, optimises, builds trails) works on its own copy, so the diagram object on its input wire and every other component fed by it stay unchanged.",
     ["inputs", "histories"], "all shipped components and inputs",
     "The components cannot run outside Rhino.",
     ["ghpython/components"],
     [("scripts", "ghpython/components/*/code.py:RunScript")])

prop("C22", "All front ends show forces, loads and states with the same conventions",
     "Every front end colours an edge by the sign of its force (or, in a topology diagram, by its declared state or its type) with the shared colour table: positive in the tension colour, negative in the compression colour, zero in the neutral colour where the front end has one (plotter) and as tension otherwise (viewer). "
     "It draws loads from the load components and reactions from the reaction components of the diagram, scaled, skipping vectors below the threshold, and shifted along their own axis when the largest force at the node pushes. Supports and origins have their shared colours; widths mapped to forces run between the two given limits; text labels show the attribute their tag names; what is switched off is not drawn, and drawing a kind of node or edge draws exactly the nodes and edges of that kind. "
     "Reading a size, width, scale, threshold, label, selection or visibility option back returns the value that was last set for that same option.",
     ["inputs", "configurations"], "all diagrams, display options and front ends",
     "Drawing code has no tests and two of three front ends need software that is not installed.",
     ["plotters/formartist.py", "plotters/topologyartist.py", "viewers/diagramobject.py", "viewers/formobject.py", "viewers/topologyobject.py", "ghpython/artists.py", "__init__.py"],
     [("plotters", "plotters/formartist.py, plotters/topologyartist.py"), ("viewers", "viewers/diagramobject.py"), ("ghpython", "ghpython/artists.py")])

prop("C23", "Every internal reference in the package resolves",
     "Every module, class, function, method and variable of the package that package code refers to exists where it is looked up, is called with arguments its signature accepts, and is assigned on every path before it is read; iterators that can be consumed only once are not measured, indexed, tested for emptiness or consumed again, are consumed before the names they read are bound anew, no collection is changed while it is walked through, and every place of a text template is given a value. This includes branches and optional front ends that are rarely executed. (Demonstration blocks run only as scripts are not part of the package.)",
     ["programs", "configurations"], "all modules of the package, all branches, whether or not optional dependencies are installed",
     "Tests import only part of the package and execute only the branches their fixtures take.",
     ["."],
     [("whole package", "src/compas_cem/**/*.py")])

prop("C24", "A new diagram is empty and neutral and its settings read back",
     "A newly made diagram has no trails and an empty position table; a node nothing was assigned to has zero coordinates, zero load and zero reaction, no sequence and no type, an edge nothing was assigned to has no type, zero length and zero force, so such elements contribute no forces. The tolerance is three decimals, the length and direction of auxiliary trails are -1 and (1, 1, 1) unless set; each setting reads back what was last set without changing the others, and a form diagram keeps the tolerance of its topology. No two diagrams and no two tables share these contents.",
     ["inputs", "histories"], "all diagrams, all elements, all values of the settings, any number of diagrams alive at once",
     "Tests build a few diagrams and assign most attributes explicitly.",
     ["diagrams/diagram.py", "diagrams/topology/topology.py", "diagrams/form.py"],
     [("defaults", "diagrams/diagram.py:Diagram.__init__"), ("tables", "diagrams/topology/topology.py:TopologyDiagram.__init__")])

prop("C25", "Arguments left out take the documented default",
     "A call that leaves out an optional argument behaves as the documentation of that argument says: wherever the package documents a default for a parameter of a function, method or constructor (iteration limits, tolerances, algorithm and gradient names, step sizes, thresholds, display options), the call accepts leaving it out and uses exactly that value.",
     ["inputs"], "all documented optional parameters of the package, all calls that omit them",
     "Tests pass most of these arguments explicitly or do not observe the value used.",
     ["equilibrium/force.py", "equilibrium/force_numpy.py", "optimization/optimizer.py", "optimization/proxy.py", "diagrams/diagram.py", "ghpython/artists.py"],
     [("limits", "equilibrium/force.py:static_equilibrium"), ("optimisation options", "optimization/optimizer.py:Optimizer.solve")])

prop("C26", "Each front end draws a diagram with the class made for it",
     "Once the package is installed, plotting, viewing or baking a diagram works in each front end without further setup: for the plotter and for Grasshopper exactly the artist written for topology diagrams is registered for TopologyDiagram and the one for form diagrams for FormDiagram, each in its own context, by plugins the library finds in the announced modules; loading the viewers package registers the viewer objects likewise. A viewer hands itself, and every option it was given, to the object of a diagram it is asked to add, passes any other object on unchanged, and returns what it added. The Rhino installer announces the package, installs exactly the component directory it ships when (and only when) the package is installed, and removes exactly the shipped components when it is uninstalled.",
     ["configurations", "inputs"], "all front ends, both kinds of diagram, all objects and options added to a viewer, all sets of installed packages",
     "The front ends and the installer hosts (Rhino, Grasshopper, the viewer) are not present where the tests run.",
     ["__init__.py", "plotters/register.py", "ghpython/register.py", "ghpython/install.py", "ghpython/uninstall.py", "viewers/register.py", "viewers/viewer.py", "viewers/__init__.py"],
     [("artists", "plotters/register.py:register_artists"), ("objects", "viewers/register.py:register_objects"), ("hand-over", "viewers/viewer.py:Viewer.add"), ("installer", "ghpython/install.py:after_rhino_install")])

prop("C30", "Form-finding converges to an accurate equilibrium",
     "For well-posed diagrams the iteration converges and the residual force at every node is below numerical precision.",
     ["inputs"], "all well-posed diagrams", "Depends on the numbers of each problem.",
     ["equilibrium/force.py", "equilibrium/force_numpy.py"],
     [("iteration", "equilibrium/force.py:equilibrium_state")])

prop("C31", "Optimisation reaches a local minimum within the bounds",
     "The optimum returned is feasible and a local minimiser of the penalty to the requested tolerance.",
     ["inputs"], "all optimisation problems", "Depends on the numerical solver's run.",
     ["optimization/optimizer.py", "optimization/nlopt.py"],
     [("solver", "optimization/nlopt.py:nlopt_solver")])

prop("C32", "A diagram saved to JSON and loaded again behaves identically",
     "Loading a saved diagram gives a diagram on which every query and form-finding returns the same result as on the original.",
     ["inputs", "histories"], "all diagrams", "Round-trip equality through the JSON encoder of the underlying library.",
     ["diagrams/diagram.py", "diagrams/topology/topology.py"],
     [("attributes stored in the diagram", "diagrams/topology/topology.py:TopologyDiagram.__init__, build_trails")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
