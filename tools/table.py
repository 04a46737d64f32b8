"""The properties, one entry each (source of properties.jsonl and MANIFEST.json)."""
PKG = "nonlinear_avoidance/"
PROPERTIES = []


def P(id, title, statement, over, text, why, files, mechanism, technique, level_note,
      state=None, observe_at=None, na=None):
    anchors = {"files": [f if "/" in f and f.startswith("nonlinear") else PKG + f
                         for f in files],
               "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe_at:
        anchors["observe_at"] = observe_at
    d = dict(id=id, title=title, statement=statement,
             quantifier={"over": over, "text": text}, why_tests_cant=why,
             anchors=anchors, technique=technique, level_note=level_note)
    if na:
        d["na"] = na
    PROPERTIES.append(d)


LOCK = ("TLA+ state machine explored by TLC; every explored transition replayed in "
        "lock-step into the real objects")
TRACE = "executions of the real code recorded and validated by a TLA+ trace specification"
BOTH = LOCK + "; " + TRACE

P("G01", "Linked graph elements keep parent and child links consistent",
  "After any sequence of linking, re-parenting, expelling, adding and deleting, an element "
  "is listed exactly once among the children of its parent and in no other element's "
  "children, and children keep the order in which they were linked. Linking a pair again "
  "changes nothing; an expelled or deleted element has no parent and no children, and its "
  "former children have no parent. Elements are told apart by identity, even when they "
  "carry equal values.",
  ["histories"], "every sequence of link, re-link, expel, add and delete operations on a "
  "bounded set of elements that keeps the links free of cycles, with distinct and with "
  "equal values",
  "One unit test links three elements once; re-linking, expelling, equal values and the "
  "handler's deletions are never executed.",
  ["graph_handler.py"],
  [("linked element and owning handler", "graph_handler.py GraphElement, BasicGraphHandler")],
  LOCK, "Exhaustive for up to 4 elements (5 in the thorough tier) plus random long "
  "histories; larger graphs by the symmetry of the operations only.",
  state=[("parent, children", "links of one element", "graph_handler.py GraphElement")])

P("G02", "Named hierarchy answers parents, children, roots and order consistently",
  "After any sequence of adding roots, adding children and re-parenting, each node reports "
  "the parent it was last given, appears exactly once among that parent's children and in "
  "no others, and the roots are exactly the nodes without a parent, in order of insertion. "
  "The descending listing contains every node exactly once, roots first and every node "
  "after its parent, level by level. Naming an unknown node or parent raises a ValueError "
  "and changes nothing.",
  ["histories"], "every sequence of add-root, add-child, re-parent and query operations on "
  "a bounded set of node names without cycles, from each way of constructing the hierarchy",
  "No test uses this class at all.",
  ["graph_handler.py"], [("index based hierarchy", "graph_handler.py GraphHandler")],
  LOCK, "Exhaustive for up to 4 names (5 in the thorough tier), 3 ways of construction.")

P("V01", "A rotation between two directions turns exactly one onto the other",
  "The rotation built from two directions turns the first onto the second along the "
  "shortest arc, keeps every vector's length and everything orthogonal to the plane of the "
  "two directions, and turns by the requested fraction of the angle; between opposite "
  "directions it is a half turn through some perpendicular. Its inverse undoes it, "
  "rotating a rotation moves its plane and keeps its angle, and none of this depends on the "
  "length of the given directions or changes the arguments. The directional addition of "
  "two vectors interpolates length linearly and direction along that arc.",
  ["inputs"], "all pairs of directions, opposite ones included, all vectors and fractions, in "
  "any dimension from two on",
  "Tests try a handful of fixed vectors in two and three dimensions.",
  ["vector_rotation.py"],
  [("plane rotation", "vector_rotation.py rotate_direction, rotate_array"),
   ("rotation between directions", "vector_rotation.py VectorRotationXd"),
   ("directional addition", "vector_rotation.py directional_vector_addition")],
  BOTH, "Exact in the plane on a grid of 12 (24) directions with lock-step replay; fixed "
  "point (1e-3) on random and axis aligned samples in 2 to 5 dimensions.")

P("V02", "Rotation sequences compose, extend and partially apply along their directions",
  "A sequence built from a list of directions has one rotation between each neighbouring "
  "pair, ends at the last direction, and applied in full turns the first direction onto the "
  "last. A weight placed on the k-th rotation applies the first k rotations, a partial "
  "weight applies that share of each angle with all later rotations carried along, and the "
  "length of a vector is kept. Appending, pushing a new root and rotating the whole "
  "sequence keep it connected; zero vectors and opposite neighbours are refused with a "
  "ValueError. The given arrays are not changed.",
  ["inputs", "histories"], "all sequences of directions without opposite neighbours, all "
  "weights, all orders of append, push and rotate",
  "Tests apply one three dimensional sequence with two sets of weights.",
  ["vector_rotation.py"],
  [("sequence", "vector_rotation.py VectorRotationSequence"),
   ("rotating a sequence", "vector_rotation.py VectorRotationXd.rotate_sequence")],
  BOTH, "Exact in the plane for sequences of up to 3 rotations; fixed point in 2 to 5 "
  "dimensions for up to 4 rotations.")

P("V03", "Direction trees keep their structure through every edit",
  "A node added below a parent is one level deeper, is listed among that parent's children "
  "and descendants, and keeps the direction it was given; changing a direction changes only "
  "that node. Adding a sequence adds its directions as a chain ending at the named node. "
  "Duplicate nodes, zero or undefined directions, nodes without place, unknown parents and "
  "misaligned sequences are refused with an error and leave the tree as it was.",
  ["histories"], "every sequence of root, node, sequence and direction edits and refused "
  "requests on trees of bounded size",
  "Tests build a few fixed trees and look only at averaged directions.",
  ["vector_rotation.py"],
  [("tree edits", "vector_rotation.py VectorRotationTree.add_node, add_sequence, "
    "from_sequence, set_direction")],
  LOCK, "Exhaustive on trees of up to 3 to 5 nodes over a small set of directions.")

P("V04", "The weighted mean of a direction tree turns along its branches by weight",
  "The weighted mean is a unit vector that equals a node's direction when that node has all "
  "the weight; in the plane it is the root's angle plus the weighted sum of the turns along "
  "each weighted node's branch. It does not depend on the order in which nodes are listed "
  "or the length of their directions, turns with the frame when all directions are turned, "
  "and is both the end of the reduced rotation sequence and the image of the root direction "
  "under it. Computing it leaves the tree's directions unchanged.",
  ["inputs", "configurations"], "all trees without opposite parent and child directions, "
  "all non-negative weights that sum to one, in any dimension",
  "Tests check six hand made trees in the plane with one to three weightings each.",
  ["vector_rotation.py"],
  [("weighted mean", "vector_rotation.py VectorRotationTree.get_weighted_mean, "
    "reduce_weighted_to_sequence, evaluate_graph_summing"),
   ("carrying vectors", "vector_rotation.py VectorRotationTree.rotate, inverse_rotate")],
  BOTH, "Exact in the plane (quarter weights, trees of up to 4 or 5 nodes); fixed point "
  "definition in 2 to 5 dimensions on random trees of up to 6 nodes.")

P("W01", "Influence is shared fairly among obstacles, components and rotations",
  "Weights derived from closeness are non-negative, sum to at most one (exactly one once "
  "they are normalised), never give a farther obstacle more than a closer one, and whoever "
  "is on or inside its surface takes everything, several such sharing equally. Limiting "
  "weights to a total of one leaves a smaller total untouched, gives everything to weights "
  "of one, and otherwise shares by their odds. Occlusion gives hidden components nothing "
  "and the least occluded ones the weight if all are hidden; the influence of an obstacle "
  "near the singularity grows linearly from none to full. Arguments are not changed and "
  "whole numbers are as good as floats.",
  ["inputs"], "all lists of distances, gammas or weights, including equal values, zeros, "
  "values at the limits and integer lists",
  "Tests evaluate at most one list per function, and none with ties, values at the limit "
  "or integers.",
  ["multi_obstacle_avoider.py", "_base_multiobstacle.py"],
  [("limited sum", "multi_obstacle_avoider.py get_limited_weights_to_max_sum"),
   ("closeness", "multi_obstacle_avoider.py compute_gamma_weights, "
    "compute_weights_from_distances"),
   ("occlusion", "multi_obstacle_avoider.py evaluate_occlusion_array, "
    "compute_occlusion_weights, compute_tree_weight"),
   ("weights growing outwards", "_base_multiobstacle.py _evaluate_weights")],
  BOTH, "Exhaustive on all lists of up to 3 (4) values from a grid containing the limits; "
  "fixed point definition on random lists of up to 6 values.")

P("R01", "Tangents, rotation weights and slowing follow their geometric definition",
  "The tangent chosen for an initial direction is a unit vector on the convergence cone of "
  "the obstacle's normal, where the arc from the reference direction through the initial "
  "direction leaves the cone. The rotation weight is one on and inside the surface, lies "
  "between zero and the inverse of gamma outside, never grows with distance, and fades the "
  "more the initial direction already points away. Slowing keeps between zero and the full "
  "speed, stops every inward motion at the surface, leaves motion away from the obstacle "
  "untouched, and lets the robot go faster farther out; the velocity keeps its direction.",
  ["inputs"], "all normals, reference directions within the cone, initial directions away "
  "from the singular ones, gammas, convergence radii, powers and dimensions",
  "Tests compare a few directions in two dimensions and only the sign of the results.",
  ["avoidance/rotational_avoider.py"],
  [("tangent", "rotational_avoider.py get_projected_tangent_from_vectors, "
    "get_pseudo_tangent, get_intermediate_convergence_direction"),
   ("rotation weight", "rotational_avoider.py get_rotation_weight, "
    "get_smooth_continuation_weight"),
   ("slowing", "rotational_avoider.py compute_safe_scaling, compute_safe_magnitude, "
    "_limit_magnitude")],
  TRACE, "Fixed point definition (4e-3) in 2 to 4 dimensions on random and axis aligned "
  "directions.")

P("A01", "The robot reaches the attractor without entering static obstacles",
  "Moved in small steps along the avoider's velocity, a robot starting outside of all "
  "obstacles at rest never enters one, never moves faster than the initial dynamics, and, "
  "among separate star-shaped obstacles which do not touch each other, arrives at the "
  "attractor of stable dynamics. This holds in the plane and in space, for linear, "
  "stretched, spiralling and wavy dynamics and for widened convergence radii. For trees of "
  "several components safety and speed hold, arrival is not promised.",
  ["histories", "configurations"], "all starting positions around random scenes of ellipses, "
  "boxes, arches and trees, in two and three dimensions, for each kind of initial dynamics, "
  "over whole runs",
  "Tests evaluate single positions, the closed loop is only shown in animations.",
  ["multi_obstacle_avoider.py", "avoidance/rotational_avoider.py",
   "dynamics/projected_rotation_dynamics.py", "multi_obstacle.py"],
  [("avoidance by sequences", "multi_obstacle_avoider.py MultiObstacleAvoider.evaluate"),
   ("convergence direction", "dynamics/projected_rotation_dynamics.py")],
  TRACE, "Recorded runs of up to 2500 steps judged step by step against a closed loop "
  "specification (millimetres); sampled scenes.",
  state=[("position of the robot", "integrated with the avoider's velocity",
          "multi_obstacle_avoider.py MultiObstacleAvoider.evaluate")])

P("A02", "On and inside an obstacle the velocity never points inwards",
  "On the surface of an obstacle at rest, and at any depth inside a component, the "
  "avoider's velocity has no inward part; well inside of an obstacle with a single "
  "component it points strictly outwards, so that a robot pushed inside comes out again. "
  "One millimetre outside the velocity may creep inwards only by a few percent. The speed "
  "never exceeds the initial dynamics' and the given position is not changed.",
  ["inputs", "configurations"], "all positions on, just outside and up to half way inside "
  "ellipses, boxes and trees, away from box corners and overlaps (of the point and of the "
  "wall it is pushed to), in two and three "
  "dimensions, for linear, spiralling and wavy dynamics",
  "Tests check one or two surface points of single discs.",
  ["multi_obstacle_avoider.py", "avoidance/rotational_avoider.py"],
  [("avoidance by sequences", "multi_obstacle_avoider.py MultiObstacleAvoider.evaluate"),
   ("slowing", "rotational_avoider.py compute_safe_scaling")],
  TRACE, "Fixed point comparison with the shape's normal (8e-3), sampled.")

P("A03", "Avoidance follows the initial dynamics and depends on the scene alone",
  "Without obstacles the avoider returns the initial velocity; far away from every obstacle "
  "the influence of the obstacles fades out; at the attractor it returns zero, and it is "
  "never faster than the initial dynamics. Turning, shifting or mirroring the whole scene "
  "turns, shifts or mirrors the velocity. The answer depends on position and scene alone: "
  "not on the order of the obstacles, on earlier evaluations or on how the avoider was "
  "created, and after obstacles were moved or appended it is the one of a newly created "
  "avoider.",
  ["inputs", "configurations", "histories"], "all free positions in random scenes of "
  "ellipses, boxes, arches and trees in two and three dimensions, for linear, stretched, "
  "spiralling, wavy and constant dynamics, all rigid motions of the scene, all orders of "
  "obstacles and evaluations",
  "No test compares two scenes or two evaluations with each other.",
  ["multi_obstacle_avoider.py", "multi_obstacle_container.py", "multi_obstacle.py",
   "dynamics/projected_rotation_dynamics.py"],
  [("evaluation", "multi_obstacle_avoider.py MultiObstacleAvoider.evaluate, "
    "evaluate_sequence, create_with_convergence_dynamics"),
   ("convergence direction", "dynamics/projected_rotation_dynamics.py")],
  TRACE, "Fixed point comparison of paired evaluations (5e-4 to 8e-4; far away 3 percent, "
  "15 percent for trees at 200 m), sampled.")

P("U02", "Integration step, magnitude limit and normal density follow their definitions",
  "One integration step moves the position by the classical fourth order Runge-Kutta "
  "displacement of the given velocity field, with the field scaled by its factor and, in "
  "the variant with a velocity, with that velocity held fixed; that variant also returns "
  "the displacement. The magnitude limit returns for each column the smaller of scaled norm "
  "and maximum, also for a single vector. The normal distribution has the density of its "
  "mean and covariance, and its derivative is the gradient of that density. Arguments are "
  "not changed.",
  ["inputs"], "all polynomial fields, positions, step sizes, vectors, means and positive "
  "definite covariances of one to four dimensions",
  "No test calls these functions; only plots show them.",
  ["gmm_learner/math_tools.py", "multivariant_gaussian.py"],
  [("integration and limits", "gmm_learner/math_tools.py rk4, rk4_pos_vel, "
    "mag_linear_maximum"), ("density", "multivariant_gaussian.py MultiVariantGaussian")],
  TRACE, "Random fields on a grid, large steps so that every stage matters; 1.5e-3.")

P("E01", "Trajectory measures compute what they report",
  "The error to a circular path is the mean absolute difference of squared distance and "
  "squared radius. Acceleration is the mean squared second difference per time step, "
  "smoothness the mean cosine between successive motions, deviation and agreement compare "
  "the direction of motion with the dynamics at the position where the motion starts, "
  "ignoring steps at rest. Evaluating a folder reports mean and spread of these measures "
  "over its first trajectories by name, as many as asked for, and counts finished and stuck "
  "runs; evaluating again reports the same. Printed tables show these values. In the path following table "
  "all statistics are taken over the runs in which every method converged, while the "
  "converged fraction is each method's own.",
  ["inputs", "configurations"], "all trajectories with and without steps at rest, all linear "
  "dynamics, folders of trajectories and tables of runs",
  "No test runs the evaluation scripts.",
  ["comparison/evaluation_trajectories.py", "comparison/evaluation_trajectories_with_std.py",
   "comparison/evaluation_path_following.py"],
  [("measures", "comparison/evaluation_trajectories*.py mean_squared_*, dot_product_*, "
    "TrajectoryEvaluator.run"),
   ("tables", "comparison/evaluation_path_following.py TrajectoryEvaluator, get_converged")],
  TRACE, "Random trajectories on a grid with exact fixed point steps; 25 grid steps at most.")

P("S01", "A simulated trajectory steps along the velocity field until it stops",
  "A simulated trajectory starts at the given position, which is left unchanged, and each further "
  "position follows from the one before by the velocity there: in comparisons by one time step at "
  "unit speed, for the robot by the velocity times the time step. It ends where the velocity falls "
  "below the margin, in front of a collision, at the attractor, or after the given number of "
  "steps, and never for another reason; no kept position is in collision, and the position at "
  "rest is not kept. A comparison simulates every start position of its file and stores each "
  "trajectory in a file of its own, in that order. Start positions of a grid are those outside "
  "of all obstacles.",
  ["inputs", "histories"], "all velocity fields and obstacles met along a run on a grid, of "
  "every length of run, placed anywhere in the plane and in space; files with one and more starts",
  "No test runs a simulation; each way to stop is reached only by fields made for it.",
  ["comparison/comparison_multiobstacle_vectorfield.py", "visualization/plot_qolo.py"],
  [("runs", "comparison/comparison_multiobstacle_vectorfield.py integrate_trajectory, "
    "evaluate_trajectories, create_start_positions"),
   ("runs of the robot", "visualization/plot_qolo.py integrate_with_qolo")],
  "TLA+ state machine which chooses field and obstacles as the robot explores them, explored by "
  "TLC with invariants and termination; every behaviour replayed into the real code",
  "All behaviours of up to 4 places (5 in the thorough tier) on a grid.")

P("O01", "Components of an obstacle stay fixed in its frame",
  "An obstacle of several components keeps each component and its reference point at a "
  "fixed place of the obstacle's frame, through every sequence of adding, moving and "
  "deforming; deformation scales places, sizes and reference points alike. The first "
  "component is the root, every other has the parent it was added with, and unknown parents "
  "are refused with a ValueError that leaves the obstacle as it was. Collision and distance "
  "value are those of the closest component, also with components left out or for a "
  "position in the obstacle's frame. The pose handed out is a copy.",
  ["histories", "inputs"], "every sequence of set-root, add-component, move, deform and "
  "set-velocity operations up to three components, with known and unknown parents",
  "Tests build fixed obstacles and evaluate them once.",
  ["multi_obstacle.py"],
  [("obstacle of components", "multi_obstacle.py MultiObstacle")],
  LOCK, "Exhaustive for up to 3 components on integer places and quarter turns.",
  state=[("pose, components, parents", "frame and components",
          "multi_obstacle.py MultiObstacle")])

P("O02", "A container of obstacles is free exactly where all its obstacles are",
  "The container keeps the obstacles in the order in which they were appended and reports "
  "them by iteration, index and length. A position is free exactly if it is free of every "
  "obstacle at its current pose, and the distance value is the least of the obstacles'. An "
  "empty container is free everywhere.",
  ["histories", "inputs"], "every sequence of appending and moving up to four obstacles of "
  "one or two components, asked at all probe positions after every step",
  "No test queries a container for free space.",
  ["multi_obstacle_container.py"],
  [("container", "multi_obstacle_container.py MultiObstacleContainer")],
  LOCK, "Exhaustive for 3 obstacles and 3 places (4 and 2 in the thorough tier).")

P("O05", "Composed obstacles have the promised outline and joints",
  "An arch of given outer size, wall and margin covers exactly the outer rectangle without "
  "its cavity, at any pose and after being moved, in both implementations; it consists of "
  "the spine as root and two bars joined to it, each with a reference point inside of both, "
  "and passes margin and distance scaling to all parts. A component added without a "
  "reference point gets one inside of both components, or is refused with a ValueError if "
  "they do not overlap. In a tree of ellipses root and parents are chosen once, later "
  "attempts and links without overlap are refused, and the distance is the least of the "
  "components'.",
  ["inputs", "histories"], "all sizes, walls, margins and poses of arches; all pairs of "
  "overlapping or separate ellipses and boxes; every sequence of append, set-root and "
  "set-parent on up to four ellipses",
  "Tests use two fixed arches.",
  ["arch_obstacle.py", "multi_obstacle.py", "multi_ellipse_obstacle.py", "geometry.py"],
  [("arches", "arch_obstacle.py create_arch_obstacle, BlockArchObstacle"),
   ("joints", "multi_obstacle.py MultiObstacle.add_component, geometry.py "
    "get_intersection_of_obstacles"),
   ("ellipses", "multi_ellipse_obstacle.py MultiEllipseObstacle")],
  BOTH, "Sampled outlines (4 mm band left out); exhaustive for up to 4 ellipses.")

P("O03", "Walls keep their links while the container changes",
  "In a container of walls every wall is a root or has one parent, children and levels agree "
  "with the parents, and this stays so while walls are appended with or without parent, "
  "re-linked, or removed: links to a removed wall end, links among the others keep "
  "connecting the same walls. Where a wall meets its parent is a position inside of both. "
  "The direction of convergence stored with an obstacle follows the dynamics in the "
  "obstacle's centre, leads to the attractor far away, is never turned further than that in "
  "between, and stays with its obstacle when others are removed.",
  ["histories", "inputs"], "every sequence of append, re-link and delete on up to four walls; "
  "sampled overlapping walls; sampled dynamics with and without attractor",
  "Tests build one fixed container.",
  ["multiboundary_container.py", "rotation_container.py"],
  [("links of walls", "multiboundary_container.py MultiBoundaryContainer append, extend_graph, "
    "__delitem__, get_level_numbers"),
   ("joints of walls", "multiboundary_container.py update_intersection_graph"),
   ("local convergence", "rotation_container.py RotationContainer set_convergence_directions, "
    "get_convergence_direction")],
  BOTH, "Exhaustive for 3 walls and 4 made (4 and 5 in the thorough tier); joints and "
  "directions sampled.",
  state=[("walls, parents, children", "list of walls and links",
          "multiboundary_container.py MultiBoundaryContainer")])

P("B01", "An avoider evaluates with the parts it has now",
  "Evaluating an avoider asks its current dynamics for the velocity at the given position, "
  "once, and avoids its current obstacles from there; nothing is remembered of the dynamics, "
  "obstacles, poses or attractors it had before, and evaluating changes none of them. Its "
  "attractor is the one of its dynamics. An avoider which does not say how to avoid cannot "
  "be created. The avoider of obstacle trees, too, gives after any exchange of container, "
  "obstacles, poses and dynamics the velocity of a fresh avoider, and the dynamics' velocity "
  "once no obstacle is left.",
  ["histories"], "every sequence of evaluations, exchanged dynamics, moved attractors, added "
  "and replaced obstacles; random histories of exchanges for the avoider of trees",
  "Tests build an avoider and evaluate it; none exchanges its parts.",
  ["base_avoider.py", "multi_obstacle_avoider.py"],
  [("avoider", "base_avoider.py BaseAvoider"),
   ("avoider of trees", "multi_obstacle_avoider.py MultiObstacleAvoider evaluate, "
    "obstacle_list")],
  BOTH, "Exhaustive for 3 places, 2 dynamics, 2 obstacles and lists of length 1 (2 in the "
  "thorough tier); random histories for the avoider of trees.",
  state=[("dynamics, obstacles", "what the avoider uses", "base_avoider.py BaseAvoider")])

P("A05", "Robots give way to moving, turning and growing obstacles",
  "Among moving obstacles the velocity is the one among the same obstacles at rest plus the "
  "weighted velocities of the obstacles at the robot's position: linear velocity, turning "
  "about the obstacle's origin with an influence that decays with the distance, and growth, "
  "weighted by closeness with the obstacles touched taking all. On the surface the robot "
  "never moves farther into the obstacle than its surface does. A robot in the way of a "
  "convex or concave obstacle moving at less than its own speed is not hit, and reaches its "
  "attractor after a convex one has passed.",
  ["inputs", "histories"], "all placements, velocities, turning and growth rates; runs among "
  "a single moving obstacle",
  "Tests evaluate one moving scene without asking for the velocity.",
  ["multi_obstacle_avoider.py"],
  [("velocity of the obstacles", "multi_obstacle_avoider.py "
    "compute_multiobstacle_relative_velocity, compute_gamma_weights"),
   ("evaluation", "multi_obstacle_avoider.py MultiObstacleAvoider.evaluate_sequence")],
  TRACE, "Sampled scenes and runs with explicit steps of 10 ms; poses in space are moved but "
  "not turned; growth at equal rates along all axes.")

P("A04", "The velocity among obstacle trees follows its definition",
  "In the plane and in space the velocity among any set of obstacle trees is the direction of convergence "
  "turned by the weighted detours of the components: each component carries the direction "
  "along its chain of parents and sends it along its surface, or away from it as deep inside "
  "as asked for, its weight being shared by closeness, limited per tree to one in total, "
  "lowered where the tree points the robot's way and where the parent hides the component; in "
  "space the detours are averaged as a tree of directions. "
  "Components without tail effect leave directions which lead away from them as they are. The speed is the "
  "one of the dynamics, lowered towards the closest surfaces and in front of the trees only, "
  "never raised. Depth of the trees does not matter.",
  ["inputs"], "all trees of ellipses and boxes, positions in- and outside of one component, "
  "dynamics, radii, powers and depths of repulsion",
  "Tests evaluate single points of fixed scenes, mostly for their sign.",
  ["multi_obstacle_avoider.py", "avoidance/rotational_avoider.py"],
  [("sharing", "multi_obstacle_avoider.py compute_gamma_and_weights, "
    "compute_parent_occlusion_weight, get_limited_weights_to_max_sum"),
   ("detours", "multi_obstacle_avoider.py _compute_normal_and_reference_of_branch, "
    "_simple_tangent_branch_update, compute_convergence_radiuses"),
   ("speed", "multi_obstacle_avoider.py evaluate_sequence, slowfactor_from_convergence, "
    "compute_averaged_normal_and_gamma")],
  TRACE, "Sampled planar scenes with up to 13 components, in space with up to 3; positions where directions are "
  "opposed or aligned within a few degrees are left out.")

P("D04", "Dynamics around an obstacle are seen from the attractor",
  "Around an obstacle the dynamics become the ones at its reference point, turned by the angle "
  "between both positions seen from the attractor, at the speed of the dynamics. How much is "
  "decided by distance in an environment in which the obstacle is shrunk to a point and which "
  "is unrolled around the attractor: fully at and in the obstacle, ever less farther around "
  "the attractor, not at all right behind it, and the same in any frame. Shrinking and "
  "unrolling can be taken back. There is no turn at the attractor and from opposite of it.",
  ["inputs"], "all obstacles, attractors, positions and dynamics in the plane and in space",
  "Tests check single positions around one fixed obstacle.",
  ["dynamics/projected_rotation_dynamics.py"],
  [("unrolled environment", "projected_rotation_dynamics.py "
    "_get_position_after_deflating_obstacle, _get_folded_position_opposite_kernel_point, "
    "get_projected_position"),
   ("weight", "projected_rotation_dynamics.py evaluate_projected_weight"),
   ("dynamics", "projected_rotation_dynamics.py evaluate_convergence_around_obstacle, "
    "compute_obstacle_convergence_sequence, evaluate_rotation_position_to_transform")],
  TRACE, "Sampled ellipses and boxes whose reference point is their centre; blends of "
  "dynamics in the plane only.")

P("A06", "Obstacle trees agree on the direction of convergence",
  "The direction of convergence is the direction to the attractor turned by what all "
  "components ask for, in proportion to their weights, which are limited to one in total: "
  "each asks for the dynamics at the root of its tree, reached by turning along its chain of "
  "parents as seen from the attractor, however long it is. Trees close to the attractor ask "
  "for less, a tree around it for nothing, and what is left over goes to the dynamics at the "
  "position. Fall-back dynamics, where given, replace those at the roots.",
  ["inputs"], "all sets of trees, attractors, positions and dynamics",
  "Tests check the direction in a few scenes for its sign.",
  ["multi_obstacle_avoider.py", "dynamics/projected_rotation_dynamics.py"],
  [("convergence", "multi_obstacle_avoider.py MultiObstacleAvoider "
    "compute_convergence_sequence, compute_tree_weight, vector_rotation_reduction"),
   ("reading", "multi_obstacle_avoider.py compute_convergence_direction")],
  TRACE, "Sampled scenes of up to three trees with chains of up to twelve in the plane, and of "
  "up to three trees with chains of up to three in space; the "
  "weights of single components are those decided by D04.")

P("R02", "The rotational avoider sends the robot around every single obstacle",
  "Each close obstacle turns the velocity, seen from the direction of convergence, over its "
  "wall onto its surface: completely on the surface, ever less with distance and where "
  "convergence leads straight into the reference point, and not at all beyond the cut-off; "
  "obstacles share the say by importance. The robot slows down the more it heads for a close "
  "wall (or keeps its speed if asked to), never moves into an obstacle on whose surface it is, "
  "is seen relative to moving obstacles, and there is no jump at the surface. Without close "
  "obstacles nothing changes. With dynamics around obstacles the direction of convergence is "
  "their mean by closeness. Order and frame do not matter and the arguments stay as they are.",
  ["inputs", "histories"], "all sets of single obstacles and boundaries, positions, "
  "velocities, directions of convergence, radii and powers",
  "Tests check signs of velocities at a few points around a circle.",
  ["avoidance/rotational_avoider.py", "avoidance/rotational_avoidance.py",
   "nonlinear_rotation_avoider.py", "rotation_container.py"],
  [("turning", "rotational_avoider.py RotationalAvoider.avoid, avoid_sequence, "
    "directional_convergence_summing, get_smooth_continuation_weight, get_pseudo_tangent"),
   ("speed", "rotational_avoider.py _limit_magnitude, compute_safe_magnitude"),
   ("dynamics around obstacles", "nonlinear_rotation_avoider.py "
    "SingularityConvergenceDynamics, ConvergenceDynamicsWithoutSingularity")],
  TRACE, "Sampled scenes of up to three ellipses and boxes; in space balls in a plane, "
  "symmetries, surfaces and runs only. Importance weights and the velocity of moving "
  "obstacles are those of the library; boundaries with the plain avoider only.")

P("D01", "Dynamics are turned from where they lead to how they move",
  "Any dynamics can be seen as a turn that ends at their velocity: it starts at the velocity of "
  "given default dynamics, else at the way to the attractor, else at the velocity itself, and "
  "dynamics which know their own sequence are asked for it. Where one of both is zero there is "
  "no turn.",
  ["inputs"], "all dynamics, positions and dimensions",
  "Only used within tests of avoidance, and with attractors.",
  ["dynamics/sequenced_dynamics.py", "dynamics/constant_value.py"],
  [("sequence", "sequenced_dynamics.py evaluate_dynamics_sequence"),
   ("constant", "constant_value.py ConstantValueWithSequence")],
  TRACE, "Sampled; start and velocity are never within 14 degrees of opposite directions.")

P("D02", "Following a path leads along it to its end",
  "A path through points becomes straight segments shortened at both ends. Each segment pulls "
  "the robot onto its line and along it; near segments have more of a say, those on which the "
  "robot is all of it, and far away (or with the end of the path behind) the way leads straight "
  "to the end. The pulls are blended along the chain of segments, at the speed which falls only "
  "close to the end, where the robot rests; runs reach it. Coinciding points are refused.",
  ["inputs", "histories"], "all paths in the plane, positions and speeds",
  "Tests check a handful of positions around one path.",
  ["dynamics/segmented_dynamics.py"],
  [("segments", "segmented_dynamics.py DynamicsSegment, create_segment_from_points"),
   ("path", "segmented_dynamics.py WavyPathFollowing")],
  TRACE, "Sampled paths of up to four segments; positions at which directions are nearly "
  "opposite are left out. Runs are recorded on paths without sharp turns.")

P("D03", "Circling dynamics stay on their circle, wavy ones reach their attractor",
  "Circular dynamics circle one way around their centre, ever closer to the circle and to its "
  "plane, at constant speed but slower near the centre, where they rest, in any frame. Turning "
  "dynamics lead out of the circle and into it by how far they are off. Spirals move along "
  "their axis as they circle, wavy dynamics swing around the way to the attractor by at most "
  "the given angle, and a moving base follows its own dynamics while the robot is close.",
  ["inputs", "histories"], "all centres, radii, frames, factors, speeds and positions",
  "Tests check the circle at three points.",
  ["dynamics/circular_dynamics.py", "dynamics/spiral_dynamics.py",
   "dynamics/wavy_attractor_dynamics.py", "dynamics/constant_value.py"],
  [("circle", "circular_dynamics.py SimpleCircularDynamics, CircularRotationDynamics"),
   ("base", "circular_dynamics.py DynamicDynamics"),
   ("spiral", "spiral_dynamics.py SpiralingDynamics3D"),
   ("waves", "wavy_attractor_dynamics.py WavyLinearDynamics")],
  TRACE, "Sampled in the plane and in space; SpiralingAttractorDynamics3D is left out.")

P("D05", "Deviating dynamics never lead backwards",
  "Dynamics deviating from a constant flow or from the way to an attractor do so by what their "
  "regressor predicts, limited below a right angle, at the speed of the flow or of the "
  "distance; they learn the angles of the given velocities, per side of the attractor where "
  "there is one for each, and refuse inconsistent data. Dynamics locally rotated around an "
  "obstacle turn as asked for at the obstacle, ever less with distance to it, in the direction "
  "seen from the attractor and close to the attractor, not at all far away, and rest at the "
  "attractor.",
  ["inputs"], "all obstacles, attractors, regressors, samples and positions",
  "Tests train on one data set or check four positions.",
  ["dynamics/locally_rotated_linear_dynamics.py", "dynamics/nonlinear_deviation.py"],
  [("locally rotated", "locally_rotated_linear_dynamics.py LocallyRotatedFromObtacle"),
   ("constant flow", "nonlinear_deviation.py DeviationOfConstantFlow"),
   ("sides", "nonlinear_deviation.py PerpendicularDeviatoinOfLinearDS"),
   ("outputs", "nonlinear_deviation.py MultiOutputSVR, ConstantRegressor")],
  TRACE, "Sampled; regressors are stand-ins that record what they learn and predict at random "
  "(the support vector machine of the library for several outputs).")

P("U01", "Geometry helpers give the closest point, a basis and the overlap",
  "The projection onto a ray is its closest point, the basis spanned by two directions is "
  "orthonormal and contains both, also where they are parallel. The outline of an ellipse "
  "encloses it including its margin in any frame, and the point in which two obstacles overlap "
  "lies in both, exists whenever they overlap and only then, for all types of shapes. A block "
  "with rooms is free outside and in its rooms, and the weight of a door is one in front of it, "
  "less with the distance to it and zero outside.",
  ["inputs"], "all points, directions, ellipses, boxes and blocks with rooms",
  "Tests check the projection at two points.",
  ["utils.py", "geometry.py", "multi_hull_and_obstacle.py"],
  [("points", "utils.py project_point_onto_ray, get_orthonormal_spanning_basis"),
   ("overlap", "geometry.py create_shapely_ellipse, get_intersection_of_obstacles"),
   ("rooms", "multi_hull_and_obstacle.py MultiHullAndObstacle.is_inside, "
    "get_boundary_intersection_weight, create_u_shape_obstacle")],
  TRACE, "Sampled; overlaps of outlines made of 64 points are judged within half a percent.")

P("O04", "A tracked body stays together and follows its markers",
  "The parts of a body form one tree with names and identifiers under which they are found, "
  "and a part with an unknown parent is refused without a trace. After every update all parts "
  "hang at the joints of their parents: a part with a new marker points at it as seen in the "
  "frame of the robot, one without takes the orientation of its parent, the root stands upright "
  "at its marker, unknown markers are ignored, the robot follows its own marker. Without a "
  "tracker the orientations are kept. The distance to the body is the least over its parts, it "
  "turns into an obstacle of the same components, and the humans provided are attached bodies.",
  ["history", "inputs"], "all trees of parts, sequences of marker messages and manual moves",
  "Tests build one human.",
  ["multi_body_human.py", "rigid_body.py"],
  [("tree", "multi_body_human.py MultiBodyObstacle.set_root, add_component, "
    "get_obstacle_id_from_name, get_obstacle_id_from_optitrackid"),
   ("tracking", "multi_body_human.py update_using_optitrack, "
    "update_orientation_based_on_position, align_position_with_parent"),
   ("humans", "multi_body_human.py transform_from_multibodyobstacle_to_multiobstacle, "
    "create_2d_human, create_3d_human")],
  BOTH, "Trees of up to three parts with two names and identifiers are exhaustive; histories of "
  "six updates of up to six parts are sampled. The filters of the library are stand-ins which "
  "pass the measurement on or blend it by halves.")

P("K01", "A learned motion is a chain of regions which leads to its attractor",
  "A region around a cluster centre is bounded by its ball and the walls halfway to the close "
  "neighbours: its surface, level (above one inside, one on, below one outside, in both frames), "
  "unit inward normal and direction to the centre belong to this shape, an open wall only raises "
  "the level, to infinity where it is the only one ahead. Fitting labels each sample with the "
  "closest centre, leaves no sparse cluster, orders the clusters by their place in the sequence "
  "into one chain down to the attractor, and makes the regions wide enough to hold the data and "
  "meet their neighbours. The constant motion of a region points at the passage to its successor "
  "whenever possible. At the passage the predecessor takes over all the weight, which has gone "
  "before the surface. Velocities at the surface of a region never lead out but through the "
  "passage to the successor: motions started inside stay inside, go down the chain one by one "
  "and reach the attractor, motions started outside reach it too; far away they go straight.",
  ["inputs", "history"], "all centres, radii, positions, recorded motions and starts",
  "Tests look at a few points of one recorded motion.",
  ["kmeans_learner/kmeans_obstacle.py", "kmeans_learner/kmeans_motion_learner.py"],
  [("region", "kmeans_learner/kmeans_obstacle.py KMeansObstacle.get_point_on_surface, get_gamma, "
    "get_normal_direction"),
   ("fit", "kmeans_learner/kmeans_motion_learner.py KMeansMotionLearner.fit, from_centers, "
    "_fit_remove_sparse_clusters, _fit_cluster_hierarchy, _fit_region_radius"),
   ("motion", "kmeans_learner/kmeans_motion_learner.py predict, _predict_sequence_weights, "
    "_predict_outside_of_obstacle, _enforces_direction_is_towards_parent")],
  BOTH, "Regions of three centres on a grid are explored exhaustively; regions in two and three "
  "dimensions, fits and runs over smooth recorded motions are sampled. The level and the normal are "
  "compared with the specification where the walls are at least .05 away from the outer position.")

P("K02", "A gaussian obstacle is the union of its ellipses, entered through its root",
  "A component of a gaussian obstacle is the ellipse at the given number of standard deviations: "
  "its level, distance, outward normal and reference direction, its projections from the centre "
  "and from any point inside, its unit frame, its gradients and the ellipse it is turned into "
  "belong to this shape. The components form one tree rooted at the most central one, in which "
  "each joins the one attached before that most likely holds its centre; the point of reference "
  "of a component lies within it and its parent where they overlap. The shares of the components "
  "are those of the ones the point is in, otherwise they decrease with the distance and vanish "
  "behind the passage to the parent; they sum to one. The mean reference direction is the mean "
  "in the direction space of the root, the mean normal stays within a right angle of it. Motions "
  "which lead into the root are turned along it, others are kept.",
  ["inputs", "history"], "all mixtures in two and three dimensions, all positions and velocities",
  "Tests look at two mixtures in the plane.",
  ["gmm_obstacle.py"],
  [("component", "gmm_obstacle.py GmmObstacle.get_gamma, get_gamma_proportional, "
    "get_normal_direction, project_point_on_surface_with_offcenter_point"),
   ("tree", "gmm_obstacle.py GmmObstacle.evaluate_hirarchy_and_reference_points, "
    "get_intersection_of_ellipses"),
   ("shares", "gmm_obstacle.py GmmObstacle.evaluate_gamma_weights, get_obstacle_occlusion_factor, "
    "evalute_weighted_reference_and_normal_offset, get_root_rotation_direction")],
  BOTH, "All orders of the odds of three components are explored and replayed; mixtures, positions "
  "and fits are sampled. Shares are compared where no component is closer than a level of .05.")

P("L01", "A learned motion follows its demonstrations and rests at the attractor",
  "A motion learned from demonstrations is the null dynamics turned by the mean of the "
  "conditional directions of the Gaussians, each weighted by its share of the probability at "
  "the position (and velocity of at most one). The shares of a sample sum to at most one, fade "
  "far from all Gaussians and do not depend on the other samples evaluated with it; towards the "
  "attractor the turning vanishes if this was asked for. Evaluating changes nothing. The "
  "samples are learned as they were recorded: relative to the null dynamics which is used to "
  "predict, so that turning it by the learned direction gives the demonstrated one. The "
  "attractor is the mean of the ends of the demonstrations unless it was given. Trajectories "
  "start where they were told to, follow the field and stay once they are at the attractor.",
  ["inputs", "histories"], "all mixtures, samples, sets of demonstrations and starting points in "
  "two (and for the field three) dimensions",
  "No test touches the learner: nothing but a recorded file and plots exercise it.",
  ["gmm_learner/learner/directional_gmm.py", "gmm_learner/learner/base.py",
   "gmm_learner/learner/gpr_directional.py", "gmm_learner/learner/svr_directional.py",
   "gmm_learner/math_tools.py"],
  [("field", "gmm_learner/learner/directional_gmm.py DirectionalGMM.predict, predict_array, "
    "regress_gmm, get_mixing_weights, get_mean_yx"),
   ("data", "gmm_learner/learner/directional_gmm.py DirectionalGMM.load_data_from_mat, "
    "gmm_learner/learner/base.py Learner"),
   ("trajectories", "gmm_learner/learner/base.py Learner.integrate_trajectory, "
    "gmm_learner/learner/directional_gmm.py DirectionalGMM.integrate_trajectory")],
  TRACE, "Mixtures, positions, demonstrations and starts are sampled; the field is computed by "
  "the specification from the mixture itself. The fits of scikit-learn are taken as given.")

P("L02", "Walls of a learned motion form a tree which leads to the attractor",
  "The Gaussians of a learned motion become walls, ellipses about their means at the given "
  "number of deviations, linked as one tree: its root is the Gaussian whose motion ends closest "
  "to the attractor; in every round the ones whose best remaining choice is part of the tree "
  "are linked to it, where the choices are ordered by how much the end of a motion belongs to "
  "the others. A motion ends on the unit ellipse, where its learned direction leads. The wall "
  "which holds the attractor and the root lead to the attractor, every other one to the point "
  "where the way to its parent leaves it. Building again gives the same tree.",
  ["inputs", "histories"], "all tables of preferences (orders of all weights of three Gaussians, "
  "samples of up to six) with every root; all mixtures",
  "No test builds a graph of Gaussians.",
  ["gmm_learner/graph.py", "gmm_learner/learner/directional_gmm.py"],
  [("tree", "gmm_learner/graph.py GraphGMM.create_graph_from_gaussians, create_learned_boundary"),
   ("targets", "gmm_learner/graph.py GraphGMM.set_convergence_directions, "
    "get_intersection_position, get_convergence_direction, get_end_point")],
  BOTH, "All orders of the weights of three Gaussians and samples for two, four, five and six are "
  "explored and replayed; mixtures are sampled.")
