p("P10", "A valid state is in bounds and clear; a valid path is valid all along",
  "A state is valid exactly when its position relative to the map and its heading are within the state-space bounds, it lies on the map, and its cell is at least the safe radius away from the nearest obstacle cell, wherever the map is placed. A path is accepted only if its initial and final states are valid and everything in between keeps within the bounds and the safe radius, up to the interpolation distance and the size of a cell; it is rejected only if one of its states is invalid. The ratio or state returned with a rejected path is the last one found valid, and 1 or the final state for an accepted one.",
  ["inputs", "configurations"], "every state, every path, every map position, obstacle and safe radius",
  "the tests plan in a free map at the origin; the step along a path is too long only for particular clearances, borders and turns",
  [S + "state_validator_occupancy_map.cpp", S + "state_validator.h", "planner/src/state_space/state_space_se2.cpp"],
  [("bounds and clearance of a state", S + "state_validator_occupancy_map.cpp"), ("step along a path from clearance and border distance", S + "state_validator_occupancy_map.cpp")])
p("P11", "Planar poses: headings wrap, composition has an inverse, equal poses hash equal",
  "Wrapping a heading returns the same direction within one turn centred on zero, never alters a heading already in range, and leaves integer headings alone. Adding a pose expresses the second in the frame of the first, subtracting expresses one pose in the frame of the other, and a + (b - a) is b, with wrapped headings. Poses that compare equal as keys are the same pose up to full turns and have equal hashes, and identical poses always compare equal. Modulo returns the congruent number between zero and the modulus, also for negative numbers.",
  ["inputs"], "every pose, heading and number",
  "no test composes poses; signs and wrapping go wrong only in some quadrants, and an inconsistent hash only loses entries",
  ["planner/src/geometry/2dplane.h", "planner/src/geometry/2dplane.cpp", U + "maths.h"],
  [("wrapping in construction", "planner/src/geometry/2dplane.h"), ("composition and difference", "planner/src/geometry/2dplane.h"), ("hash and equality", "planner/src/geometry/2dplane.h")])
p("P12", "Paths run from their first to their last state, and truncation keeps a prefix",
  "Straight paths in the plane and in pose space, constant-steer paths and Reeds-Shepp paths built from any sequence of motions start at their initial state, end at their final state, have the length of what they describe, and interpolating at a ratio gives the state reached after that fraction of the length, following the straight lines and arcs in order. Truncating at a ratio keeps exactly the prefix: same initial state, final state where the original was at that ratio, length scaled, interpolation, direction and cusp points those of the original, also when truncated again. Direction and cusp points are those of the motions, up to the very end of the path. Connecting two states gives a path between them.",
  ["inputs", "histories"], "every pair of states, every sequence of motions, every ratio, repeated truncation",
  "no test truncates a path or interpolates between its ends; errors need a cut inside a particular motion or a reversed turn",
  [G + "path.h", G + "path_r2.cpp", G + "path_se2.cpp", G + "path_constant_steer.cpp", G + "path_reeds_shepp.cpp"],
  [("interpolation through the motions", G + "path_reeds_shepp.cpp"), ("truncation of the motions", G + "path_reeds_shepp.cpp"), ("cusp points", G + "path_reeds_shepp.cpp")])
p("P13", "A composite path is the concatenation of its parts",
  "A composite path starts where its first part starts, ends where its last part ends, is as long as its parts together, and interpolating at a ratio gives the state of the part that covers that fraction of the total length, also with parts of zero length. Truncating keeps exactly the prefix, after which parts can be appended again. For vehicle paths the direction at a ratio is that of the part covering it, up to the very end, and the cusp points are exactly the ratios of the whole path at which the direction of motion changes, inside a part or between parts. An empty composite has length zero and stays empty when truncated.",
  ["inputs", "histories"], "every sequence of parts, every ratio, truncation and extension in any order",
  "the only test that builds a composite path runs a whole Hybrid A* search and looks at nothing; cusp ratios are wrong only when a part with a cusp is not the only one",
  [G + "path_composite.h", G + "path_composite.cpp"],
  [("finding the part of a ratio", G + "path_composite.h"), ("cusp points of the whole", G + "path_composite.cpp"), ("truncation", G + "path_composite.h")])
p("P14", "The bicycle model drives its rear axle on the circle of its steering angle",
  "Driving with a constant steering angle moves the rear axle by the given distance along the circle of radius wheelbase / tan(steering) tangent to the vehicle (a straight line when not steering), turns the heading by distance / radius, and keeps the reference point at its fixed distance ahead of the rear axle. Driving backward undoes driving forward, and distances driven one after the other add up. The steering angle computed for a turning radius makes the reference point turn on exactly that radius, and is a right angle when the radius is smaller than possible.",
  ["inputs"], "every pose, distance, direction and turning radius",
  "no test drives the model; a reference point off the rear axle or a backward turn is never exercised",
  ["planner/src/models/kinematic_bicycle_model.cpp", "planner/src/models/kinematic_bicycle_model.h"],
  [("propagation", "planner/src/models/kinematic_bicycle_model.cpp"), ("steering from radius", "planner/src/models/kinematic_bicycle_model.cpp")])
p("P15", "Reeds-Shepp connections reach their goal and none is shorter or cheaper",
  "For every start and goal pose and turning radius, each of the 48 Reeds-Shepp words that claims to reach the goal consists of motions of non-negative length which, driven one after the other from the start with that turning radius, end exactly at the goal pose, and the length it reports is the sum of its motions. The shortest path is no longer than any path of the Reeds-Shepp family, the shortest distance is its length in the units of the map, and moving, turning or scaling start, goal and radius together changes nothing else. The optimal path for given forward and reverse multipliers and direction-switching cost has the cost its motions imply and no path of the family is cheaper; the connection built from it starts and ends at the given poses with that cost.",
  ["inputs"], "every pair of poses, turning radius, multipliers and switching cost",
  "the tests look at the word chosen for a handful of goals; a wrong branch of one of the 48 formulas shows only for goals for which that word is the shortest",
  ["planner/src/geometry/reeds_shepp.cpp", G + "path_reeds_shepp.cpp"],
  [("the 12 base words and their transforms", "planner/src/geometry/reeds_shepp.cpp"), ("selection of the shortest and of the cheapest", "planner/src/geometry/reeds_shepp.cpp"), ("connection", G + "path_reeds_shepp.cpp")])
p("P16", "State spaces keep every state and every sample within their bounds",
  "Enforcing the bounds of a state space moves a state to the nearest state within the bounds, coordinate by coordinate, and leaves a state that is already within untouched; a state validates exactly when every coordinate lies between the lower and the upper bound, both included. Uniform samples lie within the bounds to the last bit of machine arithmetic whatever the random generator draws, and span the whole range; Gaussian samples lie the drawn number of deviations from the mean, brought back within the bounds. Asking for several samples returns exactly that many.",
  ["inputs"], "every pair of bounds, state and random draw",
  "no test samples a state space; a sample past the upper bound needs an extreme draw",
  ["planner/src/state_space/state_space.h", "planner/src/state_space/state_space_r2.cpp", "planner/src/state_space/state_space_se2.cpp", U + "random.h"],
  [("clamping and validation", "planner/src/state_space/state_space_se2.cpp"), ("sampling", U + "random.h"), ("several samples", "planner/src/state_space/state_space.h")])
p("P17", "RRT and RRT* return trees' paths whose every edge the validator approved",
  "For every sequence of samples and every verdict of the state validator: each extension of RRT and RRT* starts from the state of the tree nearest to the sample (or to the goal) and goes towards it by at most the maximum connection distance, reaching it when it is closer. A successful search returns a path that starts at the initial state, ends within distance 1 of the goal (RRT) or at the goal (RRT*), and every two consecutive states are joined by a connection the validator approved. A failed search returns no path and happens only when the iterations or nodes allowed are used up; searches on one object do not affect each other. RRT* attaches a new state to the neighbour, among its log(n) nearest that can reach it, through which its true cost from the start is least, and sampling a state again changes nothing.",
  ["inputs", "histories"], "every sequence of samples and of validator verdicts",
  "the planners are randomised: a test runs one sequence of draws in free space and looks at success only",
  [A + "rrt.h", A + "rrt_star.h", U + "tree.h"],
  [("growing the tree", A + "rrt.h"), ("choosing the parent", A + "rrt_star.h"), ("path extraction", A + "rrt.h")])
p("P18", "Heuristics never exceed the way round the obstacles nor miss a better bound",
  "The obstacle heuristic of a state is the larger of the straight line to the goal and the length of the shortest way round the obstacles over the cells of the map minus one cell diagonal, both in cells and weighted by the cheaper of the forward and reverse multipliers; ways may go diagonally unless both cells beside the step are occupied. It falls back to the straight line for states outside the map or in cells that cannot reach the goal, depends only on the current map and goal, and is never negative. The non-holonomic heuristic is the cost of the optimal Reeds-Shepp path at the table entry nearest to the state relative to the goal, and the straight line weighted by the cheaper multiplier outside the table. A combination of heuristics is exactly the largest of its parts, each told the current goal.",
  ["inputs", "histories"], "every map, goal, state, cost multipliers, and any sequence of goals",
  "no test evaluates a heuristic except on an empty map; an overestimate needs an obstacle layout where a cell is reached a second time by a shorter way",
  [A + "heuristics.cpp", A + "heuristics.h", A + "a_star.h"],
  [("way round over the cells", A + "heuristics.cpp"), ("table of the free-space cost", A + "heuristics.cpp"), ("largest of several", A + "a_star.h")])
p("P19", "Hybrid A* returns drivable approved paths to the goal at the cost it reports",
  "For every verdict of the state validator a successful Hybrid A* search returns a chain of parts that starts exactly at the initial pose, ends at the goal pose (to within its tolerance, headings modulo a full turn), each part starting where the previous one ended, each accepted by the validator over its whole length (or cut where the validator said), and none turning tighter than the minimum turning radius. The reported cost is that of driving the parts: lengths weighted by the forward and reverse multipliers, the switching cost for each change of direction also between parts, and the Voronoi field integrated along them. The sampled path starts at the start, ends at the goal, has no gap longer than 1.5 times the interpolation distance, and contains every cusp point. The goal is found whenever the direct connection is valid, also when start and goal coincide or their headings are written differently; a failed, repeated or uninitialized search leaves no path of an earlier one. Two poses count as one state only if they differ by less than one resolution step in each coordinate.",
  ["inputs", "histories", "configurations"], "every start and goal, every sequence of validator verdicts, every set of costs, repeated searches",
  "the only test runs one search on an empty map and checks success; the defects need a rejected or truncated motion, a cusp between parts, or a particular heading",
  [A + "hybrid_a_star.cpp", A + "hybrid_a_star.h"],
  [("state propagation and truncation", A + "hybrid_a_star.cpp"), ("costs of motions", A + "hybrid_a_star.cpp"), ("sampling of the path", A + "hybrid_a_star.cpp"), ("goal test and duplicates", A + "hybrid_a_star.h")])
p("P20", "Smoothing keeps ends, cusps and headings and descends the documented energy",
  "Smoothing returns as many points as it was given, leaves the first and last points, every cusp point and all headings exactly in place, and moves every other point by gradient descent on the weighted sum of the distance to the original path, the bending of the path, the penetration of the unsafe radius around the nearest obstacle cell, the Voronoi field, and the excess over the maximum curvature; only points at least two away from the ends and at least three away from every cusp contribute terms. Missing obstacles, missing Voronoi edges and points outside the map contribute no map term, and a term that is not defined (the curvature where consecutive points coincide, the direction away from an obstacle at its very position) contributes nothing. It stops when the largest gradient falls below the step tolerance or the iterations are used up and says which; it reports success exactly when the validator accepts every state of the result. Paths of fewer than five points are returned unchanged, and an uninitialized smoother reports failure.",
  ["inputs", "configurations"], "every path, cusp set, weight and validator verdict",
  "no test runs the smoother; a wrong sign or a phantom obstacle only bends the path",
  [A + "smoother.cpp", A + "smoother.h"],
  [("points that may move", A + "smoother.cpp"), ("gradients", A + "smoother.cpp"), ("curvature term", A + "smoother.cpp"), ("stopping and verdict", A + "smoother.cpp")])
