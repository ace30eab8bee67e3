"""Registry of harnesses: which harness decides which property, within which bounds."""
HARNESSES = []
PROPERTIES = {}

COMMON_ASSUMPTIONS = [
    "the bounds listed per harness in coverage.harnesses; nothing is claimed outside them",
    "clang's bitcode of /repo's sources (-O1, logging off, assertions on, Eigen not vectorised) is what is executed; g++'s -O2 code is not",
    "trusted: the symbolic executor in /verif/engine, its models of libm, malloc and libstdc++'s out-of-line helpers, and Z3; sampled paths and every counterexample are re-run natively against the real code",
]
REAL = "floating point is modelled as exact real arithmetic (rounding is outside; comparisons carry the tolerance stated in the harness)"


def prop(pid, *assumptions):
    PROPERTIES[pid] = {"assumptions": list(assumptions) + COMMON_ASSUMPTIONS}


def H(pid, name, src, **kw):
    kw.update(prop=pid, name=name, src=src)
    HARNESSES.append(kw)


def D(**kw):  # defines are prefixed: they must not collide with names in headers
    return ["-DH_%s=%s" % (k, v) for k, v in kw.items()]


# ---------------------------------------------------------------- P03 frontier
prop("P03", "elements, priorities and hashes are integers; the ordering is a strict weak order")
H("P03", "history", "frontier.cpp", repo=[], jobs=8,
  defs={"quick": D(KEYS=3, OPS=4), "thorough": D(KEYS=3, OPS=5)}, time={"quick": 120, "thorough": 3600},
  expect=["push", "remove", "pop", "clear", "end"],
  bounds_quick="every sequence of 4 operations over 3 keys, priorities in [-1000,1000], 3 hash functions, both orders",
  bounds_thorough="every sequence of 5 operations over 3 keys")
H("P03", "large", "frontier.cpp", repo=[], jobs=8,
  defs={"quick": D(KEYS=5, PRE=4, OPS=1), "thorough": D(KEYS=6, PRE=5, OPS=2)}, time={"quick": 120, "thorough": 3600},
  expect=["push", "remove", "pop", "clear", "end"],
  bounds_quick="4 distinct elements with arbitrary priorities, then any operation, then drained",
  bounds_thorough="5 distinct elements with arbitrary priorities, then any 2 operations, then drained")

# -------------------------------------------------------------------- P01 A*
prop("P01", REAL + "; costs and heuristic values are small integers, on which real and machine arithmetic agree",
     "transition costs are non-negative and the heuristic is consistent (the documented preconditions)")
H("P01", "graph4", "astar.cpp", repo=[], jobs=8, defs={"quick": D(N=4), "thorough": D(N=4, CMAX=100)}, time={"quick": 200, "thorough": 3600},
  expect=["found", "failed", "multi-step", "trivial"],
  bounds_quick="every directed graph on 4 states incl. self-loops, integer costs 0..10, every consistent heuristic")
H("P01", "reuse3", "astar.cpp", repo=[], jobs=8, defs={"quick": D(N=3, SEARCHES=2), "thorough": D(N=3, SEARCHES=3)}, time={"quick": 200, "thorough": 3600},
  expect=["found", "failed", "multi-step", "trivial"],
  bounds_quick="two searches with any start and goal on one object, every graph on 3 states")
H("P01", "parallel3", "astar.cpp", repo=[], jobs=8, defs={"quick": D(N=3, PARALLEL=2)}, time={"quick": 200, "thorough": 3600},
  expect=["found", "failed", "multi-step", "trivial"],
  bounds_quick="two parallel transitions between any two of 3 states")
H("P01", "tree4", "astar.cpp", repo=[], jobs=8, defs=D(N=4, GRAPH="false", ACYCLIC=1), time={"quick": 200, "thorough": 3600},
  expect=["found", "failed", "multi-step"],
  bounds="tree search on every acyclic graph on 4 states, integer costs 0..10, every consistent heuristic")

# ------------------------------------------------------- P02 bidirectional A*
prop("P02", REAL + "; costs and heuristic values are small integers, on which real and machine arithmetic agree",
     "transition costs are non-negative, no self-transition, the reverse propagator offers exactly the reversed transitions, and the heuristics form a consistent pair or the documented average of two consistent heuristics")
_e = ["found", "failed", "multi-step", "trivial"]
H("P02", "pair4", "bidir.cpp", repo=[], jobs=8, defs=D(N=4, PAIR=1), time={"quick": 200, "thorough": 3600}, expect=_e,
  bounds="every directed graph on 4 states, integer costs 0..10, every consistent heuristic pair")
_T = "{0,2},{2,3},{3,1},{0,4},{4,1},{2,4},{4,3}"
H("P02", "braid5", "bidir.cpp", repo=[], jobs=8, defs=D(N=5, PAIR=0, CMAX=20, UNDIRECTED=1, TOPO=_T, GOAL=1), time={"quick": 200, "thorough": 3600}, expect=["found", "multi-step"],
  bounds="two interleaved routes over 5 states (7 undirected edges), integer costs 0..20, zero heuristics")
H("P02", "braid5h", "bidir.cpp", repo=[], jobs=8, defs=D(N=5, PAIR=1, CMAX=20, TOPO=_T, GOAL=1), time={"quick": 200, "thorough": 3600}, expect=["found", "multi-step"],
  bounds="two interleaved directed routes over 5 states (7 edges), integer costs 0..20, every consistent heuristic pair")
H("P02", "dag5h", "bidir.cpp", repo=[], jobs=8, defs=D(N=5, PAIR=1, ACYCLIC=1), time={"quick": 200, "thorough": 3600}, expect=["found", "failed", "multi-step"],
  bounds="the same with every consistent heuristic pair", tiers=("thorough",))
H("P02", "zero5", "bidir.cpp", repo=[], jobs=8, defs=D(N=5, PAIR=0, UNDIRECTED=1), time={"quick": 200, "thorough": 7200}, expect=_e, tiers=("thorough",),
  bounds="every undirected graph on 5 states, integer costs 0..10, zero heuristics")
H("P02", "zero4", "bidir.cpp", repo=[], jobs=8, defs=D(N=4, PAIR=0, UNDIRECTED=1), time={"quick": 200, "thorough": 3600}, expect=_e,
  bounds="every undirected graph on 4 states, integer costs 0..10, zero heuristics")
H("P02", "average4", "bidir.cpp", repo=[], jobs=8, defs=D(N=4, PAIR=2), time={"quick": 200, "thorough": 3600}, expect=_e,
  bounds="every directed graph on 4 states, average pair built from any two consistent heuristics")
H("P02", "shared3", "bidir.cpp", repo=[], jobs=8, defs=D(N=3, PAIR=3), time={"quick": 200, "thorough": 3600}, expect=_e,
  bounds="every directed graph on 3 states, average pair built from one heuristic used for both directions")
H("P02", "reuse3", "bidir.cpp", repo=[], jobs=8, defs=D(N=3, PAIR=2, SEARCHES=2), time={"quick": 200, "thorough": 3600}, expect=_e,
  bounds="two searches with any start and goal on one object, every directed graph on 3 states, average heuristic pair")

# ------------------------------------------------------------- P04 node, tree
prop("P04", "FLANN is replaced by an exact nearest-neighbour stand-in with the same interface (FLANN itself is outside)",
     "replacing a child by a node with children of its own while adopting, and making a node its own parent, are outside")
H("P04", "node", "node.cpp", repo=[], jobs=8, defs={"quick": D(K=4, OPS=3), "thorough": D(K=5, OPS=4)}, time={"quick": 200, "thorough": 3600},
  expect=["attach", "detach", "replace", "reparent", "reparent-inverted", "end"],
  bounds_quick="every tree shape on 3 nodes plus 1 detached node, every sequence of 3 structural operations",
  bounds_thorough="every tree shape on 4 nodes plus 1 detached node, every sequence of 4 structural operations")
H("P04", "tree", "tree.cpp", repo=[], jobs=8, defs={"quick": D(NPTS=2, REP=1), "thorough": D(NPTS=3, REP=2)}, time={"quick": 200, "thorough": 7200},
  expect=["extended", "existing", "reparent", "reparent-inverted", "end"],
  bounds_quick="root + 2 extensions at any integer points of [-3,3]^2 from any source, any reparenting, any k-nearest query",
  bounds_thorough="root + 3 extensions at any integer points of [-3,3]^2 from any source, any two reparentings, any k-nearest query")
H("P04", "treegrid", "tree.cpp", repo=[], jobs=8, defs={"quick": D(NPTS=3, REP=1, GRID=3), "thorough": D(NPTS=4, REP=2, GRID=4)}, time={"quick": 200, "thorough": 7200},
  expect=["extended", "existing", "reparent", "reparent-inverted", "end"],
  bounds_quick="root + 3 extensions at any of 3 points, any source, any reparenting, any k-nearest query",
  bounds_thorough="root + 4 extensions at any of 4 points, any source, two reparentings, any k-nearest query")
H("P04", "treeclear", "tree.cpp", repo=[], jobs=8, defs=D(NPTS=1, REP=0, CLEARS=1), time={"quick": 200, "thorough": 3600},
  expect=["extended", "existing", "end"],
  bounds="the tree is cleared and rebuilt")

# ---------------------------------------------------------- P05 grid search
prop("P05", "occupancy is an arbitrary boolean grid supplied by the harness through the map interface")
_G = ["utils/grid.cpp", "algo/a_star_n2.cpp", "state_validator/occupancy_map.cpp", "state_validator/gvd.cpp"]
H("P05", "neighbours", "grid.cpp", entry="neighbours", repo=_G, expect=["valid", "invalid"], bounds="any cell in [-2,5]^2 of any grid up to 6x6")
H("P05", "hashes", "grid.cpp", entry="hashes", repo=_G, expect=["end"], bounds="cells of [-1,2]^2")
H("P05", "moves", "grid.cpp", entry="moves", repo=_G, jobs=8, expect=["end", "diagonal-move"], bounds="any cell of a 3x3 grid with any occupancy")
H("P05", "search", "grid.cpp", entry="search", repo=_G, jobs=8, time={"quick": 150, "thorough": 3600},
  defs={"quick": D(R=3, C=3), "thorough": D(R=4, C=3)}, expect=["found", "blocked"],
  bounds_quick="A* from any cell of a 3x3 grid with any occupancy", bounds_thorough="A* from any cell of a 4x3 grid with any occupancy")
H("P05", "search_bidir", "grid.cpp", entry="search", repo=_G, jobs=8, time={"quick": 150, "thorough": 3600},
  defs={"quick": D(R=3, C=3, BIDIR=1), "thorough": D(R=4, C=3, BIDIR=1)}, expect=["found", "blocked"],
  bounds_quick="bidirectional A* between any free cells of a 3x3 grid with any occupancy", bounds_thorough="4x3 grid")

# ------------------------------------------------------ P06 occupancy-map frames
_M = ["utils/grid.cpp", "state_validator/occupancy_map.cpp", "state_validator/gvd.cpp"]
prop("P06", REAL)
H("P06", "frames", "occmap.cpp", entry="frames", repo=_M, jobs=8, expect=["inside", "outside", "moved-after-sizing"],
  bounds="maps of 4x4 sizes at 4 resolutions, position in [-10,10]^2 set before, after or around sizing, any point of [-20,20]^2; slack 1e-4")
H("P06", "cells", "occmap.cpp", entry="cells", repo=_M, jobs=8, expect=["end"],
  bounds="2x3 m maps at 3 resolutions, position in [-10,10]^2, any cell in [-5,40]^2, any point of the cell's interior")

# ------------------------------------------------------------- P07 outlines
prop("P07", REAL)
_O = _M + ["state_validator/obstacle.cpp"]
H("P07", "outline", "raster.cpp", entry="outline", repo=_O, jobs=8, time={"quick": 200, "thorough": 3600}, expect=["end", "long-edge"],
  defs={"quick": D(R=4, C=4, LO=-1, HI=4), "thorough": D(R=6, C=5, LO=-2, HI=7)},
  bounds_quick="any edge between cells of [-1,4]^2 into a 4x4 map, 2 offsets inside the cell, a translated obstacle",
  bounds_thorough="any edge between cells of [-2,7]^2 into a 6x5 map")
H("P07", "triangle", "raster.cpp", entry="outline", repo=_O, jobs=8, time={"quick": 200, "thorough": 3600}, expect=["end", "long-edge"],
  defs={"quick": D(R=3, C=3, LO=0, HI=2, NV=3), "thorough": D(R=4, C=4, LO=-1, HI=4, NV=3)},
  bounds_quick="any triangle with corners in the cells of a 3x3 map", bounds_thorough="any triangle with corners in the cells of [-1,4]^2, 4x4 map")
H("P07", "crossing", "raster.cpp", entry="outline", repo=_O, jobs=8, time={"quick": 200, "thorough": 3600}, expect=["end", "long-edge"],
  defs={"quick": D(R=3, C=3, LO=-2, HI=4, NV=3, INSIDE=1), "thorough": D(R=4, C=4, LO=-3, HI=6, NV=3, INSIDE=1)},
  bounds_quick="triangles with a fixed corner, one anywhere in a 3x3 map and one anywhere in [-2,4]^2", bounds_thorough="the same on a 4x4 map with the last corner in [-3,6]^2")
H("P07", "composite", "raster.cpp", entry="composite", repo=_O, jobs=1, expect=["end"], bounds="two one-cell parts anywhere in a 4x4 map, any integer translation")
H("P07", "shapes", "raster.cpp", entry="shapes", repo=_O, jobs=8, expect=["rectangle", "regular", "circle"],
  bounds="rectangles, regular polygons and circles with 3..6 vertices, sizes in [0.1,5], any pose in [-10,10]^2 x [-3.1,3.1]")

# ------------------------------------------------------- P08 list of obstacles
prop("P08", "obstacles draw arbitrary sets of cells through the shape interface; an obstacle occupies the cells it covered when it was added")
_L = _O + ["state_validator/obstacle_list_occupancy_map.cpp"]
H("P08", "history", "obstacles.cpp", entry="history", repo=_L, jobs=8, time={"quick": 150, "thorough": 3600},
  defs={"quick": D(C=2, NOBS=2, OPS=4), "thorough": D(R=1, C=3, NOBS=2, OPS=5)}, expect=["add", "remove", "move", "update", "end"],
  bounds_quick="two obstacles drawing any sets of cells of a 1x2 map, the first one moving between two poses, every sequence of 4 operations (add, remove, move, update)",
  bounds_thorough="1x3 map, every sequence of 5 operations")
H("P08", "identifiers", "obstacles.cpp", entry="identifiers", repo=_L, jobs=8, expect=["end"], bounds="5 obstacles, every sequence of 4 additions and removals after adding 4")

# ------------------------------------------------------------- P09 distance maps
prop("P09", "distances are computed on concrete grids: every history within the bounds is a path of its own")
_e9 = ["updated-twice", "clear", "set", "end"]
H("P09", "obstacles", "gvd.cpp", entry="obstacles", repo=_L, jobs=8, time={"quick": 200, "thorough": 3600}, expect=_e9,
  defs={"quick": D(R=3, C=3, INIT=-1, OPS=1), "thorough": D(R=3, C=3, INIT=-1, OPS=2, VORO=1)},
  bounds_quick="any obstacle set on a 3x3 grid, updated or not, then any cell toggled", bounds_thorough="any obstacle set on 3x3, then any two cells toggled, updates anywhere")
H("P09", "obstacles_wide", "gvd.cpp", entry="obstacles", repo=_L, jobs=8, time={"quick": 200, "thorough": 3600}, expect=_e9,
  defs={"quick": D(R=5, C=4, INIT=2, OPS=1, VORO=1), "thorough": D(R=6, C=5, INIT=2, OPS=2, VORO=1)},
  bounds_quick="two toggles, an update or not, one more toggle on a 5x4 grid", bounds_thorough="four toggles with updates anywhere on a 6x5 grid")
H("P09", "edges", "gvd.cpp", entry="edges", repo=_L, jobs=8, time={"quick": 200, "thorough": 3600}, expect=_e9,
  defs={"quick": D(R=3, C=3, INIT=-1, OPS=1), "thorough": D(R=3, C=3, INIT=-1, OPS=2)},
  bounds_quick="any edge set on a 3x3 grid, updated or not, then any cell toggled", bounds_thorough="then any two cells toggled")
H("P09", "edges_wide", "gvd.cpp", entry="edges", repo=_L, jobs=8, time={"quick": 200, "thorough": 3600}, expect=_e9,
  defs={"quick": D(R=5, C=4, INIT=2, OPS=1), "thorough": D(R=6, C=5, INIT=2, OPS=2)},
  bounds_quick="two toggles, an update or not, one more toggle on a 5x4 grid", bounds_thorough="four toggles on a 6x5 grid")
H("P09", "field", "gvd.cpp", entry="field", repo=_L, jobs=8, time={"quick": 200, "thorough": 3600}, expect=["removed", "edge", "midpoint", "query"],
  defs={"quick": D(R=5, C=3, INIT=2), "thorough": D(R=5, C=4, INIT=3)},
  bounds_quick="up to 2 one-cell obstacles anywhere on a 5x3 map, one possibly removed later, diagram requested before, between or after, any query position",
  bounds_thorough="up to 3 one-cell obstacles on a 5x4 map")
H("P09", "far", "gvd.cpp", entry="field", repo=_L, jobs=8, time={"quick": 200, "thorough": 3600}, expect=["removed", "edge", "midpoint", "query", "far"],
  defs={"quick": D(R=9, C=2, INIT=2, RES="8.0f"), "thorough": D(R=12, C=3, INIT=2, RES="8.0f")},
  bounds_quick="the same on a map of 9x2 cells of 8 by 8, which reaches beyond the field", bounds_thorough="12x3 cells of 8 by 8")
H("P09", "order", "gvd.cpp", entry="order", repo=_L, jobs=8, defs={"quick": D(R=5, C=4), "thorough": D(R=8, C=7)}, expect=["edge", "end"],
  bounds_quick="any two one-cell obstacles on a 5x4 map", bounds_thorough="any two one-cell obstacles on an 8x7 map")

# ------------------------------------------------------------- P10 validity
prop("P10", REAL, "a path is any straight line in four directions with or without turning, given through the path interface; the obstacle-distance map is exact (P09)")
_V = _L + ["state_space/state_space_se2.cpp", "state_validator/state_validator_occupancy_map.cpp"]
H("P10", "states", "validity.cpp", entry="states", repo=_V, jobs=8, time={"quick": 150, "thorough": 3600}, expect=["valid", "invalid"],
  bounds="16x4-cell map at two positions, no or one one-cell obstacle, three safe radii, any state in [-14,14]x[-5,5]x[-3.1,3.1]")
H("P10", "paths", "validity.cpp", entry="paths", repo=_V, jobs=8, defs={"quick": D(FEW=1), "thorough": D(FULL=1)}, time={"quick": 200, "thorough": 3600}, expect=["path-valid", "path-invalid", "path-cut"],
  bounds_quick="five of these worlds, paths of five kinds (4 lengths, 4 directions, one of them turning), from any state; slack of the interpolation distance plus a cell diagonal in between",
  bounds_thorough="all these worlds, paths of 4 lengths in 4 directions, turning or not")
H("P10", "hairpin", "validity.cpp", entry="hairpin", repo=_V, jobs=8, defs=D(HAIRPIN=1), time={"quick": 150, "thorough": 3600}, expect=["path-valid", "path-invalid", "path-cut"],
  bounds="40x40-cell map with no or one one-cell obstacle, safe radii 0.3125 and 1, straight paths of 1.3 m and paths 0.75 m forth and back in 4 directions, from any place on two lanes")
H("P10", "overload", "validity.cpp", entry="overload", repo=_V, jobs=8, time={"quick": 100, "thorough": 3600}, expect=["end"],
  bounds="the same maps, paths of length 1.1 along x from any state on the axis")

# ------------------------------------------------------------- P11 poses
prop("P11", REAL, "sine and cosine are any pair on the unit circle consistent with the addition theorems; hashing of doubles is any injective function")
_P = ["geometry/2dplane.cpp"]
H("P11", "wrap", "pose.cpp", entry="wrap", repo=_P, expect=["end"], bounds="any heading in [-20,20], any position")
H("P11", "compose", "pose.cpp", entry="compose", repo=_P, flags=["--nra"], expect=["end"], bounds="any two poses with positions in [-10,10]^2; slack 1e-7")
H("P11", "difference", "pose.cpp", entry="difference", repo=_P, flags=["--nra"], expect=["end"], bounds="any two poses with positions in [-10,10]^2; slack 1e-7")
H("P11", "inverse", "pose.cpp", entry="inverse", repo=_P, flags=["--nra"], expect=["end"], bounds="any two poses with positions in [-10,10]^2; slack 1e-7")
H("P11", "equality", "pose.cpp", entry="equality", repo=_P, flags=["--hashsplit"], expect=["equal", "different"], bounds="27 poses (headings up to two turns out of range) against any pose")
H("P11", "modulo", "pose.cpp", entry="modulo", repo=_P, expect=["end"], bounds="any number in [-30,30], three moduli")

# ------------------------------------------------------------- P12 paths
prop("P12", REAL, "sine and cosine are any pair on the unit circle consistent with the addition theorems", "lengths, radii and truncation ratios are taken from small sets; start pose and position along the path are arbitrary")
_R = _P + ["paths/path_r2.cpp", "paths/path_se2.cpp", "paths/path_constant_steer.cpp", "models/kinematic_bicycle_model.cpp", "geometry/reeds_shepp.cpp", "paths/path_reeds_shepp.cpp", "paths/path_composite.cpp"]
H("P12", "line", "paths.cpp", entry="line", repo=_R, flags=["--nra"], expect=["truncated"], bounds="any two points of [-10,10]^2, any position along the line, truncation to 0, 1/4, 1/2 or all, then to half")
H("P12", "pose_line", "paths.cpp", entry="pose_line", repo=_R, flags=["--nra"], expect=["truncated"], bounds="any two poses with positions in [-10,10]^2, any position along the line, the same truncations")
H("P12", "arc", "paths.cpp", entry="arc", repo=_R, flags=["--nra"], jobs=8, expect=["truncated"], bounds="3 bicycle models, 3 steering angles, 2 lengths, both directions, any start pose, any position along the path, the same truncations")
H("P12", "motions", "paths.cpp", entry="motions", repo=_R, flags=["--nra", "--forkselect"], jobs=8, expect=["whole", "truncated"],
  defs={"quick": D(NM=3, FIXLEN=1, NR=3, RADIUS=2.0), "thorough": D(NM=4, FIXLEN=1, NR=5)}, time={"quick": 150, "thorough": 3600},
  bounds_quick="every sequence of up to 3 motions (3 steers, both directions) of lengths 1, 1/2, 2, radius 2, any start pose, any position along the path, truncation to 1/4, 1/2 or all", bounds_thorough="up to 4 motions")
H("P12", "lengths", "paths.cpp", entry="motions", repo=_R, flags=["--nra", "--forkselect"], jobs=8, expect=["whole", "truncated"],
  defs={"quick": D(NM=2, RADIUS=1.0, NR=3), "thorough": D(NM=3)}, time={"quick": 150, "thorough": 3600},
  bounds_quick="up to 2 motions of length 1/2, 1 or 2, radius 1, truncation to 1/4, 1/2 or all", bounds_thorough="up to 3 motions of length 1/2, 1 or 2")
H("P12", "zero", "paths.cpp", entry="motions", repo=_R, flags=["--nra", "--forkselect"], jobs=8, expect=["whole", "truncated", "zero-length"],
  defs={"quick": D(NM=3, ZERO=1, RADIUS=1.0, NR=1), "thorough": D(NM=5, ZERO=1, RADIUS=1.0, NR=5)}, time={"quick": 150, "thorough": 3600},
  bounds_quick="up to 3 motions (left or straight, both directions), one of zero length, radius 1, truncation to 1/2", bounds_thorough="up to 5 motions, 5 truncations")
H("P12", "rounding", "paths.cpp", entry="rounding", repo=_R, expect=["end"], bounds="up to 4 motions of 4 lengths, 4 radii, in machine arithmetic")

# ------------------------------------------------------------- P13 composite paths
prop("P13", REAL, "parts are given through the path interface; lengths and truncation ratios come from small sets, the position along the path is arbitrary")
H("P13", "lines", "composite.cpp", entry="lines", repo=_R, flags=["--nra", "--forkselect"], jobs=8, expect=["truncated", "extended"], time={"quick": 120, "thorough": 3600},
  defs={"quick": D(NP=3), "thorough": D(NP=4, NR=6)},
  bounds_quick="up to 3 pieces (some of zero length) from any start, any position along the path, cut at 1/4, 1/2, 3/4 or not, then extended", bounds_thorough="up to 4 pieces, 6 cuts")
H("P13", "vehicle", "composite.cpp", entry="vehicle", repo=_R, flags=["--nra", "--forkselect"], jobs=8, expect=["truncated", "cusp", "end"], time={"quick": 120, "thorough": 3600},
  defs={"quick": D(NP=3), "thorough": D(NP=4)},
  bounds_quick="up to 3 parts out of forward, backward, turning and forth-and-back ones, any position along the path, cut at 1/4, 1/2, 3/4 or not", bounds_thorough="up to 4 parts")

# ------------------------------------------------------------- P14 bicycle model
prop("P14", REAL, "sine and cosine are any pair on the unit circle consistent with the addition theorems")
_B = _P + ["models/kinematic_bicycle_model.cpp"]
H("P14", "circle", "bicycle.cpp", entry="circle", repo=_B, flags=["--nra"], jobs=8, expect=["straight", "turn", "undone"], bounds="3 models, 7 steering angles, any start pose, any distance up to 6, both directions; slack 1e-6")
H("P14", "chain", "bicycle.cpp", entry="chain", repo=_B, flags=["--nra"], jobs=8, expect=["end"], bounds="3 models, 5 steering angles, any start pose, any two distances up to 3, both directions")
H("P14", "radius", "bicycle.cpp", entry="radius", repo=_B, flags=["--nra"], jobs=8, expect=["too-tight", "end"], bounds="3 models, any turning radius up to 20; slack 1e-4")
H("P14", "turns", "bicycle.cpp", entry="turns", repo=_B, flags=["--nra"], jobs=8, expect=["end"], bounds="3 models, 4 turning radii, any start pose, any distance up to 4; slack 1e-4")

# ------------------------------------------------------------- P15 Reeds-Shepp
prop("P15", REAL, "sine and cosine are any pair on the unit circle consistent with the addition theorems")
_RSX = [x for x in _R if "geometry/reeds_shepp.cpp" not in x]
H("P15", "words", "words.cpp", entry="words", repo=_RSX, flags=["--nra", "--forkselect"], jobs=8, expect=["no-path", "path"], time={"quick": 200, "thorough": 3600},
  bounds="each of the 48 words, any goal pose in [-6,6]^2 x [-3.14,3.14]; slack 1e-5")
H("P15", "frame", "reeds.cpp", entry="frame", repo=_R, flags=["--nra"], jobs=8, expect=["end"], defs={"quick": D(NX=8, NY=7, NT=8), "thorough": D(NX=24, NY=21, NT=20)}, time={"quick": 120, "thorough": 3600}, bounds="448 (thorough: 10080) goals relative to the start in units of the radius, any start pose, any turning radius in [0.25,8]; slack 1e-5")
H("P15", "near_frame", "reeds.cpp", entry="frame", repo=_R, flags=["--nra"], jobs=8, expect=["end"], defs={"quick": D(NX=8, NY=7, NT=8, SCALE=0.23), "thorough": D(NX=24, NY=21, NT=20, SCALE=0.23)}, time={"quick": 120, "thorough": 3600}, bounds="448 (thorough: 10080) goals close to the start relative to the start in units of the radius, any start pose, any turning radius in [0.25,8]; slack 1e-5")
H("P15", "costs", "reeds.cpp", entry="costs", repo=_R, jobs=8, expect=["end"], defs={"quick": D(NX=7, NY=6, NT=8), "thorough": D(NX=20, NY=17, NT=16)}, time={"quick": 120, "thorough": 3600}, bounds="336 (thorough: 5440) goals, any reverse and forward multiplier in [0.25,4], any switching cost up to 8; slack 1e-3")
H("P15", "near_costs", "reeds.cpp", entry="costs", repo=_R, jobs=8, expect=["end"], defs={"quick": D(NX=7, NY=6, NT=8, SCALE=0.23), "thorough": D(NX=20, NY=17, NT=16, SCALE=0.23)}, time={"quick": 120, "thorough": 3600}, bounds="336 (thorough: 5440) goals close to the start, any reverse and forward multiplier in [0.25,4], any switching cost up to 8; slack 1e-3")
H("P15", "segment", "reeds.cpp", entry="segment", repo=_R, flags=["--nra"], jobs=8, expect=["end"], bounds="1 to 5 motions, one of them possibly of zero length, every direction, any lengths up to 6, any radius and multipliers; slack 1e-3")

# ------------------------------------------------------------- P16 state spaces
prop("P16", "the distributions may return whatever the standard allows; the generators are outside")
_S2 = ["state_space/state_space_r2.cpp", "state_space/state_space_se2.cpp", "geometry/2dplane.cpp"]
for _n, _d in (("r2", []), ("se2", D(SE2=1))):
    H("P16", "bounds_" + _n, "space.cpp", entry="bounds", repo=_S2, cflags=["-DVP_RANDOM"], defs=_d, flags=["--ieee"], jobs=4, expect=["end"],
      bounds="any bounds up to 1e6 with lower <= upper, any state, machine arithmetic")
    H("P16", "uniform_" + _n, "space.cpp", entry="uniform", repo=_S2, cflags=["-DVP_RANDOM"], defs={"quick": _d + D(RANGES=4), "thorough": _d}, flags=["--ieee"], jobs=8, expect=["end"],
      bounds="4 (thorough: 7) ranges in rotation over the coordinates, any draw, machine arithmetic")
    H("P16", "uniform_any_" + _n, "space.cpp", entry="uniform", repo=_S2, cflags=["-DVP_RANDOM"], defs=_d + D(REAL=1), flags=["--nra"], jobs=8, expect=["end"],
      bounds="any bounds up to 1e6 with lower <= upper, any draw in [0,1], real arithmetic")
    H("P16", "gaussian_" + _n, "space.cpp", entry="gaussian", repo=_S2, cflags=["-DVP_RANDOM"], defs=_d + D(REAL=1), flags=["--nra"], jobs=8, expect=["end"],
      bounds="any bounds, mean, deviation and draw, real arithmetic")
    H("P16", "many_" + _n, "space.cpp", entry="many", repo=_S2, cflags=["-DVP_RANDOM"], defs=_d + D(MANY=1, REAL=1), flags=["--nra"], jobs=8, expect=["end"],
      bounds="up to 3 samples at once, any draws, real arithmetic")
    H("P16", "span_" + _n, "space.cpp", entry="span", repo=_S2, cflags=["-DVP_RANDOM"], defs=_d + D(REAL=1), flags=["--nra"], jobs=8, expect=["end"],
      bounds="any bounds, mean and deviation; the extreme draws; slack 1e-6")

# ------------------------------------------------------------- P17 RRT and RRT*
prop("P17", "FLANN is replaced by an exact nearest-neighbour stand-in with the same interface (FLANN itself is outside)",
     "samples, goal bias and the validator's verdicts come from the harness through the public interfaces")
_RR = ["paths/path_r2.cpp", "geometry/2dplane.cpp"]
for _n, _e in (("rrt", "rrt"), ("star", "rrtstar")):
    _k = dict(entry=_e, repo=_RR, cflags=["-DVP_RANDOM"], flags=["--nra", "--forkselect"], jobs=8, expect=["success", "several-edges", "failure"], time={"quick": 120, "thorough": 3600})
    H("P17", _n + "_grid", "rrt.cpp", defs={"quick": D(GRID=4, ITER=3), "thorough": D(GRID=6, ITER=4)}, **_k,
      bounds_quick="3 iterations, samples among 4 points of the plane or the goal, any verdicts of the validator", bounds_thorough="4 iterations, samples among 6 points of the plane or the goal, any verdicts of the validator")
    H("P17", _n + "_line", "rrt.cpp", defs={"quick": D(ITER=3), "thorough": D(ITER=4)}, **_k,
      bounds_quick="3 iterations, any sample with integer abscissa in [-6,6] on a line or the goal, any verdicts", bounds_thorough="4 iterations, any sample with integer abscissa in [-6,6] on a line or the goal, any verdicts")
    H("P17", _n + "_nodes", "rrt.cpp", defs=D(GRID=3, ITER=3, NODES=2), **dict(_k, expect=["success", "failure"]),
      bounds="3 iterations, at most 2 nodes, samples among 3 points or the goal, any verdicts")
    H("P17", _n + "_twice", "rrt.cpp", defs={"quick": D(GRID=2, ITER=2, TWICE=1), "thorough": D(GRID=3, ITER=3, TWICE=1)}, **dict(_k, expect=["success", "failure"]),
      bounds_quick="two searches of 2 iterations with different start and goal, samples among 2 points or the goal, any verdicts", bounds_thorough="two searches of 3 iterations, samples among 3 points or the goal, any verdicts")
H("P17", "parent", "rrt_parent.cpp", entry="parent", repo=_RR, cflags=["-DVP_RANDOM"], defs={"quick": D(PICKS=2, AGAIN=2, BOX="1.2,4,1.8,4.4"), "thorough": D(PICKS=3, AGAIN=10, BOX="-4,8,-2,7")}, flags=["--nra", "--forkselect"], jobs=8,
  expect=["success", "failure"], time={"quick": 120, "thorough": 7200},
  bounds_quick="a tree of 9 states (3 ways), a state sampled again (2 ways), any goal in [1.2,4]x[1.8,4.4], any neighbours blocked", bounds_thorough="trees of 9 or 10 states (9 ways), any state sampled again, any goal in [-4,8]x[-2,7], any neighbours blocked")
H("P17", "hidden", "rrt_parent.cpp", entry="parent", repo=_RR, cflags=["-DVP_RANDOM"], defs={"quick": D(PICKS=2, AGAIN=1, HIDE=1, BOX="3,4.6,-0.6,1.6"), "thorough": D(PICKS=3, AGAIN=2, HIDE=1, BOX="-2,6,-2,5")}, flags=["--nra", "--forkselect"], jobs=8,
  expect=["success", "failure"], time={"quick": 120, "thorough": 7200},
  bounds_quick="a tree of 8 states, a ninth one sampled (3 ways) with any of its neighbours blocked, any goal in [3,4.6]x[-0.6,1.6], any neighbours of the goal blocked", bounds_thorough="a tenth state, any goal in [-2,6]x[-2,5]")

# ------------------------------------------------------------- P18 heuristics
prop("P18", REAL, "the map is given through the occupancy-map interface")
_HE = _R + ["algo/heuristics.cpp", "utils/grid.cpp", "state_validator/gvd.cpp", "state_validator/occupancy_map.cpp"]
H("P18", "cells", "heur.cpp", entry="cells", repo=_HE, jobs=8, defs={"quick": D(R=4, C=5, K=2), "thorough": D(R=5, C=5, K=3)}, time={"quick": 150, "thorough": 3600}, expect=["detour"],
  bounds_quick="up to 2 occupied cells anywhere on a 4x5 map, any goal cell, the value at every cell", bounds_thorough="up to 3 occupied cells anywhere on a 5x5 map, any goal cell, the value at every cell")
H("P18", "again", "heur.cpp", entry="cells", repo=_HE, jobs=8, defs={"quick": D(R=3, C=3, K=2, AGAIN=1), "thorough": D(R=3, C=4, K=4, AGAIN=1)}, time={"quick": 150, "thorough": 3600}, expect=["again", "blocked"],
  bounds_quick="after a search with another goal and the same or no obstacles: up to 2 occupied cells anywhere on a 3x3 map, any goal cell, the value at every cell", bounds_thorough="up to 4 occupied cells on a 3x4 map")
H("P18", "anywhere", "heur.cpp", entry="anywhere", repo=_HE, flags=["--nra", "--forkselect", "--splitxor"], jobs=8, defs={"quick": D(R=2, C=3, RES=0.5), "thorough": D(R=3, C=3, RES=0.5)}, time={"quick": 150, "thorough": 3600}, expect=["inside", "outside"],
  bounds_quick="2x3 map of half-metre cells with 3 layouts, 3 goals, any state up to 1 m outside the map, 3 pairs of multipliers; slack 1e-3", bounds_thorough="the same on a 3x3 map")
H("P18", "goals", "heur.cpp", entry="anywhere", repo=_HE, flags=["--nra", "--forkselect", "--splitxor"], jobs=8, defs={"quick": D(R=2, C=3, RES=0.5, SHIFT=1), "thorough": D(R=3, C=3, RES=0.5, SHIFT=1)}, time={"quick": 150, "thorough": 3600}, expect=["inside", "outside"],
  bounds_quick="the same map, any goal up to 1 m outside it, the state displaced from the goal in 4 ways", bounds_thorough="the same on a 3x3 map")
H("P18", "vehicle", "heur.cpp", entry="vehicle", repo=_HE, flags=["--nra", "--forkselect"], jobs=8, time={"quick": 150, "thorough": 3600}, expect=["near", "far"], defs={"quick": D(HALF=0.75), "thorough": D(HALF=1.5, ARES=0.8)},
  bounds_quick="3 goals, 4 sets of costs, any state around the goal; slack 1e-4", bounds_thorough="a larger and finer table")
H("P18", "combine", "heur.cpp", entry="combine", repo=_HE, expect=["end"], bounds="1 to 3 heuristics of any values, added one by one or together, asked directly or through an adapter")
H("P18", "function", "heur.cpp", entry="function", repo=_HE, expect=["end"], bounds="any state and goal in [-9,9]")

# ------------------------------------------------------------- P19 Hybrid A*
prop("P19", REAL, "the verdicts of the validator come from the harness (P10 decides the real one), within the map up to the distance between two of its samples",
     "goals, headings, costs and cut-off points come from small sets; sampling may go either way")
_HY = _HE + ["algo/hybrid_a_star.cpp", "algo/smoother.cpp", "state_space/state_space_se2.cpp", "state_validator/obstacle.cpp", "state_validator/obstacle_list_occupancy_map.cpp", "state_validator/state_validator_occupancy_map.cpp"]
_hk = dict(entry="search", repo=_HY, cflags=["-DVP_RANDOM"], flags=["--polys", "--forkselect", "--splitxor"], jobs=8, time={"quick": 120, "thorough": 3600})
H("P19", "verdicts", "hybrid.cpp", defs={"quick": D(QUERIES=4), "thorough": D(QUERIES=6)}, expect=["success", "several-parts", "cusp", "at-goal"], **_hk,
  bounds_quick="10 goals relative to the start, 3 sets of costs, 6 motions per state, any verdict (valid, or cut at 3 points) on the first 4 paths", bounds_thorough="any verdict on the first 6 paths")
H("P19", "few", "hybrid.cpp", defs={"quick": D(QUERIES=7, MOTIONS=1, COST=2, NREL=5), "thorough": D(QUERIES=9, MOTIONS=1, COST=3)}, expect=["success", "several-parts"], **_hk,
  bounds_quick="5 goals, 2 sets of costs, 2 motions per state, any verdict on the first 7 paths", bounds_thorough="10 goals, 3 sets of costs, any verdict on the first 9 paths")
H("P19", "headings", "hybrid.cpp", defs=D(QUERIES=1, HEAD=5, MOTIONS=5), expect=["success"], **_hk, bounds="5 start headings, 10 goals, 3 sets of costs, 10 motions per state, any verdict on the first path")
H("P19", "about", "hybrid.cpp", defs=D(QUERIES=0, HEAD=5, MOTIONS=1, COST=1, ABOUT=1), expect=["success"], **_hk, bounds="5 start headings, 10 goals looking backward, the heading written as +pi or -pi")
H("P19", "steering", "hybrid.cpp", defs=D(QUERIES=1, MOTIONS=7, COST=1), expect=["success"], **_hk, bounds="10 goals, 14 motions per state, any verdict on the first path")
H("P19", "deadend", "hybrid.cpp", defs={"quick": D(QUERIES=6, DEADEND=1, NREL=4, MOTIONS=1), "thorough": D(QUERIES=9, DEADEND=1, NREL=4, MOTIONS=1)}, expect=["success", "failure"], **_hk,
  bounds_quick="4 goals, 3 sets of costs, 2 motions per state, any verdict on the first 6 paths, all later ones rejected", bounds_thorough="any verdict on the first 9 paths")
H("P19", "twice", "hybrid.cpp", defs=D(QUERIES=6, DEADEND=1, NREL=4, TWICE=1, MOTIONS=1, COST=1), expect=["success", "failure"], **_hk, bounds="a search, then another one with one of 4 goals, any verdict on the first 6 paths, all later ones rejected")
H("P19", "field", "hybrid.cpp", defs=D(QUERIES=3, OBST=1, NREL=5), expect=["success"], **_hk, bounds="two obstacles, 5 goals, 3 sets of costs, any verdict on the first 3 paths")
H("P19", "places", "hybrid.cpp", defs={"quick": D(QUERIES=0, SYM="1.5", NREL=4, COST=1, MOTIONS=1, STEP="0.5f", RES="4.0f"), "thorough": D(QUERIES=0, SYM="3", NREL=8, COST=3, MOTIONS=3, STEP="0.5f", RES="4.0f")}, expect=["success"], **_hk,
  bounds_quick="any start in [-1.5,1.5]^2, 4 goals relative to it, all paths inside the map valid", bounds_thorough="any start in [-3,3]^2, 8 goals, 3 sets of costs")
H("P19", "border", "hybrid.cpp", defs=D(QUERIES=0, BORDER=1, NREL=2, COST=1, MOTIONS=5, STEP="0.5f", RES="4.0f", LIMIT=24), expect=["failure"], **_hk, bounds="any start on a line from which a motion bulges out of the map by up to 0.04, 2 goals, 24 paths valid")
H("P19", "smoothed", "hybrid.cpp", defs=D(QUERIES=4, MOTIONS=1, COST=1, ITER=2), expect=["success"], **_hk, bounds="10 goals, any verdict on the first 4 paths, 2 smoothing iterations")
H("P19", "cells", "hybrid_cells.cpp", entry="cells", repo=_HY, cflags=["-DVP_RANDOM", "-fno-access-control"], jobs=8, expect=["same", "different"], bounds="3 pairs of resolutions, any two poses in [-3,3]^2 x [-3.1,3.1]")
H("P19", "uninitialized", "hybrid.cpp", **dict(_hk, entry="uninitialized"), expect=["end"], bounds="any goal on a line, before and after initializing without a validator")

# ------------------------------------------------------------- P20 smoother
prop("P20", REAL, "float is taken as double; positions are compared with slack 1e-4", "the verdicts of the validator come from the harness (P10 decides the real one); the shapes of the paths come from a small set",
     "points closer than 0.25 to the corner of the nearest obstacle cell are left out, except for those exactly on it (harness corner)")
_sk = dict(entry="descent", repo=_HY, flags=["--nra", "--forkselect", "--splitxor"], jobs=8, time={"quick": 120, "thorough": 3600})
H("P20", "empty", "smooth.cpp", defs={"quick": D(N=7, ANYWEIGHT=1, WEIGHTS="0", AT="{0,0},{-20,10}"), "thorough": D(N=9, ANYWEIGHT=1, WEIGHTS="0", AT="{0,0},{-20,10}")}, expect=["used-up", "curved"], **_sk,
  bounds_quick="no obstacle, 4 shapes of 5 to 7 points, inside or outside the map, any weights in [0,2] of the five terms, any headings, 1 iteration", bounds_thorough="5 to 9 points")
H("P20", "moved", "smooth.cpp", defs={"quick": D(N=6, WEIGHTS="1,2,3,4"), "thorough": D(N=8, WEIGHTS="1,2,3,4")}, expect=["used-up"], **_sk,
  bounds_quick="no obstacle, 4 shapes of 5 or 6 points placed anywhere in [-7,3]^2, 4 sets of weights, 1 iteration", bounds_thorough="5 to 8 points")
H("P20", "cusps", "smooth.cpp", defs={"quick": D(N=9, CUSPS=1, WEIGHTS="0", SHAPE="1,2", AT="{0,0}"), "thorough": D(N=12, CUSPS=1, WEIGHTS="0", SHAPE="0,1,2,3", AT="{0,0}")}, expect=["used-up"], **_sk,
  bounds_quick="2 shapes of 5 to 9 points, up to 2 cusps anywhere, and at the ends or not, 1 iteration", bounds_thorough="4 shapes of 5 to 12 points")
H("P20", "verdicts", "smooth.cpp", defs={"quick": D(N=6, ASK=1, WEIGHTS="0", SHAPE="1", AT="{0,0}"), "thorough": D(N=9, ASK=1, WEIGHTS="0", SHAPE="1", AT="{0,0}")}, expect=["valid", "invalid"], **_sk,
  bounds_quick="5 or 6 points, any verdict on each state", bounds_thorough="5 to 9 points, any verdict on each state")
H("P20", "iterations", "smooth.cpp", defs={"quick": D(N=7, STEPTOL=1, ITER=4, WEIGHTS="1,2,5", AT="{0,0}"), "thorough": D(N=9, STEPTOL=1, ITER=12, WEIGHTS="1,2,5", AT="{0,0}")}, expect=["settled", "used-up"], **_sk,
  bounds_quick="4 shapes of 5 to 7 points, 3 sets of weights, 3 step tolerances, up to 4 iterations", bounds_thorough="5 to 9 points, up to 12 iterations")
H("P20", "obstacle", "smooth.cpp", defs={"quick": D(N=5, WORLD=1, WEIGHTS="3,4", SHAPE="0"), "thorough": D(N=7, WORLD=1, WEIGHTS="3,4", SHAPE="0,1")}, expect=["pushed", "used-up"], **_sk,
  bounds_quick="one obstacle, 5 points on a line placed anywhere in [-7,3]^2, collision or Voronoi weight only, 1 iteration", bounds_thorough="5 to 7 points, 2 shapes")
H("P20", "voronoi", "smooth.cpp", defs={"quick": D(N=5, WORLD=2, ANYWEIGHT=1, AT="{-7,1},{-4,0},{-2,-1},{0,1},{1,-5},{-3,3},{2,2},{4,-3},{-6,6},{-7,-7},{3.5,0.5},{-1.25,-2.25}", WEIGHTS="0", SHAPE="0,2"),
                                        "thorough": D(N=6, WORLD=2, ANYWEIGHT=1, AT="{-7,1},{-4,0},{-2,-1},{0,1},{1,-5},{-3,3},{2,2},{4,-3},{-6,6},{-7,-7},{3.5,0.5},{-1.25,-2.25}", WEIGHTS="0", SHAPE="0,1,2")}, expect=["used-up", "field"], **_sk,
  bounds_quick="two obstacles, 2 shapes of 5 points at 12 places, any weights of the five terms, 1 iteration", bounds_thorough="3 shapes of 5 or 6 points")
H("P20", "far", "smooth.cpp", defs={"quick": D(N=5, WORLD=4, ANYWEIGHT=1, WEIGHTS="0", SHAPE="0,2", AT="{-30,-36},{-20,-20},{-14,0},{10,20},{30,30},{-40,20},{20,-40},{-16.5,-13}"), "thorough": D(N=7, WORLD=4, ANYWEIGHT=1, WEIGHTS="0", SHAPE="0,1,2,3", AT="{-30,-36},{-20,-20},{-14,0},{10,20},{30,30},{-40,20},{20,-40},{-16.5,-13}")}, expect=["used-up", "field", "far"], **_sk,
  bounds_quick="two obstacles in a map of 96 by 96, 2 shapes of 5 points at 8 places within and beyond the reach of the field, any weights of the five terms, 1 iteration", bounds_thorough="4 shapes of 5 to 7 points")
H("P20", "bend", "smooth.cpp", defs={"quick": D(N=6, CURV=1, WEIGHTS="5", AT="{0,0}"), "thorough": D(N=9, CURV=1, WEIGHTS="5", AT="{0,0}")}, expect=["used-up", "curved"], **_sk,
  bounds_quick="4 shapes of 5 or 6 points, initialized with any maximum curvature in [0.125,4], 1 iteration", bounds_thorough="5 to 9 points")
H("P20", "coincide", "smooth.cpp", defs={"quick": D(N=7, ANYWEIGHT=1, WEIGHTS="0", SHAPE="4,5", AT="{0,0}"), "thorough": D(N=10, ANYWEIGHT=1, WEIGHTS="0", SHAPE="4,5", AT="{0,0},{-2.25,1}")}, expect=["used-up", "coincide"], **_sk,
  bounds_quick="no obstacle, 2 shapes of 5 to 7 points with two or three consecutive ones identical, any weights, 1 iteration", bounds_thorough="5 to 10 points")
H("P20", "corner", "smooth.cpp", defs={"quick": D(N=5, WORLD=2, CORNER=1, ANYWEIGHT=1, WEIGHTS="0", SHAPE="0", AT="{-7,-2},{-6,-1},{-7,-1},{-5,-2}"), "thorough": D(N=6, WORLD=2, CORNER=1, ANYWEIGHT=1, WEIGHTS="0", SHAPE="0,2", AT="{-7,-2},{-6,-1},{-7,-1},{-5,-2}")}, expect=["used-up", "corner"], **_sk,
  bounds_quick="two obstacles, 5 points, one of them at the very place the nearest obstacle cell stands for, any weights, 1 iteration", bounds_thorough="5 or 6 points, 2 shapes")
H("P20", "degenerate", "smooth.cpp", **dict(_sk, entry="degenerate"), expect=["short", "not-initialized"], bounds="0 to 4 points anywhere in [-9,9]^2, any verdicts; initialized, not initialized, or initialized without a validator or a diagram")
