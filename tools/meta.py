#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the data below (run by hand; the results are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import HARNESSES, PROPERTIES

P = []


def p(id, title, statement, over, text, why, files, mech, claimed=True, reason=""):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claimed=claimed, reason=reason))


A = "planner/src/algo/"
S = "planner/src/state_validator/"
G = "planner/src/paths/"
U = "planner/src/utils/"

p("P01", "A* returns a cheapest path of real transitions, or fails only when none exists",
  "For every finite state graph with non-negative transition costs and every consistent heuristic, a successful A* search returns a path from the start to the goal made only of transitions the propagator offered, reports a cost equal to the sum of those transition costs, and no path costs less. It reports failure only if the goal is unreachable, and then the path is empty and the cost infinite. The same object can be searched again with any start and goal, with the same guarantees.",
  ["inputs", "histories"], "every graph (parallel transitions included), every cost assignment, every consistent heuristic, graph and tree search, every sequence of searches on one object",
  "testAStar runs two fixed grids; optimality needs the right tie, re-opening or duplicate-state situation, and holds only if it holds on every graph",
  [A + "a_star.h", A + "path_planner.h", U + "frontier.h", U + "node.h"],
  [("expansion, duplicate detection and replacement in the frontier", A + "a_star.h"), ("path and action reconstruction", A + "a_star.h")])
p("P02", "Bidirectional A* returns a cheapest path with each state once",
  "For every finite graph with non-negative costs whose reverse propagator offers exactly the reversed transitions, and every consistent heuristic pair (including the average pair the library builds from two consistent heuristics), bidirectional A* returns a start-to-goal path of real transitions in which the meeting state appears once, whose reported cost is the sum of its transitions and is minimal. It fails only if the goal is unreachable, and can be searched again with any start and goal. Both heuristics are told the goal of their own direction.",
  ["inputs", "histories"], "every graph, cost assignment and consistent heuristic pair, every sequence of searches on one object",
  "testAStar runs one fixed grid; the stopping rule is wrong only when the searches first meet on a state that is not on a cheapest path",
  [A + "bidirectional_a_star.h", A + "a_star.h"],
  [("meeting test and stopping rule", A + "bidirectional_a_star.h"), ("average heuristic pair", A + "bidirectional_a_star.h")])
p("P03", "The frontier pops in priority order and holds each element once",
  "After any history of pushes, removals, pops and clears, the frontier contains exactly the pushed elements that were not removed, popped or cleared, each once; it pops the best element according to its ordering, finds and removes exactly the element equal to the one asked for, and reports its size and emptiness accordingly. Removing an absent element changes nothing.",
  ["histories", "inputs"], "every sequence of operations, every assignment of priorities (ties included) and hash collisions",
  "testFrontier runs one short scripted history; a search that goes wrong among equal priorities needs a specific arrangement of ties",
  [U + "frontier.h"], [("sorted vector with binary search, paired with a hash set", U + "frontier.h")])
p("P04", "Nodes and search trees stay trees, with every state stored and found",
  "Any sequence of attaching, detaching, replacing and re-parenting nodes leaves parent and child links mutually consistent and acyclic, with the depth of each node equal to its distance from the root and no node lost or leaked. A search tree extended with any states from any source contains each distinct state once, links it to the source it was extended from, and answers nearest and k-nearest queries with the closest stored states in order. Re-parenting a tree node keeps every other node reachable, and clearing leaves only an empty tree that can be rebuilt.",
  ["histories", "inputs"], "every tree shape, every sequence of structural operations, every set of points and query",
  "testTree builds one chain; re-parenting errors show only when the new parent is a descendant or a sibling subtree",
  [U + "node.h", "planner/src/utils/tree.h"], [("ownership transfer between parent and child", U + "node.h"), ("re-parenting", U + "node.h"), ("nearest-neighbour index", U + "tree.h")])
p("P05", "Grid search: moves are exactly the free adjacent cells, paths are shortest",
  "The neighbours of a cell are exactly the up to eight adjacent cells inside the grid. The moves offered to a grid search from a cell are exactly the adjacent free cells, except diagonal moves squeezing between two occupied cells, each priced by the user's cost function. The path found by A* or bidirectional A* on any occupancy grid uses only such moves, reports their total cost, is a shortest one, and failure means no such path exists.",
  ["inputs"], "every grid, cell and occupancy",
  "no test places obstacles around a diagonal or searches a blocked grid; the property quantifies over all occupancies",
  [A + "a_star_n2.cpp", U + "grid.cpp", U + "grid.h"], [("neighbourhood of a cell", U + "grid.cpp"), ("diagonal rule and occupancy test", A + "a_star_n2.cpp")])
p("P06", "Occupancy-map coordinates: every point maps to the cell that contains it",
  "For every map size, resolution and position, whether the position was set before or after the size, the cell of a world or local point is the one whose square contains the point, a point is inside the map exactly when that cell is one of the grid's, and bounded conversions give an invalid cell for every point outside. Converting a cell to its world or local corner and back, or a point between the world and local frames and back, returns the same cell or point. The grid has just enough rows and columns to cover the requested extent.",
  ["inputs", "configurations"], "every point, cell, map size, resolution and position, every order of configuration",
  "no test checks a conversion; rounding toward the wrong side shows only below the map's lower edges or off the default position",
  [S + "occupancy_map.h", S + "occupancy_map.cpp"], [("frame origins", S + "occupancy_map.cpp"), ("conversion to cells", S + "occupancy_map.h")])
p("P07", "Obstacle outlines are drawn completely, without gaps, and nowhere else",
  "The cells drawn for a polygon are all inside the map and within half a cell of its outline, include every vertex inside the map, and follow every edge without a gap between consecutive cells, wherever the edges run, including partly off the map. Rectangles, regular polygons and circles have the vertices their parameters describe, a circle lies inside its polygon, shapes are rotated and translated with the obstacle's pose, and a composite shape draws exactly the union of its parts.",
  ["inputs"], "every polygon, pose and map",
  "the tests draw a few obstacles and look at nothing; a wrong octant or an off-by-one end point needs an edge of that slope",
  [S + "obstacle.cpp", S + "obstacle.h"], [("line rasterisation", S + "obstacle.cpp"), ("shape constructors", S + "obstacle.cpp")])
p("P08", "Map occupancy follows the obstacle list after any adds and removals",
  "After any history of adding, moving and removing obstacles, a cell is occupied exactly when some obstacle currently on the list covered it when it was added; removing an obstacle frees its own cells and no cell another obstacle still covers. Adding succeeds only for an obstacle not on the list and removing only for one that is, the count follows, cells of different obstacles carry different identifiers, and after an update the distances reflect exactly the occupied cells.",
  ["histories", "inputs"], "every sequence of add, move, remove and update, every overlap of obstacles",
  "the tests only ever add obstacles; overlap and removal never happen together",
  [S + "obstacle_list_occupancy_map.cpp", S + "obstacle_list_occupancy_map.h", S + "gvd.cpp"], [("obstacle registry and identifiers", S + "obstacle_list_occupancy_map.cpp")])
p("P09", "Distance maps are exact after any history, and the Voronoi cost follows them",
  "After an update, the distance and nearest cell reported for every cell are those of the truly nearest obstacle cell (or Voronoi edge cell), whatever cells were set and cleared since and in whatever order, and the distance is infinite when there is none. Voronoi edge cells lie between two different obstacles, and do not depend on when the diagram was requested. The path cost lies in [0,1], equals the documented potential of the two distances, is zero on Voronoi edges, where there is no edge, and beyond the maximum distance; queries by position answer for the cell containing it and fail outside the map.",
  ["histories", "inputs"], "every history of set, clear and update on small grids",
  "the tests never clear an obstacle nor compare a distance; the incremental update goes wrong only for particular set and clear sequences",
  [S + "gvd.cpp", S + "gvd.h"], [("raise and lower waves over a priority queue", S + "gvd.cpp"), ("Voronoi condition", S + "gvd.cpp"), ("potential field", S + "gvd.cpp")])

exec(open(os.path.join(V, "tools", "meta2.py")).read()) if os.path.exists(os.path.join(V, "tools", "meta2.py")) else None

have = {h["prop"] for h in HARNESSES}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                            "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                            "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]], "hook_needed": None}}) + "\n")
checks, na = [], []
for q in P:
    if q["id"] in have and q["claimed"]:
        checks.append({"property": q["id"], "quick_cmd": "python3 check.py %s --tier quick" % q["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % q["id"],
                       "technique": "symbolic execution of the real code's LLVM bitcode, assertions decided by Z3; counterexamples replayed natively",
                       "level": "model_checking",
                       "level_note": "Holds for every input within the bounds of each harness (listed in the evidence), not beyond. " + "; ".join(PROPERTIES[q["id"]]["assumptions"])})
    else:
        na.append({"property": q["id"], "reason": q["reason"] or "not yet covered"})
m = {"version": 1, "setup_cmd": "make -C engine -j2 symex", "checks": checks, "not_applicable": na,
     "notes": "No hook is needed: harnesses use the public headers and live in /verif/harness."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not applicable")
