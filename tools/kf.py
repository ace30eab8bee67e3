import json,subprocess
F=[("P01","9732258","tree search dropped a cheaper node of a state already in the frontier, so the returned path was not a cheapest one"),
("P02","aa1c2f3","the meeting state appeared twice in the path"),
("P02","3e7804c","the search stopped at the first meeting state and returned a path that was not a cheapest one"),
("P02","99c04c3","the average heuristic never told its heuristics the goal of their direction"),
("P06","05c2703","moving an occupancy map after sizing it left the grid at its former position"),
("P10","e40acde","the border distance along a path ignored the position of the map"),
("P10","50285b7","a path whose final state is invalid was accepted"),
("P06","5b1fffc","points less than one cell below the map were reported in its first row or column (truncation toward zero)"),
("P10","f7d3c74","the overload of IsPathValid returning the last valid state did not compile when used"),
("P09","9547be6","the distance to a missing obstacle or Voronoi edge was finite"),
("P09","3b3737a","a Voronoi diagram created after an update had no edges"),
("P08","c989648","removing an obstacle freed cells of another obstacle, or left its own occupied after it moved"),
("P11","f1519ff","constructing a pose with an integer heading wrapped it by 2*pi truncated to an integer"),
("P12","018512d","truncating a Reeds-Shepp path erased the truncated motion and kept the following ones"),
("P12","969327a","the direction at ratio 1 was NoMotion when the sum of the motions rounded below the length"),
("P12","6154e7b","a motion of zero length was reported as a cusp, and the direction at the ends as that of a motion of zero length"),
("P13","5120cc9","the initial state of a composite path was never set"),
("P13","0a2bedb","a part appended after a truncation was interpolated over the wrong range"),
("P13","2c5126b","the direction at ratio 1 dereferenced the end iterator"),
("P13","eef44bc","cusp ratios of the parts were reported as ratios of the whole"),
("P13","e12a15f","a part of zero length was reported as a cusp"),
("P15","98da0df","GetShortestDistance returned the length in turning radii"),
("P15","0fedc37","the forward multiplier was ignored when reversing costs nothing extra"),
("P15","6154e7b","a direction switch was charged for a motion of zero length"),
("P16","dd9f23e","a uniform sample could exceed the upper bound by rounding (bounds -0.1 and 0.3, draw 1)"),
("P16","1dff29e","sampling several states wrote past the end of an empty vector and returned nothing"),
("P16","116d7cb","sampling several states with a Gaussian distribution did not compile"),
("P17","a3f0372","RRT* attached a state no neighbour could reach to its nearest neighbour with an unchecked connection"),
("P17","ee5a696","RRT* overwrote the cost of a state sampled again without changing its parent"),
("P18","10e7ad8","the obstacle heuristic never decreased a key, so it was not the length of the shortest way round"),
("P18","f06c343","the non-holonomic heuristic read the table with goal minus state and a negative heading index: out of bounds, or the wrong cost for unequal multipliers"),
("P18","b055a71","the obstacle heuristic did not scale the straight line and the cell diagonal with the cost multiplier"),
("P19","aa5ec0f","cusp points and the goal were missed when sampling the path"),
("P19","f3af5f6","a goal in an already visited cell was never reached"),
("P19","f0a107f","direction changes between motions were not counted in the cost"),
("P19","ada2cc3","the Voronoi field along a motion was overwritten instead of summed"),
("P19","9ad394a","a search from the goal threw out_of_range"),
("P19","53bca53","a goal heading of +pi was never recognised when reached as -pi"),
("P19","7e755b3","a failed search left the path of an earlier one"),
("P19","8465efd","motions steered beyond the minimum turning radius with more than 10 motions per state"),
("P19","d0fe5ed","cells were twice as large around zero"),
("P19","ae6f1a2","a motion grazing the border of the map aborted or read out of bounds"),
("P20","71bf3c8","the original-path term pushed points away from the original path"),
("P20","7d7d2b6","without obstacle or Voronoi edge the path was deformed by the invalid cell (-1,-1)"),
("P20","dc58da4","identical consecutive points, or a point at the very corner of the nearest obstacle cell, turned the path into NaN")]
json.dump({"findings":[],"fixed":["fixed: property=%s %s %s"%f for f in F]},open("/verif/known_findings.json","w"),indent=1)
