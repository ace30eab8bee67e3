From 9732258e17214fd41c55be90028ec2d6a84bdbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:13 +0000
Subject: [PATCH 01/44] fix: A* tree search keeps the cheapest node of a state
 in the frontier

The frontier refuses a second node with the same state, so in tree search a
cheaper path to a state already in the frontier was dropped and the returned
path was not optimal.
---
 planner/src/algo/a_star.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index 9cbd016..6a761dd 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -401,9 +401,15 @@ namespace Planner {
 						ProcessPossibleShortcut(*inFrontier, std::move(childScope), node);
 					}
 				} else {
-					// Add child to frontier and to the tree
-					m_frontier.Push(child);
-					node->AddChild(std::move(childScope));
+					// The frontier holds each state at most once, only keep
+					// the node with the lowest cost
+					Node* const* inFrontier = m_frontier.Find(child);
+					if (!inFrontier) {
+						// Add child to frontier and to the tree
+						m_frontier.Push(child);
+						node->AddChild(std::move(childScope));
+					} else
+						ProcessPossibleShortcut(*inFrontier, std::move(childScope), node);
 				}
 			}
 		}
-- 
2.43.0


From aa1c2f36fd22c3da32a4208cf49ff81944f713a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 02/44] fix: bidirectional A* path contains the meeting state
 once

The forward and the reverse path both end at the state where the searches
meet, so the concatenated path visited it twice.
---
 planner/src/algo/bidirectional_a_star.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 8de8e8e..7eb3988 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -67,7 +67,9 @@ namespace Planner {
 		{
 			auto fPath = m_fSearch.GetPath();
 			auto rPath = m_rSearch.GetPath();
-			fPath.insert(fPath.end(), rPath.rbegin(), rPath.rend());
+			// Both paths end at the state where the two searches meet
+			if (!rPath.empty())
+				fPath.insert(fPath.end(), std::next(rPath.rbegin()), rPath.rend());
 			return fPath;
 		}
 
-- 
2.43.0


From 3e7804ce1bf4c652a742366dad94387a0bf88ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 03/44] fix: bidirectional A* returns an optimal path

A state reached by both searches but expanded by only one of them was not
considered as a meeting point, and the search stopped based on the path cost
of the nodes at the top of the frontiers instead of their total cost. Both
made the search stop with a path which is not the shortest.
---
 planner/src/algo/bidirectional_a_star.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 7eb3988..0f47f0d 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -168,8 +168,8 @@ namespace Planner {
 					if (m_fSearch.m_frontier.Empty() || m_rSearch.m_frontier.Empty())
 						return Status::Success;
 
-					double fTopCost = (*m_fSearch.m_frontier.Top())->pathCost;
-					double rTopCost = (*m_rSearch.m_frontier.Top())->pathCost;
+					double fTopCost = (*m_fSearch.m_frontier.Top())->totalCost;
+					double rTopCost = (*m_rSearch.m_frontier.Top())->totalCost;
 
 					// Check the stopping criterion
 					if (fTopCost + rTopCost >= bestCost + costOffset)
@@ -182,10 +182,16 @@ namespace Planner {
 	protected:
 		void FindIntersection(AStarNode<State, Action>* nodeA, UnidirectionalAStar& searchA, UnidirectionalAStar& searchB, double& bestPathCost)
 		{
+			// The state may have been reached by the other search without having
+			// been expanded yet
+			AStarNode<State, Action>* nodeB = nullptr;
 			auto it = searchB.m_explored.find((*nodeA)->state);
-			if (it != searchB.m_explored.end()) {
-				auto nodeB = it->second;
+			if (it != searchB.m_explored.end())
+				nodeB = it->second;
+			else if (auto inFrontier = searchB.m_frontier.Find(nodeA))
+				nodeB = *inFrontier;
 
+			if (nodeB) {
 				// Check the path of the new candidate path
 				double candidatePathCost = (*nodeA)->pathCost + (*nodeB)->pathCost;
 				if (candidatePathCost < bestPathCost) {
-- 
2.43.0


From 99c04c395f317881c36a59e422f58d0b65961e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 04/44] fix: average heuristic of bidirectional A* sets the
 goal of its heuristics

The two heuristics being averaged were evaluated without ever being told the
goal and the initial state of the search.
---
 planner/src/algo/a_star.h               | 2 ++
 planner/src/algo/bidirectional_a_star.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index 6a761dd..c854691 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -33,6 +33,8 @@ namespace Planner {
 		friend class AStarCombinedHeuristic;
 		template <typename S1, typename S2, typename Func>
 		friend class AStarHeuristicAdapter;
+		template <typename S>
+		friend class AverageHeuristic;
 		template <typename S, typename A, typename HashState, typename EqualState, bool GraphSearch, typename ExploredContainer>
 		friend class AStar;
 
diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 0f47f0d..760c604 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -29,6 +29,8 @@ namespace Planner {
 		{
 			m_init = init;
 			this->m_goal = goal;
+			m_toGoalHeuristic->SetGoal(goal);
+			m_toInitHeuristic->SetGoal(init);
 			m_constant = m_toInitHeuristic->GetHeuristicValue(goal) / 2.0;
 		}
 
-- 
2.43.0


From 05c27038a68c30739ba999cd6481a75d140edcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:56 +0000
Subject: [PATCH 05/44] fix: moving an occupancy map after sizing it moves its
 grid

---
 planner/src/state_validator/occupancy_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index 336fa6b..f8571bb 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -37,7 +37,11 @@ namespace Planner {
 		virtual void Update();
 
 		/// @brief Set the position of the bottom left corner of the map.
-		void SetPosition(const Point2d& position) { m_localOrigin = position; }
+		void SetPosition(const Point2d& position)
+		{
+			m_localOrigin = position;
+			m_worldGridOrigin = m_localOrigin + m_localGridOrigin;
+		}
 		/// @brief Return the position of the bottom left corner of the map in
 		/// the world coordinates.
 		const Point2d& GetPosition() const { return m_localOrigin; }
@@ -125,7 +129,7 @@ namespace Planner {
 		// Position of the origin of the local frame in the world frame
 		Point2d m_localOrigin = { 0.0, 0.0 };
 		// Position of the origin of the grid frame in the local frame
-		Point2d m_localGridOrigin, m_worldGridOrigin;
+		Point2d m_localGridOrigin = { 0.0, 0.0 }, m_worldGridOrigin = { 0.0, 0.0 };
 		// Matrix of cell occupancy (positive or zero value means occupied)
 		Ref<Grid<int>> m_occupancyMatrix;
 		// Distance map to nearest obstacle
-- 
2.43.0


From e40acdef8695b028cf8b4f152402c2a7259e4429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:46 +0000
Subject: [PATCH 06/44] fix: path validation measures the distance to the
 border of a moved map

---
 .../state_validator/state_validator_occupancy_map.cpp    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/planner/src/state_validator/state_validator_occupancy_map.cpp b/planner/src/state_validator/state_validator_occupancy_map.cpp
index 69d0096..ff35f4b 100644
--- a/planner/src/state_validator/state_validator_occupancy_map.cpp
+++ b/planner/src/state_validator/state_validator_occupancy_map.cpp
@@ -51,11 +51,12 @@ namespace Planner {
 			lastValidLength = length;
 
 			// Update length
+			const Point2d localPosition = m_map->WorldPositionToLocalPosition(state.position);
 			float distToMapBorder = std::min({
-				state.x() - bounds[0].x(),
-				bounds[1].x() - state.x(),
-				state.y() - bounds[0].y(),
-				bounds[1].y() - state.y(),
+				localPosition.x() - bounds[0].x(),
+				bounds[1].x() - localPosition.x(),
+				localPosition.y() - bounds[0].y(),
+				bounds[1].y() - localPosition.y(),
 			});
 			// TODO add offset
 			GridCellPosition cell = m_map->WorldPositionToGridCell(state.position);
-- 
2.43.0


From 50285b7f7bcea6dc21b74421f1a438c619d75482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:35 +0000
Subject: [PATCH 07/44] fix: path validation checks the final state

---
 .../src/state_validator/state_validator_occupancy_map.cpp  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/planner/src/state_validator/state_validator_occupancy_map.cpp b/planner/src/state_validator/state_validator_occupancy_map.cpp
index ff35f4b..9313b52 100644
--- a/planner/src/state_validator/state_validator_occupancy_map.cpp
+++ b/planner/src/state_validator/state_validator_occupancy_map.cpp
@@ -66,6 +66,13 @@ namespace Planner {
 			length += std::max(deltaLength, minPathInterpolationDistance);
 		}
 
+		// Check final state
+		if (!IsStateValid(path.GetFinalState())) {
+			if (last)
+				*last = lastValidLength / pathLength;
+			return false;
+		}
+
 		if (last)
 			*last = 1.0f;
 		return true;
-- 
2.43.0


From 5b1fffc449792a4a816401dd3541f935f665b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:30 +0000
Subject: [PATCH 08/44] fix: points just below an occupancy map are not in its
 first row or column

---
 planner/src/state_validator/occupancy_map.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index f8571bb..0e75fd3 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -4,6 +4,7 @@
 #include "state_validator/gvd.h"
 #include "geometry/2dplane.h"
 
+#include <cmath>
 #include <unordered_map>
 #include <set>
 
@@ -109,8 +110,8 @@ namespace Planner {
 
 		inline GridCellPosition GridPositionToGridCell(double x, double y, bool bounded) const
 		{
-			int row = static_cast<int>(x / resolution);
-			int col = static_cast<int>(y / resolution);
+			int row = static_cast<int>(std::floor(x / resolution));
+			int col = static_cast<int>(std::floor(y / resolution));
 
 			if (!bounded)
 				return GridCellPosition(row, col);
-- 
2.43.0


From f7d3c74abe734530d1d19eb195c6ec0863453dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:30 +0000
Subject: [PATCH 09/44] fix: overload of path validation returning the last
 valid state compiles

---
 planner/src/state_validator/state_validator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/state_validator/state_validator.h b/planner/src/state_validator/state_validator.h
index f25bcf4..6433001 100644
--- a/planner/src/state_validator/state_validator.h
+++ b/planner/src/state_validator/state_validator.h
@@ -30,7 +30,7 @@ namespace Planner {
 		bool IsPathValid(const Path<State>& path, State* last)
 		{
 			float ratio;
-			bool validated = IsPathValid(path, ratio);
+			bool validated = IsPathValid(path, &ratio);
 			if (last)
 				*last = path.Interpolate(ratio);
 			return validated;
-- 
2.43.0


From 9547be66e6f264723002c5666d0a2b107745017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:32 +0000
Subject: [PATCH 10/44] fix: distance to a missing obstacle or Voronoi edge is
 infinite

---
 planner/src/state_validator/gvd.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/gvd.h b/planner/src/state_validator/gvd.h
index 64cec7a..731a111 100644
--- a/planner/src/state_validator/gvd.h
+++ b/planner/src/state_validator/gvd.h
@@ -4,6 +4,8 @@
 #include "utils/grid.h"
 #include "geometry/2dplane.h"
 
+#include <cmath>
+#include <limits>
 #include <queue>
 
 namespace Planner {
@@ -16,6 +18,15 @@ namespace Planner {
 	private:
 		using PriorityQueue = std::priority_queue<GridCell<int>, std::vector<GridCell<int>>, std::greater<GridCell<int>>>;
 
+		/// @brief Convert a squared distance in number of cells to a distance.
+		/// The distance is infinite when there is nothing to measure it to.
+		static inline float ToMetricDistance(int squaredDistance, float resolution)
+		{
+			if (squaredDistance == std::numeric_limits<int>::max())
+				return std::numeric_limits<float>::infinity();
+			return std::sqrt(squaredDistance) * resolution;
+		}
+
 	public:
 		class VoronoiDistanceMap;
 
@@ -35,7 +46,7 @@ namespace Planner {
 
 			inline const GridCellPosition& GetNearestObstacleCell(int row, int col) const { return m_obstacle[row][col]; }
 			inline const GridCellPosition& GetNearestObstacleCell(const GridCellPosition& cell) const { return GetNearestObstacleCell(cell.row, cell.col); }
-			inline float GetDistanceToNearestObstacle(int row, int col) const { return std::sqrt(m_distance[row][col]) * resolution; }
+			inline float GetDistanceToNearestObstacle(int row, int col) const { return ToMetricDistance(m_distance[row][col], resolution); }
 			inline float GetDistanceToNearestObstacle(const GridCellPosition& s) const { return GetDistanceToNearestObstacle(s.row, s.col); }
 
 			Ref<VoronoiDistanceMap> GetVoronoiDistanceMap();
@@ -75,7 +86,7 @@ namespace Planner {
 
 			inline const GridCellPosition& GetNearestVoronoiEdgeCell(int row, int col) const { return m_edge[row][col]; }
 			inline const GridCellPosition& GetNearestVoronoiEdgeCell(const GridCellPosition& cell) const { return GetNearestVoronoiEdgeCell(cell.row, cell.col); }
-			inline float GetDistanceToNearestVoronoiEdge(int row, int col) const { return std::sqrt(m_distance[row][col]) * resolution; }
+			inline float GetDistanceToNearestVoronoiEdge(int row, int col) const { return ToMetricDistance(m_distance[row][col], resolution); }
 			inline float GetDistanceToNearestVoronoiEdge(const GridCellPosition& s) const { return GetDistanceToNearestVoronoiEdge(s.row, s.col); }
 
 		protected:
-- 
2.43.0


From 3b3737a445b5c97edd958846ab6e113945f87a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:01 +0000
Subject: [PATCH 11/44] fix: Voronoi edges are found when the diagram is
 created after an update

---
 planner/src/state_validator/gvd.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index 31226ba..26b8cc4 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -94,6 +94,16 @@ namespace Planner {
 			return m_voronoiMap;
 
 		m_voronoiMap = makeRef<MakeRefEnabler<VoronoiDistanceMap>>(rows, columns, resolution);
+
+		// Process again the cells already updated to find the Voronoi edges
+		for (int r = 0; r < rows; r++) {
+			for (int c = 0; c < columns; c++) {
+				if (m_obstacle[r][c].IsValid()) {
+					m_open.push({ GridCellPosition(r, c), m_distance[r][c] });
+					m_toProcess[r][c] = true;
+				}
+			}
+		}
 		return m_voronoiMap;
 	}
 
-- 
2.43.0


From c98964807d1bc0c12802d6e9102ac06d44ccff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:47 +0000
Subject: [PATCH 12/44] fix: removing an obstacle frees the cells it occupied
 and no other

---
 .../obstacle_list_occupancy_map.cpp           | 26 ++++++++++++++-----
 .../obstacle_list_occupancy_map.h             |  8 +++++-
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.cpp b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
index 35b6b49..d14f23d 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.cpp
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
@@ -32,9 +32,11 @@ namespace Planner {
 			throw std::runtime_error("The size of the occupancy matrix has not been initialized");
 
 		auto id = FindSmallestIDAvailable(m_obstacleIDs);
-		if (m_obstacles.insert({ obstacle, id }).second) {
+		auto [it, inserted] = m_obstacles.insert({ obstacle, { id, {} } });
+		if (inserted) {
 			m_obstacleIDs.insert(id);
-			for (auto& cell : obstacle->GetBoundaryGridCellPosition(*this)) {
+			it->second.cells = obstacle->GetBoundaryGridCellPosition(*this);
+			for (auto& cell : it->second.cells) {
 				(*m_occupancyMatrix)[cell.row][cell.col] = id;
 				m_obstacleDistanceMap->SetObstacle(cell);
 			}
@@ -51,11 +53,23 @@ namespace Planner {
 		auto it = m_obstacles.find(obstacle);
 		if (it == m_obstacles.end())
 			return false;
-		m_obstacleIDs.erase(it->second);
+		const ObstacleData removed = std::move(it->second);
+		m_obstacleIDs.erase(removed.id);
 		m_obstacles.erase(it);
-		for (auto& cell : obstacle->GetBoundaryGridCellPosition(*this)) {
-			(*m_occupancyMatrix)[cell.row][cell.col] = -1;
-			m_obstacleDistanceMap->UnsetObstacle(cell);
+		for (auto& cell : removed.cells) {
+			if (IsInsideMap(cell) && (*m_occupancyMatrix)[cell.row][cell.col] == (int)removed.id)
+				(*m_occupancyMatrix)[cell.row][cell.col] = -1;
+		}
+		// Cells shared with other obstacles remain occupied
+		for (auto& [other, data] : m_obstacles) {
+			for (auto& cell : data.cells) {
+				if (IsInsideMap(cell) && (*m_occupancyMatrix)[cell.row][cell.col] < 0)
+					(*m_occupancyMatrix)[cell.row][cell.col] = data.id;
+			}
+		}
+		for (auto& cell : removed.cells) {
+			if (IsInsideMap(cell) && (*m_occupancyMatrix)[cell.row][cell.col] < 0)
+				m_obstacleDistanceMap->UnsetObstacle(cell);
 		}
 		return true;
 	}
diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.h b/planner/src/state_validator/obstacle_list_occupancy_map.h
index 22a4552..f5b8e31 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.h
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.h
@@ -23,7 +23,13 @@ namespace Planner {
 		virtual bool IsOccupied(const GridCellPosition& cell) override;
 
 	private:
-		std::unordered_map<Ref<Obstacle>, unsigned int> m_obstacles;
+		struct ObstacleData {
+			unsigned int id;
+			// Cells occupied by the obstacle when it was added
+			std::vector<GridCellPosition> cells;
+		};
+
+		std::unordered_map<Ref<Obstacle>, ObstacleData> m_obstacles;
 		std::set<unsigned int> m_obstacleIDs;
 	};
 }
-- 
2.43.0


From f1519ff637b623cc41706233f14bcd222bdc46b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:59 +0000
Subject: [PATCH 13/44] fix: integer headings are not wrapped

---
 planner/src/geometry/2dplane.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner/src/geometry/2dplane.h b/planner/src/geometry/2dplane.h
index cd8023f..7bf6ad1 100644
--- a/planner/src/geometry/2dplane.h
+++ b/planner/src/geometry/2dplane.h
@@ -44,6 +44,10 @@ namespace Planner {
 		return t;
 	}
 
+	/// @brief Integer headings (e.g. discretized ones) are not wrapped.
+	template <>
+	int Pose2<int>::WrapTheta() const;
+
 	/// @brief Add the Pose @rhs after @lhs.
 	/// @warning This operation is not commutative.
 	template <typename T>
-- 
2.43.0


From 018512d44017835e48f0e902915bd78c39ecd32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:04 +0000
Subject: [PATCH 14/44] fix: truncated Reeds-Shepp path keeps its last motion

---
 planner/src/paths/path_reeds_shepp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index 1cc32f8..a7d8fc5 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -81,7 +81,7 @@ namespace Planner {
 				if (length >= ratio * totalLength) {
 					m_pathSegment.m_motions[i].length *= motionRatio;
 					for (int ii = i + 1; ii < ReedsShepp::PathSegment::numMotion; ii++) {
-						m_pathSegment.m_motions[i] = ReedsShepp::Motion();
+						m_pathSegment.m_motions[ii] = ReedsShepp::Motion();
 					}
 					break;
 				}
@@ -91,6 +91,7 @@ namespace Planner {
 
 		// Update the path length
 		m_length *= ratio;
+		m_pathSegment.m_length *= ratio;
 	}
 
 	std::set<double> PathReedsShepp::GetCuspPointRatios() const
-- 
2.43.0


From 969327af75b7b2ab045e1129a990422869dc9428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:04 +0000
Subject: [PATCH 15/44] fix: direction at the end of a Reeds-Shepp path is that
 of its last motion

---
 planner/src/paths/path_reeds_shepp.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index a7d8fc5..0c49030 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -157,14 +157,17 @@ namespace Planner {
 			return Direction::NoMotion;
 
 		double length = 0;
+		Direction direction = Direction::NoMotion;
 		for (const auto& motion : m_pathSegment.m_motions) {
 			if (!motion.IsValid())
 				break;
+			direction = motion.direction;
 			length += motion.length * m_minTurningRadius;
 			if (ratio * m_length <= length)
-				return motion.direction;
+				break;
 		}
-		return Direction::NoMotion;
+		// The end of the path may be past the last motion because of rounding
+		return direction;
 	}
 
 	double PathReedsShepp::ComputeCost(double directionSwitchingCost, double reverseCostMultiplier, double forwardCostMultiplier) const
-- 
2.43.0


From 5120cc98ffcb4b4a580fbb504422db418e26fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:12 +0000
Subject: [PATCH 16/44] fix: composite path starts at the initial state of its
 first path

---
 planner/src/paths/path_composite.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planner/src/paths/path_composite.h b/planner/src/paths/path_composite.h
index 82673ad..79cc6b5 100644
--- a/planner/src/paths/path_composite.h
+++ b/planner/src/paths/path_composite.h
@@ -34,6 +34,8 @@ namespace Planner {
 		void PushBack(const Ref<BasePath>& path)
 		{
 			double pathLength = path->GetLength();
+			if (m_paths.empty())
+				this->m_init = path->GetInitialState();
 			m_paths.push_back({ PathInfo(this->m_length, this->m_length + pathLength), path });
 			this->m_final = path->GetFinalState();
 			this->m_length += pathLength;
-- 
2.43.0


From 0a2bedb9364ffd4d75a800294f131b7700373f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:12 +0000
Subject: [PATCH 17/44] fix: truncated composite path can be extended

---
 planner/src/paths/path_composite.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/paths/path_composite.h b/planner/src/paths/path_composite.h
index 79cc6b5..b7bd73d 100644
--- a/planner/src/paths/path_composite.h
+++ b/planner/src/paths/path_composite.h
@@ -66,7 +66,8 @@ namespace Planner {
 			it->second->Truncate(pathRatio);
 			this->m_final = it->second->GetFinalState();
 			this->m_length = it->first.initLength + it->second->GetLength();
-			m_paths.erase(std::next(it), m_paths.end());
+			auto next = m_paths.erase(std::next(it), m_paths.end());
+			std::prev(next)->first.finalLength = this->m_length;
 		}
 
 	protected:
-- 
2.43.0


From 2c5126bd1a26c44feab3e4e1d639db35e821f778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:12 +0000
Subject: [PATCH 18/44] fix: direction at the end of a composite path is that
 of its last path

---
 planner/src/paths/path_composite.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/planner/src/paths/path_composite.cpp b/planner/src/paths/path_composite.cpp
index 59d3545..516a50c 100644
--- a/planner/src/paths/path_composite.cpp
+++ b/planner/src/paths/path_composite.cpp
@@ -28,7 +28,12 @@ namespace Planner {
 
 	Direction PathSE2CompositeNonHolonomic::GetDirection(double ratio) const
 	{
+		if (m_paths.empty())
+			return Direction::NoMotion;
+
 		auto [it, pathRatio] = FindSegment(ratio);
+		if (it == m_paths.end())
+			it--;
 		return it->second->GetDirection(pathRatio);
 	}
 }
-- 
2.43.0


From eef44bc4141a8a34da33e54b1e60dd41f2962cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:12 +0000
Subject: [PATCH 19/44] fix: cusp points of a composite path are ratios of the
 whole path

---
 planner/src/paths/path_composite.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/paths/path_composite.cpp b/planner/src/paths/path_composite.cpp
index 516a50c..235f9ca 100644
--- a/planner/src/paths/path_composite.cpp
+++ b/planner/src/paths/path_composite.cpp
@@ -16,8 +16,8 @@ namespace Planner {
 				ratios.insert(length / this->m_length);
 
 			// Check for cusp point in the path
-			auto cusps = path.second->GetCuspPointRatios();
-			ratios.insert(cusps.begin(), cusps.end());
+			for (double cusp : path.second->GetCuspPointRatios())
+				ratios.insert((length + cusp * path.second->GetLength()) / this->m_length);
 
 			prevDirection = path.second->GetDirection(1.0);
 			length += path.second->GetLength();
-- 
2.43.0


From e12a15fe2167648bd85e10017d2ea90a9000ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:28 +0000
Subject: [PATCH 20/44] fix: paths without motion are not cusp points of a
 composite path

---
 planner/src/paths/path_composite.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/planner/src/paths/path_composite.cpp b/planner/src/paths/path_composite.cpp
index 235f9ca..4ebbbca 100644
--- a/planner/src/paths/path_composite.cpp
+++ b/planner/src/paths/path_composite.cpp
@@ -9,10 +9,14 @@ namespace Planner {
 			return ratios;
 
 		double length = 0.0;
-		Direction prevDirection = m_paths[0].second->GetDirection(0.0);
+		Direction prevDirection = Direction::NoMotion;
 		for (auto& path : m_paths) {
+			// A path without motion does not change the direction
+			if (path.second->GetLength() == 0.0)
+				continue;
+
 			// Check if the path starts with same direction as the previous ends
-			if (path.second->GetDirection(0.0) != prevDirection)
+			if (prevDirection != Direction::NoMotion && path.second->GetDirection(0.0) != prevDirection)
 				ratios.insert(length / this->m_length);
 
 			// Check for cusp point in the path
-- 
2.43.0


From 98da0df3a24cad275810128846329a8e984bec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:37 +0000
Subject: [PATCH 21/44] fix: shortest Reeds-Shepp distance is scaled by the
 turning radius

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 79d532a..5769594 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -633,7 +633,7 @@ namespace Planner {
 			if (out)
 				*out = { t, u, v };
 
-			return smallestLength;
+			return smallestLength * minTurningRadius;
 		}
 
 		PathSegment Solver::GetShortestPath(const Pose2d& start, const Pose2d& goal, double minTurningRadius, PathWords* word)
-- 
2.43.0


From 0fedc37905d45024b2db5cee9f6573ebf1d8640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:37 +0000
Subject: [PATCH 22/44] fix: cost of a Reeds-Shepp path accounts for the
 forward multiplier

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 5769594..31d6890 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -468,7 +468,7 @@ namespace Planner {
 			if (!m_motions[0].IsValid())
 				return std::numeric_limits<float>::infinity();
 
-			if (reverseCostMultiplier == 1.0f && directionSwitchingCost == 0.0f)
+			if (reverseCostMultiplier == 1.0f && forwardCostMultiplier == 1.0f && directionSwitchingCost == 0.0f)
 				return m_length * minTurningRadius;
 
 			float cost = 0;
-- 
2.43.0


From dd9f23eac719c8d2e2fea2627961d1c3382140e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:59 +0000
Subject: [PATCH 23/44] fix: uniform samples never exceed the upper bound

---
 planner/src/utils/random.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner/src/utils/random.h b/planner/src/utils/random.h
index 864fdaf..40d1a15 100644
--- a/planner/src/utils/random.h
+++ b/planner/src/utils/random.h
@@ -2,6 +2,7 @@
 
 #include "core/base.h"
 
+#include <algorithm>
 #include <random>
 
 namespace Planner {
@@ -23,7 +24,8 @@ namespace Planner {
 		static T SampleUniform(T lb, T ub)
 		{
 			auto range = ub - lb;
-			return lb + range * s_uniformDistribution(*s_engine);
+			// Rounding may push the result past the upper bound
+			return std::min(ub, lb + range * s_uniformDistribution(*s_engine));
 		}
 
 		/// @brief Sample with a Gaussian distribution of mean @mean and
-- 
2.43.0


From 1dff29eb9b79067b6d912cd25da244ef4df2b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:59 +0000
Subject: [PATCH 24/44] fix: sampling several states at once returns them

---
 planner/src/state_space/state_space.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/state_space/state_space.h b/planner/src/state_space/state_space.h
index cbd0a2e..51baeba 100644
--- a/planner/src/state_space/state_space.h
+++ b/planner/src/state_space/state_space.h
@@ -38,7 +38,7 @@ namespace Planner {
 			std::vector<State> states;
 			states.reserve(numSamples);
 			for (unsigned int i = 0; i < numSamples; i++) {
-				states[i] = SampleUniform();
+				states.push_back(SampleUniform());
 			}
 			return states;
 		}
-- 
2.43.0


From 116d7cbe307471c6343c5e0365a09db647c05f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:59 +0000
Subject: [PATCH 25/44] fix: sampling several states with a Gaussian
 distribution

---
 planner/src/state_space/state_space.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/state_space/state_space.h b/planner/src/state_space/state_space.h
index 51baeba..b64b2d4 100644
--- a/planner/src/state_space/state_space.h
+++ b/planner/src/state_space/state_space.h
@@ -51,7 +51,7 @@ namespace Planner {
 			std::vector<State> states;
 			states.reserve(numSamples);
 			for (unsigned int i = 0; i < numSamples; i++) {
-				states[i] = SampleGuassian(meanState, stdDev);
+				states.push_back(SampleGaussian(meanState, stdDev));
 			}
 			return states;
 		}
-- 
2.43.0


From a3f037210bfbcb6067adddab41546fb81ef78981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:34 +0000
Subject: [PATCH 26/44] fix: RRT* does not add states no neighbor can reach

---
 planner/src/algo/rrt_star.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner/src/algo/rrt_star.h b/planner/src/algo/rrt_star.h
index 8b21024..5d2d814 100644
--- a/planner/src/algo/rrt_star.h
+++ b/planner/src/algo/rrt_star.h
@@ -96,6 +96,10 @@ namespace Planner {
 					}
 				}
 
+				// The state cannot be reached from any of its neighbors
+				if (!bestParentNode)
+					continue;
+
 				// Add the node to the tree
 				auto newNode = m_tree.Extend(newState, bestParentNode);
 				(*newNode)->info.costFromGoal = bestCost;
-- 
2.43.0


From ee5a696765e40b4956000f29596a1c73b6af67f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:44 +0000
Subject: [PATCH 27/44] fix: RRT* keeps the cost of a state sampled again

---
 planner/src/algo/rrt_star.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/rrt_star.h b/planner/src/algo/rrt_star.h
index 5d2d814..404f97f 100644
--- a/planner/src/algo/rrt_star.h
+++ b/planner/src/algo/rrt_star.h
@@ -100,10 +100,13 @@ namespace Planner {
 				if (!bestParentNode)
 					continue;
 
-				// Add the node to the tree
+				// Add the node to the tree (a state already in the tree keeps its parent)
+				const auto treeSize = m_tree.Size();
 				auto newNode = m_tree.Extend(newState, bestParentNode);
-				(*newNode)->info.costFromGoal = bestCost;
-				(*newNode)->info.path = std::move(bestPath);
+				if (m_tree.Size() > treeSize) {
+					(*newNode)->info.costFromGoal = bestCost;
+					(*newNode)->info.path = std::move(bestPath);
+				}
 
 				// Check solution
 				if (IsSolution(newState)) {
-- 
2.43.0


From 10e7ad83c24e55d7ade35340ce227eaf0d2962a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:23 +0000
Subject: [PATCH 28/44] fix: the obstacle heuristic uses the shortest path
 around obstacles

---
 planner/src/algo/heuristics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 76cbf29..f5eef83 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -142,7 +142,7 @@ namespace Planner {
 				} else if (inFrontier) {
 					// Check if the node in frontier has a higher cost than the
 					// current path, and if so replace it by child
-					if (inFrontier->value > m_cost[n.row][n.col]) {
+					if (inFrontier->value > pathCost) {
 						frontier.Remove({ n, 0.0f });
 						frontier.Push({ n, pathCost });
 						m_cost[n.row][n.col] = pathCost;
-- 
2.43.0


From f06c343696c25314ca03558c46136688ec9fa628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:23 +0000
Subject: [PATCH 29/44] fix: the non-holonomic heuristic reads the entry of the
 state relative to the goal

---
 planner/src/algo/heuristics.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index f5eef83..13dbad9 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -77,11 +77,13 @@ namespace Planner {
 
 	double NonHolonomicHeuristic::GetHeuristicValue(const Pose2d& state)
 	{
-		auto delta = m_goal - state;
+		// The table stores the cost from a pose to the origin
+		auto delta = state - m_goal;
+		double heading = delta.theta < 0.0 ? delta.theta + 2 * M_PI : delta.theta;
 
 		int i = (int)round((delta.x() + offsetX) / spatialResolution);
 		int j = (int)round((delta.y() + offsetY) / spatialResolution);
-		int k = (int)round(delta.theta / angularResolution);
+		int k = (int)round(heading / angularResolution);
 		if (k == numAngular)
 			k = 0;
 
-- 
2.43.0


From b055a71fdeba704090aba4580d8875c95ea7aa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:23 +0000
Subject: [PATCH 30/44] fix: the obstacle heuristic weighs all distances with
 the cost multiplier

---
 planner/src/algo/heuristics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 13dbad9..deddb08 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -156,13 +156,13 @@ namespace Planner {
 
 	double ObstaclesHeuristic::GetHeuristicValue(const Pose2d& state)
 	{
-		auto euclidean = (m_goal.position - state.position).norm();
+		auto euclidean = (m_goal.position - state.position).norm() / m_map->resolution * costMultiplier;
 		auto cell = m_map->WorldPositionToGridCell(state.position);
 		if (!cell.IsValid())
 			return euclidean;
 		if (!m_explored[cell.row][cell.col])
 			return euclidean;
-		double heuristic = m_cost[cell.row][cell.col] * costMultiplier - diagonalResolution;
+		double heuristic = (m_cost[cell.row][cell.col] - diagonalResolution / m_map->resolution) * costMultiplier;
 		return std::max(heuristic, euclidean);
 	}
 
-- 
2.43.0


From aa5ec0f706d4b57900241bae0deeb4f6b3142ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:23 +0000
Subject: [PATCH 31/44] fix: Hybrid A* samples every cusp point and the goal

---
 planner/src/algo/hybrid_a_star.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index fb4b68c..4fb78ea 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -272,18 +272,17 @@ namespace Planner {
 			cuspRatios.insert(0.0);
 			cuspRatios.insert(1.0);
 			ratios.reserve(pathLength / pathInterpolation + cuspRatios.size());
-			auto cuspRatioIt = cuspRatios.begin();
-			for (double length = 0.0; length <= pathLength; length += pathInterpolation) {
+			const double ratioStep = pathInterpolation / pathLength;
+			for (auto cuspRatioIt = cuspRatios.begin(); cuspRatioIt != cuspRatios.end(); cuspRatioIt++) {
 				// Sample cusp point
-				double cuspLength = *cuspRatioIt * pathLength;
-				if (length >= cuspLength - pathInterpolation / 2 && length < cuspLength + pathInterpolation / 2) {
-					cuspIndices.insert(ratios.size());
-					ratios.push_back(*cuspRatioIt);
-					cuspRatioIt++;
-				} else {
-					// Sample at regular interval
-					ratios.push_back(length / pathLength);
-				}
+				cuspIndices.insert(ratios.size());
+				ratios.push_back(*cuspRatioIt);
+				// Sample at regular interval up to the next cusp point
+				auto next = std::next(cuspRatioIt);
+				if (next == cuspRatios.end())
+					break;
+				for (double ratio = *cuspRatioIt + ratioStep; ratio < *next - ratioStep / 2; ratio += ratioStep)
+					ratios.push_back(ratio);
 			}
 
 			// Sample points
-- 
2.43.0


From f3af5f65ae9199a6cac5effa24a193322a189d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:05 +0000
Subject: [PATCH 32/44] fix: Hybrid A* reaches a goal in an already visited
 cell

---
 planner/src/algo/hybrid_a_star.cpp | 1 +
 planner/src/algo/hybrid_a_star.h   | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 4fb78ea..e8b3ad5 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -163,6 +163,7 @@ namespace Planner {
 		double pathAndSwitchingCosts = path->ComputeCost(m_param.directionSwitchingCost,
 			m_param.reverseCostMultiplier, m_param.forwardCostMultiplier);
 		child = CreateStateFromPath(path);
+		child.isGoal = true;
 		action.path = std::move(path);
 
 		// Compute transition cost
diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 3aac712..eedba3a 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -63,6 +63,8 @@ namespace Planner {
 			Pose2i discretePose;
 			/// @brief Pose
 			Pose2d continuousPose;
+			/// @brief The pose is the goal, not just any pose of its cell.
+			bool isGoal = false;
 
 			/// @brief Hasher for the discretized configuration space.
 			/// @details Two states are considered equal if they correspond to the
@@ -77,11 +79,12 @@ namespace Planner {
 				}
 			};
 
-			/// @brief Check if two states correspond to the same cell.
+			/// @brief Check if two states correspond to the same cell. The
+			/// goal is kept apart, as it must be reached exactly.
 			struct Equal {
 				bool operator()(const State& lhs, const State& rhs) const
 				{
-					return lhs.discretePose == rhs.discretePose;
+					return lhs.discretePose == rhs.discretePose && lhs.isGoal == rhs.isGoal;
 				}
 			};
 		};
-- 
2.43.0


From f0a107f3bc266a56d244eb99bb736f9d7e9fd86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:58 +0000
Subject: [PATCH 33/44] fix: Hybrid A* counts direction changes between motions

---
 planner/src/algo/hybrid_a_star.cpp | 5 +++--
 planner/src/algo/hybrid_a_star.h   | 8 ++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index e8b3ad5..ecfbd24 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -139,7 +139,7 @@ namespace Planner {
 		default:
 			pathCost = 0.0;
 		}
-		double switchingCost = action.path->GetDirection(1.0) == action.path->GetDirection(1.0) ? 0.0 : m_param.directionSwitchingCost;
+		double switchingCost = GetSwitchingCost(state, direction);
 		double voronoiCost = GetVoronoiCost(*action.path);
 		cost = pathCost + switchingCost + voronoiCost;
 
@@ -161,7 +161,8 @@ namespace Planner {
 			return false;
 
 		double pathAndSwitchingCosts = path->ComputeCost(m_param.directionSwitchingCost,
-			m_param.reverseCostMultiplier, m_param.forwardCostMultiplier);
+			m_param.reverseCostMultiplier, m_param.forwardCostMultiplier)
+			+ GetSwitchingCost(state, path->GetDirection(0.0));
 		child = CreateStateFromPath(path);
 		child.isGoal = true;
 		action.path = std::move(path);
diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index eedba3a..8cb4e6b 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -135,6 +135,14 @@ namespace Planner {
 		private:
 			double GetVoronoiCost(const PathNonHolonomicSE2Base& path) const;
 
+			/// @brief Cost to start driving in @direction from @state.
+			double GetSwitchingCost(const State& state, Direction direction) const
+			{
+				if (state.direction == Direction::NoMotion || direction == Direction::NoMotion || state.direction == direction)
+					return 0.0;
+				return m_param.directionSwitchingCost;
+			}
+
 			/// @brief Update state assuming constant steer angle and bicycle
 			/// kinematic model.
 			/// @param[in] state The previous state.
-- 
2.43.0


From ada2cc353851b7d438bf3b14ae8cabffee6ef840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:58 +0000
Subject: [PATCH 34/44] fix: Hybrid A* integrates the Voronoi field along
 motions

---
 planner/src/algo/hybrid_a_star.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index ecfbd24..b305675 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -101,7 +101,7 @@ namespace Planner {
 			auto position = path.Interpolate(length / pathLength).position;
 			auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
 			PP_ASSERT(m_occupancyMap->IsInsideMap(cell), "The cell is not inside the occupancy map");
-			voronoiCost = m_gvd->GetPathCost(cell);
+			voronoiCost += m_gvd->GetPathCost(cell);
 		}
 
 		voronoiCost *= interpLength;
-- 
2.43.0


From 9ad394ae0b8a4aaac3fa4ce067b3f1d047b7db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:58 +0000
Subject: [PATCH 35/44] fix: Hybrid A* search from the goal

---
 planner/src/algo/hybrid_a_star.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index b305675..1db23b1 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -267,6 +267,11 @@ namespace Planner {
 			// Get composite path
 			auto path = m_graphSearch.GetCompositePath();
 			const double pathLength = path->GetLength();
+			if (pathLength == 0.0) {
+				// The initial state is the goal
+				m_path = { this->m_init };
+				return m_stats.graphSearchStatus;
+			}
 
 			// Generate ratio at which to sample the path and find indices of cusp points
 			std::vector<double> ratios;
-- 
2.43.0


From 53bca53ca78aafb2c6855031c4b46a23c93ccfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:38 +0000
Subject: [PATCH 36/44] fix: Hybrid A* recognizes the goal heading whichever
 way it is written

---
 planner/src/algo/hybrid_a_star.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 8cb4e6b..5aa1791 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -218,7 +218,8 @@ namespace Planner {
 		private:
 			inline bool IdenticalPoses(const Pose2d& lhs, const Pose2d& rhs, double tol = 1e-3)
 			{
-				return (lhs.position - rhs.position).norm() < tol && abs(lhs.theta - rhs.theta) < tol * M_PI / 180.0;
+				double deltaTheta = std::remainder(lhs.theta - rhs.theta, 2 * M_PI);
+				return (lhs.position - rhs.position).norm() < tol && std::abs(deltaTheta) < tol * M_PI / 180.0;
 			}
 		};
 
-- 
2.43.0


From 7e755b319294a4243c580f3f8f94a6a66f927cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:38 +0000
Subject: [PATCH 37/44] fix: a failed Hybrid A* search leaves no path

---
 planner/src/algo/hybrid_a_star.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 1db23b1..5e3ec89 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -242,6 +242,8 @@ namespace Planner {
 
 		// TODO create stats saving status of each step (graph search + optimization, number of iteration...)
 
+		m_path.clear();
+
 		if (!isInitialized) {
 			PP_ERROR("The algorithm has not been initialized successfully.");
 			return Status::Failure;
-- 
2.43.0


From 8465efd3bb1cb8127b5b0443092e9d52c2731c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:38 +0000
Subject: [PATCH 38/44] fix: Hybrid A* motions respect the minimum turning
 radius

---
 planner/src/algo/hybrid_a_star.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 5e3ec89..f47ae0e 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -22,7 +22,7 @@ namespace Planner {
 		const double deltaMax = m_model->GetSteeringAngleFromTurningRadius(m_param.minTurningRadius);
 		m_deltas.push_back(0.0);
 		for (unsigned int i = 0; i < m_param.numGeneratedMotion / 2; i++) {
-			double delta = (i + 1) / 2.0 * deltaMax;
+			double delta = (i + 1) / static_cast<double>(m_param.numGeneratedMotion / 2) * deltaMax;
 			m_deltas.push_back(delta);
 			m_deltas.push_back(-delta);
 		}
-- 
2.43.0


From d0fe5ed714e4cc1129676d96bd6dd2753a4ff660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:38 +0000
Subject: [PATCH 39/44] fix: cells of the Hybrid A* search are not larger
 around zero

---
 planner/src/algo/hybrid_a_star.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 5aa1791..8103a7c 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -107,9 +107,9 @@ namespace Planner {
 			inline Pose2i DiscretizePose(const Pose2d& pose) const
 			{
 				return {
-					static_cast<int>(pose.x() / m_param.spatialResolution),
-					static_cast<int>(pose.y() / m_param.spatialResolution),
-					static_cast<int>(pose.WrapTheta() / m_param.angularResolution),
+					static_cast<int>(std::floor(pose.x() / m_param.spatialResolution)),
+					static_cast<int>(std::floor(pose.y() / m_param.spatialResolution)),
+					static_cast<int>(std::floor(pose.WrapTheta() / m_param.angularResolution)),
 				};
 			}
 
-- 
2.43.0


From ae6f1a22e942fbb17027af5d8b811e691f67a880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:01 +0000
Subject: [PATCH 40/44] fix: Hybrid A* motions grazing the border of the map

---
 planner/src/algo/hybrid_a_star.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index f47ae0e..b9af5f6 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -100,7 +100,9 @@ namespace Planner {
 		for (double length = 0.0; length < pathLength; length += interpLength) {
 			auto position = path.Interpolate(length / pathLength).position;
 			auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
-			PP_ASSERT(m_occupancyMap->IsInsideMap(cell), "The cell is not inside the occupancy map");
+			// The path may leave the map between two validated states
+			if (!m_occupancyMap->IsInsideMap(cell))
+				continue;
 			voronoiCost += m_gvd->GetPathCost(cell);
 		}
 
-- 
2.43.0


From 71bf3c85137ff159a5fa6a5dd540f5e59be7dc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:08 +0000
Subject: [PATCH 41/44] fix: the smoother pulls points towards the original
 path

The gradient of the distance to the original path had the wrong sign: points
were pushed away from the path, faster at each iteration.
---
 planner/src/algo/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/smoother.cpp b/planner/src/algo/smoother.cpp
index 877b74a..7db81fc 100644
--- a/planner/src/algo/smoother.cpp
+++ b/planner/src/algo/smoother.cpp
@@ -105,7 +105,7 @@ namespace Planner {
 				const Point2d& curr = m_currentPath[i].position;
 
 				// Original path term
-				gradients[i] += m_param.pathWeight * (path[i].position - curr);
+				gradients[i] += m_param.pathWeight * (curr - path[i].position);
 
 				if (m_map->IsInsideMap(curr)) {
 					// Collision term
-- 
2.43.0


From 7d7d2b696babe016ebe61a460da5e479963b0662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:42 +0000
Subject: [PATCH 42/44] fix: the smoother ignores missing obstacles and Voronoi
 edges

Without obstacle or Voronoi edge, the nearest cell is invalid and paths were
deformed by an obstacle or an edge that does not exist.
---
 planner/src/algo/smoother.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/smoother.cpp b/planner/src/algo/smoother.cpp
index 7db81fc..77915c1 100644
--- a/planner/src/algo/smoother.cpp
+++ b/planner/src/algo/smoother.cpp
@@ -107,9 +107,14 @@ namespace Planner {
 				// Original path term
 				gradients[i] += m_param.pathWeight * (curr - path[i].position);
 
+				GridCellPosition obstCell, voroCell; // Invalid if there is no obstacle or no Voronoi edge
 				if (m_map->IsInsideMap(curr)) {
+					obstCell = m_gvd->GetNearestObstacleCell(m_map->WorldPositionToGridCell(curr));
+					voroCell = m_gvd->GetNearestVoronoiEdgeCell(m_map->WorldPositionToGridCell(curr));
+				}
+				if (obstCell.IsValid()) {
 					// Collision term
-					Point2d dirToClosestObs = curr - m_map->GridCellToWorldPosition(m_gvd->GetNearestObstacleCell(m_map->WorldPositionToGridCell(curr)));
+					Point2d dirToClosestObs = curr - m_map->GridCellToWorldPosition(obstCell);
 					float obstDist = dirToClosestObs.norm();
 					if (obstDist < unsafeRadius)
 						gradients[i] += m_param.collisionWeight * (obstDist - unsafeRadius) * dirToClosestObs / obstDist;
@@ -117,8 +122,8 @@ namespace Planner {
 					// Voronoi term
 					const auto& alpha = m_gvd->alpha;
 					const auto& dMax = m_gvd->dMax;
-					if (obstDist < dMax && m_param.voronoiWeight > 0.0f) {
-						Point2d dirToClosestVoroEdge = curr - m_map->GridCellToWorldPosition(m_gvd->GetNearestVoronoiEdgeCell(m_map->WorldPositionToGridCell(curr)));
+					if (voroCell.IsValid() && obstDist < dMax && m_param.voronoiWeight > 0.0f) {
+						Point2d dirToClosestVoroEdge = curr - m_map->GridCellToWorldPosition(voroCell);
 						float voroDist = dirToClosestVoroEdge.norm();
 
 						if (voroDist > 0.0f) {
-- 
2.43.0


From 6154e7bf255affcc1aa647ea77214620f2eb2da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:41 +0000
Subject: [PATCH 43/44] fix: Reeds-Shepp motions without length do not change
 the direction

---
 planner/src/geometry/reeds_shepp.cpp   |  7 +++++--
 planner/src/paths/path_reeds_shepp.cpp | 15 +++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 31d6890..50692a0 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -473,17 +473,20 @@ namespace Planner {
 
 			float cost = 0;
 
-			Direction prevDirection = m_motions[0].direction;
+			Direction prevDirection = Direction::NoMotion;
 			for (const auto& motion : m_motions) {
 				if (!motion.IsValid())
 					break;
+				// A motion without length does not change the direction
+				if (motion.length == 0.0)
+					continue;
 
 				float motionCost = motion.length * minTurningRadius;
 				if (motion.direction == Direction::Forward)
 					motionCost *= forwardCostMultiplier;
 				else if (motion.direction == Direction::Backward)
 					motionCost *= reverseCostMultiplier;
-				if (motion.direction != prevDirection)
+				if (prevDirection != Direction::NoMotion && motion.direction != prevDirection)
 					motionCost += directionSwitchingCost;
 
 				prevDirection = motion.direction;
diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index 0c49030..bb0548c 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -101,18 +101,22 @@ namespace Planner {
 		if (m_length == 0.0)
 			return ratios;
 
-		double length = m_pathSegment.m_motions[0].length * m_minTurningRadius;
-		for (int i = 1; i < m_pathSegment.GetNumMotions(); i++) {
+		double length = 0.0;
+		Direction prevDirection = Direction::NoMotion;
+		for (int i = 0; i < m_pathSegment.GetNumMotions(); i++) {
 			const auto& currMotion = m_pathSegment.m_motions[i];
-			const auto& prevMotion = m_pathSegment.m_motions[i - 1];
+			// A motion without length does not change the direction
+			if (currMotion.length == 0.0)
+				continue;
 			double ratio = length / m_length;
 			// Check ratio is smaller than 1.0 in case the path has been truncated
 			if (ratio > 1.0)
 				break;
 			// Check if the direction has changed
-			if (currMotion.direction != prevMotion.direction) {
+			if (prevDirection != Direction::NoMotion && currMotion.direction != prevDirection) {
 				ratios.insert(ratio);
 			}
+			prevDirection = currMotion.direction;
 			length += currMotion.length * m_minTurningRadius;
 		}
 
@@ -161,6 +165,9 @@ namespace Planner {
 		for (const auto& motion : m_pathSegment.m_motions) {
 			if (!motion.IsValid())
 				break;
+			// A motion without length does not change the direction
+			if (motion.length == 0.0)
+				continue;
 			direction = motion.direction;
 			length += motion.length * m_minTurningRadius;
 			if (ratio * m_length <= length)
-- 
2.43.0


From dc58da40322b027144086fe13713bce6e788694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:29 +0000
Subject: [PATCH 44/44] fix: the smoother skips terms that are not defined

---
 planner/src/algo/smoother.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/smoother.cpp b/planner/src/algo/smoother.cpp
index 77915c1..2636cc4 100644
--- a/planner/src/algo/smoother.cpp
+++ b/planner/src/algo/smoother.cpp
@@ -116,7 +116,7 @@ namespace Planner {
 					// Collision term
 					Point2d dirToClosestObs = curr - m_map->GridCellToWorldPosition(obstCell);
 					float obstDist = dirToClosestObs.norm();
-					if (obstDist < unsafeRadius)
+					if (obstDist > 0.0f && obstDist < unsafeRadius)
 						gradients[i] += m_param.collisionWeight * (obstDist - unsafeRadius) * dirToClosestObs / obstDist;
 
 					// Voronoi term
@@ -126,7 +126,7 @@ namespace Planner {
 						Point2d dirToClosestVoroEdge = curr - m_map->GridCellToWorldPosition(voroCell);
 						float voroDist = dirToClosestVoroEdge.norm();
 
-						if (voroDist > 0.0f) {
+						if (voroDist > 0.0f && obstDist > 0.0f) {
 							float alphaPlusObstDist = alpha + obstDist;
 							float obstDistMinusDMax = obstDist - dMax;
 							float obstDistPlusVoroDist = obstDist + voroDist;
@@ -166,6 +166,9 @@ namespace Planner {
 	{
 		Point2d deltaXi = xi - xim1;
 		Point2d deltaXip1 = xip1 - xi;
+		// The curvature is not defined when points coincide
+		if (deltaXi.isZero(0.0) || deltaXip1.isZero(0.0))
+			return;
 		float deltaPhi = acos(std::clamp<float>((deltaXi.normalized().dot(deltaXip1.normalized())), -1.0f, 1.0f));
 
 		// The curvature is approximated by deltaPhi / norm_deltaXi
-- 
2.43.0

