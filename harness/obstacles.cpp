// P08: the map's occupancy follows the list of obstacles.
#include "vp.h"
#include "core/base.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
using namespace Planner;

#ifndef H_R
#define H_R 1
#endif
#ifndef H_C
#define H_C 3
#endif
#ifndef H_NOBS
#define H_NOBS 2
#endif
#ifndef H_OPS
#define H_OPS 4
#endif
static constexpr int R = H_R, C = H_C, N = R * C, NOBS = H_NOBS, OPS = H_OPS;

// a shape drawing any set of cells, one set per pose
struct Cells : Shape {
	unsigned mask[2]; // by the sign of the pose's x
	void GetGridCellsPosition(const OccupancyMap&, const Pose2d& pose, std::vector<GridCellPosition>& cells) override
	{
		unsigned m = mask[pose.position.x() > 0];
		for (int i = 0; i < N; i++)
			if (m >> i & 1)
				cells.push_back({ i / C, i % C });
	}
	void GetVerticesPosition(const Pose2d&, std::vector<Point2d>&) override { }
};

extern "C" void history()
{
	ObstacleListOccupancyMap map(0.5f);
	map.InitializeSize(R * 0.5f, C * 0.5f);
	vp_assert(map.Rows() == R && map.Columns() == C, "size");
	Ref<Obstacle> o[NOBS];
	Ref<Cells> s[NOBS];
	unsigned pose[NOBS], drawn[NOBS];
	bool listed[NOBS] = {};
	for (int i = 0; i < NOBS; i++) {
		o[i] = makeRef<Obstacle>();
		s[i] = makeRef<Cells>();
		s[i]->mask[0] = vp_pick("mask", 1 << N);
		s[i]->mask[1] = i == 0 ? vp_pick("mask", 1 << N) : s[i]->mask[0];
		o[i]->SetShape(s[i]);
		o[i]->SetPose({ -1, 0, 0 });
		pose[i] = 0;
	}
	bool updated = true;
	for (int k = 0; k < OPS; k++) {
		int op = vp_pick("op", 4);
		if (op == 3) {
			map.Update();
			updated = true;
			vp_reach("update");
		} else if (op == 2) {
			// move the first obstacle
			pose[0] ^= 1;
			o[0]->SetPose({ pose[0] ? 1.0 : -1.0, 0, 0 });
			vp_reach("move");
		} else {
			int i = NOBS > 1 ? vp_pick("which", NOBS) : 0;
			if (op == 0) {
				bool ok = map.AddObstacle(o[i]);
				vp_assert(ok == !listed[i], "add-result");
				if (!listed[i]) {
					listed[i] = true;
					drawn[i] = s[i]->mask[pose[i]];
				}
				vp_reach("add");
			} else {
				bool ok = map.RemoveObstacle(o[i]);
				vp_assert(ok == listed[i], "remove-result");
				listed[i] = false;
				vp_reach("remove");
			}
			updated = false;
		}
		int cnt = 0;
		for (int i = 0; i < NOBS; i++)
			cnt += listed[i];
		vp_assert(map.GetNumObstacles() == cnt, "count");
	}
	int owner[N];
	for (int c = 0; c < N; c++) {
		owner[c] = -1;
		for (int i = 0; i < NOBS; i++)
			if (listed[i] && (drawn[i] >> c & 1))
				owner[c] = owner[c] == -1 ? i : -2;
		bool occ = owner[c] != -1;
		GridCellPosition p(c / C, c % C);
		vp_assert(map.IsOccupied(p) == occ, "occupied-iff-covered");
		vp_assert((map.GetOccupancyValue(p) >= 0) == occ, "value-iff-covered");
		vp_assert(map.GetOccupancyValue(p) == map.GetOccupancyValue(p.row, p.col), "value-overload");
	}
	for (int c = 0; c < N; c++)
		for (int d = 0; d < c; d++)
			if (owner[c] >= 0 && owner[d] >= 0)
				vp_assert((map.GetOccupancyValue(c / C, c % C) == map.GetOccupancyValue(d / C, d % C)) == (owner[c] == owner[d]), "value-names-obstacle");
	if (!updated)
		map.Update();
	auto& dm = map.GetObstacleDistanceMap();
	for (int c = 0; c < N; c++) {
		int best = 1 << 20, arg = -1;
		for (int d = 0; d < N; d++)
			if (owner[d] != -1) {
				int dr = c / C - d / C, dc = c % C - d % C;
				if (dr * dr + dc * dc < best) {
					best = dr * dr + dc * dc;
					arg = d;
				}
			}
		float got = dm->GetDistanceToNearestObstacle(c / C, c % C);
		if (arg < 0)
			vp_assert(got > 1000, "distance-none");
		else
			vp_assert(vp_close(got, std::sqrt((double)best) * 0.5, 1e-4), "distance-follows-list");
	}
	vp_reach("end");
}

// identifiers stay distinct whatever was removed before
extern "C" void identifiers()
{
	ObstacleListOccupancyMap map(1.0f);
	map.InitializeSize(1.0f, 5.0f);
	Ref<Obstacle> o[5];
	for (int i = 0; i < 5; i++) {
		auto p = makeRef<PolygonShape>(std::vector<Point2d> { { 0.0, i - 2.0 } });
		o[i] = makeRef<Obstacle>();
		o[i]->SetShape(p);
		o[i]->SetPose({ 0, 0, 0 });
	}
	bool listed[5] = {};
	for (int i = 0; i < 4; i++)
		listed[i] = map.AddObstacle(o[i]);
	for (int k = 0; k < 4; k++) {
		int i = vp_pick("toggle", 5);
		vp_assert(listed[i] ? map.RemoveObstacle(o[i]) : map.AddObstacle(o[i]), "toggle");
		listed[i] = !listed[i];
	}
	for (int i = 0; i < 5; i++) {
		GridCellPosition c(0, i);
		vp_assert(map.IsOccupied(c) == listed[i], "occupied-iff-covered");
		for (int j = 0; j < i; j++)
			if (listed[i] && listed[j])
				vp_assert(map.GetOccupancyValue(0, i) != map.GetOccupancyValue(0, j), "value-names-obstacle");
	}
	vp_reach("end");
}
