// P09: distance maps, Voronoi distance and the path cost field.
#include "vp.h"
#include "core/base.h"
#include "state_validator/gvd.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
using namespace Planner;

#ifndef H_R
#define H_R 3
#endif
#ifndef H_C
#define H_C 3
#endif
#ifndef H_INIT
#define H_INIT 2
#endif
#ifndef H_OPS
#define H_OPS 2
#endif
static constexpr int R = H_R, C = H_C, N = R * C;

static int sq(int a, int b)
{
	int dr = a / C - b / C, dc = a % C - b % C;
	return dr * dr + dc * dc;
}

template <typename D, typename G>
static void exact(const bool (&set)[N], float res, D&& dist, G&& cell, const char* idDist, const char* idCell, const char* idNone)
{
	for (int c = 0; c < N; c++) {
		int best = -1;
		for (int d = 0; d < N; d++)
			if (set[d] && (best < 0 || sq(c, d) < best))
				best = sq(c, d);
		float got = dist(c);
		GridCellPosition k = cell(c);
		if (best < 0) {
			vp_assert(got == std::numeric_limits<float>::infinity(), idNone);
			vp_assert(!k.IsValid(), idCell);
			continue;
		}
		vp_assert(vp_close(got, std::sqrt((double)best) * res, 1e-4), idDist);
		vp_assert(k.row >= 0 && k.row < R && k.col >= 0 && k.col < C, idCell);
		int n = k.row * C + k.col;
		vp_assert(set[n] && sq(c, n) == best, idCell);
	}
}

// any history of setting and clearing obstacle cells
extern "C" void obstacles()
{
	auto occ = makeRef<Grid<int>>(R, C, -1);
	GVD::ObstacleDistanceMap m(occ, 0.5f);
	vp_assert(m.rows == R && m.columns == C, "size");
#ifdef H_VORO
	auto v = m.GetVoronoiDistanceMap();
#endif
	bool set[N] = {};
	auto toggle = [&](int i) {
		set[i] = !set[i];
		(*occ)[i / C][i % C] = set[i] ? i : -1;
		if (set[i])
			m.SetObstacle({ i / C, i % C });
		else
			m.UnsetObstacle({ i / C, i % C });
	};
	auto check = [&] {
		exact(set, 0.5f, [&](int c) { return m.GetDistanceToNearestObstacle(c / C, c % C); }, [&](int c) { return m.GetNearestObstacleCell(c / C, c % C); }, "obstacle-distance", "obstacle-cell", "obstacle-none");
	};
#if H_INIT < 0
	for (int i = 0; i < N; i++)
		if (vp_flag("set"))
			toggle(i);
#else
	for (int i = 0; i < H_INIT; i++)
		toggle(vp_pick("set", N));
#endif
	if (vp_flag("update")) {
		m.Update();
		check();
		vp_reach("updated-twice");
	}
	for (int k = 0; k < H_OPS; k++) {
		int i = vp_pick("toggle", N);
		vp_reach(set[i] ? "clear" : "set");
		toggle(i);
		if (k + 1 < H_OPS && vp_flag("update"))
			m.Update();
	}
	m.Update();
	check();
	auto d = m.GetDistanceToNearestObstacle(GridCellPosition(0, 0));
	vp_assert(d == m.GetDistanceToNearestObstacle(0, 0), "overload");
	vp_reach("end");
}

// the Voronoi distance map under any history of its edges
extern "C" void edges()
{
	auto occ = makeRef<Grid<int>>(R, C, -1);
	GVD::ObstacleDistanceMap m(occ, 2.0f);
	auto v = m.GetVoronoiDistanceMap();
	vp_assert(v == m.GetVoronoiDistanceMap(), "same-map");
	bool set[N] = {};
	auto toggle = [&](int i) {
		set[i] = !set[i];
		if (set[i])
			v->SetEdge({ i / C, i % C });
		else
			v->UnsetEdge({ i / C, i % C });
	};
	auto check = [&] {
		exact(set, 2.0f, [&](int c) { return v->GetDistanceToNearestVoronoiEdge(c / C, c % C); }, [&](int c) { return v->GetNearestVoronoiEdgeCell(c / C, c % C); }, "edge-distance", "edge-cell", "edge-none");
	};
#if H_INIT < 0
	for (int i = 0; i < N; i++)
		if (vp_flag("set"))
			toggle(i);
#else
	for (int i = 0; i < H_INIT; i++)
		toggle(vp_pick("set", N));
#endif
	if (vp_flag("update")) {
		v->Update();
		check();
		vp_reach("updated-twice");
	}
	for (int k = 0; k < H_OPS; k++) {
		int i = vp_pick("toggle", N);
		vp_reach(set[i] ? "clear" : "set");
		toggle(i);
		if (k + 1 < H_OPS && vp_flag("update"))
			v->Update();
	}
	v->Update();
	check();
	vp_reach("end");
}

// one-cell obstacles on a map: edges, potential field, queries by position
#ifndef H_RES
#define H_RES 1.0f
#endif
static const float RES = H_RES;
extern "C" void field()
{
	auto map = makeRef<ObstacleListOccupancyMap>(RES);
	map->SetPosition({ R * RES / 2.0 + 3, C * RES / 2.0 - 2 });
	map->InitializeSize(R * RES, C * RES);
	int when = vp_pick("when", 3); // the diagram is built before, between or after the map's updates
	Ref<GVD> g;
	if (when == 0)
		g = makeRef<GVD>(map);
	bool set[N] = {};
	Ref<Obstacle> o[4];
	int at[4];
	const int K = 1 + vp_pick("obstacles", H_INIT);
	for (int i = 0; i < K; i++) {
		at[i] = vp_pick("cell", N);
		vp_assume(!set[at[i]]);
		set[at[i]] = true;
		o[i] = makeRef<Obstacle>();
		o[i]->SetShape(makeRef<PolygonShape>(std::vector<Point2d> { { (at[i] / C + 0.5) * RES, (at[i] % C + 0.5) * RES } }));
		o[i]->SetPose({ 3, -2, 0 });
		map->AddObstacle(o[i]);
	}
	if (when == 1)
		g = makeRef<GVD>(map);
	map->Update();
	if (when == 2)
		g = makeRef<GVD>(map);
	g->Update();
	if (vp_flag("remove")) {
		map->RemoveObstacle(o[0]);
		set[at[0]] = false;
		g->Update();
		vp_reach("removed");
	}
	exact(set, RES, [&](int c) { return g->GetDistanceToNearestObstacle(c / C, c % C); }, [&](int c) { return g->GetNearestObstacleCell(c / C, c % C); }, "field-obstacle-distance", "field-obstacle-cell", "field-obstacle-none");
	bool edge[N];
	for (int c = 0; c < N; c++) {
		edge[c] = g->GetDistanceToNearestVoronoiEdge(c / C, c % C) == 0;
		if (edge[c]) {
			vp_reach("edge");
			vp_assert(!set[c], "edge-not-obstacle");
			// between two obstacles: a neighbour (or itself) is closest to another obstacle
			int mine = -1, other = -1;
			for (int d = 0; d < N; d++)
				if (set[d] && (mine < 0 || sq(c, d) < sq(c, mine)))
					mine = d;
			for (int d = 0; d < N; d++)
				if (set[d] && d != mine && (other < 0 || sq(c, d) < sq(c, other)))
					other = d;
			vp_assert(other >= 0, "edge-between-two");
			double gap = std::sqrt((double)sq(c, other)) - std::sqrt((double)sq(c, mine));
			vp_assert(gap <= 2.0 * 1.4143, "edge-between-two");
		}
	}
	exact(edge, RES, [&](int c) { return g->GetDistanceToNearestVoronoiEdge(c / C, c % C); }, [&](int c) { return g->GetNearestVoronoiEdgeCell(c / C, c % C); }, "field-edge-distance", "field-edge-cell", "field-edge-none");
	// a cell separated from its equal by two far obstacles must be on an edge: midpoint of two lone obstacles
	int live[4], nl = 0;
	for (int i = 0; i < K; i++)
		if (set[at[i]])
			live[nl++] = at[i];
	if (nl == 2) {
		int dr = std::abs(live[0] / C - live[1] / C), dc = std::abs(live[0] % C - live[1] % C);
		if (dr % 2 == 0 && dc % 2 == 0 && dr + dc >= 4) {
			int mid = (live[0] / C + live[1] / C) / 2 * C + (live[0] % C + live[1] % C) / 2;
			vp_assert(edge[mid], "midpoint-is-edge");
			vp_reach("midpoint");
		}
	}
	if (nl < 2)
		for (int c = 0; c < N; c++)
			vp_assert(!edge[c], "edge-between-two");
	for (int c = 0; c < N; c++) {
		float od = g->GetDistanceToNearestObstacle(c / C, c % C), vd = g->GetDistanceToNearestVoronoiEdge(c / C, c % C);
		float cost = g->GetPathCost(c / C, c % C);
		vp_assert(cost >= 0 && cost <= 1, "cost-range");
		vp_assert(g->GetPathCost(GridCellPosition(c / C, c % C)) == cost, "overload");
		double want = 0;
		bool none = vd == std::numeric_limits<float>::infinity();
		if (od >= g->dMax && !none)
			vp_reach("far");
		if (od < g->dMax && !none)
			want = (double)g->alpha / (g->alpha + od) * vd / (od + vd) * (od - g->dMax) * (od - g->dMax) / (g->dMax * g->dMax);
		vp_assert(vp_close(cost, want, 1e-4), "cost-formula");
		if (edge[c])
			vp_assert(cost == 0, "cost-zero-on-edge");
		else if (set[c] && nl > 1)
			vp_assert(none || vp_close(cost, 1, 1e-4), "cost-one-on-obstacle");
	}
	// queries by position
	double x = vp_real("x", 1, R * RES + 5), y = vp_real("y", -4, C * RES);
	Point2d p(x, y), q, u;
	float f, e, h;
	bool in = map->IsInsideMap(p);
	bool b1 = g->GetNearestObstaclePosition(p, q), b2 = g->GetNearestVoronoiEdgePosition(p, u);
	bool b3 = g->GetDistanceToNearestObstacle(p, f), b4 = g->GetDistanceToNearestVoronoiEdge(p, e), b5 = g->GetPathCost(p, h);
	vp_assert(b1 == in && b2 == in && b3 == in && b4 == in && b5 == in, "query-inside");
	if (in) {
		auto c = map->WorldPositionToGridCell(p);
		int r = vp_concrete(c.row), k = vp_concrete(c.col);
		GridCellPosition cc(r, k);
		vp_assert(f == g->GetDistanceToNearestObstacle(cc), "query-obstacle-distance");
		vp_assert(e == g->GetDistanceToNearestVoronoiEdge(cc), "query-edge-distance");
		vp_assert(h == g->GetPathCost(cc), "query-cost");
		vp_assert(q == map->GridCellToWorldPosition(g->GetNearestObstacleCell(cc)), "query-obstacle");
		vp_assert(u == map->GridCellToWorldPosition(g->GetNearestVoronoiEdgeCell(cc)), "query-edge");
		vp_reach("query");
	}
}

// the diagram does not depend on when it was requested
extern "C" void order()
{
	bool got[2][N];
	int a = vp_pick("a", N), b = vp_pick("b", N);
	vp_assume(a != b);
	for (int late = 0; late < 2; late++) {
		auto map = makeRef<ObstacleListOccupancyMap>(1.0f);
		map->SetPosition({ R / 2.0, C / 2.0 });
		map->InitializeSize(R, C);
		Ref<GVD> g;
		if (!late)
			g = makeRef<GVD>(map);
		for (int c : { a, b }) {
			auto o = makeRef<Obstacle>();
			o->SetShape(makeRef<PolygonShape>(std::vector<Point2d> { { c / C + 0.5, c % C + 0.5 } }));
			o->SetPose({ 0, 0, 0 });
			map->AddObstacle(o);
		}
		map->Update();
		if (late)
			g = makeRef<GVD>(map);
		g->Update();
		for (int c = 0; c < N; c++)
			got[late][c] = g->GetDistanceToNearestVoronoiEdge(c / C, c % C) == 0;
	}
	for (int c = 0; c < N; c++) {
		vp_assert(got[0][c] == got[1][c], "diagram-independent-of-order");
		if (got[0][c])
			vp_reach("edge");
	}
	vp_reach("end");
}
