// P18: the heuristics of the searches.
#include "vp.h"
#include "core/base.h"
#include "algo/heuristics.h"
#include "geometry/reeds_shepp.h"
#include "state_validator/occupancy_map.h"
#include <cmath>
#include <array>
#include <vector>
using namespace Planner;

#ifndef H_R
#define H_R 4
#endif
#ifndef H_C
#define H_C 5
#endif
#ifndef H_K
#define H_K 2
#endif
#ifndef H_RES
#define H_RES 1.0
#endif
static constexpr int R = H_R, C = H_C, N = R * C;
static const double INF = 1e9;

struct World : OccupancyMap {
	bool occ[N] = {};
	World() :
		OccupancyMap(H_RES) { }
	bool IsOccupied(const GridCellPosition& c) override
	{
		bool in = c.row >= 0 && c.row < R && c.col >= 0 && c.col < C;
		vp_assert(in, "asks-inside-map");
		if (!in) vp_stop();
		return occ[c.row * C + c.col];
	}
};
struct Obst : ObstaclesHeuristic {
	using ObstaclesHeuristic::ObstaclesHeuristic;
	void Goal(const Pose2d& p) { SetGoal(p); }
};
// length of the shortest 8-connected path from every cell to the goal's, in cells
static void shortest(const bool (&occ)[N], int from, double (&d)[N])
{
	for (int i = 0; i < N; i++) d[i] = INF;
	if (from < 0) return;
	d[from] = 0;
	for (bool go = true; go;) {
		go = false;
		for (int c = 0; c < N; c++) {
			if (d[c] >= INF) continue;
			for (int dr = -1; dr <= 1; dr++)
				for (int dc = -1; dc <= 1; dc++) {
					int r = c / C + dr, q = c % C + dc;
					if ((!dr && !dc) || r < 0 || r >= R || q < 0 || q >= C || occ[r * C + q]) continue;
					if (dr && dc && occ[r * C + c % C] && occ[(c / C) * C + q]) continue;
					double v = d[c] + (dr && dc ? std::sqrt(2.0) : 1.0);
					if (v < d[r * C + q] - 1e-9) {
						d[r * C + q] = v;
						go = true;
					}
				}
		}
	}
}
static void place(World& w, int k)
{
	for (bool& b : w.occ) b = false;
	int last = -1;
	for (int i = 0; i < k; i++) {
		int c = vp_pick("cell", N);
		vp_assume(c > last);
		last = c;
		w.occ[c] = true;
	}
}

// every layout and goal cell: the value at every cell
extern "C" void cells()
{
	auto w = makeRef<World>();
	w->SetPosition({ 3, -2 });
	w->InitializeSize(R * H_RES, C * H_RES);
	place(*w, vp_pick("obstacles", H_K + 1));
	const double rev = 2.0, fwd = 0.5, mult = 0.5;
	Obst h(w, rev, fwd);
	const int g = vp_pick("goal", N);
	vp_assume(!w->occ[g]);
	auto center = [&](int c) {
		Point2d p = w->GridCellToWorldPosition(c / C, c % C);
		return Pose2d(p.x() + 0.25 * H_RES, p.y() + 0.125 * H_RES, 0.0);
	};
#ifdef H_AGAIN
	{ // an earlier search with another goal and other obstacles leaves nothing behind
		Pose2d other = center((g + 1 + vp_pick("earlier", N - 1)) % N);
		bool keep[N];
		for (int i = 0; i < N; i++) keep[i] = w->occ[i];
		if (vp_flag("cleared"))
			for (bool& b : w->occ) b = false;
		h.Goal(other);
		h.Update(other);
		for (int i = 0; i < N; i++) w->occ[i] = keep[i];
		vp_reach("again");
	}
#endif
	h.Goal(center(g));
	h.Update(center(g));
	double d[N];
	shortest(w->occ, g, d);
	for (int c = 0; c < N; c++) {
		int dr = c / C - g / C, dc = c % C - g % C;
		double straight = std::sqrt((double)(dr * dr + dc * dc)) * H_RES;
		double want = straight;
		if (d[c] < INF && d[c] * H_RES - std::sqrt(2.0) * H_RES > straight) {
			want = d[c] * H_RES - std::sqrt(2.0) * H_RES;
			vp_reach("detour");
		}
		vp_assert(vp_close(h.GetHeuristicValue(center(c)), mult * want, 1e-4), d[c] < INF ? "reachable-cell" : "blocked-cell");
		if (d[c] >= INF) vp_reach("blocked");
	}
}

// any goal and any state, inside the map or out of it
extern "C" void anywhere()
{
	auto w = makeRef<World>();
	w->SetPosition({ 3, -2 });
	w->InitializeSize(R * H_RES, C * H_RES);
	static const int LAY[][3] = { { -1, -1, -1 }, { 3, 4, -1 }, { 1, 3, 4 } }; // none, a wall with a gap, a closed corner
	const int* l = LAY[vp_pick("layout", 3)];
	for (int i = 0; i < 3; i++)
		if (l[i] >= 0) w->occ[l[i]] = true;
	static const double MULT[][2] = { { 1, 1 }, { 3, 0.5 }, { 2, 3 } };
	const double* mm = MULT[vp_pick("costs", 3)];
	const double rev = mm[0], fwd = mm[1];
	const double mult = rev < fwd ? rev : fwd;
	Obst h(w, rev, fwd);
	const Point2d o = w->GridCellToWorldPosition(0, 0);
	const double X = R * H_RES, Y = C * H_RES;
#ifdef H_SHIFT // any goal, the state displaced from it
	static const double SHIFT[][2] = { { 0, 0 }, { 0.3, -0.4 }, { -0.6, 0.8 }, { 0.75, 1.0 } };
	const double* sh = SHIFT[vp_pick("shift", 4)];
	double gx = vp_real("gx", -1, X + 1), gy = vp_real("gy", -1, Y + 1);
	double sx = gx + sh[0], sy = gy + sh[1];
#else // any state
	static const double GOAL[][2] = { { 0.2, 0.3 }, { 0.9, 1.4 }, { -0.4, 0.7 } };
	const double* go = GOAL[vp_pick("goal", 3)];
	double gx = go[0], gy = go[1];
	double sx = vp_real("sx", -1, X + 1), sy = vp_real("sy", -1, Y + 1);
#endif
	// the cells, decided here by comparison
	auto cell = [&](double x, double y) {
		int r = -1, c = -1;
		for (int i = 0; i < R; i++)
			if (x >= i * H_RES && x < (i + 1) * H_RES) r = i;
		for (int i = 0; i < C; i++)
			if (y >= i * H_RES && y < (i + 1) * H_RES) c = i;
		return r < 0 || c < 0 ? -1 : r * C + c;
	};
	const int g = cell(gx, gy), s = cell(sx, sy);
	vp_assume(g < 0 || !w->occ[g]);
	Pose2d goal(o.x() + gx, o.y() + gy, 0.0), state(o.x() + sx, o.y() + sy, 0.0);
	h.Goal(goal);
	h.Update(goal);
	double v = h.GetHeuristicValue(state) / mult;
	double e2 = (gx - sx) * (gx - sx) + (gy - sy) * (gy - sy);
	double d[N];
	shortest(w->occ, g, d);
	double lo = s >= 0 && d[s] < INF ? d[s] * H_RES - std::sqrt(2.0) * H_RES : -1.0;
	// v = max(lo, straight-line distance)
	const double t = vp_tol(1e-3);
	vp_assert(v >= -t, "not-negative");
	vp_assert(v >= lo - t, "at-least-way-round");
	vp_assert((v + t) * (v + t) >= e2, "at-least-straight-line");
	vp_assert((v <= lo + t) | ((v - t) * (v - t) <= e2) | (v <= t), "no-more-than-needed");
	vp_reach(lo > 0 ? "inside" : "outside");
}

// ------------------------------------------------ heuristic of the vehicle
struct Goalable {
	static void set(AStarHeuristic<Pose2d>& h, const Pose2d& g);
};
struct Combined : AStarCombinedHeuristic<Pose2d> {
	void Goal(const Pose2d& p) { SetGoal(p); }
};

#ifndef H_HALF
#define H_HALF 1.5
#endif
#ifndef H_SKEW
#define H_SKEW 1
#endif
#ifndef H_ARES
#define H_ARES 1.6
#endif
extern "C" void vehicle()
{
	static const double MULT[][3] = { { 1, 1, 0 }, { 3, 1, 0 }, { 2, 0.5, 1 }, { 1, 4, 0.25 } };
	const int which = vp_pick("costs", 4);
	const double* m = MULT[which];
	const double rev = m[0], fwd = m[1], sw = m[2], radius = 1.5, mult = rev < fwd ? rev : fwd;
	std::array<Pose2d, 2> bounds = { Pose2d(-H_HALF, -1.25, -M_PI), Pose2d(H_HALF, 1.25, M_PI) };
	auto h = NonHolonomicHeuristic::Build(bounds, 1.0, H_ARES, radius, rev, fwd, sw);
	Combined set;
	set.Add(h);
	static const double GOAL[][3] = { { 0, 0, 0 }, { 4, -3, 1.25 }, { -2, 5, -2.5 } };
	const double* g = GOAL[(which + H_SKEW) % 3];
	Pose2d goal(g[0], g[1], g[2]);
	set.Goal(goal);
	// the state in the frame of the goal
	double x = vp_real("x", -4, 4), y = vp_real("y", -4, 4), a = vp_real("a", -3.14, 3.14);
	// away from the borders between two entries of the table
	double c = std::cos(g[2]), s = std::sin(g[2]);
	double th = g[2] + a;
	Pose2d state(g[0] + c * x - s * y, g[1] + s * x + c * y, th);
	double v = h->GetHeuristicValue(state);
	// the entries of the table are at most half a cell away
	const int NX = (int)h->numSpatialX / 2, NY = (int)h->numSpatialY / 2;
	int i = 99, j = 99, k = -1;
	const double E = 1e-6;
	for (int q = -NX; q <= NX; q++)
		if (x > q - 0.5 + E && x < q + 0.5 - E) i = q;
	for (int q = -NY; q <= NY; q++)
		if (y > q - 0.5 + E && y < q + 0.5 - E) j = q;
	double a0 = a < 0 ? a + 2 * M_PI : a;
	const int NA = (int)std::ceil(2 * M_PI / H_ARES);
	for (int q = 0; q <= NA; q++)
		if (a0 > (q - 0.5) * H_ARES + E && a0 < (q + 0.5) * H_ARES - E) k = q % NA;
	bool far = (x > NX + 0.5 + E) | (x < -NX - 0.5 - E) | (y > NY + 0.5 + E) | (y < -NY - 0.5 - E);
	if (far) {
		vp_assert(vp_close(v * v, mult * mult * (x * x + y * y), 1e-3), "far-straight-line");
		vp_assert(v >= 0, "far-not-negative");
		vp_reach("far");
		return;
	}
	if (i == 99 || j == 99 || k < 0) return;
	Pose2d near(i, j, k * H_ARES), origin(0, 0, 0);
	auto p = ReedsShepp::Solver::GetOptimalPath(near, origin, radius, rev, fwd, sw);
	vp_assert(vp_close(v, p.ComputeCost(radius, rev, fwd, sw), 1e-4), "table-entry");
	vp_reach("near");
}

// ------------------------------------------------ combining and adapting
static int asked;
struct Part : AStarConcreteHeuristic<double> {
	double a;
	Part(double a) :
		a(a) { }
	double GetHeuristicValue(const double& s) override
	{
		asked++;
		return a + (this->m_goal - s);
	}
};
struct Twice {
	double operator()(const int& s) { return 2.0 * s; }
};
struct Combo : AStarCombinedHeuristic<double> {
	void Goal(double g) { SetGoal(g); }
};
struct Adapt : AStarHeuristicAdapter<int, double, Twice> {
	using AStarHeuristicAdapter::AStarHeuristicAdapter;
	void Goal(int g) { SetGoal(g); }
};
extern "C" void combine()
{
	auto c = makeRef<Combo>();
	const int n = 1 + vp_pick("parts", 3);
	double a[3];
	Ref<AStarHeuristic<double>> p[3];
	for (int i = 0; i < n; i++) p[i] = makeRef<Part>(a[i] = vp_real("part", -50, 50));
	if (vp_flag("together")) {
		if (n == 1) c->Add(p[0]);
		if (n == 2) c->Add(p[0], p[1]);
		if (n == 3) c->Add(p[0], p[1], p[2]);
	} else
		for (int i = 0; i < n; i++) c->Add(p[i]);
	int s = vp_int("s", -9, 9), g = vp_int("g", -9, 9);
	Adapt ad(c, Twice());
	if (vp_flag("adapted")) ad.Goal(g);
	else c->Goal(2.0 * g);
	double v = vp_flag("ask-adapted") ? ad.GetHeuristicValue(s) : c->GetHeuristicValue(2.0 * s);
	bool some = false;
	for (int i = 0; i < n; i++) {
		double w = a[i] + 2.0 * g - 2.0 * s;
		vp_assert(v >= w, "at-least-every-part");
		some |= v == w;
	}
	vp_assert(some, "one-of-the-parts");
	vp_reach("end");
}
// a heuristic given as a function
extern "C" void function()
{
	auto f = [](const double& s, const double& g) { return s * 3 - g; };
	struct F : AStarConcreteHeuristicFcn<double, decltype(f)> {
		using AStarConcreteHeuristicFcn<double, decltype(f)>::AStarConcreteHeuristicFcn;
		void Goal(double g) { this->SetGoal(g); }
	} h(f);
	double s = vp_real("s", -9, 9), g = vp_real("g", -9, 9), g2 = vp_real("g2", -9, 9);
	h.Goal(g);
	vp_assert(vp_close(h.GetHeuristicValue(s), 3 * s - g, 1e-6), "function");
	h.Goal(g2);
	vp_assert(vp_close(h.GetHeuristicValue(s), 3 * s - g2, 1e-6), "function-new-goal");
	vp_reach("end");
}
