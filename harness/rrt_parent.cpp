// P17: RRT* connects a new state through the cheapest of its nearest neighbours
// that can reach it, counting what reaching those neighbours really costs.
#include "vp.h"
#include "algo/rrt_star.h"
#include "paths/path_r2.h"
#include "state_space/state_space_r2.h"
#include <cmath>
using namespace Planner;

#ifndef H_AGAIN
#define H_AGAIN 2
#endif
#ifndef H_BOX
#define H_BOX 1, 5, 1.5, 4.5
#endif
#ifndef H_PICKS
#define H_PICKS 2
#endif
struct Hsh {
	size_t operator()(const Point2d&) const { return 3; }
};
static const double table[][2] = { { 2, 0 }, { 4, 1 }, { 6, 0 }, { 6, 3 }, { 3, 4.3 }, { 0, 5 }, { -3, 3 }, // first these
	{ 3.7, 0.6 }, { 1.5, 2.5 }, { 4.9, 3.7 } };
static const int FIRST = 7, ALL = 10, MAXN = 16;

static Point2d script[MAXN];
static int nScript, step;
static Point2d node[MAXN];
static double cost[MAXN];
static bool blocked[MAXN];
static int n;

static double d2(const Point2d& a, const Point2d& b)
{
	double x = a.x() - b.x(), y = a.y() - b.y();
	return x * x + y * y;
}
static int find(const Point2d& p)
{
	for (int i = 0; i < n; i++)
		if (node[i].x() == p.x() && node[i].y() == p.y()) return i;
	return -1;
}
static bool toGoal;
// connections from the neighbours to the state sampled at this step may be blocked too
static int hideStep = -1;
static bool hidden[MAXN];
extern "C" double vp_rng_uniform(double, double)
{
	toGoal = step >= nScript;
	return toGoal ? 0.0 : 0.75;
}
extern "C" double vp_rng_normal(double, double) { return 0; }
struct Space : StateSpace<Point2d, 2, double> {
	Space(const Point2d& l, const Point2d& u) :
		StateSpace<Point2d, 2, double>(std::array<Point2d, 2>({ l, u })) { }
	void EnforceBounds(Point2d&) override { }
	bool ValidateBounds(const Point2d&) override { return true; }
	Point2d SampleUniform() override { return script[step++]; }
	Point2d SampleGaussian(const Point2d&, const Point2d&) override { return SampleUniform(); }
};
struct Validator : StateValidator<Point2d, 2, double> {
	using StateValidator<Point2d, 2, double>::StateValidator;
	bool IsStateValid(const Point2d&) override { return true; }
	bool IsPathValid(const Path<Point2d>& path, float* last = nullptr) override
	{
		bool ok = true;
		if (toGoal) {
			int i = find(path.GetInitialState());
			if (i >= 0) ok = !blocked[i];
		} else if (step - 1 == hideStep) {
			int i = find(path.GetInitialState());
			if (i >= 0) ok = !hidden[i];
		}
		if (last) *last = ok ? 1 : 0;
		return ok;
	}
};
static int neighbours(int size)
{
	int k = (int)log((double)size);
	return k < 1 ? 1 : k;
}
/// the tree that should result, every connection being free
static void grow(const Point2d& p, bool hide)
{
	if (find(p) >= 0) return;
	int k = neighbours(n);
	if (hide) {
		// the neighbours, nearest first
		bool used[MAXN] = {};
		for (int r = 0; r < k; r++) {
			int m = -1;
			for (int i = 0; i < n; i++)
				if (!used[i] && (m < 0 || d2(node[i], p) < d2(node[m], p))) m = i;
			used[m] = true;
			hidden[m] = vp_flag("hidden");
			if (r == 0 && hidden[m]) return; // not even approached
		}
	}
	bool used[MAXN] = {};
	double best = 1e18;
	for (int r = 0; r < k; r++) {
		int m = -1;
		for (int i = 0; i < n; i++)
			if (!used[i] && (m < 0 || d2(node[i], p) < d2(node[m], p))) m = i;
		used[m] = true;
		double c = cost[m] + sqrt(d2(node[m], p));
		if (c < best && !(hide && hidden[m])) best = c;
	}
	node[n] = p;
	cost[n++] = best;
}

extern "C" void parent()
{
	Point2d lb(-100, -100), ub(100, 100), init(0, 0), goal;
	node[0] = init, cost[0] = 0, n = 1;
	for (int i = 0; i < FIRST; i++) script[nScript++] = Point2d(table[i][0], table[i][1]);
	// new states, then some state again
	for (int i = 0; i < H_PICKS; i++) {
		int k = i + 1 < H_PICKS ? FIRST + vp_pick("sample", ALL - FIRST) : vp_pick("again", H_AGAIN);
		static const int again[] = { 4, 1, 5, 3, 2, 6, 0, 7, 8, 9 };
		if (i + 1 == H_PICKS) k = again[k];
		script[nScript++] = Point2d(table[k][0], table[k][1]);
	}
#ifdef H_HIDE
	hideStep = FIRST;
#endif
	for (int i = 0; i < nScript; i++) grow(script[i], i == hideStep);
	const double box[4] = { H_BOX };
	goal.x() = vp_real("gx", box[0], box[1]), goal.y() = vp_real("gy", box[2], box[3]);
	for (int i = 0; i < n; i++) {
		blocked[i] = vp_bool("blocked");
		// away from the states of the tree
		vp_assume(d2(node[i], goal) >= 0.01);
	}
	auto space = makeRef<Space>(lb, ub);
	auto validator = makeRef<Validator>(space);
	auto connection = makeRef<PathConnectionR2>();
	RRTStar<Point2d, 2, Hsh> planner(space, validator, connection);
	auto par = planner.GetParameters();
	par.maxIteration = nScript; // one attempt at the goal
	par.maxConnectionDistance = 1000;
	par.goalBias = 0.5;
	planner.SetParameters(par);
	planner.SetInitState(init);
	planner.SetGoalState(goal);
	auto status = planner.SearchPath();
	auto path = planner.GetPath();
	if (status != Status::Success) {
		vp_assert(path.empty(), "no-path-on-failure");
		// the nearest state is a neighbour itself
		for (int j = 0; j < n; j++) {
			bool nearest = true;
			for (int i = 0; i < n; i++) nearest = nearest & ((i == j) | (d2(node[j], goal) < d2(node[i], goal) - vp_tol(1e-6)));
			vp_assert(!nearest | blocked[j], "reached-if-nearest-is-free");
		}
		vp_reach("failure");
		return;
	}
	vp_assert(path.size() >= 2, "path");
	size_t last = path.size() - 2;
	int pi = find(path[last]);
	vp_assert(pi >= 0, "through-the-tree");
	double own = sqrt(d2(path[last], goal));
	double before = 0;
	for (size_t i = 0; i < last; i++) before += sqrt(d2(path[i], path[i + 1]));
	vp_assert(vp_close(before, cost[pi], 1e-6), "tree-cost");
	vp_assert(!blocked[pi], "through-a-free-connection");
	int k = neighbours(n);
	for (int j = 0; j < n; j++) {
		int closer = 0;
		for (int i = 0; i < n; i++)
			if (i != j) closer += vp_itei(d2(node[i], goal) <= d2(node[j], goal) + vp_tol(1e-6), 1, 0);
		bool candidate = (closer < k) & !blocked[j];
		if (candidate) vp_assert(vp_leq(before + own, cost[j] + sqrt(d2(node[j], goal)), 1e-6), "cheapest-neighbour");
	}
	vp_reach("success");
}
