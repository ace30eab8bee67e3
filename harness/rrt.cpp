// P17: RRT and RRT*: what a successful search returns, for every sequence of
// samples and every verdict of the validator.
#include "vp.h"
#include "algo/rrt.h"
#include "algo/rrt_star.h"
#include "paths/path_r2.h"
#include "state_space/state_space_r2.h"
using namespace Planner;

#ifndef H_ITER
#define H_ITER 3
#endif
#ifndef H_RANGE
#define H_RANGE 6
#endif
static constexpr int MAXREC = 64, MAXS = 64;

struct Hsh {
	size_t operator()(const Point2d&) const { return 3; }
};
static bool same(const Point2d& a, const Point2d& b) { return (a.x() == b.x()) & (a.y() == b.y()); }
static double d2(const Point2d& a, const Point2d& b)
{
	double x = a.x() - b.x(), y = a.y() - b.y();
	return x * x + y * y;
}

// ---- what the planner is given
static Point2d samples[MAXS];
static int nSamples, drawn; // drawn: samples and goals handed out
static Point2d lastTarget;
static Point2d goalState;

static Point2d freshPoint()
{
	Point2d p;
#ifdef H_GRID
	static const double g[][2] = { { 0, 0 }, { 4, 0 }, { 4, 3 }, { -3, 4 }, { 0, 6 }, { 1, 1 } };
	int k = vp_pick("sample", H_GRID);
	p.x() = g[k][0], p.y() = g[k][1];
#elif defined(H_PLANE)
	p.x() = vp_real("x", -H_RANGE, H_RANGE), p.y() = vp_real("y", -H_RANGE, H_RANGE);
#else
	p.x() = vp_intd("x", -H_RANGE, H_RANGE), p.y() = 0;
#endif
	return p;
}
extern "C" double vp_rng_uniform(double, double)
{
	// only used to choose between the goal and a sample
	bool g = vp_flag("goal");
	if (g) {
		drawn++;
		lastTarget = goalState;
	}
	return g ? 0.0 : 0.75;
}
extern "C" double vp_rng_normal(double, double) { return 0; }

struct Space : StateSpace<Point2d, 2, double> {
	Space(const Point2d& l, const Point2d& u) :
		StateSpace<Point2d, 2, double>(std::array<Point2d, 2>({ l, u })) { }
	void EnforceBounds(Point2d&) override { }
	bool ValidateBounds(const Point2d&) override { return true; }
	Point2d SampleUniform() override
	{
		drawn++;
		Point2d p = freshPoint();
		lastTarget = p;
		if (nSamples < MAXS) samples[nSamples++] = p;
		return p;
	}
	Point2d SampleGaussian(const Point2d&, const Point2d&) override { return SampleUniform(); }
};

struct Rec {
	Point2d from, to;
	bool ok;
	int draw;
};
static Rec rec[MAXREC];
static int nRec;
// states of the tree as far as the harness can tell: the start and the ends of approved extensions
static Point2d known[MAXREC]; // certainly
static int nKnown;
static Point2d maybe[MAXREC]; // possibly
static int nMaybe;
static double maxStep;
static bool star;

struct Validator : StateValidator<Point2d, 2, double> {
	using StateValidator<Point2d, 2, double>::StateValidator;
	bool IsStateValid(const Point2d&) override { return true; }
	bool IsPathValid(const Path<Point2d>& path, float* last = nullptr) override
	{
		bool first = nRec == 0 || rec[nRec - 1].draw != drawn;
		Point2d from = path.GetInitialState(), to = path.GetFinalState();
		if (first) {
			// extends from the state of the tree nearest to the sample, towards it, by at most a step
			bool member = false, nearest = true;
			for (int i = 0; i < nMaybe; i++) member |= same(maybe[i], from);
			for (int i = 0; i < nKnown; i++) {
				nearest &= d2(from, lastTarget) <= d2(known[i], lastTarget);
			}
			vp_assert(member, "extends-from-tree");
			vp_assert(nearest, "extends-from-nearest");
			vp_assert(vp_leq(d2(from, to), maxStep * maxStep, 1e-6), "step-length");
			if (d2(from, lastTarget) <= maxStep * maxStep) vp_assert(vp_close(to.x(), lastTarget.x(), 1e-6) & vp_close(to.y(), lastTarget.y(), 1e-6), "reaches-close-sample");
			else {
				double cross = (to.x() - from.x()) * (lastTarget.y() - from.y()) - (to.y() - from.y()) * (lastTarget.x() - from.x());
				double dot = (to.x() - from.x()) * (lastTarget.x() - from.x()) + (to.y() - from.y()) * (lastTarget.y() - from.y());
				vp_assert(vp_close(cross, 0, 1e-6) & (dot >= 0) & vp_close(d2(from, to), maxStep * maxStep, 1e-6), "full-step-towards-sample");
			}
		}
		bool ok = vp_flag("valid");
		if (nRec < MAXREC) {
			rec[nRec++] = { from, to, ok, drawn };
			if (ok) maybe[nMaybe++] = to;
			if (ok && (!star || !first)) known[nKnown++] = to;
		}
		if (last) *last = ok ? 1 : 0;
		return ok;
	}
};

template <class Planner_>
static void run()
{
	Point2d lb(-100, -100), ub(100, 100);
	auto space = makeRef<Space>(lb, ub);
	auto validator = makeRef<Validator>(space);
	auto connection = makeRef<PathConnectionR2>();
	Planner_ planner(space, validator, connection);
	auto par = planner.GetParameters();
	maxStep = 5;
	par.maxIteration = H_ITER - 1;
	par.maxConnectionDistance = maxStep;
	par.goalBias = 0.5;
#ifdef H_NODES
	par.maxNumberTreeNode = H_NODES;
#endif
	planner.SetParameters(par);
	int searches = 1;
#ifdef H_TWICE
	searches = 2;
#endif
	vp_assert(planner.GetPath().empty(), "no-path-before");
	for (int s = 0; s < searches; s++) {
		Point2d init;
		init.x() = init.y() = 0;
		if (s) init.x() = 1;
		goalState.x() = s ? -7 : 8, goalState.y() = 0;
		planner.SetInitState(init);
		planner.SetGoalState(goalState);
		drawn = nRec = nKnown = nMaybe = nSamples = 0;
		known[nKnown++] = maybe[nMaybe++] = init;
		auto status = planner.SearchPath();
		auto path = planner.GetPath();
		vp_assert(drawn <= H_ITER + 1, "stops");
		int distinct = 0;
		for (int i = 0; i < nKnown; i++) {
			bool again = false;
			for (int j = 0; j < i; j++) again |= same(known[i], known[j]);
			distinct += again ? 0 : 1;
		}
#ifdef H_NODES
		vp_assert(distinct <= H_NODES + 1, "tree-size");
#endif
		if (status == Status::Success) {
			vp_assert(!path.empty(), "path-on-success");
			vp_assert(same(path.front(), init), "starts-at-init");
			double close = star ? 0 : 1;
			vp_assert(d2(path.back(), goalState) <= close, "ends-at-goal");
			for (size_t i = 1; i < path.size(); i++) {
				bool approved = false;
				for (int k = 0; k < nRec; k++) approved |= rec[k].ok & same(rec[k].from, path[i - 1]) & same(rec[k].to, path[i]);
				vp_assert(approved, "every-edge-approved");
			}
			vp_reach("success");
			if (path.size() > 2) vp_reach("several-edges");
		} else {
			vp_assert(path.empty(), "no-path-on-failure");
#ifdef H_NODES
			vp_assert((drawn >= H_ITER - 1) | (distinct >= H_NODES), "gives-up-early");
#else
			vp_assert(drawn >= H_ITER - 1, "gives-up-early");
#endif
			vp_reach("failure");
		}
	}
}
extern "C" void rrt()
{
	star = false;
	run<RRT<Point2d, 2, Hsh>>();
}
extern "C" void rrtstar()
{
	star = true;
	run<RRTStar<Point2d, 2, Hsh>>();
}
