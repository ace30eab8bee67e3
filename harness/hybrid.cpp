// P19: Hybrid A*: what a search returns, for every place of the start and every
// verdict of the validator.
#include "vp.h"
#include "core/base.h"
#include "algo/hybrid_a_star.h"
#include "paths/path_constant_steer.h"
#include "paths/path_reeds_shepp.h"
#include "paths/path_composite.h"
#include "geometry/reeds_shepp.h"
#include "state_space/state_space_se2.h"
#include "state_validator/state_validator_occupancy_map.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/gvd.h"
#include <cmath>
#include <vector>
using namespace Planner;

#ifndef H_MAP
#define H_MAP 16.0
#endif
#ifndef H_RES
#define H_RES 2.0f
#endif
#ifndef H_SPATIAL
#define H_SPATIAL 4.0
#endif
#ifndef H_ANG
#define H_ANG 0.8
#endif
#ifndef H_MOTIONS
#define H_MOTIONS 3
#endif
#ifndef H_QUERIES
#define H_QUERIES 4
#endif
#ifndef H_ITER
#define H_ITER 0
#endif
static const double TAU = 2 * M_PI, TOL = 1e-5;

extern "C" double vp_rng_uniform(double a, double b) { return vp_flag("draw") ? b : a; }
extern "C" double vp_rng_normal(double m, double) { return m; }

static bool sameHeading(double a, double b, double t = TOL)
{
	bool m = false;
	for (int k = -2; k <= 2; k++) m |= vp_close(a - b, k * TAU, t);
	return m;
}
static bool samePlace(const Point2d& a, const Point2d& b, double t = TOL) { return vp_close(a.x(), b.x(), t) & vp_close(a.y(), b.y(), t); }
static bool same(const Pose2d& a, const Pose2d& b, double t = TOL) { return samePlace(a.position, b.position, t) & sameHeading(a.theta, b.theta, t); }

struct Rec {
	Pose2d init, end;
	double length; // of the approved part
};
struct Validator : StateValidatorOccupancyMap {
	std::vector<Rec> approved;
	int asked = 0;
	bool first = false; // first Reeds-Shepp path approved
	bool seenFirst = false;
	using StateValidatorOccupancyMap::StateValidatorOccupancyMap;
	bool IsStateValid(const Pose2d& s) override
	{
#ifdef H_REAL
		return StateValidatorOccupancyMap::IsStateValid(s);
#else
		return true;
#endif
	}
	bool IsPathValid(const PathSE2Base& path, float* last) override
	{
		bool ok;
		float ratio = 1;
#ifdef H_REAL
		ok = StateValidatorOccupancyMap::IsPathValid(path, &ratio);
#else
		// any verdict; a few cut-off points
		static const float CUT[] = { 0.0f, 0.5f, 0.9375f };
		bool out = false; // nothing outside the map is valid, up to the distance between two samples
		for (int i = 0; i <= 24; i++) {
			Point2d q = path.Interpolate(i / 24.0).position;
#ifdef H_BORDER
			const double in = H_MAP / 2 + (i == 0 || i == 24 ? -1e-3 : 0.04);
#else
			const double in = H_MAP / 2 - 0.25;
#endif
			out |= (q.x() < -in) | (q.x() > in) | (q.y() < -in) | (q.y() > in);
		}
		int v = out ? 1 : asked < H_QUERIES ? vp_pick("verdict", last ? 4 : 2) : 0;
		ok = v == 0;
		if (!ok) ratio = CUT[v - 1];
#ifdef H_LIMIT
		if (asked >= H_LIMIT) ok = false, ratio = 0;
#endif
#ifdef H_DEADEND
		if (asked >= H_QUERIES) ok = false, ratio = 0;
#endif
#endif
		asked++;
		if (dynamic_cast<const PathReedsShepp*>(&path) && !seenFirst) {
			seenFirst = true;
			first = ok;
		}
		if (last) *last = ratio;
		if (ok || ratio > 0) approved.push_back({ path.GetInitialState(), path.Interpolate(ok ? 1.0 : (double)ratio), path.GetLength() * (ok ? 1.0 : (double)ratio) });
		return ok;
	}
	bool Approved(const PathSE2Base& p) const
	{
		bool f = false;
		for (auto& r : approved)
			f |= same(r.init, p.GetInitialState()) & same(r.end, p.GetFinalState()) & vp_close(r.length, p.GetLength(), TOL);
		return f;
	}
};

struct Costs {
	double rev, fwd, sw, voro;
};
// what driving along these parts costs, from the paths alone
static double driven(const std::vector<Ref<PathNonHolonomicSE2Base>>& parts, const Costs& c, GVD& gvd)
{
	double sum = 0;
	Direction dir = Direction::NoMotion;
	const float diag = gvd.resolution * std::sqrt(2.0);
	for (auto& p : parts) {
		double L = p->GetLength();
		double at = 0;
		std::vector<double> ends;
		for (double r : p->GetCuspPointRatios()) ends.push_back(r);
		ends.push_back(1.0);
		for (double e : ends) {
			Direction d = p->GetDirection((at + e) / 2);
			sum += (e - at) * L * (d == Direction::Backward ? c.rev : c.fwd);
			if (dir != Direction::NoMotion && d != dir) sum += c.sw;
			dir = d;
			at = e;
		}
		if (c.voro != 0) {
			double f = 0;
			for (double l = 0; l < L; l += diag) {
				float v = 0;
				bool in = gvd.GetPathCost(p->Interpolate(l / L).position, v);
				if (in) f += v;
			}
			sum += c.voro * f * diag;
		}
	}
	return sum;
}

struct Setup {
	Ref<ObstacleListOccupancyMap> map;
	Ref<StateSpaceSE2> space;
	Ref<Validator> val;
	Setup()
	{
		space = makeRef<StateSpaceSE2>(std::array<Pose2d, 2>({ Pose2d(-H_MAP / 2, -H_MAP / 2, -M_PI), Pose2d(H_MAP / 2, H_MAP / 2, M_PI) }));
		map = makeRef<ObstacleListOccupancyMap>(H_RES);
		val = makeRef<Validator>(space, map);
#ifdef H_OBST
		static const double AT[][2] = { { -7, -7 }, { 7, 7 } };
		for (auto& a : AT) {
			auto o = makeRef<Obstacle>();
			o->SetShape(makeRef<PolygonShape>(std::vector<Point2d> { { a[0], a[1] } }));
			o->SetPose({ 0, 0, 0 });
			map->AddObstacle(o);
		}
#endif
		map->Update();
		val->minSafeRadius = 0.5f;
	}
};

// displacement of the goal in the frame of the start
static const double REL[][3] = { { 0.5, 0, 0 }, { 3, 1, 0.5 }, { -2, 0.75, -0.25 }, { 0.25, 2.5, 0 }, { 1, -1, 3.1 }, { 0, 0, 0 }, { 5.5, 0, 0 }, { 6, 1, 0.25 }, { 3, 1.5, M_PI }, { -1, 1, -M_PI / 2 } };
static const double HEAD[] = { 0.3, M_PI, -1.7, 0.0, -M_PI / 2 };
#ifndef H_NREL
#define H_NREL 10
#endif

static void judge(HybridAStar& algo, Setup& w, const Pose2d& init, const Pose2d& goal, Status st, const Costs& c, double minRadius)
{
	auto parts = algo.GetGraphSearchPath();
	auto path = algo.GetPath();
	if (w.val->first)
		vp_assert(st == Status::Success, "direct-connection-found");
	for (auto& p : algo.GetGraphSearchExploredPathSet()) {
		vp_assert(w.val->Approved(*p), "explored-approved");
		auto steer = dynamic_cast<PathConstantSteer*>(p.get());
		if (steer) {
			double t = std::tan(steer->GetSteeringAngle()), k = (t < 0 ? -t : t) / 2.6;
			vp_assert(vp_leq(k * minRadius, 1, 1e-6), "turning-radius");
		}
	}
	if (st != Status::Success) {
		vp_reach("failure");
		vp_assert(parts.empty(), "failure-no-parts");
		vp_assert(path.empty(), "failure-no-path");
		vp_assert(algo.GetGraphSearchOptimalCost() == std::numeric_limits<double>::infinity(), "failure-no-cost");
		return;
	}
	vp_reach("success");
	vp_assert(!path.empty(), "path");
	if (path.empty()) vp_stop();
	vp_assert(samePlace(path.front().position, init.position), "starts-at-start");
	vp_assert(sameHeading(path.front().theta, init.theta), "starts-with-heading");
	vp_assert(samePlace(path.back().position, goal.position, 2e-3), "ends-at-goal");
	vp_assert(sameHeading(path.back().theta, goal.theta, 1e-4), "ends-with-heading");
	if (parts.empty()) {
		vp_assert(same(init, goal, 2e-3), "no-parts-only-at-goal");
		vp_reach("at-goal");
		return;
	}
	if (parts.size() > 1) vp_reach("several-parts");
	vp_assert(same(parts.front()->GetInitialState(), init), "parts-start");
	vp_assert(same(parts.back()->GetFinalState(), goal, 2e-3), "parts-end");
	for (size_t i = 0; i < parts.size(); i++) {
		vp_assert(w.val->Approved(*parts[i]), "part-approved");
		if (i) vp_assert(same(parts[i]->GetInitialState(), parts[i - 1]->GetFinalState()), "parts-join");
	}
	GVD gvd(w.map);
	gvd.Update();
	vp_assert(vp_close(algo.GetGraphSearchOptimalCost(), driven(parts, c, gvd), 1e-3), "cost");
#if H_ITER == 0
	// the points: close to each other, and every cusp is one of them
	const double step = algo.pathInterpolation;
	for (size_t i = 1; i < path.size(); i++) {
		Point2d d = path[i].position - path[i - 1].position;
		vp_assert(vp_leq(d.x() * d.x() + d.y() * d.y(), 2.25 * step * step, 1e-3), "points-close");
	}
	double total = 0;
	for (auto& p : parts) total += p->GetLength();
	vp_assert(vp_leq(total, path.size() * 1.5 * step, 1e-3), "points-all-along");
	for (size_t k = 0; k < parts.size(); k++) {
		auto cusps = parts[k]->GetCuspPointRatios();
		if (k && parts[k]->GetDirection(0.0) != parts[k - 1]->GetDirection(1.0)) cusps.insert(0.0);
		for (double r : cusps) {
			Point2d q = parts[k]->Interpolate(r).position;
			bool found = false;
			for (auto& p : path) found |= samePlace(p.position, q);
			vp_assert(found, "cusps-kept");
			vp_reach("cusp");
		}
	}
#endif
}

static Pose2d relative(const Pose2d& p, const double* r)
{
	double c = std::cos(p.theta), s = std::sin(p.theta);
	return Pose2d(p.x() + c * r[0] - s * r[1], p.y() + s * r[0] + c * r[1], p.theta + r[2]);
}

extern "C" void search()
{
	Setup w;
	static const double COST[][4] = { { 1, 1, 0, 0 }, { 3, 1, 0.5, 0 }, { 2, 0.5, 1, 1 } };
#ifndef H_COST
#define H_COST 3
#endif
	const double* k = COST[vp_pick("costs", H_COST)];
	Costs c { k[0], k[1], k[2], k[3] };
	HybridAStar::SearchParameters par(2.0, c.sw, c.rev, c.fwd, c.voro, H_MOTIONS, H_SPATIAL, H_ANG);
	HybridAStar algo(par);
	vp_assert(algo.Initialize(w.val), "initialize");
	auto sp = algo.GetSmootherParameters();
	sp.maxIterations = H_ITER;
	algo.SetSmootherParameters(sp);
#ifdef H_STEP
	algo.pathInterpolation = H_STEP;
#endif
#ifdef H_BORDER
	double x0 = 0.3, y0 = vp_real("y", 5.2565, 5.2664);
#elif defined(H_SYM)
	double x0 = vp_real("x", -H_SYM, H_SYM), y0 = vp_real("y", -H_SYM, H_SYM);
#else
	double x0 = 0.3, y0 = -0.2;
#endif
#ifdef H_BORDER
	Pose2d init(x0, y0, 1.07);
#elif defined(H_HEAD)
	Pose2d init(x0, y0, HEAD[vp_pick("heading", H_HEAD)]);
#else
	Pose2d init(x0, y0, HEAD[0]);
#endif
	Pose2d goal = relative(init, REL[vp_pick("goal", H_NREL)]);
#ifdef H_ABOUT // goals looking backward: both ways to write the heading
	goal.theta = vp_flag("about") ? M_PI : -M_PI;
#endif
#ifdef H_TWICE
	{
		Pose2d g0 = relative(init, REL[1]);
		algo.SetInitState(init), algo.SetGoalState(g0);
		Status s0 = algo.SearchPath();
		judge(algo, w, init, g0, s0, c, 2.0);
		w.val->seenFirst = w.val->first = false;
		w.val->approved.clear();
	}
#endif
	algo.SetInitState(init), algo.SetGoalState(goal);
	Status st = algo.SearchPath();
	judge(algo, w, init, goal, st, c, 2.0);
}
// never initialized, or with no validator
extern "C" void uninitialized()
{
	HybridAStar algo;
	if (vp_flag("try")) vp_assert(!algo.Initialize(nullptr), "no-validator");
	algo.SetInitState(Pose2d(0, 0, 0)), algo.SetGoalState(Pose2d(vp_real("x", -5, 5), 1, 0));
	vp_assert(algo.SearchPath() == Status::Failure, "failure");
	vp_assert(algo.GetPath().empty(), "no-path");
	vp_reach("end");
}
