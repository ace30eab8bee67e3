// P20: the smoother: what stays in place, where free points go, and when its
// result counts as a path.
#include "vp.h"
#include "core/base.h"
#include "algo/smoother.h"
#include "state_space/state_space_se2.h"
#include "state_validator/state_validator_occupancy_map.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/gvd.h"
#include <cmath>
#include <limits>
#include <unordered_set>
#include <vector>
using namespace Planner;

#ifndef H_N
#define H_N 7
#endif
#ifndef H_ITER
#define H_ITER 1
#endif
static const double TOL = 1e-4;

struct Validator : StateValidatorOccupancyMap {
	using StateValidatorOccupancyMap::StateValidatorOccupancyMap;
	std::vector<Pose2d> bad;
	bool ask = false, saidNo = false;
	bool IsStateValid(const Pose2d&) override
	{
		bool ok = !ask || vp_flag("valid");
		if (!ok) saidNo = true;
		return ok;
	}
};
struct V2 {
	double x, y;
};
static V2 operator-(V2 a, V2 b) { return { a.x - b.x, a.y - b.y }; }
static double len(V2 a) { return std::sqrt(a.x * a.x + a.y * a.y); }

struct World {
	Ref<ObstacleListOccupancyMap> map;
	Ref<Validator> val;
	Ref<GVD> gvd;
	V2 obst[4];
	int n = 0;
	World(int kind)
	{
		const double half = kind == 4 ? 48 : 8; // a large map reaches beyond the field
		auto space = makeRef<StateSpaceSE2>(std::array<Pose2d, 2>({ Pose2d(-half, -half, -M_PI), Pose2d(half, half, M_PI) }));
		map = makeRef<ObstacleListOccupancyMap>(kind == 4 ? 12.0f : 2.0f);
		val = makeRef<Validator>(space, map);
		auto add = [&](double x, double y) {
			auto o = makeRef<Obstacle>();
			o->SetShape(makeRef<PolygonShape>(std::vector<Point2d> { { x, y } }));
			o->SetPose({ 0, 0, 0 });
			map->AddObstacle(o);
			n++;
		};
		if (kind >= 1 && kind <= 3) add(-5, -1);
		if (kind == 4) add(-42, -42), add(-6, -42);
		if (kind == 2) add(5, 3);
		if (kind == 3) add(5, -1);
		map->Update();
		val->minSafeRadius = 1.5f;
		gvd = makeRef<GVD>(map);
		gvd->Update();
	}
};

// shapes of paths, 0.5 apart
static const int SHAPES = 4;
static V2 shape(int s, int i)
{
	double t = 0.5 * i;
	switch (s) {
	case 0: return { t, 0 };
	case 1: return { i <= 3 ? t : 1.5 + 0.25 * (i - 3), i <= 3 ? 0 : 0.4375 * (i - 3) }; // a corner
	case 2: return { t, (i % 2) * 0.25 }; // zigzag
	case 3: return { t * 0.5, 0.0625 * i * i }; // a curve
	default: { // the same points several times
		int j = i < 3 ? i : i - 1 - (s == 5 && i > 3);
		return { 0.5 * j, (j % 2) * 0.25 };
	}
	}
}
static double kappa(V2 a, V2 b, V2 c)
{
	V2 p = b - a, q = c - b;
	return std::acos((p.x * q.x + p.y * q.y) / (len(p) * len(q))) / len(p);
}

// one iteration of gradient descent on the energy the documentation describes;
// concrete shape, any translation: only the terms of the map depend on it
struct Ref1 {
	const Smoother::Parameters& w;
	World& W;
	bool isFree[16];
	int n;
	V2 orig[16], cur[16];
	double biggest; // largest gradient of the last iteration
	void iterate()
	{
		double gx[16] = {}, gy[16] = {};
		for (int i = 2; i < n - 2; i++) {
			if (!isFree[i]) continue;
			const V2 c = cur[i];
			gx[i] += w.pathWeight * (c.x - orig[i].x);
			gy[i] += w.pathWeight * (c.y - orig[i].y);
			gx[i] += w.smoothWeight * (cur[i - 2].x - 4 * cur[i - 1].x + 6 * c.x - 4 * cur[i + 1].x + cur[i + 2].x);
			gy[i] += w.smoothWeight * (cur[i - 2].y - 4 * cur[i - 1].y + 6 * c.y - 4 * cur[i + 1].y + cur[i + 2].y);
			if (W.n > 0 && W.map->IsInsideMap(Point2d(c.x, c.y))) {
				auto cell = W.map->WorldPositionToGridCell({ c.x, c.y });
				auto oc = W.gvd->GetNearestObstacleCell(cell), vc = W.gvd->GetNearestVoronoiEdgeCell(cell);
				Point2d op = W.map->GridCellToWorldPosition(oc);
				V2 d { c.x - op.x(), c.y - op.y() };
#ifndef H_CORNER
				vp_assume(d.x * d.x + d.y * d.y > 0.0625); // the direction away from the obstacle is defined
#endif
				double dO = len(d);
#ifdef H_CORNER
				if (dO == 0) vp_reach("corner");
#endif
				const double r = W.val->minSafeRadius * (1 + w.collisionRatio);
				if (dO > 0 && dO < r) {
					gx[i] += w.collisionWeight * (dO - r) * d.x / dO;
					gy[i] += w.collisionWeight * (dO - r) * d.y / dO;
					vp_reach("pushed");
				}
				if (vc.IsValid() && w.voronoiWeight > 0) {
					Point2d vp = W.map->GridCellToWorldPosition(vc);
					V2 e { c.x - vp.x(), c.y - vp.y() };
					double dV = len(e);
					const double al = W.gvd->alpha, dm = W.gvd->dMax;
					if (dO >= dm) vp_reach("far");
					if (dO > 0 && dO < dm && dV > 0) {
						vp_reach("field");
						// potential alpha/(alpha+dO) * dV/(dO+dV) * (dO-dm)^2/dm^2
						double A = al / (al + dO), f = (dO - dm) / (dm * dm), B = dV / (dO + dV);
						double fo = A * B * f * (2 - (dO - dm) / (al + dO) - (dO - dm) / (dO + dV));
						double fv = A * f * (dO - dm) * dO / ((dO + dV) * (dO + dV));
						gx[i] += w.voronoiWeight * (fo * d.x / dO + fv * e.x / dV);
						gy[i] += w.voronoiWeight * (fo * d.y / dO + fv * e.y / dV);
					}
				}
			}
			// curvature, differentiated numerically
			V2 p[3] = { cur[i - 1] - cur[i - 1], cur[i] - cur[i - 1], cur[i + 1] - cur[i - 1] };
			if ((len(p[1]) == 0) | (len(p[2] - p[1]) == 0)) {
				vp_reach("coincide");
				continue;
			}
			double k = kappa(p[0], p[1], p[2]);
			if (k > w.maxCurvature) {
				vp_reach("curved");
				for (int j = 0; j < 3; j++)
					for (int ax = 0; ax < 2; ax++) {
						const double h = 1e-5;
						V2 a[3] = { p[0], p[1], p[2] }, b[3] = { p[0], p[1], p[2] };
						(ax ? a[j].y : a[j].x) += h;
						(ax ? b[j].y : b[j].x) -= h;
						double g = w.curvatureWeight * (k - w.maxCurvature) * (kappa(a[0], a[1], a[2]) - kappa(b[0], b[1], b[2])) / (2 * h);
						(ax ? gy : gx)[i - 1 + j] += g;
					}
			}
		}
		biggest = 0;
		for (int i = 0; i < n; i++) {
			cur[i].x -= w.learningRate * gx[i];
			cur[i].y -= w.learningRate * gy[i];
			double g = std::sqrt(gx[i] * gx[i] + gy[i] * gy[i]);
			if (g > biggest) biggest = g;
		}
	}
};

static Smoother::Parameters weights(int k)
{
	Smoother::Parameters p(0.5f);
	p.maxIterations = H_ITER;
	p.learningRate = 0.125f;
	if (k == 0) return p;
	p.pathWeight = k == 1 ? 0.5f : 0.0f;
	p.smoothWeight = k == 1 || k == 2 ? 0.5f : 0.0f;
	p.voronoiWeight = k == 3 ? 0.5f : 0.0f;
	p.collisionWeight = k == 4 ? 0.5f : 0.0f;
	p.curvatureWeight = k == 5 ? 0.0625f : 0.0f;
	return p;
}

extern "C" void descent()
{
#ifdef H_WORLD
	World w(H_WORLD);
#else
	World w(0);
#endif
	Smoother s;
#ifdef H_CURV
	const float bend = vp_real("bend", 0.125, 4);
#else
	const float bend = 0.5f;
#endif
	vp_assert(s.Initialize(w.val, w.gvd, bend), "initialize");
	vp_assert(((const Smoother&)s).GetParameters().maxCurvature == bend, "curvature-bound");
#ifdef H_WEIGHTS
	static const int WS[] = { H_WEIGHTS };
	auto par = weights(WS[vp_pick("weights", sizeof WS / sizeof *WS)]);
#else
	auto par = weights(vp_pick("weights", 6));
#endif
#ifdef H_ANYWEIGHT
	par.voronoiWeight = vp_real("field-weight", 0.0625, 2);
	par.collisionWeight = vp_real("collision-weight", 0.0625, 2);
	par.pathWeight = vp_real("path-weight", 0, 2);
	par.smoothWeight = vp_real("smooth-weight", 0, 2);
	par.curvatureWeight = vp_real("curvature-weight", 0, 2);
#endif
	par.maxCurvature = s.GetParameters().maxCurvature;
	s.SetParameters(par);
	par.maxCurvature = bend;
#ifdef H_STEPTOL
	static const float STEP[] = { 1e-3f, 0.05f, 0.3f };
	par.stepTolerance = STEP[vp_pick("tolerance", 3)];
	s.SetParameters(par);
#endif
#ifdef H_SHAPE
	static const int SH[] = { H_SHAPE };
	const int sh = SH[vp_pick("shape", sizeof SH / sizeof *SH)];
#else
	const int sh = vp_pick("shape", SHAPES);
#endif
	const int n = 5 + vp_pick("points", H_N - 4);
#ifdef H_AT
	static const double AT[][2] = { H_AT };
	const double* at = AT[vp_pick("at", sizeof AT / sizeof *AT)];
	const double x0 = at[0], y0 = at[1];
#elif defined(H_ROW)
	static const double ROW[] = { H_ROW };
	const double x0 = vp_real("x", -7, 3), y0 = ROW[vp_pick("row", sizeof ROW / sizeof *ROW)];
#else
	const double x0 = vp_real("x", -7, 3), y0 = vp_real("y", -7, 3);
#endif
	std::vector<Pose2d> path;
	std::unordered_set<int> cusps;
	bool cusp[16] = {};
	Ref1 r { par, w, {}, n };
	for (int i = 0; i < n; i++) {
		V2 p = shape(sh, i);
		Pose2d q;
		q.x() = x0 + p.x, q.y() = y0 + p.y, q.theta = vp_real("heading", -3, 3);
		path.push_back(q);
		r.orig[i] = r.cur[i] = V2 { q.x(), q.y() };
	}
#ifdef H_CUSPS
	const int nc = vp_pick("cusps", 3);
	int last = -1;
	for (int k = 0; k < nc; k++) {
		int c = vp_pick("cusp", n);
		vp_assume(c > last);
		last = c;
		cusps.insert(c);
		cusp[c] = true;
	}
	if (vp_flag("ends")) cusps.insert(0), cusps.insert(n - 1), cusp[0] = cusp[n - 1] = true;
#endif
	for (int i = 0; i < n; i++) {
		r.isFree[i] = i >= 2 && i < n - 2;
		for (int d = -2; d <= 2; d++)
			if (i + d >= 0 && i + d < n && cusp[i + d]) r.isFree[i] = false;
	}
#ifdef H_ASK
	w.val->ask = true;
#endif
	auto st = s.Smooth(path, cusps);
	auto out = s.GetPath();
	vp_assert((int)out.size() == n, "as-many-points");
	if ((int)out.size() != n) vp_stop();
	// what stays
	for (int i = 0; i < n; i++) {
		if (i == 0 || i == n - 1 || cusp[i])
			vp_assert((out[i].x() == path[i].x()) & (out[i].y() == path[i].y()), "ends-and-cusps-stay");
		vp_assert(out[i].theta == path[i].theta, "headings-stay");
	}
	if (w.val->ask) {
		vp_assert((st >= 0) == !w.val->saidNo, "valid-or-failure");
		vp_reach(st >= 0 ? "valid" : "invalid");
	} else
		vp_assert(st >= 0, "no-failure");
	// where the rest goes
	int it = 0;
	bool stopped = false;
	for (; it < H_ITER; it++) {
		r.iterate();
		if (it + 1 < H_ITER && r.biggest < par.stepTolerance) {
			stopped = true;
			break;
		}
	}
	for (int i = 0; i < n; i++)
		vp_assert(vp_close(out[i].x(), r.cur[i].x, TOL) & vp_close(out[i].y(), r.cur[i].y, TOL), "descends");
	if (!w.val->saidNo) {
		vp_assert(st == (stopped ? Smoother::StepTolerance : Smoother::MaxIteration), "status");
		vp_reach(stopped ? "settled" : "used-up");
	}
}

// fewer than 5 points, never initialized
extern "C" void degenerate()
{
	World w(0);
	Smoother s;
	const bool init = vp_flag("init");
	if (init) vp_assert(s.Initialize(w.val, w.gvd, 0.5f), "initialize");
	else if (vp_flag("try")) {
		vp_assert(!s.Initialize(nullptr, w.gvd, 0.5f), "no-validator");
		vp_assert(!s.Initialize(w.val, nullptr, 0.5f), "no-diagram");
	}
	w.val->ask = true;
	const int n = vp_pick("points", 5);
	std::vector<Pose2d> path;
	for (int i = 0; i < n; i++) {
		Pose2d q;
		q.x() = vp_real("x", -9, 9), q.y() = vp_real("y", -9, 9), q.theta = vp_real("t", -3, 3);
		path.push_back(q);
	}
	auto st = s.Smooth(path);
	if (!init) {
		vp_assert(st < 0, "not-initialized");
		vp_reach("not-initialized");
		return;
	}
	vp_assert((st >= 0) == !w.val->saidNo, "short-valid-or-failure");
	if (st >= 0) vp_assert(st == Smoother::PathSize, "short-status");
	auto out = s.GetPath();
	vp_assert((int)out.size() == n, "short-as-many");
	for (int i = 0; i < n && i < (int)out.size(); i++) vp_assert((out[i].x() == path[i].x()) & (out[i].y() == path[i].y()) & (out[i].theta == path[i].theta), "short-unchanged");
	vp_reach("short");
}
