// P19 (inside): which poses the search takes for the same state.
#include "vp.h"
#include "core/base.h"
#include "algo/hybrid_a_star.h"
#include "paths/path_composite.h"
#include "paths/path_constant_steer.h"
#include "models/kinematic_bicycle_model.h"
#include <cmath>
using namespace Planner;

extern "C" double vp_rng_uniform(double a, double) { return a; }
extern "C" double vp_rng_normal(double m, double) { return m; }

extern "C" void cells()
{
	static const double RES[][2] = { { 1.0, 0.0872 }, { 0.5, 0.75 }, { 4.0, 0.8 } };
	const double* r = RES[vp_pick("resolution", 3)];
	HybridAStar::SearchParameters par(2.0, 0, 1, 1, 1, 5, r[0], r[1]);
	HybridAStar::StatePropagator prop(par);
	Pose2d a, b;
	a.x() = vp_real("ax", -3, 3), a.y() = vp_real("ay", -3, 3), a.theta = vp_real("at", -3.1, 3.1);
	b.x() = vp_real("bx", -3, 3), b.y() = vp_real("by", -3, 3), b.theta = vp_real("bt", -3.1, 3.1);
	auto s = prop.CreateStateFromPose(a), t = prop.CreateStateFromPose(b);
	bool eq = HybridAStar::State::Equal()(s, t);
	const double e = vp_tol(1e-6);
	double dx = a.x() - b.x(), dy = a.y() - b.y(), dt = a.theta - b.theta;
	if (eq) {
		vp_assert((dx < r[0] + e) & (-dx < r[0] + e) & (dy < r[0] + e) & (-dy < r[0] + e), "same-state-close");
		vp_assert((dt < r[1] + e) & (-dt < r[1] + e), "same-state-heading");
		vp_reach("same");
	} else {
		vp_assert((dx != 0) | (dy != 0) | (dt != 0), "same-pose-same-state");
		vp_reach("different");
	}
}
