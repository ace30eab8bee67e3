// P15 (per word): every Reeds-Shepp word that claims to reach a goal does reach it.
// Uses the solver's own decomposition, which is not public: if it is renamed this
// harness does not build and only the public harnesses decide.
#include "vp.h"
#include "geometry/reeds_shepp.cpp"
#include "paths/path_reeds_shepp.h"
using namespace Planner;

static const double TAU = 2 * M_PI;
static const double TOL = 1e-5;
static bool sameHeading(double a, double b)
{
	bool m = false;
	for (int k = -5; k <= 5; k++)
		m |= vp_close(a - b, k * TAU, TOL);
	return m;
}
#ifndef H_FIRST
#define H_FIRST 0
#define H_WORDS 48
#endif
#ifndef H_R
#define H_R 1.0
#endif

extern "C" void words()
{
	Pose2d goal, start;
	goal.x() = vp_real("x", -6, 6);
	goal.y() = vp_real("y", -6, 6);
	goal.theta = vp_real("t", -3.14, 3.14);
	int w = H_FIRST + vp_pick("word", H_WORDS);
	auto word = static_cast<ReedsShepp::PathWords>(w);
	auto goals = ReedsShepp::GetGoalArray(start, goal, H_R);
	double t = 0, u = 0, v = 0;
	double length = ReedsShepp::GetMotionLengths(word, goals, t, u, v);
	if (length == std::numeric_limits<double>::infinity()) {
		vp_reach("no-path");
		return;
	}
	if (length != length) { // not a number: never shorter than anything
		vp_reach("no-path");
		return;
	}
	auto seg = ReedsShepp::GetPath(word, t, u, v);
	for (int i = 0; i < seg.GetNumMotions(); i++)
		vp_assert(seg.GetMotion(i).length >= -vp_tol(1e-9), "motion-length");
	vp_assert(vp_close(seg.GetLength(1.0), length, TOL), "length");
	// Exact composition of the motions, independent of the library's interpolation.
	Pose2d end;
	end.x() = 0, end.y() = 0, end.theta = 0;
	for (int i = 0; i < seg.GetNumMotions(); i++) {
		auto& m = seg.GetMotion(i);
		double d = m.direction == Direction::Forward ? m.length : -m.length;
		if (m.steer == Steer::Straight) {
			end.x() += d * cos(end.theta);
			end.y() += d * sin(end.theta);
		} else if (m.steer == Steer::Left) {
			double n = end.theta + d;
			end.x() += sin(n) - sin(end.theta);
			end.y() += cos(end.theta) - cos(n);
			end.theta = n;
		} else {
			double n = end.theta - d;
			end.x() += sin(end.theta) - sin(n);
			end.y() += cos(n) - cos(end.theta);
			end.theta = n;
		}
	}
	end.x() *= H_R;
	end.y() *= H_R;
	vp_assert(vp_close(end.x(), goal.x(), TOL), "reaches-x");
	vp_assert(vp_close(end.y(), goal.y(), TOL), "reaches-y");
	vp_assert(sameHeading(end.theta, goal.theta), "reaches-heading");
	vp_reach("path");
}
