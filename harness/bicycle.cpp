// P14: the kinematic bicycle model.
#include "vp.h"
#include "core/base.h"
#include "models/kinematic_bicycle_model.h"
using namespace Planner;

static const double TAU = 2 * M_PI;
static const double TOL = 1e-6;
static bool sameHeading(double a, double b)
{
	bool m = false;
	for (int k = -3; k <= 3; k++)
		m |= vp_close(a - b, k * TAU, TOL);
	return m;
}
static bool same(const Pose2d& a, const Pose2d& b) { return vp_close(a.x(), b.x(), TOL) & vp_close(a.y(), b.y(), TOL) & sameHeading(a.theta, b.theta); }
static Pose2d pose()
{
	Pose2d p;
	p.x() = vp_real("x", -10, 10);
	p.y() = vp_real("y", -10, 10);
	p.theta = vp_real("t", -3.14, 3.14);
	return p;
}
static const double STEER[] = { 0.0, 0.3, -0.3, 0.75, -1.2, 1e-4, -1e-5 };
static const double BASE[] = { 2.6, 1.0, 2.0 }, REAR[] = { 0.0, 0.5, 1.25 };

// The rear axle follows the circle of radius wheelbase / tan(steering) tangent to the
// vehicle, over the given distance; the centre is ahead of it along the heading.
extern "C" void circle()
{
	int m = vp_pick("model", 3);
	KinematicBicycleModel model(BASE[m], REAR[m]);
	double L = BASE[m], lr = REAR[m];
	double delta = STEER[vp_pick("steer", 7)];
	Pose2d from = pose();
	double d = vp_real("d", 0, 6);
	bool back = vp_flag("back");
	Pose2d to = model.ConstantSteer(from, delta, d, back ? Direction::Backward : Direction::Forward);
	double sd = back ? -d : d;
	double k = tan(delta) / L; // curvature of the rear axle
	vp_assert(vp_close(to.theta, from.theta + sd * k, TOL), "heading");
	double rx = from.x() - lr * cos(from.theta), ry = from.y() - lr * sin(from.theta);
	double half = 0.5 * sd * k;
	if (delta == 0) {
		rx = rx + sd * cos(from.theta);
		ry = ry + sd * sin(from.theta);
		vp_reach("straight");
	} else {
		double chord = 2 / k * sin(half);
		rx = rx + chord * cos(from.theta + half);
		ry = ry + chord * sin(from.theta + half);
		vp_reach("turn");
	}
	double wx = rx + lr * cos(from.theta + sd * k), wy = ry + lr * sin(from.theta + sd * k);
	vp_assert(vp_close(to.x(), wx, TOL), "x");
	vp_assert(vp_close(to.y(), wy, TOL), "y");
	if (!back) {
		vp_assert(same(to, model.ConstantSteer(from, delta, d)), "default-forward");
		Pose2d undone = model.ConstantSteer(to, delta, d, Direction::Backward);
		vp_assert(same(undone, from), "backward-undoes-forward");
		vp_reach("undone");
	}
}

// Driving d1 then d2 is driving d1 + d2.
extern "C" void chain()
{
	int m = vp_pick("model", 3);
	KinematicBicycleModel model(BASE[m], REAR[m]);
	double delta = STEER[vp_pick("steer", 5)];
	Pose2d from = pose();
	double a = vp_real("a", 0, 3), b = vp_real("b", 0, 3);
	Direction dir = vp_flag("back") ? Direction::Backward : Direction::Forward;
	Pose2d two = model.ConstantSteer(model.ConstantSteer(from, delta, a, dir), delta, b, dir);
	vp_assert(same(two, model.ConstantSteer(from, delta, a + b, dir)), "distances-add");
	vp_reach("end");
}

// The steering angle for a turning radius makes the centre turn on that radius.
extern "C" void radius()
{
	int m = vp_pick("model", 3);
	KinematicBicycleModel model(BASE[m], REAR[m]);
	double L = BASE[m], lr = REAR[m];
	double R = vp_real("R", 0.0, 20);
	double delta = model.GetSteeringAngleFromTurningRadius(R);
	if (R < lr) {
		vp_assert(vp_close(delta, M_PI_2, TOL), "too-tight");
		vp_reach("too-tight");
		return;
	}
	vp_assume(R >= lr + 0.125);
	vp_assert((delta > 0) & (delta <= M_PI_2), "steering-range");
	double c = cos(delta), s = sin(delta);
	// tan(delta) = L / sqrt(R^2 - lr^2)
	vp_assert(vp_close(s * s * (R * R - lr * lr), c * c * L * L, 1e-4), "turning-radius");
	vp_reach("end");
}

// Concrete radii: a quarter turn moves the centre around a point at that distance.
extern "C" void turns()
{
	static const double RAD[] = { 1.5, 2.0, 5.0, 10.0 };
	int m = vp_pick("model", 3);
	KinematicBicycleModel model(BASE[m], REAR[m]);
	double R = RAD[vp_pick("R", 4)];
	double delta = model.GetSteeringAngleFromTurningRadius(R);
	double rr = sqrt(R * R - REAR[m] * REAR[m]);
	Pose2d from;
	from.x() = vp_real("x", -10, 10);
	from.y() = vp_real("y", -10, 10);
	from.theta = vp_real("t", -3.14, 3.14);
	double d = vp_real("d", 0, 4);
	Pose2d to = model.ConstantSteer(from, delta, d, Direction::Forward);
	// centre of the turn, seen from the rear axle, on the left
	double cx = from.x() - REAR[m] * cos(from.theta) - rr * sin(from.theta), cy = from.y() - REAR[m] * sin(from.theta) + rr * cos(from.theta);
	double ex = to.x() - cx, ey = to.y() - cy;
	vp_assert(vp_close(ex * ex + ey * ey, R * R, 1e-4), "on-the-circle");
	vp_reach("end");
}
