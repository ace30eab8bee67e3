// P11: planar poses, their composition, wrapping, equality and hash.
#include "vp.h"
#include "core/base.h"
#include "geometry/2dplane.h"
#include "utils/maths.h"
using namespace Planner;

static const double TAU = 2 * M_PI;
static bool multiple(double d) // of a full turn, up to rounding
{
	bool m = false;
	for (int k = -4; k <= 4; k++)
		m |= vp_close(d, k * TAU, 1e-9);
	return m;
}
static Pose2d pose(const char* x, const char* y, const char* t)
{
	Pose2d p;
	p.x() = vp_real(x, -10, 10);
	p.y() = vp_real(y, -10, 10);
	p.theta = vp_real(t, -3.14, 3.14);
	return p;
}

extern "C" void wrap()
{
	double x = vp_real("x", -10, 10), y = vp_real("y", -10, 10), t = vp_real("theta", -20, 20);
	Pose2d p;
	p.theta = t;
	double w = p.WrapTheta();
	vp_assert((w >= -M_PI - vp_tol(1e-9)) & (w <= M_PI + vp_tol(1e-9)), "wrapped-in-range");
	vp_assert(multiple(t - w), "wrapped-same-heading");
	vp_assert(p.theta == t, "wrap-leaves-pose");
	Pose2d q(x, y, t), r({ x, y }, t);
	vp_assert((q.x() == x) & (q.y() == y) & (q.theta == w), "constructed-wrapped");
	vp_assert((r.x() == x) & (r.y() == y) & (r.theta == w), "constructed-from-point-wrapped");
	// an angle already in range is untouched
	vp_assert(!((t >= -M_PI) & (t <= M_PI)) | (w == t), "in-range-untouched");
	Pose2i i(3, -2, 17);
	vp_assert((i.theta == 17) & (i.x() == 3) & (i.y() == -2) & (i.WrapTheta() == 17), "integer-heading-untouched");
	vp_reach("end");
}

extern "C" void compose()
{
	Pose2d a = pose("ax", "ay", "at"), b = pose("bx", "by", "bt");
	Pose2d s = a + b;
	double c = cos(a.theta), sn = sin(a.theta);
	vp_assert(vp_close(s.x(), a.x() + c * b.x() - sn * b.y(), 1e-7), "sum-x");
	vp_assert(vp_close(s.y(), a.y() + sn * b.x() + c * b.y(), 1e-7), "sum-y");
	vp_assert(multiple(s.theta - a.theta - b.theta), "sum-heading");
	vp_assert((s.theta >= -M_PI - 1e-9) & (s.theta <= M_PI + 1e-9), "sum-heading-wrapped");
	vp_reach("end");
}

extern "C" void difference()
{
	Pose2d a = pose("ax", "ay", "at"), b = pose("bx", "by", "bt");
	Pose2d d = b - a;
	double c = cos(a.theta), sn = sin(a.theta);
	vp_assert(vp_close(d.x(), c * (b.x() - a.x()) + sn * (b.y() - a.y()), 1e-7), "difference-x");
	vp_assert(vp_close(d.y(), -sn * (b.x() - a.x()) + c * (b.y() - a.y()), 1e-7), "difference-y");
	vp_assert(multiple(d.theta - b.theta + a.theta), "difference-heading");
	vp_assert((d.theta >= -M_PI - 1e-9) & (d.theta <= M_PI + 1e-9), "difference-heading-wrapped");
	vp_reach("end");
}

// a + (b - a) is b: the documented meaning of the difference
extern "C" void inverse()
{
	Pose2d a = pose("ax", "ay", "at"), b = pose("bx", "by", "bt");
	Pose2d r = a + (b - a);
	vp_assert(vp_close(r.x(), b.x(), 1e-7), "inverse-x");
	vp_assert(vp_close(r.y(), b.y(), 1e-7), "inverse-y");
	vp_assert(multiple(r.theta - b.theta), "inverse-heading");
	vp_reach("end");
}

extern "C" void equality()
{
	// coordinates and headings that may coincide
	static const double V[] = { 0, 1.5, -1.5 };
	Pose2d p, q;
	p.x() = V[vp_pick("px", 3)];
	p.y() = V[vp_pick("py", 3)];
	q.x() = vp_real("qx", -2, 2);
	q.y() = vp_real("qy", -2, 2);
	p.theta = 0.5 + vp_pick("pturns", 3) * TAU;
	q.theta = vp_real("qt", -8, 8);
	bool same = (p.x() == q.x()) & (p.y() == q.y());
	bool sameHeading = false;
	for (int k = -1; k <= 1; k++)
		sameHeading |= q.theta == 0.5 + k * TAU;
	std::equal_to<Pose2d> eq;
	std::hash<Pose2d> hash;
	bool e = eq(p, q);
	if (e) {
		vp_reach("equal");
		vp_assert(same & vp_close(p.WrapTheta(), q.WrapTheta(), 1e-9), "equal-poses-coincide");
		vp_assert(hash(p) == hash(q), "equal-poses-hash-equal");
	} else {
		vp_reach("different");
		vp_assert(!(same & (p.theta == q.theta)), "identical-poses-equal");
	}
	vp_assert((p == q) == (bool)(same & (p.theta == q.theta)), "comparison");
	vp_assert((p != q) == !(p == q), "comparison-negated");
	std::equal_to<Point2d> peq;
	std::hash<Point2d> phash;
	bool pe = peq(p.position, q.position);
	vp_assert(pe == same, "points-equal");
	if (pe)
		vp_assert(phash(p.position) == phash(q.position), "equal-points-hash-equal");
}

extern "C" void modulo()
{
	double in = vp_real("in", -30, 30);
	static const double MOD[] = { 1.0, 0.75, 2 * M_PI };
	double m = MOD[vp_pick("mod", 3)];
	double r = Maths::Modulo(in, m);
	vp_assert((r >= 0) & (r <= m), "modulo-in-range"); // rounding may reach mod itself
	bool mult = false;
	for (int k = -45; k <= 45; k++)
		mult |= vp_close(in - r, k * m, 1e-9);
	vp_assert(mult, "modulo-congruent");
	vp_reach("end");
}
