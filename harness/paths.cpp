// P12: paths interpolate between their end states and truncation keeps a prefix.
#include "vp.h"
#include "core/base.h"
#include "paths/path_r2.h"
#include "paths/path_se2.h"
#include "paths/path_constant_steer.h"
#include "paths/path_reeds_shepp.h"
#include "models/kinematic_bicycle_model.h"
using namespace Planner;

static const double TAU = 2 * M_PI;
static const double TOL = 1e-6;
static bool sameHeading(double a, double b)
{
	bool m = false;
	for (int k = -3; k <= 3; k++)
		m |= vp_close(a - b, k * TAU, TOL);
	return m;
}
static bool same(const Point2d& a, const Point2d& b) { return vp_close(a.x(), b.x(), TOL) & vp_close(a.y(), b.y(), TOL); }
static bool same(const Pose2d& a, const Pose2d& b) { return same(a.position, b.position) & sameHeading(a.theta, b.theta); }

static Pose2d pose(const char* x, const char* y, const char* t)
{
	Pose2d p;
	p.x() = vp_real(x, -10, 10);
	p.y() = vp_real(y, -10, 10);
	p.theta = vp_real(t, -3.14, 3.14);
	return p;
}
static const double RATIOS[] = { 0.5, 1.0, 0.25, 0.0, 0.75 };
#ifndef H_NR
#define H_NR 4
#endif

// Truncation of any path: prefix kept, twice.
template <typename P>
static void truncation(P& path, const P& original, double s)
{
	double r = RATIOS[vp_pick("r", H_NR)];
	double length = original.GetLength();
	path.Truncate(r);
	vp_assert(same(path.GetInitialState(), original.GetInitialState()), "truncate-keeps-initial");
	vp_assert(same(path.GetFinalState(), original.Interpolate(r)), "truncate-final");
	vp_assert(vp_close(path.GetLength(), r * length, TOL), "truncate-length");
	vp_assert(same(path.Interpolate(s), original.Interpolate(r * s)), "truncate-prefix");
	vp_assert(same(path.Interpolate(1.0), path.GetFinalState()), "truncated-ends");
	vp_assert(same(path.Interpolate(0.0), path.GetInitialState()), "truncated-starts");
	path.Truncate(0.5);
	vp_assert(same(path.GetFinalState(), original.Interpolate(r * 0.5)), "truncate-twice-final");
	vp_assert(vp_close(path.GetLength(), r * 0.5 * length, TOL), "truncate-twice-length");
	vp_reach("truncated");
}

extern "C" void line()
{
	Point2d from(vp_real("fx", -10, 10), vp_real("fy", -10, 10)), to(vp_real("tx", -10, 10), vp_real("ty", -10, 10));
	double s = vp_real("s", 0, 1);
	Ref<PathR2Base> c = PathConnectionR2().Connect(from, to);
	PathR2 path(from, to);
	vp_assert((c->GetInitialState() == from) & (c->GetFinalState() == to), "connects");
	vp_assert((path.GetInitialState() == from) & (path.GetFinalState() == to), "ends");
	double dx = to.x() - from.x(), dy = to.y() - from.y();
	double l = path.GetLength();
	vp_assert((l >= 0) & vp_close(l * l, dx * dx + dy * dy, TOL), "length");
	vp_assert(vp_close(c->GetLength(), l, TOL), "connected-length");
	Point2d p = path.Interpolate(s), q = c->Interpolate(s);
	vp_assert(vp_close(p.x(), from.x() + s * dx, TOL) & vp_close(p.y(), from.y() + s * dy, TOL), "on-the-line");
	vp_assert(same(p, q), "connected-interpolates");
	vp_assert(same(path.Interpolate(0.0), from) & same(path.Interpolate(1.0), to), "interpolates-ends");
	std::vector<double> ratios = { 1.0, s, 0.0, 0.5 };
	auto states = c->Interpolate(ratios);
	vp_assert(states.size() == 4, "batch-size");
	for (int i = 0; i < 4; i++)
		vp_assert(same(states[i], c->Interpolate(ratios[i])), "batch");
	PathR2 original = path;
	truncation(path, original, s);
}

extern "C" void pose_line()
{
	Pose2d from = pose("fx", "fy", "ft"), to = pose("tx", "ty", "tt");
	double s = vp_real("s", 0, 1);
	Ref<PathSE2Base> c = PathConnectionSE2().Connect(from, to);
	PathSE2 path(from, to);
	vp_assert((c->GetInitialState() == from) & (c->GetFinalState() == to), "connects");
	double dx = to.x() - from.x(), dy = to.y() - from.y();
	double l = path.GetLength();
	vp_assert((l >= 0) & vp_close(l * l, dx * dx + dy * dy, TOL), "length");
	Pose2d p = path.Interpolate(s);
	vp_assert(vp_close(p.x(), from.x() + s * dx, TOL) & vp_close(p.y(), from.y() + s * dy, TOL), "on-the-line");
	vp_assert(same(c->Interpolate(s), p), "connected-interpolates");
	vp_assert(same(path.Interpolate(0.0), from) & same(path.Interpolate(1.0), to), "interpolates-ends");
	// the heading never leaves the range between the two end headings, nor jumps
	double lo = vp_min(from.theta, to.theta), hi = vp_max(from.theta, to.theta);
	double q = vp_real("s2", 0, 1);
	double dh = path.Interpolate(q).theta - p.theta;
	vp_assume(q - s <= 0.001);
	vp_assume(s - q <= 0.001);
	vp_assert((dh <= 0.01) & (dh >= -0.01), "heading-continuous");
	(void)lo;
	(void)hi;
	PathSE2 original = path;
	truncation(path, original, s);
}

static const double STEER[] = { 0.0, 0.5, -0.75 };
static const double BASE[] = { 2.0, 2.5, 1.0 }, REAR[] = { 0.0, 1.0, 0.5 };
extern "C" void arc()
{
	int m = vp_pick("model", 3);
	auto model = makeRef<KinematicBicycleModel>(BASE[m], REAR[m]);
	Pose2d init = pose("x", "y", "t");
	double s = vp_real("s", 0, 1);
	double steer = STEER[vp_pick("steer", 3)], length = vp_flag("long") ? 4.0 : 0.5;
	Direction dir = vp_flag("back") ? Direction::Backward : Direction::Forward;
	PathConstantSteer path(model, init, steer, length, dir);
	vp_assert(path.GetInitialState() == init, "starts");
	vp_assert(vp_close(path.GetLength(), length, TOL) & (path.GetSteeringAngle() == steer), "length");
	vp_assert(same(path.Interpolate(0.0), init), "interpolates-start");
	vp_assert(same(path.Interpolate(1.0), path.GetFinalState()), "interpolates-end");
	vp_assert(same(path.GetFinalState(), model->ConstantSteer(init, steer, length, dir)), "ends-where-the-model-does");
	vp_assert(same(path.Interpolate(s), model->ConstantSteer(init, steer, length * s, dir)), "follows-the-model");
	vp_assert((path.GetDirection(s) == dir) & (path.GetDirection(1.0) == dir) & (path.GetDirection(0.0) == dir), "direction");
	vp_assert(path.GetCuspPointRatios().empty(), "no-cusp");
	PathConstantSteer original = path;
	truncation(path, original, s);
	vp_assert(path.GetDirection(s) == dir, "truncated-direction");
}

// Reeds-Shepp paths from any sequence of motions.
#ifndef H_NM
#define H_NM 3
#endif
static const double LEN[] = { 1.0, 0.5, 2.0, 0.25 };
struct Oracle {
	int n;
	Steer steer[5];
	Direction dir[5];
	double len[5];
	double R, total;
	Pose2d at(const Pose2d& init, double s) const // chords of the successive arcs
	{
		Pose2d p = init;
		double d = s * total;
		for (int i = 0; i < n; i++) {
			double l = len[i] * R;
			if (l == 0)
				continue;
			if (d <= l)
				l = d;
			double sl = dir[i] == Direction::Backward ? -l : l;
			if (steer[i] == Steer::Straight) {
				p.x() = p.x() + sl * cos(p.theta);
				p.y() = p.y() + sl * sin(p.theta);
			} else {
				double half = 0.5 * sl / R, turn = steer[i] == Steer::Left ? half : -half;
				double chord = 2 * R * sin(half);
				p.x() = p.x() + chord * cos(p.theta + turn);
				p.y() = p.y() + chord * sin(p.theta + turn);
				p.theta = p.theta + 2 * turn;
			}
			d = d - len[i] * R;
			if (d <= 0)
				break;
		}
		return p;
	}
	// motion at ratio s, from below or above
	Direction direction(double s) const
	{
		double d = s * total;
		for (int i = 0; i < n; i++) {
			if (d < len[i] * R)
				return dir[i];
			d = d - len[i] * R;
		}
		return last();
	}
	// a motion of zero length is no motion
	Direction last() const
	{
		for (int i = n - 1; i >= 0; i--)
			if (len[i] > 0) return dir[i];
		return Direction::NoMotion;
	}
	Direction first() const
	{
		for (int i = 0; i < n; i++)
			if (len[i] > 0) return dir[i];
		return Direction::NoMotion;
	}
	bool junction(double s) const
	{
		double d = 0;
		bool j = false;
		for (int i = 0; i < n; i++) {
			d += len[i] * R;
			j |= vp_close(s * total, d, TOL);
		}
		return j;
	}
};
static void cusps(const std::set<double>& got, const Oracle& o, double r)
{
	double d = 0;
	int want = 0, either = 0;
	Direction prev = Direction::NoMotion;
	for (int i = 0; i < o.n; i++) {
		if (o.len[i] == 0)
			continue;
		double at = d / o.total;
		d += o.len[i] * o.R;
		bool change = prev != Direction::NoMotion && o.dir[i] != prev;
		prev = o.dir[i];
		if (!change)
			continue;
		bool border = vp_close(at, r, TOL), before = (at < r) & !border, found = false;
		for (double g : got)
			found |= vp_close(g * r, at, TOL);
		want += before;
		either += border & found;
		vp_assert(!before | found, "cusp-missing");
	}
	vp_assert((int)got.size() == want + either, "cusp-invented");
}
extern "C" void motions()
{
	Pose2d init = pose("x", "y", "t");
	Oracle o;
	o.n = 1 + vp_pick("n", H_NM);
#ifdef H_RADIUS
	o.R = H_RADIUS;
#else
	o.R = vp_flag("radius") ? 2.0 : 1.0;
#endif
	o.total = 0;
	ReedsShepp::PathSegment seg;
	vp_assert(seg.GetNumMotions() == 0, "empty");
#ifdef H_ZERO
	const int zero = vp_pick("zero", o.n);
#endif
	for (int i = 0; i < o.n; i++) {
#ifdef H_ZERO
		int k = vp_pick("steer", 2);
#else
		int k = vp_pick("steer", 3);
#endif
		o.steer[i] = k == 0 ? Steer::Left : k == 1 ? Steer::Straight : Steer::Right;
		o.dir[i] = vp_flag("back") ? Direction::Backward : Direction::Forward;
#ifdef H_FIXLEN
		o.len[i] = LEN[i % 3];
#elif defined(H_ZERO)
		o.len[i] = i == zero ? 0.0 : LEN[i % 3];
#else
		o.len[i] = LEN[vp_pick("len", 3)];
#endif
		o.total += o.len[i] * o.R;
		seg.AddMotion(o.steer[i], o.dir[i], o.len[i]);
		vp_assert(seg.GetNumMotions() == i + 1, "motion-added");
		vp_assert((seg.GetMotion(i).steer == o.steer[i]) & (seg.GetMotion(i).direction == o.dir[i]) & (seg.GetMotion(i).length == o.len[i]), "motion-stored");
	}
	vp_assert(vp_close(seg.GetLength(o.R), o.total, TOL), "segment-length");
#ifdef H_ZERO
	vp_reach("zero-length");
#endif
	PathReedsShepp path(init, seg, o.R);
	double s = vp_real("s", 0, 1);
	vp_assert(path.GetInitialState() == init, "starts");
	vp_assert(vp_close(path.GetLength(), o.total, TOL) & (path.GetMinTurningRadius() == o.R), "length");
	vp_assert(same(path.Interpolate(0.0), init), "interpolates-start");
	vp_assert(same(path.GetFinalState(), o.at(init, 1.0)), "ends");
	vp_assert(same(path.Interpolate(1.0), path.GetFinalState()), "interpolates-end");
	bool early = vp_flag("early");
	if (early) {
		vp_assert(same(path.Interpolate(s), o.at(init, s)), "follows-the-motions");
		Direction d = path.GetDirection(s);
		vp_assert((d == o.direction(s)) | (bool)o.junction(s), "direction");
		vp_assert(path.GetDirection(0.0) == o.first(), "direction-start");
		vp_assert(path.GetDirection(1.0) == o.last(), "direction-end");
		cusps(path.GetCuspPointRatios(), o, 1.0);
		vp_reach("whole");
		return;
	}
	double r = RATIOS[vp_pick("r", H_NR)];
	PathReedsShepp original = path;
	path.Truncate(r);
	vp_assert(path.GetInitialState() == init, "truncate-keeps-initial");
	vp_assert(vp_close(path.GetLength(), r * o.total, TOL), "truncate-length");
	vp_assert(same(path.GetFinalState(), o.at(init, r)), "truncate-final");
	vp_assert(same(path.Interpolate(1.0), path.GetFinalState()), "truncated-ends");
	Pose2d pr = path.Interpolate(s), op = o.at(init, r * s);
	vp_assert(sameHeading(pr.theta, op.theta), "truncate-prefix-heading");
	vp_assert(same(pr.position, op.position), "truncate-prefix");
	if (r > 0) {
		Direction d = path.GetDirection(s);
		vp_assert((d == o.direction(r * s)) | (bool)o.junction(r * s), "truncated-direction");
		cusps(path.GetCuspPointRatios(), o, r);
	}
	path.Truncate(0.5);
	vp_assert(same(path.GetFinalState(), o.at(init, r * 0.5)), "truncate-twice-final");
	vp_assert(vp_close(path.GetLength(), r * 0.5 * o.total, TOL), "truncate-twice-length");
	vp_reach("truncated");
}

// Lengths on which rounding accumulates: the direction is defined up to the end.
extern "C" void rounding()
{
	static const double L[] = { 0.1, 0.7, 1.3, 0.3 };
	static const double RR[] = { 0.1, 0.3, 0.7, 3.3 };
	ReedsShepp::PathSegment seg;
	int n = 1 + vp_pick("n", 4);
	Direction last = Direction::NoMotion;
	for (int i = 0; i < n; i++) {
		last = i % 2 ? Direction::Backward : Direction::Forward;
		seg.AddMotion(Steer::Left, last, L[vp_pick("len", 4)]);
	}
	PathReedsShepp path(Pose2d(0, 0, 0), seg, RR[vp_pick("radius", 4)]);
	vp_assert(path.GetDirection(1.0) == last, "direction-end");
	vp_assert(path.GetDirection(0.0) == Direction::Forward, "direction-start");
	vp_assert((int)path.GetCuspPointRatios().size() == n - 1, "cusps");
	vp_assert(same(path.Interpolate(1.0), path.GetFinalState()), "interpolates-end");
	vp_reach("end");
}
