// P13: composite paths behave as one path: the concatenation of their parts.
#include "vp.h"
#include "core/base.h"
#include "paths/path_r2.h"
#include "paths/path_constant_steer.h"
#include "paths/path_reeds_shepp.h"
#include "paths/path_composite.h"
#include "models/kinematic_bicycle_model.h"
using namespace Planner;

static const double TAU = 2 * M_PI;
static const double TOL = 1e-6;
static bool sameHeading(double a, double b)
{
	bool m = false;
	for (int k = -3; k <= 3; k++)
		m |= vp_close(a - b, k * TAU, TOL);
	return m;
}
static bool same(const Point2d& a, const Point2d& b) { return vp_close(a.x(), b.x(), TOL) & vp_close(a.y(), b.y(), TOL); }
static bool same(const Pose2d& a, const Pose2d& b) { return same(a.position, b.position) & sameHeading(a.theta, b.theta); }
#ifndef H_NP
#define H_NP 3
#endif
static const double RATIOS[] = { 0.5, 0.25, 0.75, 1.0, 0.0, 0.375 };
#ifndef H_NR
#define H_NR 4
#endif

// The parts, kept as copies: truncation may shorten the caller's part.
template <typename State, typename P>
struct Parts {
	std::vector<Ref<P>> p;
	std::vector<double> len;
	double total = 0;
	void add(const Ref<P>& q)
	{
		p.push_back(q);
		len.push_back(q->GetLength());
		total += q->GetLength();
	}
	// part and ratio in it of a distance along the whole
	std::pair<int, double> find(double d) const
	{
		for (size_t i = 0; i < p.size(); i++) {
			if (d < len[i] || i + 1 == p.size())
				return { (int)i, len[i] == 0 ? 0.0 : d / len[i] };
			d = d - len[i];
		}
		return { 0, 0.0 };
	}
	State at(double d) const
	{
		auto f = find(d);
		return p[f.first]->Interpolate(f.second);
	}
	bool junction(double d) const
	{
		double l = 0;
		bool j = false;
		for (double x : len) {
			l += x;
			j |= vp_close(d, l, TOL);
		}
		return j;
	}
};

extern "C" void lines()
{
	// any polyline of axis-parallel pieces with concrete lengths from any point
	static const double DX[] = { 1, 0, -2, 0 }, DY[] = { 0, 0.5, 0, 0 };
	Point2d at(vp_real("x", -10, 10), vp_real("y", -10, 10)), start = at;
	PathComposite<Point2d> path;
	Parts<Point2d, PathR2> parts;
	vp_assert(path.Size() == 0, "empty");
	path.Truncate(0.5);
	vp_assert((path.Size() == 0) & (path.GetLength() == 0), "empty-truncated");
	int n = 1 + vp_pick("n", H_NP);
	path.Reserve(n);
	for (int i = 0; i < n; i++) {
		int k = vp_pick("piece", 4);
		Point2d to(at.x() + DX[k], at.y() + DY[k]);
		path.PushBack(makeRef<PathR2>(at, to));
		parts.add(makeRef<PathR2>(at, to));
		at = to;
		vp_assert(path.Size() == (size_t)(i + 1), "size");
		vp_assert(same(path.GetFinalState(), at), "final");
	}
	vp_assert(same(path.GetInitialState(), start), "initial");
	vp_assert(vp_close(path.GetLength(), parts.total, TOL), "length");
	vp_assert(same(path.Interpolate(1.0), at), "interpolates-end");
	vp_assert(same(path.Interpolate(0.0), start), "interpolates-start");
	double s = vp_real("s", 0, 1);
	vp_assume(s < 1);
	vp_assert(same(path.Interpolate(s), parts.at(s * parts.total)), "interpolates");
	double r = RATIOS[vp_pick("r", H_NR)];
	path.Truncate(r);
	Point2d end = parts.at(r * parts.total);
	vp_assert(same(path.GetInitialState(), start), "truncate-keeps-initial");
	vp_assert(same(path.GetFinalState(), end), "truncate-final");
	vp_assert(vp_close(path.GetLength(), r * parts.total, TOL), "truncate-length");
	vp_assert(same(path.Interpolate(1.0), end), "truncated-ends");
	vp_assert(same(path.Interpolate(s), parts.at(s * r * parts.total)), "truncate-prefix");
	vp_reach("truncated");
	// extended again from where it was cut
	Point2d to(end.x() + 1, end.y());
	path.PushBack(makeRef<PathR2>(end, to));
	double L = r * parts.total + 1;
	vp_assert(vp_close(path.GetLength(), L, TOL), "extended-length");
	vp_assert(same(path.GetFinalState(), to), "extended-final");
	double d = s * L;
	Point2d want;
	if (d < r * parts.total)
		want = parts.at(d);
	else
		want = Point2d(end.x() + d - r * parts.total, end.y());
	vp_assert(same(path.Interpolate(s), want), "extended-interpolates");
	vp_reach("extended");
}

// vehicle paths: arcs, straight lines and paths with a change of direction inside
struct Piece {
	double len;
	Direction dir;
};
extern "C" void vehicle()
{
	auto model = makeRef<KinematicBicycleModel>(2.0, 0.0);
	Pose2d at;
	at.x() = vp_real("x", -10, 10);
	at.y() = vp_real("y", -10, 10);
	at.theta = 0.5;
	Pose2d start = at;
	PathSE2CompositeNonHolonomic path;
	Parts<Pose2d, PathNonHolonomicSE2Base> parts;
	std::vector<Piece> pieces;
	int n = 1 + vp_pick("n", H_NP);
	for (int i = 0; i < n; i++) {
		int k = vp_pick("part", 4);
		Ref<PathNonHolonomicSE2Base> a, b;
		auto F = Direction::Forward, B = Direction::Backward;
		if (k == 3) { // forth and back: turn left, reverse to the right
			ReedsShepp::PathSegment seg;
			seg.AddMotion(Steer::Left, F, 0.5);
			seg.AddMotion(Steer::Right, B, 1.0);
			a = makeRef<PathReedsShepp>(at, seg, 1.0);
			b = makeRef<PathReedsShepp>(at, seg, 1.0);
			pieces.push_back({ 0.5, F });
			pieces.push_back({ 1.0, B });
		} else {
			double steer = k == 2 ? 0.5 : 0, len = k == 0 ? 1.0 : 0.5;
			Direction dir = k == 1 ? B : F;
			a = makeRef<PathConstantSteer>(model, at, steer, len, dir);
			b = makeRef<PathConstantSteer>(model, at, steer, len, dir);
			pieces.push_back({ len, dir });
		}
		path.PushBack(a);
		parts.add(b);
		at = b->GetFinalState();
	}
	double r = 1;
	vp_assert(same(path.GetInitialState(), start) & same(path.GetFinalState(), at), "ends");
	if (vp_flag("cut")) {
		r = RATIOS[vp_pick("r", 3)];
		path.Truncate(r);
		vp_assert(same(path.GetFinalState(), parts.at(r * parts.total)), "truncate-final");
		vp_reach("truncated");
	}
	double L = r * parts.total;
	vp_assert(vp_close(path.GetLength(), L, TOL), "length");
	double s = vp_real("s", 0, 1);
	vp_assume(s < 1);
	vp_assert(same(path.Interpolate(s), parts.at(s * L)), "interpolates");
	vp_assert(same(path.Interpolate(1.0), path.GetFinalState()), "interpolates-end");
	// direction of motion
	{
		double d = s * L, l = 0;
		Direction got = path.GetDirection(s), want = pieces.back().dir;
		bool edge = false, found = false;
		for (auto& p : pieces) {
			if (!found && d < l + p.len) {
				want = p.dir;
				found = true;
			}
			l += p.len;
			edge |= vp_close(d, l, TOL);
		}
		vp_assert((got == want) | edge, "direction");
		vp_assert(path.GetDirection(0.0) == pieces[0].dir, "direction-start");
		Direction last = pieces[0].dir;
		l = 0;
		bool sure = true;
		for (auto& p : pieces) {
			if (l < L - 1e-9)
				last = p.dir;
			l += p.len;
			sure &= !(vp_close(l, L, 1e-6) && r < 1);
		}
		if (sure)
			vp_assert(path.GetDirection(1.0) == last, "direction-end");
	}
	// cusps: exactly where the direction changes
	{
		auto got = path.GetCuspPointRatios();
		double l = 0;
		int want = 0, either = 0;
		for (size_t i = 0; i + 1 < pieces.size(); i++) {
			l += pieces[i].len;
			if (pieces[i].dir == pieces[i + 1].dir)
				continue;
			bool border = vp_close(l, L, TOL), before = (l < L) & !border, found = false;
			for (double g : got)
				found |= vp_close(g * L, l, TOL);
			want += before;
			either += border & found;
			vp_assert(!before | found, "cusp-missing");
			if (before)
				vp_reach("cusp");
		}
		vp_assert((int)got.size() == want + either, "cusp-invented");
	}
	vp_reach("end");
}
