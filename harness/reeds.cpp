// P15 (public interface): Reeds-Shepp connections reach the goal, their length and
// cost are what the motions say and no candidate is cheaper.
#include "vp.h"
#include "geometry/reeds_shepp.h"
#include "paths/path_reeds_shepp.h"
#include <cmath>
using namespace Planner;

static const double PI = M_PI, TAU = 2 * M_PI;
static const double TOL = 1e-5;

// ------------------------------------------------ reference, from the 1990 paper
// A candidate is a list of signed arc lengths (unit radius); steering does not
// matter for lengths and costs.
struct Cand {
	int n;
	double l[5];
	double length() const
	{
		double s = 0;
		for (int i = 0; i < n; i++) s += fabs(l[i]);
		return s;
	}
};
static const int MAXC = 80;
struct Cands {
	Cand c[MAXC];
	int n = 0;
	void add(int flip, int k, double a, double b, double d, double e = 0, double f = 0)
	{
		if (n >= MAXC) return;
		Cand& q = c[n++];
		q.n = k;
		double v[5] = { a, b, d, e, f };
		for (int i = 0; i < 5; i++) q.l[i] = flip ? -v[i] : v[i];
	}
};
static double m2(double x)
{
	double v = fmod(x, TAU);
	if (v < -PI) v += TAU;
	else if (v > PI) v -= TAU;
	return v;
}
static void tauOmega(double u, double v, double xi, double eta, double phi, double& tau, double& omega)
{
	double d = m2(u - v), A = sin(u) - sin(d), B = cos(u) - cos(d) - 1;
	double t1 = atan2(eta * A - xi * B, xi * A + eta * B), t2 = 2 * (cos(d) - cos(v) - cos(u)) + 3;
	tau = t2 < 0 ? m2(t1 + PI) : m2(t1);
	omega = m2(tau - u + v - phi);
}
static void base(Cands& C, int flip, double x, double y, double phi)
{
	double s = sin(phi), c = cos(phi), t, u, v, r, th;
	const double H = PI / 2;
	{ // same circle side: centres apart by (x - sin, y - 1 + cos)
		double xi = x - s, eta = y - 1 + c;
		r = sqrt(xi * xi + eta * eta), th = atan2(eta, xi);
		t = th, u = r, v = m2(phi - t);
		if (t >= 0 && v >= 0) C.add(flip, 3, t, u, v); // L+S+L+
		if (r <= 4) {
			u = -2 * asin(0.25 * r), t = m2(th + 0.5 * u + PI), v = m2(phi - t + u);
			if (t >= 0 && u <= 0) C.add(flip, 3, t, u, v); // L+R-L+ or L+R-L-
		}
		if (r >= 2) {
			double q = sqrt(r * r - 4);
			u = 2 - q, t = m2(th + atan2(q, -2.0)), v = m2(phi - H - t);
			if (t >= 0 && u <= 0 && v <= 0) C.add(flip, 4, t, -H, u, v); // L+R-S-L-
		}
	}
	{ // opposite side
		double xi = x + s, eta = y - 1 - c;
		r = sqrt(xi * xi + eta * eta), th = atan2(eta, xi);
		if (r >= 2) {
			u = sqrt(r * r - 4), t = m2(th + atan2(2.0, u)), v = m2(t - phi);
			if (t >= 0 && v >= 0) C.add(flip, 3, t, u, v); // L+S+R+
			t = atan2(xi, -eta), u = 2 - r, v = m2(t + H - phi);
			if (t >= 0 && u <= 0 && v <= 0) C.add(flip, 4, t, -H, u, v); // L+R-S-R-
			u = 4 - sqrt(r * r - 4);
			if (u <= 0) {
				t = m2(atan2((4 - u) * xi - 2 * eta, -2 * xi + (u - 4) * eta)), v = m2(t - phi);
				if (t >= 0 && v >= 0) C.add(flip, 5, t, -H, u, -H, v); // L+R-S-L-R+
			}
		}
		double rho = 0.25 * (2 + r);
		if (rho <= 1) {
			u = acos(rho);
			tauOmega(u, -u, xi, eta, phi, t, v);
			if (t >= 0 && v <= 0) C.add(flip, 4, t, u, -u, v); // L+R+L-R-
		}
		rho = (20 - xi * xi - eta * eta) / 16;
		if (rho >= 0 && rho <= 1) {
			u = -acos(rho);
			if (u >= -H) {
				tauOmega(u, u, xi, eta, phi, t, v);
				if (t >= 0 && v >= 0) C.add(flip, 4, t, u, u, v); // L+R-L-R+
			}
		}
	}
}
static void reference(Cands& C, double x, double y, double phi)
{
	double xb = x * cos(phi) + y * sin(phi), yb = x * sin(phi) - y * cos(phi);
	for (int b = 0; b < 2; b++) {
		double X = b ? xb : x, Y = b ? yb : y;
		base(C, 0, X, Y, phi);
		base(C, 1, -X, Y, -phi);
		base(C, 0, X, -Y, -phi);
		base(C, 1, -X, -Y, phi);
	}
}

// ------------------------------------------------ goals (unit radius, start at the origin)
#ifndef H_NX
#define H_NX 4
#define H_NY 3
#define H_NT 4
#endif
#ifndef H_SCALE
#define H_SCALE 1.0
#endif
static void pickGoal(double& x, double& y, double& t)
{
	// off the lattice where several words coincide
	x = H_SCALE * (-3.77 + 7.43 * vp_pick("gx", H_NX) / (H_NX > 1 ? H_NX - 1 : 1));
	y = H_SCALE * (-2.87 + 5.93 * vp_pick("gy", H_NY) / (H_NY > 1 ? H_NY - 1 : 1));
	t = -2.93 + 5.81 * vp_pick("gt", H_NT) / (H_NT > 1 ? H_NT - 1 : 1);
}
static void compose(const ReedsShepp::PathSegment& seg, double& x, double& y, double& t)
{
	x = y = t = 0;
	for (int i = 0; i < seg.GetNumMotions(); i++) {
		auto& m = seg.GetMotion(i);
		double d = m.direction == Direction::Forward ? m.length : -m.length;
		if (m.steer == Steer::Straight) {
			x += d * cos(t), y += d * sin(t);
		} else {
			double k = m.steer == Steer::Left ? 1 : -1, n = t + k * d;
			x += k * (sin(n) - sin(t)), y += k * (cos(t) - cos(n)), t = n;
		}
	}
}
static bool sameHeading(double a, double b)
{
	bool m = false;
	for (int k = -5; k <= 5; k++) m |= vp_close(a - b, k * TAU, TOL);
	return m;
}
static void reaches(const ReedsShepp::PathSegment& seg, double gx, double gy, double gt)
{
	double x, y, t;
	vp_assert(seg.GetNumMotions() > 0, "path-exists");
	compose(seg, x, y, t);
	vp_assert(vp_close(x, gx, TOL), "reaches-x");
	vp_assert(vp_close(y, gy, TOL), "reaches-y");
	vp_assert(sameHeading(t, gt), "reaches-heading");
	for (int i = 0; i < seg.GetNumMotions(); i++)
		vp_assert(seg.GetMotion(i).length >= -vp_tol(1e-9), "motion-length");
}

/// The shortest path, seen from any start pose and for any turning radius.
extern "C" void frame()
{
	double gx, gy, gt;
	pickGoal(gx, gy, gt);
	double R = vp_real("R", 0.25, 8);
	double x = vp_real("x", -8, 8), y = vp_real("y", -8, 8), h = vp_real("h", -3.14, 3.14);
	Pose2d start, goal;
	start.x() = x, start.y() = y, start.theta = h;
	double c = cos(h), s = sin(h);
	goal.x() = x + R * (c * gx - s * gy);
	goal.y() = y + R * (s * gx + c * gy);
	goal.theta = h + gt;
	double best = 1e9;
	{
		Cands C;
		reference(C, gx, gy, gt);
		for (int i = 0; i < C.n; i++)
			if (C.c[i].length() < best) best = C.c[i].length();
	}
	auto word = ReedsShepp::PathWords::NoPath;
	auto seg = ReedsShepp::Solver::GetShortestPath(start, goal, R, &word);
	vp_assert(ReedsShepp::IsPathWordValid(word), "word-valid");
	reaches(seg, gx, gy, gt);
	double sum = 0;
	for (int i = 0; i < seg.GetNumMotions(); i++) sum += seg.GetMotion(i).length;
	vp_assert(vp_close(seg.GetLength(R), R * sum, TOL), "length-of-motions");
	vp_assert(vp_leq(sum, best, TOL), "shortest");
	vp_assert(vp_close(ReedsShepp::Solver::GetShortestDistance(start, goal, R), R * sum, TOL), "distance-is-length");
	PathReedsShepp path(start, seg, R);
	vp_assert(vp_close(path.GetLength(), R * sum, TOL), "path-length");
	vp_reach("end");
}

/// The cheapest path for any multipliers.
extern "C" void costs()
{
	double gx, gy, gt;
	pickGoal(gx, gy, gt);
	double R = 2;
	float rev = (float)vp_real("reverse", 0.25, 4), fwd = (float)vp_real("forward", 0.25, 4), sw = (float)vp_real("switch", 0, 8);
	Pose2d start, goal;
	start.x() = 0, start.y() = 0, start.theta = 0;
	goal.x() = R * gx, goal.y() = R * gy, goal.theta = gt;
	auto seg = ReedsShepp::Solver::GetOptimalPath(start, goal, R, rev, fwd, sw);
	reaches(seg, gx, gy, gt);
	double own = 0;
	Direction prev = Direction::NoMotion;
	for (int i = 0; i < seg.GetNumMotions(); i++) {
		auto& m = seg.GetMotion(i);
		if (m.length == 0) continue; // no motion
		own += R * m.length * (m.direction == Direction::Forward ? fwd : rev);
		if (prev != Direction::NoMotion && m.direction != prev) own += sw;
		prev = m.direction;
	}
	vp_assert(vp_close(seg.ComputeCost(R, rev, fwd, sw), own, 1e-3), "cost-of-motions");
	Cands C;
	reference(C, gx, gy, gt);
	bool ok = true;
	for (int i = 0; i < C.n; i++) {
		double f = 0, b = 0;
		int n = 0;
		for (int k = 0; k < C.c[i].n; k++) {
			double l = C.c[i].l[k];
			if (l >= 0) f += l;
			else b -= l;
			if (k > 0 && (l >= 0) != (C.c[i].l[k - 1] >= 0)) n++;
		}
		ok &= vp_leq(own, R * f * fwd + R * b * rev + n * sw, 1e-3);
	}
	vp_assert(ok, "cheapest");
	// the same through the connection object
	PathConnectionReedsShepp connection(R, sw, rev, fwd);
	auto path = connection.Connect(start, goal);
	vp_assert(path != nullptr, "connected");
	auto rs = static_cast<PathReedsShepp*>(path.get());
	Pose2d end = path->Interpolate(1.0);
	vp_assert(vp_close(end.x(), goal.x(), 1e-4) & vp_close(end.y(), goal.y(), 1e-4) & sameHeading(end.theta, goal.theta), "connection-reaches");
	vp_assert(vp_close(rs->ComputeCost(sw, rev, fwd), own, 1e-3), "connection-cost");
	vp_assert(rs->GetMinTurningRadius() == R, "connection-radius");
	vp_reach("end");
}

/// A path segment on its own: any motions.
extern "C" void segment()
{
	ReedsShepp::PathSegment seg;
	vp_assert(seg.GetNumMotions() == 0, "starts-empty");
	vp_assert(seg.ComputeCost(1.0, 1, 1, 0) == std::numeric_limits<float>::infinity(), "no-motion-no-cost");
	int n = 1 + vp_pick("motions", 5);
	double len[5], R = vp_real("R", 0.25, 8);
	int dir[5], st[5];
	const int zero = vp_pick("zero", n + 1); // this one is no motion
	for (int i = 0; i < n; i++) {
		len[i] = i == zero ? 0.0 : vp_real("len", 0.001, 6);
		dir[i] = vp_pick("dir", 2);
		st[i] = i % 3;
		const Steer steer[] = { Steer::Left, Steer::Straight, Steer::Right };
		seg.AddMotion(steer[st[i]], dir[i] ? Direction::Backward : Direction::Forward, len[i]);
	}
	int flip = vp_pick("flip", 2), mirror = vp_pick("mirror", 2);
	if (flip) seg.TimeflipTransform();
	if (mirror) seg.ReflectTransform();
	float rev = (float)vp_real("reverse", 0, 4), fwd = (float)vp_real("forward", 0, 4), sw = (float)vp_real("switch", 0, 8);
	vp_assert(seg.GetNumMotions() == n, "count");
	double total = 0, cost = 0;
	int prev = -1;
	for (int i = 0; i < n; i++) {
		auto& m = seg.GetMotion(i);
		int back = dir[i] ^ flip;
		vp_assert(m.direction == (back ? Direction::Backward : Direction::Forward), "direction");
		const Steer steer[] = { Steer::Left, Steer::Straight, Steer::Right };
		vp_assert(m.steer == steer[mirror ? 2 - st[i] : st[i]], "steer");
		vp_assert(m.length == len[i], "length");
		if (i == zero) continue;
		total += len[i];
		cost += R * len[i] * (back ? rev : fwd);
		if (prev >= 0 && dir[i] != prev) cost += sw;
		prev = dir[i];
	}
	vp_assert(vp_close(seg.GetLength(R), R * total, 1e-6), "total");
	vp_assert(vp_close(seg.ComputeCost(R, rev, fwd, sw), cost, 1e-3), "cost");
	vp_reach("end");
}
