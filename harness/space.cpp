// P16: bounds and sampling of the state spaces, whatever the generator draws.
// Machine arithmetic (ieee): the bounds hold to the last bit.
#include "vp.h"
#include "state_space/state_space_r2.h"
#include "state_space/state_space_se2.h"
#include <array>
using namespace Planner;

static double num(const char* n, double m)
{
#ifdef H_REAL
	return vp_real(n, -m, m);
#else
	double v = vp_f64(n);
	vp_assume((v >= -m) & (v <= m));
	return v;
#endif
}
static double fixedDraw = -1;
extern "C" double vp_rng_uniform(double a, double b)
{
	if (fixedDraw >= 0) return fixedDraw;
#ifdef H_REAL
	return vp_real("uniform", 0, 1);
	(void)a;
	(void)b;
#else
	double r = vp_f64("uniform");
	vp_assume((r >= a) & (r < b));
	return r;
#endif
}
extern "C" double vp_rng_normal(double mean, double dev)
{
	if (fixedDraw >= 0) return fixedDraw;
	return num("normal", 64); // mean 0, deviation 1: anything, in principle
	(void)mean;
	(void)dev;
}
static double c0(const Point2d& p, int i) { return i ? p.y() : p.x(); }
static double c0(const Pose2d& p, int i) { return i == 0 ? p.x() : i == 1 ? p.y() : p.theta; }
static void set(Point2d& p, int i, double v) { (i ? p.y() : p.x()) = v; }
static void set(Pose2d& p, int i, double v) { (i == 0 ? p.x() : i == 1 ? p.y() : p.theta) = v; }

#ifndef H_RANGES
#define H_RANGES 7
#endif
#ifndef H_SE2
using State = Point2d;
using Space = StateSpaceR2;
static const int DIM = 2;
#else
using State = Pose2d;
using Space = StateSpaceSE2;
static const int DIM = 3;
#endif
using Base = StateSpace<State, DIM, double>;

struct Setup {
	State lb, ub;
	Setup(bool tabled = false)
	{
		static const double table[][2] = { { -0.1, 0.3 }, { 0, 1 }, { -M_PI, M_PI }, { -5.3, 10.7 }, { 0.001, 0.7 }, { -10, -3.3 }, { 2, 2 } };
		int k = tabled ? vp_pick("range", H_RANGES) : 0;
		for (int i = 0; i < DIM; i++) {
			double l = tabled ? table[(k + i) % 7][0] : num("lb", 1e6), u = tabled ? table[(k + i) % 7][1] : num("ub", 1e6);
			vp_assume(l <= u);
			set(lb, i, l), set(ub, i, u);
		}
	}
	bool within(const State& s) const
	{
		bool in = true;
		for (int i = 0; i < DIM; i++) in &= (c0(s, i) >= c0(lb, i)) & (c0(s, i) <= c0(ub, i));
		return in;
	}
};

extern "C" void bounds()
{
	Setup S;
	Space sp(std::array<State, 2>({ S.lb, S.ub }));
	State q;
	for (int i = 0; i < DIM; i++) set(q, i, num("q", 1e7));
	vp_assert(sp.ValidateBounds(q) == S.within(q), "validate");
	State e = q;
	sp.EnforceBounds(e);
	vp_assert(S.within(e), "enforced-within");
	for (int i = 0; i < DIM; i++) {
		double v = c0(q, i), l = c0(S.lb, i), u = c0(S.ub, i);
		vp_assert(c0(e, i) == (v < l ? l : v > u ? u : v), "nearest-allowed");
	}
	vp_assert(sp.ValidateBounds(e), "enforced-is-valid");
	for (int i = 0; i < DIM; i++) {
		vp_assert((c0(sp.bounds[0], i) == c0(S.lb, i)) & (c0(sp.bounds[1], i) == c0(S.ub, i)), "bounds-kept");
	}
	vp_reach("end");
}

extern "C" void uniform()
{
#ifdef H_REAL
	Setup S;
#else
	Setup S(true);
#endif
	Space sp(std::array<State, 2>({ S.lb, S.ub }));
	State s = sp.SampleUniform();
	for (int i = 0; i < DIM; i++) {
		vp_assert(c0(s, i) >= c0(S.lb, i), "uniform-above-lower");
		vp_assert(c0(s, i) <= c0(S.ub, i), "uniform-below-upper");
	}
	vp_reach("end");
}
extern "C" void gaussian()
{
	Setup S;
	Space sp(std::array<State, 2>({ S.lb, S.ub }));
	State m, d;
	for (int i = 0; i < DIM; i++) set(m, i, num("mean", 1e6)), set(d, i, num("dev", 1e3));
	State s = sp.SampleGaussian(m, d);
	vp_assert(S.within(s), "gaussian-within");
	vp_reach("end");
}
/// Samples span the whole range, and deviations are counted from the mean.
extern "C" void span()
{
	Setup S;
	Space sp(std::array<State, 2>({ S.lb, S.ub }));
	fixedDraw = 0;
	State a = sp.SampleUniform();
	fixedDraw = 1;
	State b = sp.SampleUniform();
	State m, d;
	for (int i = 0; i < DIM; i++) {
		double l = c0(S.lb, i), u = c0(S.ub, i), p = c0(a, i), q = c0(b, i);
		double t = 1e-6;
		vp_assert((vp_close(p, l, t) & vp_close(q, u, t)) | (vp_close(p, u, t) & vp_close(q, l, t)), "extremes");
		set(m, i, num("mean", 1e6)), set(d, i, num("dev", 1e3));
	}
	fixedDraw = vp_pick("deviations", 3);
	State g = sp.SampleGaussian(m, d);
	for (int i = 0; i < DIM; i++) {
		double l = c0(S.lb, i), u = c0(S.ub, i);
		bool ok = false;
		for (int k = -1; k <= 1; k += 2) { // the distribution is symmetric
			double w = c0(m, i) + k * fixedDraw * c0(d, i);
			ok |= vp_close(c0(g, i), vp_ite(w < l, l, vp_ite(w > u, u, w)), 1e-6);
		}
		vp_assert(ok, "deviations-from-mean");
	}
	vp_reach("end");
}
#ifdef H_MANY
extern "C" void many()
{
	State lb, ub;
	for (int i = 0; i < DIM; i++) set(lb, i, -1.0), set(ub, i, 2.0);
	Space sp(std::array<State, 2>({ lb, ub }));
	Base& base = sp;
	unsigned n = vp_pick("n", 4);
	bool gauss = vp_flag("gaussian");
	std::vector<State> v;
	State m, d;
	for (int i = 0; i < DIM; i++) set(m, i, 0.5), set(d, i, 1.0);
	v = gauss ? base.SampleGaussian(m, d, n) : base.SampleUniform(n);
	vp_assert(v.size() == n, "as-many-as-asked");
	for (auto& s : v)
		for (int i = 0; i < DIM; i++) vp_assert((c0(s, i) >= -1.0) & (c0(s, i) <= 2.0), "each-within");
	vp_reach("end");
}
#endif
