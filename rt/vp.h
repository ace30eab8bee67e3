// Interface between harnesses and the symbolic executor.  The same harness is
// compiled natively (VP_NATIVE, with vp_native.cpp) to replay counterexamples
// against the real code.
#pragma once
// no standard header here: the planner must see exactly what it includes itself
extern "C" {
/// Arbitrary integer in [lo, hi].
int vp_int(const char* name, int lo, int hi);
/// Arbitrary real in [lo, hi].
double vp_real(const char* name, double lo, double hi);
/// Arbitrary double bit pattern (ieee mode).
double vp_f64(const char* name);
bool vp_bool(const char* name);
/// Case split on every feasible value.
int vp_concrete(int v);
void vp_assume(bool c);
void vp_assert(bool c, const char* id);
/// Reachability witness.
void vp_reach(const char* label);
/// 1 under symbolic execution, 0 in native replay.
int vp_symbolic(void);
/// End this path.
void vp_stop(void);
/// Branch-free selection.
double vp_ite(bool c, double a, double b);
int vp_itei(bool c, int a, int b);
double vp_min(double a, double b);
double vp_max(double a, double b);
}
/// Arbitrary choice in [0, n), case split.
inline int vp_pick(const char* name, int n) { return vp_concrete(vp_int(name, 0, n - 1)); }
/// Concrete boolean choice (case split).
inline bool vp_flag(const char* name) { return vp_pick(name, 2) != 0; }
/// Integer-valued double: arithmetic on small ones is exact, so real and
/// machine semantics coincide.
inline double vp_intd(const char* name, int lo, int hi) { return (double)vp_int(name, lo, hi); }
/// Comparisons with slack; the slack in native replay is 10 times smaller, so a
/// solver counterexample is confirmed only if it breaks the bound by a margin.
inline double vp_tol(double t) { return vp_symbolic() ? t : t * 0.1; }
inline bool vp_close(double a, double b, double t) { double d = a - b; double tt = vp_tol(t); return (d <= tt) & (-d <= tt); }
inline bool vp_leq(double a, double b, double t) { return a <= b + vp_tol(t); }
/// Tolerant assumption for equalities between reals that rounding may disturb.
inline void vp_assume_eq(double a, double b)
{
	if (vp_symbolic()) vp_assume(a == b);
	else vp_assume(__builtin_fabs(a - b) <= 1e-7 * (1 + __builtin_fabs(a) + __builtin_fabs(b)));
}
