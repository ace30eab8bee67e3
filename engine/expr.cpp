#include <algorithm>
#include <iterator>
#include "expr.h"
#include <functional>
#include <gmpxx.h>

static const double INF = std::numeric_limits<double>::infinity();

static void z3err(Z3_context c, Z3_error_code e)
{
	throw Unsupported(std::string("z3: ") + Z3_get_error_msg(c, e));
}

void Ctx::init()
{
	Z3_config cfg = Z3_mk_config();
	z = Z3_mk_context_rc(cfg);
	Z3_del_config(cfg);
	Z3_set_error_handler(z, z3err);
	sInt = Z3_mk_int_sort(z); Z3_inc_ref(z, (Z3_ast)sInt);
	sReal = Z3_mk_real_sort(z); Z3_inc_ref(z, (Z3_ast)sReal);
	sBool = Z3_mk_bool_sort(z); Z3_inc_ref(z, (Z3_ast)sBool);
	sF64 = Z3_mk_fpa_sort_double(z); Z3_inc_ref(z, (Z3_ast)sF64);
	sF32 = Z3_mk_fpa_sort_single(z); Z3_inc_ref(z, (Z3_ast)sF32);
	rne = ret(Z3_mk_fpa_rne(z));
	rtz = ret(Z3_mk_fpa_rtz(z));
	rtp = ret(Z3_mk_fpa_rtp(z));
	rtn = ret(Z3_mk_fpa_rtn(z));
	rna = ret(Z3_mk_fpa_rna(z));
	tru = bv(1, 1);
	fls = bv(0, 1);
}

const Expr* Ctx::mk(K k, T t, unsigned w, uint64_t c, const Expr* a, const Expr* b, const Expr* d)
{
	Key key { k, t, (uint8_t)w, c, { a, b, d } };
	auto it = table.find(key);
	if (it != table.end())
		return it->second;
	Expr* e = new Expr;
	e->k = k; e->t = t; e->w = w; e->c = c;
	e->op[0] = a; e->op[1] = b; e->op[2] = d;
	e->n = d ? 3 : b ? 2 : a ? 1 : 0;
	e->id = ++nexpr;
	e->flo = -INF; e->fhi = INF;
	e->lo = w >= 64 ? INT64_MIN : w == 1 ? -1 : -(1ll << (w - 1));
	e->hi = w >= 64 ? INT64_MAX : w == 1 ? 0 : (1ll << (w - 1)) - 1;
	bounds(e);
	table.emplace(key, e);
	return e;
}

const Expr* Ctx::bv(uint64_t v, unsigned w)
{
	if (w > 64)
		throw Unsupported("wide integer");
	return mk(K::Const, T::BV, w, msk(v, w));
}
const Expr* Ctx::fc(T t, uint64_t bits) { return mk(K::Const, t, t == T::F64 ? 64 : 32, bits); }

const Expr* Ctx::var(const std::string& name, T t, unsigned w, int64_t lo, int64_t hi, double flo, double fhi)
{
	uint64_t idx = vars.size();
	vars.push_back({ name, t, (uint8_t)w, lo, hi, flo, fhi, nullptr });
	const Expr* e = mk(K::Var, t, w, idx);
	vars[idx].e = e;
	return e;
}

void Ctx::bounds(Expr* e)
{
	auto A = e->op[0], B = e->op[1], C = e->op[2];
	auto set = [&](i128 l, i128 h) {
		i128 tl = e->w >= 64 ? (i128)INT64_MIN : -((i128)1 << (e->w - 1));
		i128 th = e->w >= 64 ? (i128)INT64_MAX : ((i128)1 << (e->w - 1)) - 1;
		if (l >= tl && h <= th) {
			e->lo = (int64_t)l; e->hi = (int64_t)h;
		} else
			e->wrap = true;
	};
	auto setf = [&](double l, double h) {
		// widen a little: bounds are computed in rounded arithmetic
		if (std::isnan(l)) l = -INF;
		if (std::isnan(h)) h = INF;
		e->flo = l - std::fabs(l) * 1e-15; e->fhi = h + std::fabs(h) * 1e-15;
	};
	switch (e->k) {
	case K::Const:
		if (e->t == T::BV) { e->lo = e->hi = sx(e->c, e->w); }
		else { e->flo = e->fhi = (e->t == T::F64 ? asD(e->c) : asF(e->c)); }
		break;
	case K::Var:
		e->lo = vars[e->c].lo; e->hi = vars[e->c].hi;
		e->flo = vars[e->c].flo; e->fhi = vars[e->c].fhi;
		break;
	case K::Add: if (e->w > 1) set((i128)A->lo + B->lo, (i128)A->hi + B->hi); break;
	case K::Sub: if (e->w > 1) set((i128)A->lo - B->hi, (i128)A->hi - B->lo); break;
	case K::Mul: if (e->w > 1) {
		i128 p[4] = { (i128)A->lo * B->lo, (i128)A->lo * B->hi, (i128)A->hi * B->lo, (i128)A->hi * B->hi };
		i128 l = p[0], h = p[0];
		for (auto x : p) { if (x < l) l = x; if (x > h) h = x; }
		set(l, h);
	} break;
	case K::Shl:
		if (e->w > 1 && B->k == K::Const && B->c < e->w) set((i128)A->lo << B->c, (i128)A->hi << B->c);
		break;
	case K::AShr:
		if (B->k == K::Const && B->c < 64) { e->lo = A->lo >> B->c; e->hi = A->hi >> B->c; }
		break;
	case K::LShr:
		if (B->k == K::Const && B->c > 0 && B->c < e->w) {
			if (A->lo >= 0) { e->lo = A->lo >> B->c; e->hi = A->hi >> B->c; }
			else { e->lo = 0; e->hi = (int64_t)(msk(~0ull, e->w) >> B->c); }
		}
		break;
	case K::And:
		if (e->w > 1) {
			if (A->lo >= 0 && B->lo >= 0) { e->lo = 0; e->hi = std::min(A->hi, B->hi); }
			else if (B->lo >= 0) { e->lo = 0; e->hi = B->hi; }
			else if (A->lo >= 0) { e->lo = 0; e->hi = A->hi; }
		}
		break;
	case K::URem: if (B->lo > 0) { e->lo = 0; e->hi = B->hi - 1; if (A->lo >= 0) e->hi = std::min(e->hi, A->hi); } break;
	case K::UDiv: if (A->lo >= 0 && B->lo > 0) { e->lo = 0; e->hi = A->hi / B->lo; } break;
	case K::SDiv: if (B->lo > 0) {
		int64_t p[4] = { A->lo / B->lo, A->lo / B->hi, A->hi / B->lo, A->hi / B->hi };
		e->lo = p[0]; e->hi = p[0];
		for (auto x : p) { e->lo = std::min(e->lo, x); e->hi = std::max(e->hi, x); }
	} break;
	case K::SRem: if (B->lo > 0) { e->lo = A->lo >= 0 ? 0 : -(B->hi - 1); e->hi = A->hi <= 0 ? 0 : B->hi - 1; } break;
	case K::ZExt:
		if (A->w == 1) { e->lo = 0; e->hi = 1; }
		else if (A->lo >= 0) { e->lo = A->lo; e->hi = A->hi; }
		else { e->lo = 0; e->hi = (int64_t)msk(~0ull, A->w); }
		break;
	case K::SExt:
		if (A->w == 1) { e->lo = -1; e->hi = 0; }
		else { e->lo = A->lo; e->hi = A->hi; }
		break;
	case K::Extract:
		if (e->c == 0 && e->w > 1) set(A->lo, A->hi);
		break;
	case K::Ite:
		if (e->t == T::BV) { e->lo = std::min(B->lo, C->lo); e->hi = std::max(B->hi, C->hi); }
		else { e->flo = std::min(B->flo, C->flo); e->fhi = std::max(B->fhi, C->fhi); }
		break;
	case K::FAdd: setf(A->flo + B->flo, A->fhi + B->fhi); break;
	case K::FSub: setf(A->flo - B->fhi, A->fhi - B->flo); break;
	case K::FMul: {
		if (A == B) {
			double m = std::max(std::fabs(A->flo), std::fabs(A->fhi));
			double l = A->flo > 0 ? A->flo * A->flo : A->fhi < 0 ? A->fhi * A->fhi : 0;
			setf(l, m * m);
			break;
		}
		auto m = [](double x, double y) { return (x == 0 || y == 0) ? 0.0 : x * y; };
		double p[4] = { m(A->flo, B->flo), m(A->flo, B->fhi), m(A->fhi, B->flo), m(A->fhi, B->fhi) };
		double l = p[0], h = p[0];
		for (auto x : p) { l = std::min(l, x); h = std::max(h, x); }
		setf(l, h);
	} break;
	case K::FDiv:
		if (B->flo > 0 || B->fhi < 0) {
			double p[4] = { A->flo / B->flo, A->flo / B->fhi, A->fhi / B->flo, A->fhi / B->fhi };
			double l = INF, h = -INF; bool nan = false;
			for (auto x : p) { if (std::isnan(x)) nan = true; l = std::min(l, x); h = std::max(h, x); }
			if (!nan) setf(l, h);
		}
		break;
	case K::FNeg: e->flo = -A->fhi; e->fhi = -A->flo; break;
	case K::FAbs: {
		double m = std::max(std::fabs(A->flo), std::fabs(A->fhi));
		e->flo = A->flo > 0 ? A->flo : A->fhi < 0 ? -A->fhi : 0; e->fhi = m;
	} break;
	case K::FSqrt: e->flo = A->flo > 0 ? std::sqrt(A->flo) * (1 - 1e-15) : 0; e->fhi = std::sqrt(A->fhi) * (1 + 1e-15); break;
	case K::FFloor: case K::FCeil: case K::FTrunc: case K::FRound: e->flo = std::floor(A->flo); e->fhi = std::ceil(A->fhi); break;
	case K::SIToFP: e->flo = (double)A->lo; e->fhi = (double)A->hi; break;
	case K::UIToFP: if (A->w == 1) { e->flo = 0; e->fhi = 1; } else if (A->lo >= 0) { e->flo = (double)A->lo; e->fhi = (double)A->hi; } else e->flo = 0; break;
	case K::FPToSI: {
		double l = std::trunc(A->flo), h = std::trunc(A->fhi);
		if (l >= -9e18 && h <= 9e18) set((i128)l, (i128)h); else e->wrap = true;
	} break;
	case K::FPToUI: {
		double l = std::trunc(A->flo), h = std::trunc(A->fhi);
		if (l >= 0 && h <= 9e18) set((i128)l, (i128)h); else e->wrap = true;
	} break;
	case K::FPExt: case K::FPTrunc: setf(A->flo, A->fhi); break;
	default: break;
	}
}

// ---------------------------------------------------------------- integers
static bool foldBin(K k, uint64_t a, uint64_t b, unsigned w, uint64_t& r)
{
	switch (k) {
	case K::Add: r = a + b; break;
	case K::Sub: r = a - b; break;
	case K::Mul: r = a * b; break;
	case K::UDiv: if (!b) return false; r = a / b; break;
	case K::URem: if (!b) return false; r = a % b; break;
	case K::SDiv: if (!b || (sx(b, w) == -1 && sx(a, w) == sx(1ull << (w - 1), w))) return false; r = sx(a, w) / sx(b, w); break;
	case K::SRem: if (!b) return false; r = sx(b, w) == -1 ? 0 : sx(a, w) % sx(b, w); break;
	case K::And: r = a & b; break;
	case K::Or: r = a | b; break;
	case K::Xor: r = a ^ b; break;
	case K::Shl: r = b >= w ? 0 : a << b; break;
	case K::LShr: r = b >= w ? 0 : a >> b; break;
	case K::AShr: r = b >= w ? (sx(a, w) < 0 ? ~0ull : 0) : (uint64_t)(sx(a, w) >> b); break;
	default: return false;
	}
	r = msk(r, w);
	return true;
}

const Expr* Ctx::bin(K k, const Expr* a, const Expr* b)
{
	unsigned w = a->w;
	if (a->k == K::Const && b->k == K::Const) {
		uint64_t r;
		if (foldBin(k, a->c, b->c, w, r))
			return bv(r, w);
	}
	bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor;
	if (comm && a->k == K::Const)
		std::swap(a, b);
	if (w == 1) {
		if (k == K::Add || k == K::Sub) k = K::Xor;
		if (k == K::Mul) k = K::And;
		if (k == K::And) {
			if (b->k == K::Const) return b->c ? a : fls;
			if (a == b) return a;
			if (a == lnot(b)) return fls;
		} else if (k == K::Or) {
			if (b->k == K::Const) return b->c ? tru : a;
			if (a == b) return a;
			if (a == lnot(b)) return tru;
		} else if (k == K::Xor) {
			if (b->k == K::Const) return b->c ? lnot(a) : a;
			if (a == b) return fls;
			return mk(K::Not, T::BV, 1, 0, mk(K::Eq, T::BV, 1, 0, a, b));
		} else
			throw Unsupported("i1 op");
		if (comm && a->id > b->id) std::swap(a, b);
		return mk(k, T::BV, 1, 0, a, b);
	}
	uint64_t ones = msk(~0ull, w);
	// packed values: a choice one side of which falls apart into pieces
	std::function<bool(const Expr*, int)> packed = [&](const Expr* e, int d) {
		if (e->k == K::Concat || e->k == K::Const) return true;
		if (e->k == K::ZExt || e->k == K::SExt) return true;
		if (e->k == K::Ite && d < 6) return packed(e->op[1], d + 1) && packed(e->op[2], d + 1);
		return false;
	};
	if (b->k == K::Const) {
		uint64_t v = b->c;
		switch (k) {
		case K::Add:
			if (!v) return a;
			if (a->k == K::Add && a->op[1]->k == K::Const)
				return bin(K::Add, a->op[0], bv(a->op[1]->c + v, w));
			break;
		case K::Sub:
			if (!v) return a;
			return bin(K::Add, a, bv(0 - v, w));
		case K::Mul:
			if (v == 1) return a;
			if (!v) return b;
			break;
		case K::UDiv: case K::SDiv: if (v == 1) return a; break;
		case K::And:
			if (!v) return b;
			if (v == ones) return a;
			// low mask: zext(extract)
			if ((v & (v + 1)) == 0) {
				unsigned n = __builtin_popcountll(v);
				if (a->lo >= 0 && (uint64_t)a->hi <= v) return a;
				return zext(extract(a, 0, n), w);
			}
			// high mask: concat(extract, 0)
			if (a->k == K::Concat || a->k == K::ZExt) {
				uint64_t inv = ones & ~v;
				if ((inv & (inv + 1)) == 0) {
					unsigned n = __builtin_popcountll(inv);
					return concat(extract(a, n, w - n), bv(0, n));
				}
			}
			break;
		case K::Or: if (!v) return a; if (v == ones) return b; break;
		case K::Xor: if (!v) return a; break;
		case K::Shl:
			if (!v) return a;
			if (v >= w) return bv(0, w);
			if (a->k == K::ZExt || a->k == K::Concat || a->k == K::SExt || packed(a, 0))
				return concat(extract(a, 0, w - v), bv(0, v));
			break;
		case K::LShr:
			if (!v) return a;
			if (v >= w) return bv(0, w);
			if (a->k == K::Concat || a->k == K::ZExt || a->k == K::SExt || a->k == K::F2I || packed(a, 0))
				return zext(extract(a, v, w - v), w);
			break;
		case K::AShr:
			if (!v) return a;
			if (v < w && packed(a, 0))
				return sext(extract(a, v, w - v), w);
			break;
		default: break;
		}
	}
	if (a->k == K::Const && a->c == 0 && (k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem || k == K::Shl || k == K::LShr || k == K::AShr))
		return a;
	if (k == K::Sub && a == b) return bv(0, w);
	if ((k == K::And || k == K::Or) && a == b) return a;
	if (k == K::Xor && a == b) return bv(0, w);
	if (k == K::Or || k == K::Add || k == K::Xor) {
		// disjoint parts: (hi:0) | zext(lo)  =>  concat
		auto tz = [&](const Expr* e) -> unsigned { return e->k == K::Concat && e->op[1]->k == K::Const && e->op[1]->c == 0 ? e->op[1]->w : 0; };
		auto lowbits = [&](const Expr* e) -> unsigned {
			if (e->k == K::ZExt) return e->op[0]->w;
			if (e->k == K::Const) return e->c ? 64 - __builtin_clzll(e->c) : 0;
			return 64;
		};
		for (int i = 0; i < 2; i++) {
			unsigned n = tz(a);
			if (n && lowbits(b) <= n)
				return concat(extract(a, n, w - n), extract(b, 0, n));
			std::swap(a, b);
		}
		if (k == K::Or && (a->k == K::Const || b->k == K::Const)) {
			// constant high part | zext(low)
			const Expr* cst = a->k == K::Const ? a : b;
			const Expr* oth = a->k == K::Const ? b : a;
			if (oth->k == K::ZExt) {
				unsigned n = oth->op[0]->w;
				if (msk(cst->c, n) == 0)
					return concat(bv(cst->c >> n, w - n), oth->op[0]);
			}
		}
	}
	if (k == K::And || k == K::Or || k == K::Xor) {
		// operands known to fit in fewer bits
		auto nb = [&](const Expr* e) -> unsigned {
			if (e->lo < 0) return w;
			return e->hi ? 64 - __builtin_clzll((uint64_t)e->hi) : 1;
		};
		unsigned na = nb(a), nbb = nb(b);
		unsigned n = k == K::And ? std::min(na, nbb) : std::max(na, nbb);
		if (n < w && (n == 1 || w > 8 * ((n + 7) / 8))) {
			if (n > 1) n = 8 * ((n + 7) / 8);
			return zext(bin(k, extract(a, 0, n), extract(b, 0, n)), w);
		}
	}
	if (comm && b->k != K::Const && a->id > b->id) std::swap(a, b);
	return mk(k, T::BV, w, 0, a, b);
}

const Expr* Ctx::lnot(const Expr* a)
{
	if (a->k == K::Const) return boolc(!a->c);
	if (a->k == K::Not) return a->op[0];
	if (a->k == K::Slt) return mk(K::Sle, T::BV, 1, 0, a->op[1], a->op[0]);
	if (a->k == K::Sle) return mk(K::Slt, T::BV, 1, 0, a->op[1], a->op[0]);
	if (a->k == K::Ult) return mk(K::Ule, T::BV, 1, 0, a->op[1], a->op[0]);
	if (a->k == K::Ule) return mk(K::Ult, T::BV, 1, 0, a->op[1], a->op[0]);
	if (mode == Mode::Real) {
		if (a->k == K::FLt) return mk(K::FLe, T::BV, 1, 0, a->op[1], a->op[0]);
		if (a->k == K::FLe) return mk(K::FLt, T::BV, 1, 0, a->op[1], a->op[0]);
	}
	return mk(K::Not, T::BV, 1, 0, a);
}

const Expr* Ctx::cmp(K k, const Expr* a, const Expr* b)
{
	unsigned w = a->w;
	if (a->k == K::Const && b->k == K::Const) {
		switch (k) {
		case K::Eq: return boolc(a->c == b->c);
		case K::Ult: return boolc(a->c < b->c);
		case K::Ule: return boolc(a->c <= b->c);
		case K::Slt: return boolc(sx(a->c, w) < sx(b->c, w));
		case K::Sle: return boolc(sx(a->c, w) <= sx(b->c, w));
		default: break;
		}
	}
	if (a == b) return boolc(k == K::Eq || k == K::Ule || k == K::Sle);
	if (k == K::Eq) {
		if (a->k == K::Const) std::swap(a, b);
		if (w == 1) {
			if (b->k == K::Const) return b->c ? a : lnot(a);
			if (a->id > b->id) std::swap(a, b);
			return mk(K::Eq, T::BV, 1, 0, a, b);
		}
		if (a->hi < b->lo || a->lo > b->hi) return fls;
		if (b->k == K::Const) {
			if (a->k == K::Or && b->c == 0) return land(cmp(K::Eq, a->op[0], b), cmp(K::Eq, a->op[1], b));
			if (a->k == K::And && b->c == msk(~0ull, w)) return land(cmp(K::Eq, a->op[0], b), cmp(K::Eq, a->op[1], b));
			if (a->k == K::Xor && b->c == 0) return cmp(K::Eq, a->op[0], a->op[1]);
			if (a->k == K::ZExt) {
				unsigned n = a->op[0]->w;
				if (n < 64 && (b->c >> n)) return fls;
				return cmp(K::Eq, a->op[0], bv(b->c, n));
			}
			if (a->k == K::SExt) {
				unsigned n = a->op[0]->w;
				if ((uint64_t)sx(b->c, w) != (uint64_t)sx(msk(b->c, n), n)) return fls;
				return cmp(K::Eq, a->op[0], bv(b->c, n));
			}
			if (a->k == K::Ite && a->op[1]->k == K::Const && a->op[2]->k == K::Const) {
				bool t = a->op[1]->c == b->c, f = a->op[2]->c == b->c;
				if (t && f) return tru;
				if (!t && !f) return fls;
				return t ? a->op[0] : lnot(a->op[0]);
			}
			if (a->k == K::Add && a->op[1]->k == K::Const)
				return cmp(K::Eq, a->op[0], bv(b->c - a->op[1]->c, w));
		}
		if (a->k == K::Concat || b->k == K::Concat) {
			const Expr* cc = a->k == K::Concat ? a : b;
			unsigned n = cc->op[1]->w;
			return land(cmp(K::Eq, extract(a, 0, n), extract(b, 0, n)), cmp(K::Eq, extract(a, n, w - n), extract(b, n, w - n)));
		}
		if (a->k == K::F2I && b->k == K::F2I && mode == Mode::Real)
			return fcmp(K::FEq, a->op[0], b->op[0]);
		if (a->id > b->id) std::swap(a, b);
		return mk(K::Eq, T::BV, 1, 0, a, b);
	}
	if (w == 1) {
		// signed i1 order: true = -1
		if (k == K::Ult) return land(lnot(a), b);
		if (k == K::Ule) return lor(lnot(a), b);
		if (k == K::Slt) return land(a, lnot(b));
		return lor(a, lnot(b));
	}
	if (k == K::Slt || k == K::Sle) {
		// sign of a bitwise combination
		auto sign = [&](const Expr* x) -> const Expr* { // x < 0
			const Expr* zero = bv(0, w);
			const Expr *p = cmp(K::Slt, x->op[0], zero), *q = cmp(K::Slt, x->op[1], zero);
			return x->k == K::Or ? lor(p, q) : x->k == K::And ? land(p, q) : lnot(cmp(K::Eq, p, q));
		};
		auto bitop = [](const Expr* x) { return x->k == K::Or || x->k == K::And || x->k == K::Xor; };
		if (bitop(a) && b->k == K::Const && ((k == K::Slt && b->c == 0) || (k == K::Sle && b->c == msk(~0ull, w)))) return sign(a);
		if (bitop(b) && a->k == K::Const && ((k == K::Sle && a->c == 0) || (k == K::Slt && a->c == msk(~0ull, w)))) return lnot(sign(b));
		if (k == K::Slt ? a->hi < b->lo : a->hi <= b->lo) return tru;
		if (k == K::Slt ? a->lo >= b->hi : a->lo > b->hi) return fls;
		if (mode == Mode::Real && a->k == K::F2I && b->k == K::Const && b->c == 0 && k == K::Slt) // sign bit (-0.0 does not exist here)
			return fcmp(K::FLt, a->op[0], fc(a->op[0]->t, 0));
		if (mode == Mode::Real && b->k == K::F2I && a->k == K::Const && sx(a->c, w) == -1 && k == K::Slt)
			return lnot(fcmp(K::FLt, b->op[0], fc(b->op[0]->t, 0)));
		return mk(k, T::BV, 1, 0, a, b);
	}
	// unsigned
	if (a->lo >= 0 && b->lo >= 0)
		return cmp(k == K::Ult ? K::Slt : K::Sle, a, b);
	if (b->k == K::Const && sx(b->c, w) >= 0)
		return land(cmp(K::Sle, bv(0, w), a), cmp(k == K::Ult ? K::Slt : K::Sle, a, b));
	if (a->k == K::Const && sx(a->c, w) >= 0)
		return lor(cmp(K::Slt, b, bv(0, w)), cmp(k == K::Ult ? K::Slt : K::Sle, a, b));
	return mk(k, T::BV, 1, 0, a, b);
}

const Expr* Ctx::zext(const Expr* a, unsigned w)
{
	if (w == a->w) return a;
	if (w > 64) throw Unsupported("wide integer");
	if (a->k == K::Const) return bv(a->c, w);
	if (a->k == K::ZExt) return zext(a->op[0], w);
	return mk(K::ZExt, T::BV, w, 0, a);
}
const Expr* Ctx::sext(const Expr* a, unsigned w)
{
	if (w == a->w) return a;
	if (w > 64) throw Unsupported("wide integer");
	if (a->k == K::Const) return bv((uint64_t)sx(a->c, a->w), w);
	if (a->k == K::SExt) return sext(a->op[0], w);
	if (a->k == K::ZExt) return zext(a->op[0], w);
	if (a->w > 1 && a->lo >= 0) return zext(a, w);
	return mk(K::SExt, T::BV, w, 0, a);
}
const Expr* Ctx::extract(const Expr* a, unsigned off, unsigned w)
{
	if (off == 0 && w == a->w) return a;
	if (a->k == K::Const) return bv(a->c >> off, w);
	if (a->k == K::ZExt || a->k == K::SExt) {
		unsigned n = a->op[0]->w;
		if (off + w <= n) return extract(a->op[0], off, w);
		if (a->k == K::ZExt) {
			if (off >= n) return bv(0, w);
			return zext(extract(a->op[0], off, n - off), w);
		}
		if (off == 0) return sext(a->op[0], w);
	}
	if (a->k == K::Concat) {
		unsigned n = a->op[1]->w;
		if (off + w <= n) return extract(a->op[1], off, w);
		if (off >= n) return extract(a->op[0], off - n, w);
		return concat(extract(a->op[0], 0, off + w - n), extract(a->op[1], off, n - off));
	}
	if (a->k == K::Extract) return extract(a->op[0], off + a->c, w);
	if (a->k == K::Ite) {
		auto apart = [](const Expr* e) { return e->k == K::Concat || e->k == K::Const || e->k == K::ZExt || e->k == K::SExt || e->k == K::Ite; };
		if (off == 0 || (apart(a->op[1]) && apart(a->op[2])))
			return ite(a->op[0], extract(a->op[1], off, w), extract(a->op[2], off, w));
	}
	if (off == 0 && w > 1 && (a->k == K::Add || a->k == K::Sub || a->k == K::Mul || a->k == K::And || a->k == K::Or || a->k == K::Xor))
		return bin(a->k, extract(a->op[0], 0, w), extract(a->op[1], 0, w));
	return mk(K::Extract, T::BV, w, off, a);
}
const Expr* Ctx::concat(const Expr* hi, const Expr* lo)
{
	unsigned w = hi->w + lo->w;
	if (w > 64) throw Unsupported("wide integer");
	if (hi->k == K::Const && lo->k == K::Const) return bv((hi->c << lo->w) | lo->c, w);
	if (hi->k == K::Const && hi->c == 0) return zext(lo, w);
	if (hi->k == K::Extract && lo->k == K::Extract && hi->op[0] == lo->op[0] && hi->c == lo->c + lo->w)
		return extract(hi->op[0], lo->c, w);
	if (lo->k == K::Extract && lo->c == 0 && hi->k == K::Extract && hi->op[0] == lo->op[0] && hi->c == lo->w)
		return extract(lo->op[0], 0, w);
	return mk(K::Concat, T::BV, w, 0, hi, lo);
}
const Expr* Ctx::ite(const Expr* c, const Expr* a, const Expr* b)
{
	if (c->k == K::Const) return c->c ? a : b;
	if (a == b) return a;
	if (c->k == K::Not) return ite(c->op[0], b, a);
	if (a->t == T::BV && a->w == 1) {
		if (a->k == K::Const) return a->c ? lor(c, b) : land(lnot(c), b);
		if (b->k == K::Const) return b->c ? lor(lnot(c), a) : land(c, a);
	}
	return mk(K::Ite, a->t, a->w, 0, c, a, b);
}

// ---------------------------------------------------------------- floats
const Expr* Ctx::f(K k, const Expr* a, const Expr* b)
{
	T t = a->t;
	unsigned w = a->w;
	bool ca = isFC(a), cb = b ? isFC(b) : true;
	if (ca && cb) {
		if (t == T::F64) {
			double x = asD(a->c), y = b ? asD(b->c) : 0, r;
			switch (k) {
			case K::FAdd: r = x + y; break;
			case K::FSub: r = x - y; break;
			case K::FMul: r = x * y; break;
			case K::FDiv: r = x / y; break;
			case K::FRem: r = std::fmod(x, y); break;
			case K::FNeg: r = -x; break;
			case K::FAbs: r = std::fabs(x); break;
			case K::FSqrt: r = std::sqrt(x); break;
			case K::FFloor: r = std::floor(x); break;
			case K::FCeil: r = std::ceil(x); break;
			case K::FTrunc: r = std::trunc(x); break;
			case K::FRound: r = std::round(x); break;
			default: throw Unsupported("f op");
			}
			return fc(T::F64, fromD(r));
		} else {
			float x = asF(a->c), y = b ? asF(b->c) : 0, r;
			switch (k) {
			case K::FAdd: r = x + y; break;
			case K::FSub: r = x - y; break;
			case K::FMul: r = x * y; break;
			case K::FDiv: r = x / y; break;
			case K::FRem: r = std::fmod(x, y); break;
			case K::FNeg: r = -x; break;
			case K::FAbs: r = std::fabs(x); break;
			case K::FSqrt: r = std::sqrt(x); break;
			case K::FFloor: r = std::floor(x); break;
			case K::FCeil: r = std::ceil(x); break;
			case K::FTrunc: r = std::trunc(x); break;
			case K::FRound: r = std::round(x); break;
			default: throw Unsupported("f op");
			}
			return fc(T::F32, fromF(r));
		}
	}
	if (mode == Mode::Real) {
		// The caller guarantees no non-finite constants and no zero divisor here.
		auto isv = [&](const Expr* e, double v) { return isFC(e) && fval(e) == v; };
		auto fcst = [&](double v) { return fc(t, t == T::F64 ? fromD(v) : fromF((float)v)); };
		switch (k) {
		case K::FAdd: if (isv(a, 0)) return b; if (isv(b, 0)) return a;
			if (b->k == K::FNeg) return f(K::FSub, a, b->op[0]);
			if (a->id > b->id) std::swap(a, b);
			break;
		case K::FSub: if (isv(b, 0)) return a; if (a == b) return fcst(0); if (isv(a, 0)) return f(K::FNeg, b); break;
		case K::FMul: if (isv(a, 0)) return a; if (isv(b, 0)) return b; if (isv(a, 1)) return b; if (isv(b, 1)) return a;
			if (isv(a, -1)) return f(K::FNeg, b); if (isv(b, -1)) return f(K::FNeg, a);
			if (a->id > b->id) std::swap(a, b);
			break;
		case K::FDiv: if (isv(b, 1)) return a; if (isv(a, 0)) return a; if (a == b) return fcst(1); break;
		case K::FNeg: if (a->k == K::FNeg) return a->op[0]; if (a->k == K::FSub) return f(K::FSub, a->op[1], a->op[0]); break;
		case K::FAbs: if (a->flo >= 0) return a; if (a->fhi <= 0) return f(K::FNeg, a); if (a->k == K::FNeg) return f(K::FAbs, a->op[0]); break;
		case K::FFloor: case K::FCeil: case K::FTrunc: case K::FRound:
			if (a->k == K::SIToFP || a->k == K::UIToFP) return a; break;
		default: break;
		}
	}
	return mk(k, t, w, 0, a, b);
}

static const size_t POLY_MAX = 600;
static bool polyMulMono(Ctx& C, const std::vector<uint32_t>& m, double c, Ctx::Poly& out, int depth = 0)
{
	if (depth > 60 || m.size() > 24) return false;
	if (!C.pairRule.empty())
		for (size_t i = 0; i < m.size(); i++)
			for (size_t j = i + 1; j < m.size(); j++) {
				if (j > i + 1 && m[j] == m[j - 1]) continue;
				auto it = C.pairRule.find({ m[i], m[j] });
				if (it == C.pairRule.end()) continue;
				std::vector<uint32_t> r;
				for (size_t k = 0; k < m.size(); k++)
					if (k != i && k != j) r.push_back(m[k]);
				Ctx::Poly sub = it->second;
				for (auto& t : sub) {
					std::vector<uint32_t> q;
					std::merge(r.begin(), r.end(), t.first.begin(), t.first.end(), std::back_inserter(q));
					if (t.second != 0 && !polyMulMono(C, q, c * t.second, out, depth + 1)) return false;
				}
				return true;
			}
	out[m] += c;
	return out.size() <= POLY_MAX;
}
bool Ctx::poly(const Expr* e, Poly& out)
{
	auto it = polyMemo.find(e);
	if (it != polyMemo.end()) { out = it->second; return !out.empty() || e->k == K::Const; }
	Poly r;
	bool ok = true;
	switch (e->k) {
	case K::Const: {
		double v = fval(e);
		if (!std::isfinite(v)) return false;
		if (v != 0) r[{}] = v;
		break;
	}
	case K::FAdd: case K::FSub: {
		Poly b;
		ok = poly(e->op[0], r) && poly(e->op[1], b);
		for (auto& t : b) r[t.first] += e->k == K::FAdd ? t.second : -t.second;
		ok = ok && r.size() <= POLY_MAX;
		break;
	}
	case K::FNeg:
		ok = poly(e->op[0], r);
		for (auto& t : r) t.second = -t.second;
		break;
	case K::FDiv:
		if (isFC(e->op[1]) && fval(e->op[1]) != 0) {
			ok = poly(e->op[0], r);
			for (auto& t : r) t.second /= fval(e->op[1]);
		} else {
			Poly d, num;
			if (poly(e->op[1], d) && d.size() == 1 && d.begin()->first.size() == 1 && poly(e->op[0], num)) {
				// times the inverse of the atom
				const Expr* at = polyAtom[d.begin()->first[0]];
				const Expr* inv = f(K::FDiv, fc(T::F64, fromD(1)), at);
				polyAtom[inv->id] = inv;
				pairRule[std::minmax(inv->id, at->id)] = Poly { { {}, 1.0 } };
				for (auto& t : num) {
					std::vector<uint32_t> m = t.first;
					m.insert(std::lower_bound(m.begin(), m.end(), inv->id), inv->id);
					if (!polyMulMono(*this, m, t.second / d.begin()->second, r)) { ok = false; break; }
				}
			} else {
				r[{ e->id }] = 1;
				polyAtom[e->id] = e;
			}
		}
		break;
	case K::FMul: {
		Poly a, b;
		ok = poly(e->op[0], a) && poly(e->op[1], b) && a.size() * b.size() <= 20000;
		if (ok)
			for (auto& t : a)
				for (auto& u : b) {
					std::vector<uint32_t> m;
					std::merge(t.first.begin(), t.first.end(), u.first.begin(), u.first.end(), std::back_inserter(m));
					if (!polyMulMono(*this, m, t.second * u.second, r)) { ok = false; break; }
				}
		break;
	}
	default: {
		auto v = varRule.find(e->id);
		if (v != varRule.end()) r = v->second;
		else r[{ e->id }] = 1;
		polyAtom[e->id] = e;
	}
	}
	if (!ok) r.clear();
	if (r.empty() && ok && e->k != K::Const) r[{}] = 0;
	polyMemo[e] = r;
	out = r;
	return ok;
}
bool Ctx::finish(Poly& p)
{
	for (int round = 0; round < 40; round++) {
		Poly out;
		bool any = false;
		for (auto& t : p) {
			if (t.second == 0) continue;
			const std::vector<uint32_t>& m = t.first;
			size_t i = 0;
			std::map<uint32_t, Poly>::iterator it = rootSquare.end();
			for (; i + 1 < m.size(); i++)
				if (m[i] == m[i + 1] && (it = rootSquare.find(m[i])) != rootSquare.end()) break;
			if (it == rootSquare.end()) { out[m] += t.second; continue; }
			any = true;
			std::vector<uint32_t> rest(m);
			rest.erase(rest.begin() + i, rest.begin() + i + 2);
			for (auto& u : it->second) {
				std::vector<uint32_t> q;
				std::merge(rest.begin(), rest.end(), u.first.begin(), u.first.end(), std::back_inserter(q));
				if (!polyMulMono(*this, q, t.second * u.second, out)) return false;
			}
		}
		p.swap(out);
		if (!any) return true;
		if (p.size() > POLY_MAX) return false;
	}
	return false;
}
// drops what rounding of the coefficients left over
static void polyClean(Ctx::Poly& p, double mag)
{
	for (auto it = p.begin(); it != p.end();) {
		if (std::fabs(it->second) <= 1e-13 * (1 + mag)) it = p.erase(it);
		else ++it;
	}
}
const Expr* Ctx::fromPoly(const Poly& p)
{
	const Expr* e = nullptr;
	for (auto& t : p) {
		const Expr* m = nullptr;
		for (uint32_t id : t.first) m = m ? f(K::FMul, m, polyAtom[id]) : polyAtom[id];
		const Expr* c = fc(T::F64, fromD(t.second));
		m = !m ? c : t.second == 1 ? m : f(K::FMul, m, c);
		e = e ? f(K::FAdd, e, m) : m;
	}
	return e ? e : fc(T::F64, fromD(0));
}
static double polyMag(const Ctx::Poly& p)
{
	double m = 0;
	for (auto& t : p) m += std::fabs(t.second);
	return m;
}
void Ctx::root(const Expr* r, const Expr* radicand)
{
	Poly p, full;
	if (pairRule.count({ r->id, r->id }) || rootSquare.count(r->id) || !poly(radicand, p)) return;
	polyClean(p, polyMag(p));
	full = p;
	polyAtom[r->id] = r;
	if (!finish(full)) return;
	// the square of another root plus a constant
	for (auto& o : rootSquare) {
		Poly d = full;
		double mag = polyMag(d) + polyMag(o.second);
		for (auto& t : o.second) d[t.first] -= t.second;
		polyClean(d, mag);
		if (d.empty() || (d.size() == 1 && d.begin()->first.empty())) {
			Poly v { { { o.first, o.first }, 1.0 } };
			if (!d.empty()) v[{}] = d.begin()->second;
			pairRule[{ r->id, r->id }] = v;
			return;
		}
	}
	bool lazy = true;
	for (auto& t : p)
		for (uint32_t id : t.first) lazy = lazy && !rootSquare.count(id);
	if (lazy) rootSquare[r->id] = p;
	else pairRule[{ r->id, r->id }] = p;
}
void Ctx::rebase(const Expr* r)
{
	auto e = pairRule.find({ r->id, r->id });
	if (e == pairRule.end()) return;
	// r^2 = o^2 + c, o a plain root
	Poly v = e->second;
	double c = 0;
	auto k = v.find({});
	if (k != v.end()) { c = k->second; v.erase(k); }
	if (v.size() != 1 || v.begin()->second != 1 || v.begin()->first.size() != 2 || v.begin()->first[0] != v.begin()->first[1]) return;
	uint32_t o = v.begin()->first[0];
	auto q = rootSquare.find(o);
	if (q == rootSquare.end()) return;
	Poly p = q->second;
	p[{}] += c;
	pairRule.erase(e);
	rootSquare.erase(q);
	rootSquare[r->id] = p;
	pairRule[{ o, o }] = Poly { { { r->id, r->id }, 1.0 }, { {}, -c } };
	polyMemo.clear();
}
const Expr* Ctx::rootOf(const Expr* radicand)
{
	Poly p;
	if (!polys || radicand->t != T::F64 || !poly(radicand, p)) return nullptr;
	polyClean(p, polyMag(p));
	if (p.empty() || p.size() > 6) return nullptr;
	auto nonneg = [&](const std::vector<uint32_t>& m) {
		for (uint32_t id : m) {
			const Expr* x = polyAtom[id];
			if (x->k == K::FDiv && isFC(x->op[0]) && fval(x->op[0]) > 0) x = x->op[1]; // an inverse
			if (!(x->flo >= 0)) return false;
		}
		return true;
	};
	auto half = [&](const std::vector<uint32_t>& m, std::vector<uint32_t>& h) {
		for (size_t i = 0; i < m.size(); i += 2) {
			if (i + 1 >= m.size() || m[i] != m[i + 1]) return false;
			h.push_back(m[i]);
		}
		return true;
	};
	// square of one monomial
	std::vector<uint32_t> h, g;
	if (p.size() == 1) {
		auto& t = *p.begin();
		if (t.second > 0 && !t.first.empty() && half(t.first, h) && nonneg(h)) return fromPoly(Poly { { h, std::sqrt(t.second) } });
		return nullptr;
	}
	// square of a sum of two nonnegative monomials
	if (p.size() == 3)
		for (auto i = p.begin(); i != p.end(); ++i)
			for (auto j = std::next(i); j != p.end(); ++j) {
				h.clear(); g.clear();
				if (i->second <= 0 || j->second <= 0 || !half(i->first, h) || !half(j->first, g) || !nonneg(h) || !nonneg(g)) continue;
				auto k = p.begin();
				while (k == i || k == j) ++k;
				std::vector<uint32_t> m;
				std::merge(h.begin(), h.end(), g.begin(), g.end(), std::back_inserter(m));
				double a = std::sqrt(i->second), b = std::sqrt(j->second);
				Poly cross;
				if (!polyMulMono(*this, m, 2 * a * b, cross)) continue;
				if (cross.size() != 1 || cross.begin()->first != k->first || std::fabs(cross.begin()->second - k->second) > 1e-12 * (1 + std::fabs(k->second))) continue;
				return fromPoly(Poly { { h, a }, { g, b } });
			}
	return nullptr;
}
const Expr* Ctx::quotient(const Expr* a, const Expr* b)
{
	Poly p, q;
	if (!polys || a->t != T::F64 || !poly(b, q)) return nullptr;
	polyClean(q, polyMag(q));
	if (q.size() != 1 || q.begin()->first.size() != 1 || !poly(a, p)) return nullptr;
	polyClean(p, polyMag(p));
	if (p.empty()) return fc(T::F64, fromD(0));
	uint32_t id = q.begin()->first[0];
	Poly r;
	for (auto& t : p) {
		std::vector<uint32_t> m = t.first;
		auto it = std::find(m.begin(), m.end(), id);
		if (it == m.end()) return nullptr;
		m.erase(it);
		r[m] = t.second / q.begin()->second;
	}
	return fromPoly(r);
}
bool Ctx::polyRatio(const Expr* a, const Expr* b, double& r)
{
	Poly p, q;
	if (!polys || !poly(a, p) || !poly(b, q) || !finish(p) || !finish(q)) return false;
	double mp = 0, mq = 0;
	for (auto& t : p) mp += std::fabs(t.second);
	for (auto& t : q) mq += std::fabs(t.second);
	polyClean(p, mp);
	polyClean(q, mq);
	if (q.empty() || p.size() != q.size()) return false;
	r = p.begin()->second / q.begin()->second;
	for (auto i = p.begin(), j = q.begin(); i != p.end(); ++i, ++j)
		if (i->first != j->first || std::fabs(i->second - r * j->second) > 1e-12 * (std::fabs(i->second) + 1)) return false;
	if (std::fabs(r - std::round(r)) < 1e-12) r = std::round(r);
	return true;
}
bool Ctx::polyConst(const Expr* e, double& v)
{
	Poly p;
	if (isFC(e)) { v = fval(e); return true; }
	if (!poly(e, p) || p.size() > 60 || !finish(p)) return false;
	polyClean(p, polyMag(p));
	if (p.size() > 1 || (p.size() == 1 && !p.begin()->first.empty())) return false;
	v = p.empty() ? 0 : p.begin()->second;
	return true;
}
const Expr* Ctx::canonical(const Expr* e)
{
	Poly p;
	if (!polys || e->t != T::F64 || !poly(e, p) || !finish(p)) return e;
	double mag = 0;
	for (auto& t : p) mag += std::fabs(t.second);
	polyClean(p, mag);
	if (p.empty()) return fc(T::F64, fromD(0));
	if (p.size() == 1 && p.begin()->first.empty()) return fc(T::F64, fromD(p.begin()->second));
	auto& c = canonMap[p];
	if (!c) c = e;
	return c;
}
const Expr* Ctx::normalCompare(const Expr* c)
{
	if (!polys) return c;
	switch (c->k) {
	case K::And: case K::Or:
		if (c->w != 1) return c;
		return bin(c->k, normalCompare(c->op[0]), normalCompare(c->op[1]));
	case K::Not: return lnot(normalCompare(c->op[0]));
	case K::FLe: case K::FLt: {
		Poly p, q;
		if (!poly(c->op[0], p) || !poly(c->op[1], q)) return c;
		size_t before = p.size() + q.size();
		double mag = 0;
		for (auto& t : p) mag += std::fabs(t.second);
		for (auto& t : q) { p[t.first] -= t.second; mag += std::fabs(t.second); }
		polyClean(p, mag);
		if (!finish(p)) return c;
		polyClean(p, mag);
		if (p.size() >= before || p.size() > 60) return c;
		double c0 = 0;
		auto it = p.find({});
		if (it != p.end()) { c0 = it->second; p.erase(it); }
		return fcmp(c->k, fromPoly(p), fc(T::F64, fromD(-c0)));
	}
	default: return c;
	}
}
bool Ctx::polySign(const Expr* a, const Expr* b, double& lo, double& hi)
{
	Poly p, q;
	if (!poly(a, p) || !poly(b, q)) return false;
	double mag = 0;
	for (auto& t : p) mag += std::fabs(t.second);
	for (auto& t : q) { p[t.first] -= t.second; mag += std::fabs(t.second); }
	Poly lazy = p;
	if (!finish(p)) p.swap(lazy);
	lo = hi = 0;
	for (auto& t : p) {
		if (std::fabs(t.second) == 0) continue;
		double l = 1, h = 1;
		for (size_t i = 0; i < t.first.size();) {
			size_t n = 1;
			while (i + n < t.first.size() && t.first[i + n] == t.first[i]) n++;
			const Expr* x = polyAtom[t.first[i]];
			double xl = x->flo, xh = x->fhi;
			double pl = std::pow(xl, (double)n), ph = std::pow(xh, (double)n);
			if (n % 2 == 0) {
				double mx = std::max(pl, ph), mn = xl <= 0 && xh >= 0 ? 0 : std::min(pl, ph);
				pl = mn; ph = mx;
			}
			double c[] = { l * pl, l * ph, h * pl, h * ph };
			l = *std::min_element(c, c + 4);
			h = *std::max_element(c, c + 4);
			i += n;
		}
		double c1 = t.second * l, c2 = t.second * h;
		lo += std::min(c1, c2);
		hi += std::max(c1, c2);
	}
	if (!std::isfinite(lo) || !std::isfinite(hi)) return false;
	double err = 1e-12 * (1 + mag); // coefficients are rounded
	lo -= err;
	hi += err;
	return true;
}

const Expr* Ctx::fcmp(K k, const Expr* a, const Expr* b)
{
	bool ca = isFC(a), cb = b ? isFC(b) : true;
	if (ca && cb) {
		double x = fval(a), y = b ? fval(b) : 0;
		switch (k) {
		case K::FEq: return boolc(x == y);
		case K::FLt: return boolc(x < y);
		case K::FLe: return boolc(x <= y);
		case K::FIsNan: return boolc(std::isnan(x));
		default: break;
		}
	}
	if (mode == Mode::Real) {
		if (k == K::FIsNan) return boolc(ca && std::isnan(fval(a)));
		if ((ca && std::isnan(fval(a))) || (cb && std::isnan(fval(b)))) return fls;
		// non-finite constants against a finite symbolic value
		if (ca && std::isinf(fval(a))) return boolc(k != K::FEq && fval(a) < 0);
		if (cb && std::isinf(fval(b))) return boolc(k != K::FEq && fval(b) > 0);
		if (a == b) return boolc(k != K::FLt);
		if (k == K::FEq && (a->fhi < b->flo || a->flo > b->fhi)) return fls;
		if (k == K::FLt) { if (a->fhi < b->flo) return tru; if (a->flo >= b->fhi) return fls; }
		if (k == K::FLe) { if (a->fhi <= b->flo) return tru; if (a->flo > b->fhi) return fls; }
		double lo, hi;
		if (polys && polySign(a, b, lo, hi)) {
			if (k == K::FEq && (hi < 0 || lo > 0)) { npoly++; return fls; }
			if (k != K::FEq && hi < 0) { npoly++; return tru; }
			if (k != K::FEq && lo > 0) { npoly++; return fls; }
		}
		// integers embedded in reals: compare as integers
		if (a->k == K::SIToFP && b->k == K::SIToFP && a->op[0]->w == b->op[0]->w)
			return cmp(k == K::FEq ? K::Eq : k == K::FLt ? K::Slt : K::Sle, a->op[0], b->op[0]);
	}
	if (k == K::FEq && a->id > b->id) std::swap(a, b);
	return mk(k, T::BV, 1, 0, a, b);
}

const Expr* Ctx::cast(K k, const Expr* a, T t, unsigned w)
{
	if (a->k == K::Const) {
		switch (k) {
		case K::SIToFP: { int64_t v = sx(a->c, a->w); return t == T::F64 ? fc(t, fromD((double)v)) : fc(t, fromF((float)v)); }
		case K::UIToFP: { uint64_t v = a->c; return t == T::F64 ? fc(t, fromD((double)v)) : fc(t, fromF((float)v)); }
		case K::FPToSI: {
			double v = fval(a);
			int64_t r;
			if (std::isnan(v) || v >= 9223372036854775808.0 || v < -9223372036854775808.0) r = INT64_MIN;
			else r = (int64_t)v;
			if (w < 64 && w >= 32 && (r > ((1ll << (w - 1)) - 1) || r < -(1ll << (w - 1)))) r = -(1ll << (w - 1));
			return bv((uint64_t)r, w);
		}
		case K::FPToUI: { double v = fval(a); return bv(std::isnan(v) || v < 0 ? (uint64_t)(int64_t)v : v >= 18446744073709551616.0 ? 0 : (uint64_t)v, w); }
		case K::FPExt: return fc(T::F64, fromD((double)asF(a->c)));
		case K::FPTrunc: return fc(T::F32, fromF((float)asD(a->c)));
		case K::F2I: return bv(a->c, w);
		case K::I2F: return fc(t, a->c);
		default: break;
		}
	}
	if (k == K::F2I && a->k == K::I2F) return a->op[0];
	if (k == K::I2F && a->k == K::F2I && a->op[0]->t == t) return a->op[0];
	if (k == K::I2F && mode == Mode::Real) {
		// sign-bit idioms on the bit pattern of a real
		if (a->k == K::And && a->op[1]->k == K::Const && a->op[0]->k == K::F2I) {}
		throw Unsupported("bit pattern of a symbolic real");
	}
	if (k == K::FPToSI && mode == Mode::Real && a->k == K::SIToFP) {
		if (a->op[0]->w <= w) return sext(a->op[0], w);
		return extract(a->op[0], 0, w);
	}
	return mk(k, t, w, 0, a);
}

// ---------------------------------------------------------------- Z3
// the context counts references: whatever is built here must be held, intermediate terms included
static Z3_context gz;
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(gz, a); return a; }
static Z3_sort keep(Z3_sort a) { Z3_inc_ref(gz, (Z3_ast)a); return a; }
#define Z3_mk_add(...) keep(((Z3_mk_add))(__VA_ARGS__))
#define Z3_mk_and(...) keep(((Z3_mk_and))(__VA_ARGS__))
#define Z3_mk_bv2int(...) keep(((Z3_mk_bv2int))(__VA_ARGS__))
#define Z3_mk_bv_sort(...) keep(((Z3_mk_bv_sort))(__VA_ARGS__))
#define Z3_mk_bvadd(...) keep(((Z3_mk_bvadd))(__VA_ARGS__))
#define Z3_mk_bvand(...) keep(((Z3_mk_bvand))(__VA_ARGS__))
#define Z3_mk_bvashr(...) keep(((Z3_mk_bvashr))(__VA_ARGS__))
#define Z3_mk_bvlshr(...) keep(((Z3_mk_bvlshr))(__VA_ARGS__))
#define Z3_mk_bvmul(...) keep(((Z3_mk_bvmul))(__VA_ARGS__))
#define Z3_mk_bvor(...) keep(((Z3_mk_bvor))(__VA_ARGS__))
#define Z3_mk_bvsdiv(...) keep(((Z3_mk_bvsdiv))(__VA_ARGS__))
#define Z3_mk_bvshl(...) keep(((Z3_mk_bvshl))(__VA_ARGS__))
#define Z3_mk_bvsle(...) keep(((Z3_mk_bvsle))(__VA_ARGS__))
#define Z3_mk_bvslt(...) keep(((Z3_mk_bvslt))(__VA_ARGS__))
#define Z3_mk_bvsrem(...) keep(((Z3_mk_bvsrem))(__VA_ARGS__))
#define Z3_mk_bvsub(...) keep(((Z3_mk_bvsub))(__VA_ARGS__))
#define Z3_mk_bvudiv(...) keep(((Z3_mk_bvudiv))(__VA_ARGS__))
#define Z3_mk_bvule(...) keep(((Z3_mk_bvule))(__VA_ARGS__))
#define Z3_mk_bvult(...) keep(((Z3_mk_bvult))(__VA_ARGS__))
#define Z3_mk_bvurem(...) keep(((Z3_mk_bvurem))(__VA_ARGS__))
#define Z3_mk_bvxor(...) keep(((Z3_mk_bvxor))(__VA_ARGS__))
#define Z3_mk_concat(...) keep(((Z3_mk_concat))(__VA_ARGS__))
#define Z3_mk_const(...) keep(((Z3_mk_const))(__VA_ARGS__))
#define Z3_mk_div(...) keep(((Z3_mk_div))(__VA_ARGS__))
#define Z3_mk_eq(...) keep(((Z3_mk_eq))(__VA_ARGS__))
#define Z3_mk_extract(...) keep(((Z3_mk_extract))(__VA_ARGS__))
#define Z3_mk_false(...) keep(((Z3_mk_false))(__VA_ARGS__))
#define Z3_mk_fpa_abs(...) keep(((Z3_mk_fpa_abs))(__VA_ARGS__))
#define Z3_mk_fpa_add(...) keep(((Z3_mk_fpa_add))(__VA_ARGS__))
#define Z3_mk_fpa_div(...) keep(((Z3_mk_fpa_div))(__VA_ARGS__))
#define Z3_mk_fpa_eq(...) keep(((Z3_mk_fpa_eq))(__VA_ARGS__))
#define Z3_mk_fpa_is_nan(...) keep(((Z3_mk_fpa_is_nan))(__VA_ARGS__))
#define Z3_mk_fpa_leq(...) keep(((Z3_mk_fpa_leq))(__VA_ARGS__))
#define Z3_mk_fpa_lt(...) keep(((Z3_mk_fpa_lt))(__VA_ARGS__))
#define Z3_mk_fpa_mul(...) keep(((Z3_mk_fpa_mul))(__VA_ARGS__))
#define Z3_mk_fpa_neg(...) keep(((Z3_mk_fpa_neg))(__VA_ARGS__))
#define Z3_mk_fpa_round_to_integral(...) keep(((Z3_mk_fpa_round_to_integral))(__VA_ARGS__))
#define Z3_mk_fpa_sqrt(...) keep(((Z3_mk_fpa_sqrt))(__VA_ARGS__))
#define Z3_mk_fpa_sub(...) keep(((Z3_mk_fpa_sub))(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_bv(...) keep(((Z3_mk_fpa_to_fp_bv))(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_float(...) keep(((Z3_mk_fpa_to_fp_float))(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_signed(...) keep(((Z3_mk_fpa_to_fp_signed))(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_unsigned(...) keep(((Z3_mk_fpa_to_fp_unsigned))(__VA_ARGS__))
#define Z3_mk_fpa_to_ieee_bv(...) keep(((Z3_mk_fpa_to_ieee_bv))(__VA_ARGS__))
#define Z3_mk_fpa_to_sbv(...) keep(((Z3_mk_fpa_to_sbv))(__VA_ARGS__))
#define Z3_mk_fpa_to_ubv(...) keep(((Z3_mk_fpa_to_ubv))(__VA_ARGS__))
#define Z3_mk_ge(...) keep(((Z3_mk_ge))(__VA_ARGS__))
#define Z3_mk_int2bv(...) keep(((Z3_mk_int2bv))(__VA_ARGS__))
#define Z3_mk_int2real(...) keep(((Z3_mk_int2real))(__VA_ARGS__))
#define Z3_mk_int64(...) keep(((Z3_mk_int64))(__VA_ARGS__))
#define Z3_mk_ite(...) keep(((Z3_mk_ite))(__VA_ARGS__))
#define Z3_mk_le(...) keep(((Z3_mk_le))(__VA_ARGS__))
#define Z3_mk_lt(...) keep(((Z3_mk_lt))(__VA_ARGS__))
#define Z3_mk_mod(...) keep(((Z3_mk_mod))(__VA_ARGS__))
#define Z3_mk_mul(...) keep(((Z3_mk_mul))(__VA_ARGS__))
#define Z3_mk_not(...) keep(((Z3_mk_not))(__VA_ARGS__))
#define Z3_mk_numeral(...) keep(((Z3_mk_numeral))(__VA_ARGS__))
#define Z3_mk_or(...) keep(((Z3_mk_or))(__VA_ARGS__))
#define Z3_mk_real(...) keep(((Z3_mk_real))(__VA_ARGS__))
#define Z3_mk_real2int(...) keep(((Z3_mk_real2int))(__VA_ARGS__))
#define Z3_mk_sign_ext(...) keep(((Z3_mk_sign_ext))(__VA_ARGS__))
#define Z3_mk_sub(...) keep(((Z3_mk_sub))(__VA_ARGS__))
#define Z3_mk_true(...) keep(((Z3_mk_true))(__VA_ARGS__))
#define Z3_mk_unary_minus(...) keep(((Z3_mk_unary_minus))(__VA_ARGS__))
#define Z3_mk_unsigned_int64(...) keep(((Z3_mk_unsigned_int64))(__VA_ARGS__))
#define Z3_mk_zero_ext(...) keep(((Z3_mk_zero_ext))(__VA_ARGS__))
Z3_ast Ctx::num(i128 v)
{
	if (v >= INT64_MIN && v <= INT64_MAX) return Z3_mk_int64(z, (int64_t)v, sInt);
	mpz_class m = (unsigned long)(uint64_t)((v < 0 ? -v : v) >> 64);
	m <<= 64;
	m += (unsigned long)(uint64_t)(v < 0 ? -v : v);
	if (v < 0) m = -m;
	return Z3_mk_numeral(z, m.get_str().c_str(), sInt);
}
Z3_ast Ctx::wrapInt(Z3_ast a, unsigned w)
{
	Z3_ast h = num((i128)1 << (w - 1)), m = num((i128)1 << w);
	Z3_ast ad[2] = { a, h };
	Z3_ast s = Z3_mk_mod(z, Z3_mk_add(z, 2, ad), m);
	Z3_ast sb[2] = { s, h };
	return Z3_mk_sub(z, 2, sb);
}
Z3_ast Ctx::uns(const Expr* e)
{
	Z3_ast a = toZ3(e);
	if (e->w == 1) return Z3_mk_ite(z, a, num(1), num(0));
	if (e->lo >= 0) return a;
	Z3_ast ad[2] = { a, num((i128)1 << e->w) };
	return Z3_mk_ite(z, Z3_mk_lt(z, a, num(0)), Z3_mk_add(z, 2, ad), a);
}

Z3_ast Ctx::toZ3(const Expr* e)
{
	gz = z;
	if (e->z) return e->z;
	// iterative post-order to avoid deep recursion
	std::vector<const Expr*> st { e };
	while (!st.empty()) {
		const Expr* x = st.back();
		if (x->z) { st.pop_back(); continue; }
		bool ready = true;
		for (int i = 0; i < x->n; i++)
			if (!x->op[i]->z) { st.push_back(x->op[i]); ready = false; }
		if (!ready) continue;
		x->z = ret(build(x));
		st.pop_back();
	}
	return e->z;
}

static Z3_ast realConst(Ctx& c, double v)
{
	if (!std::isfinite(v)) throw Unsupported("non-finite constant in a real expression");
	mpq_class q(v);
	return Z3_mk_numeral(c.z, q.get_str().c_str(), c.sReal);
}

Z3_ast Ctx::build(const Expr* e)
{
	const Expr *A = e->op[0], *B = e->op[1], *C = e->op[2];
	Z3_ast a = A ? A->z : nullptr, b = B ? B->z : nullptr, c = C ? C->z : nullptr;
	Z3_ast ab[2] = { a, b };
	bool real = mode == Mode::Real;
	if (e->k == K::Var) {
		Z3_sort s = e->t == T::BV ? (e->w == 1 ? sBool : real ? sInt : Z3_mk_bv_sort(z, e->w)) : real ? sReal : e->t == T::F64 ? sF64 : sF32;
		return Z3_mk_const(z, Z3_mk_string_symbol(z, vars[e->c].name.c_str()), s);
	}
	if (e->t != T::BV && e->k == K::Const) {
		if (real) return realConst(*this, fval(e));
		if (e->t == T::F64) return Z3_mk_fpa_to_fp_bv(z, Z3_mk_unsigned_int64(z, e->c, Z3_mk_bv_sort(z, 64)), sF64);
		return Z3_mk_fpa_to_fp_bv(z, Z3_mk_unsigned_int64(z, e->c, Z3_mk_bv_sort(z, 32)), sF32);
	}
	// booleans
	if (e->t == T::BV && e->w == 1) {
		switch (e->k) {
		case K::Const: return e->c ? Z3_mk_true(z) : Z3_mk_false(z);
		case K::Not: return Z3_mk_not(z, a);
		case K::And: return Z3_mk_and(z, 2, ab);
		case K::Or: return Z3_mk_or(z, 2, ab);
		case K::Ite: return Z3_mk_ite(z, a, b, c);
		case K::Eq: return Z3_mk_eq(z, a, b);
		case K::Slt: return real ? Z3_mk_lt(z, a, b) : Z3_mk_bvslt(z, a, b);
		case K::Sle: return real ? Z3_mk_le(z, a, b) : Z3_mk_bvsle(z, a, b);
		case K::Ult: return real ? Z3_mk_lt(z, uns(A), uns(B)) : Z3_mk_bvult(z, a, b);
		case K::Ule: return real ? Z3_mk_le(z, uns(A), uns(B)) : Z3_mk_bvule(z, a, b);
		case K::FEq: return real ? Z3_mk_eq(z, a, b) : Z3_mk_fpa_eq(z, a, b);
		case K::FLt: return real ? Z3_mk_lt(z, a, b) : Z3_mk_fpa_lt(z, a, b);
		case K::FLe: return real ? Z3_mk_le(z, a, b) : Z3_mk_fpa_leq(z, a, b);
		case K::FIsNan: return real ? Z3_mk_false(z) : Z3_mk_fpa_is_nan(z, a);
		case K::Extract:
			if (real) {
				Z3_ast x = uns(A);
				if (e->c) x = Z3_mk_div(z, x, num((i128)1 << e->c));
				return Z3_mk_eq(z, Z3_mk_mod(z, x, num(2)), num(1));
			}
			return Z3_mk_eq(z, Z3_mk_extract(z, e->c, e->c, a), Z3_mk_unsigned_int64(z, 1, Z3_mk_bv_sort(z, 1)));
		default: throw Unsupported("bool node");
		}
	}
	if (e->t == T::BV && real) {
		auto W = [&](Z3_ast x) { return e->wrap ? wrapInt(x, e->w) : x; };
		switch (e->k) {
		case K::Const: return num(sx(e->c, e->w));
		case K::Add: return W(Z3_mk_add(z, 2, ab));
		case K::Sub: return W(Z3_mk_sub(z, 2, ab));
		case K::Mul: return W(Z3_mk_mul(z, 2, ab));
		case K::UDiv: { Z3_ast r = Z3_mk_div(z, uns(A), uns(B)); return A->lo >= 0 ? r : wrapInt(r, e->w); }
		case K::URem: { Z3_ast r = Z3_mk_mod(z, uns(A), uns(B)); return A->lo >= 0 || B->lo > 0 ? r : wrapInt(r, e->w); }
		case K::SDiv: case K::SRem: {
			Z3_ast na = Z3_mk_unary_minus(z, a), nb = Z3_mk_unary_minus(z, b);
			Z3_ast ua = A->lo >= 0 ? a : A->hi <= 0 ? na : Z3_mk_ite(z, Z3_mk_lt(z, a, num(0)), na, a);
			Z3_ast ub = B->lo >= 0 ? b : B->hi <= 0 ? nb : Z3_mk_ite(z, Z3_mk_lt(z, b, num(0)), nb, b);
			if (e->k == K::SDiv) {
				Z3_ast q = Z3_mk_div(z, ua, ub), nq = Z3_mk_unary_minus(z, q);
				if (A->lo >= 0 && B->lo >= 0) return q;
				if (B->lo >= 0) return Z3_mk_ite(z, Z3_mk_lt(z, a, num(0)), nq, q);
				return Z3_mk_ite(z, Z3_mk_eq(z, Z3_mk_lt(z, a, num(0)), Z3_mk_lt(z, b, num(0))), q, nq);
			}
			Z3_ast r = Z3_mk_mod(z, ua, ub);
			if (A->lo >= 0) return r;
			return Z3_mk_ite(z, Z3_mk_lt(z, a, num(0)), Z3_mk_unary_minus(z, r), r);
		}
		case K::Shl:
			if (B->k == K::Const) { Z3_ast m[2] = { a, num((i128)1 << B->c) }; return W(Z3_mk_mul(z, 2, m)); }
			break;
		case K::LShr:
			if (B->k == K::Const) return Z3_mk_div(z, uns(A), num((i128)1 << B->c));
			break;
		case K::AShr:
			if (B->k == K::Const) return Z3_mk_div(z, a, num((i128)1 << B->c));
			break;
		case K::Xor:
			if (B->k == K::Const && B->c == msk(~0ull, e->w)) { Z3_ast m[2] = { num(-1), a }; return Z3_mk_sub(z, 2, m); }
			{
				Z3_ast x = Z3_mk_int2bv(z, e->w, a), y = Z3_mk_int2bv(z, e->w, b);
				return Z3_mk_bv2int(z, Z3_mk_bvxor(z, x, y), true);
			}
		case K::ZExt: return uns(A);
		case K::SExt: return A->w == 1 ? Z3_mk_ite(z, a, num(-1), num(0)) : a;
		case K::Ite: return Z3_mk_ite(z, a, b, c);
		case K::Extract: {
			Z3_ast x = a;
			if (e->c) x = Z3_mk_div(z, x, num((i128)1 << e->c)); // floor division keeps the low bits right
			else if (!e->wrap) return x;
			return wrapInt(x, e->w);
		}
		case K::Concat: {
			Z3_ast hi = A->w == 1 ? Z3_mk_ite(z, a, num(-1), num(0)) : a;
			Z3_ast m[2] = { hi, num((i128)1 << B->w) };
			Z3_ast s[2] = { Z3_mk_mul(z, 2, m), uns(B) };
			return Z3_mk_add(z, 2, s);
		}
		case K::FPToSI: case K::FPToUI: {
			Z3_ast zero = Z3_mk_int64(z, 0, sReal);
			Z3_ast p = Z3_mk_real2int(z, a);
			if (A->flo >= 0) return p;
			Z3_ast n = Z3_mk_unary_minus(z, Z3_mk_real2int(z, Z3_mk_unary_minus(z, a)));
			return Z3_mk_ite(z, Z3_mk_ge(z, a, zero), p, n);
		}
		case K::And: case K::Or: {
			// fall back to bit-vectors
			Z3_ast x = Z3_mk_int2bv(z, e->w, a), y = Z3_mk_int2bv(z, e->w, b);
			return Z3_mk_bv2int(z, e->k == K::And ? Z3_mk_bvand(z, x, y) : Z3_mk_bvor(z, x, y), true);
		}
		default: break;
		}
		throw Unsupported("integer op in real mode: " + str(e, 3));
	}
	if (e->t == T::BV) {
		auto B1 = [&](const Expr* x) { return x->w == 1 ? Z3_mk_ite(z, x->z, Z3_mk_unsigned_int64(z, 1, Z3_mk_bv_sort(z, 1)), Z3_mk_unsigned_int64(z, 0, Z3_mk_bv_sort(z, 1))) : x->z; };
		switch (e->k) {
		case K::Const: return Z3_mk_unsigned_int64(z, e->c, Z3_mk_bv_sort(z, e->w));
		case K::Add: return Z3_mk_bvadd(z, a, b);
		case K::Sub: return Z3_mk_bvsub(z, a, b);
		case K::Mul: return Z3_mk_bvmul(z, a, b);
		case K::UDiv: return Z3_mk_bvudiv(z, a, b);
		case K::SDiv: return Z3_mk_bvsdiv(z, a, b);
		case K::URem: return Z3_mk_bvurem(z, a, b);
		case K::SRem: return Z3_mk_bvsrem(z, a, b);
		case K::And: return Z3_mk_bvand(z, a, b);
		case K::Or: return Z3_mk_bvor(z, a, b);
		case K::Xor: return Z3_mk_bvxor(z, a, b);
		case K::Shl: return Z3_mk_bvshl(z, a, b);
		case K::LShr: return Z3_mk_bvlshr(z, a, b);
		case K::AShr: return Z3_mk_bvashr(z, a, b);
		case K::ZExt: return Z3_mk_zero_ext(z, e->w - A->w, B1(A));
		case K::SExt: return Z3_mk_sign_ext(z, e->w - A->w, B1(A));
		case K::Extract: return Z3_mk_extract(z, e->c + e->w - 1, e->c, a);
		case K::Concat: return Z3_mk_concat(z, B1(A), B1(B));
		case K::Ite: return Z3_mk_ite(z, a, b, c);
		case K::FPToSI: return Z3_mk_fpa_to_sbv(z, rtz, a, e->w);
		case K::FPToUI: return Z3_mk_fpa_to_ubv(z, rtz, a, e->w);
		case K::F2I: return Z3_mk_fpa_to_ieee_bv(z, a);
		default: throw Unsupported("bv op");
		}
	}
	if (real) {
		switch (e->k) {
		case K::FAdd: return Z3_mk_add(z, 2, ab);
		case K::FSub: return Z3_mk_sub(z, 2, ab);
		case K::FMul: return Z3_mk_mul(z, 2, ab);
		case K::FDiv: return Z3_mk_div(z, a, b);
		case K::FNeg: return Z3_mk_unary_minus(z, a);
		case K::FAbs: return Z3_mk_ite(z, Z3_mk_ge(z, a, Z3_mk_int64(z, 0, sReal)), a, Z3_mk_unary_minus(z, a));
		case K::Ite: return Z3_mk_ite(z, a, b, c);
		case K::SIToFP: return Z3_mk_int2real(z, A->w == 1 ? Z3_mk_ite(z, a, num(-1), num(0)) : a);
		case K::UIToFP: return Z3_mk_int2real(z, uns(A));
		case K::FPExt: case K::FPTrunc: return a;
		case K::FFloor: return Z3_mk_int2real(z, Z3_mk_real2int(z, a));
		case K::FCeil: return Z3_mk_unary_minus(z, Z3_mk_int2real(z, Z3_mk_real2int(z, Z3_mk_unary_minus(z, a))));
		case K::FTrunc: {
			Z3_ast p = Z3_mk_int2real(z, Z3_mk_real2int(z, a));
			Z3_ast n = Z3_mk_unary_minus(z, Z3_mk_int2real(z, Z3_mk_real2int(z, Z3_mk_unary_minus(z, a))));
			return Z3_mk_ite(z, Z3_mk_ge(z, a, Z3_mk_int64(z, 0, sReal)), p, n);
		}
		case K::FRound: { // half away from zero
			Z3_ast half = Z3_mk_real(z, 1, 2);
			Z3_ast pa[2] = { a, half };
			Z3_ast p = Z3_mk_int2real(z, Z3_mk_real2int(z, Z3_mk_add(z, 2, pa)));
			Z3_ast na[2] = { Z3_mk_unary_minus(z, a), half };
			Z3_ast n = Z3_mk_unary_minus(z, Z3_mk_int2real(z, Z3_mk_real2int(z, Z3_mk_add(z, 2, na))));
			return Z3_mk_ite(z, Z3_mk_ge(z, a, Z3_mk_int64(z, 0, sReal)), p, n);
		}
		default: throw Unsupported("real op " + std::to_string((int)e->k));
		}
	}
	switch (e->k) {
	case K::FAdd: return Z3_mk_fpa_add(z, rne, a, b);
	case K::FSub: return Z3_mk_fpa_sub(z, rne, a, b);
	case K::FMul: return Z3_mk_fpa_mul(z, rne, a, b);
	case K::FDiv: return Z3_mk_fpa_div(z, rne, a, b);
	case K::FNeg: return Z3_mk_fpa_neg(z, a);
	case K::FAbs: return Z3_mk_fpa_abs(z, a);
	case K::FSqrt: return Z3_mk_fpa_sqrt(z, rne, a);
	case K::FFloor: return Z3_mk_fpa_round_to_integral(z, rtn, a);
	case K::FCeil: return Z3_mk_fpa_round_to_integral(z, rtp, a);
	case K::FTrunc: return Z3_mk_fpa_round_to_integral(z, rtz, a);
	case K::FRound: return Z3_mk_fpa_round_to_integral(z, rna, a);
	case K::Ite: return Z3_mk_ite(z, a, b, c);
	case K::SIToFP: return A->w == 1 ? throw Unsupported("i1 to fp") : Z3_mk_fpa_to_fp_signed(z, rne, a, e->t == T::F64 ? sF64 : sF32);
	case K::UIToFP: return A->w == 1 ? throw Unsupported("i1 to fp") : Z3_mk_fpa_to_fp_unsigned(z, rne, a, e->t == T::F64 ? sF64 : sF32);
	case K::FPExt: return Z3_mk_fpa_to_fp_float(z, rne, a, sF64);
	case K::FPTrunc: return Z3_mk_fpa_to_fp_float(z, rne, a, sF32);
	case K::I2F: return Z3_mk_fpa_to_fp_bv(z, a, e->t == T::F64 ? sF64 : sF32);
	default: throw Unsupported("fp op");
	}
}

std::string Ctx::str(const Expr* e, int d)
{
	static const char* nm[] = { "c", "v", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "not", "zext", "sext", "extract", "concat", "ite", "fadd", "fsub", "fmul", "fdiv", "fneg", "fsqrt", "fabs", "frem", "ffloor", "fceil", "ftrunc", "fround", "feq", "flt", "fle", "fisnan", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "f2i", "i2f" };
	if (e->k == K::Const) return e->t == T::BV ? std::to_string(sx(e->c, e->w)) : std::to_string(fval(e));
	if (e->k == K::Var) return vars[e->c].name;
	if (d == 0) return "..";
	std::string s = "(";
	s += nm[(int)e->k];
	for (int i = 0; i < e->n; i++) s += " " + str(e->op[i], d - 1);
	return s + ")";
}
