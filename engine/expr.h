// Expression layer of the symbolic executor: hash-consed DAG with constant
// folding, cheap interval bounds and translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <functional>
#include <stdexcept>
#include <z3.h>

typedef __int128 i128;

enum class K : uint8_t {
	Const, Var,
	Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
	Eq, Ult, Ule, Slt, Sle, Not, // Not: boolean
	ZExt, SExt, Extract, Concat, Ite,
	FAdd, FSub, FMul, FDiv, FNeg, FSqrt, FAbs, FRem, FFloor, FCeil, FTrunc, FRound,
	FEq, FLt, FLe, FIsNan,
	SIToFP, UIToFP, FPToSI, FPToUI, FPExt, FPTrunc, F2I, I2F // F2I/I2F: bit casts
};

enum class T : uint8_t { BV, F64, F32 };

struct Expr {
	K k;
	T t;
	uint8_t w; // bits
	uint8_t n;
	bool wrap = false; // Int mode: result may overflow its width
	uint32_t id;
	const Expr* op[3];
	uint64_t c; // constant bits, variable index, extract offset
	int64_t lo, hi; // signed bounds (BV)
	double flo, fhi; // bounds (F), valid in real mode only
	mutable Z3_ast z = nullptr;
};

enum class Mode { Real, Ieee };

struct Unsupported : std::runtime_error {
	using std::runtime_error::runtime_error;
};

inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
inline uint64_t msk(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
inline double asD(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline uint64_t fromD(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
inline float asF(uint64_t b) { uint32_t x = (uint32_t)b; float d; memcpy(&d, &x, 4); return d; }
inline uint64_t fromF(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }

struct VarInfo {
	std::string name;
	T t;
	uint8_t w;
	int64_t lo, hi;
	double flo, fhi;
	const Expr* e;
};

class Ctx {
public:
	Mode mode = Mode::Real;
	Z3_context z = nullptr;
	std::vector<VarInfo> vars;
	const Expr *tru, *fls;

	void init();
	const Expr* bv(uint64_t v, unsigned w);
	const Expr* fc(T t, uint64_t bits);
	const Expr* boolc(bool b) { return b ? tru : fls; }
	const Expr* var(const std::string& name, T t, unsigned w, int64_t lo, int64_t hi, double flo, double fhi);

	const Expr* bin(K k, const Expr* a, const Expr* b);
	const Expr* cmp(K k, const Expr* a, const Expr* b);
	const Expr* lnot(const Expr* a);
	const Expr* land(const Expr* a, const Expr* b) { return bin(K::And, a, b); }
	const Expr* lor(const Expr* a, const Expr* b) { return bin(K::Or, a, b); }
	const Expr* zext(const Expr* a, unsigned w);
	const Expr* sext(const Expr* a, unsigned w);
	const Expr* extract(const Expr* a, unsigned off, unsigned w);
	const Expr* concat(const Expr* hi, const Expr* lo);
	const Expr* ite(const Expr* c, const Expr* a, const Expr* b);
	const Expr* f(K k, const Expr* a, const Expr* b = nullptr);
	const Expr* fcmp(K k, const Expr* a, const Expr* b = nullptr);
	const Expr* cast(K k, const Expr* a, T t, unsigned w);

	// node built without interval folding (used to hand a bound to the solver)
	const Expr* raw(K k, const Expr* a, const Expr* b) { return mk(k, T::BV, 1, 0, a, b); }
	Z3_ast toZ3(const Expr* e);
	std::string str(const Expr* e, int depth = 6);
	bool isFC(const Expr* e) const { return e->t != T::BV && e->k == K::Const; }
	double fval(const Expr* e) const { return e->t == T::F64 ? asD(e->c) : asF(e->c); }
	uint64_t nexpr = 0;

	// polynomial normal form (real mode), modulo sin^2 + cos^2 = 1 for known pairs
	typedef std::map<std::vector<uint32_t>, double> Poly;
	bool polys = false;
	uint64_t npoly = 0; // comparisons it decided
	// rewrite rules valid by definition of the atoms (sqrt, sine and cosine, quotients), by expression id
	std::map<std::pair<uint32_t, uint32_t>, Poly> pairRule; // product of two atoms, sorted
	std::unordered_map<uint32_t, Poly> varRule;
	void rule(const Expr* a, const Expr* b, const Expr* value) { Poly p; if (poly(value, p)) pairRule[std::minmax(a->id, b->id)] = p; }
	void rule(const Expr* a, const Expr* value) { Poly p; if (poly(value, p)) { if (polyMemo.count(a)) polyMemo.clear(); varRule[a->id] = p; } }
	// Squares of the roots of plain polynomials are expanded last (finish), so that a
	// factor r^2 still meets the rules for r.
	std::map<uint32_t, Poly> rootSquare;
	bool finish(Poly& p);
	void root(const Expr* r, const Expr* radicand); // r = sqrt(radicand)
	void rebase(const Expr* r); // r^2 becomes what the squares of related roots are expressed by
	const Expr* rootOf(const Expr* radicand); // closed form of a square root, or null
	const Expr* quotient(const Expr* a, const Expr* b); // a / b with a common atom cancelled, or null
	const Expr* canonical(const Expr* e); // a fixed representative of expressions equal as polynomials
	bool polyRatio(const Expr* a, const Expr* b, double& r); // a = r b, r constant
	bool polyConst(const Expr* e, double& v); // everything but a constant cancels
	const Expr* fromPoly(const Poly& p);
	const Expr* normalCompare(const Expr* c); // comparisons of an assertion in normal form (coefficients rounded)
	std::map<Poly, const Expr*> canonMap;
	bool poly(const Expr* e, Poly& out);
	bool polySign(const Expr* a, const Expr* b, double& lo, double& hi); // bounds of a - b
	std::unordered_map<const Expr*, Poly> polyMemo;
	std::unordered_map<uint32_t, const Expr*> polyAtom;

	Z3_sort sInt, sReal, sBool, sRM, sF64, sF32;
	Z3_ast rne, rtz, rtp, rtn, rna;

private:
	struct Key {
		K k; T t; uint8_t w; uint64_t c; const Expr* o[3];
		bool operator==(const Key& r) const { return k == r.k && t == r.t && w == r.w && c == r.c && o[0] == r.o[0] && o[1] == r.o[1] && o[2] == r.o[2]; }
	};
	struct KeyHash {
		size_t operator()(const Key& k) const
		{
			uint64_t h = (uint64_t)k.k * 1000003 + (uint64_t)k.t * 31 + k.w;
			auto mix = [&](uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
			mix(k.c);
			for (int i = 0; i < 3; i++)
				mix(k.o[i] ? k.o[i]->id : 0);
			return h;
		}
	};
	std::unordered_map<Key, const Expr*, KeyHash> table;
	const Expr* mk(K k, T t, unsigned w, uint64_t c, const Expr* a = nullptr, const Expr* b = nullptr, const Expr* d = nullptr);
	void bounds(Expr* e);
	Z3_ast build(const Expr* e);
	Z3_ast zi(const Expr* e) { return toZ3(e); }
	Z3_ast num(i128 v);
	Z3_ast wrapInt(Z3_ast a, unsigned w);
	Z3_ast uns(const Expr* e);
	Z3_ast ret(Z3_ast a) { Z3_inc_ref(z, a); return a; }
};
