// ------------------------------------------------------------------ trigonometry (real mode)
static const double PI = M_PI;
struct Trig { const Expr *c, *s; };
static std::unordered_map<const Expr*, Trig> trigMap;
static std::unordered_map<const Expr*, std::vector<const Expr*>> trigAx; // axioms to assert on use
static T TF = T::F64;
static const Expr* C_(double v) { return fz(TF, v); }

static void decomp(const Expr* e, double k, std::map<uint32_t, std::pair<const Expr*, double>>& t, double& c)
{
	switch (e->k) {
	case K::Const: c += k * X.fval(e); return;
	case K::FAdd: decomp(e->op[0], k, t, c); decomp(e->op[1], k, t, c); return;
	case K::FSub: decomp(e->op[0], k, t, c); decomp(e->op[1], -k, t, c); return;
	case K::FNeg: decomp(e->op[0], -k, t, c); return;
	case K::FMul:
		if (X.isFC(e->op[0])) { decomp(e->op[1], k * X.fval(e->op[0]), t, c); return; }
		if (X.isFC(e->op[1])) { decomp(e->op[0], k * X.fval(e->op[1]), t, c); return; }
		break;
	case K::FDiv:
		if (X.isFC(e->op[1])) { decomp(e->op[0], k / X.fval(e->op[1]), t, c); return; }
		break;
	default: break;
	}
	auto& p = t[e->id];
	p.first = e;
	p.second += k;
}
static bool intValued(const Expr* e)
{
	switch (e->k) {
	case K::FTrunc: case K::FFloor: case K::FCeil: case K::FRound: case K::SIToFP: case K::UIToFP: return true;
	case K::FNeg: return intValued(e->op[0]);
	case K::FAdd: case K::FSub: case K::FMul: return intValued(e->op[0]) && intValued(e->op[1]);
	case K::Const: return (X.fval(e) == std::floor(X.fval(e)));
	case K::Ite: return intValued(e->op[1]) && intValued(e->op[2]);
	default: return false;
	}
}
static void snap(double c, double& cc, double& ss)
{
	cc = std::cos(c); ss = std::sin(c);
	for (double* p : { &cc, &ss }) {
		if (std::fabs(*p) < 1e-12) *p = 0;
		if (std::fabs(*p - 1) < 1e-12) *p = 1;
		if (std::fabs(*p + 1) < 1e-12) *p = -1;
	}
}
static Trig atomTrig(State& s, const Expr* a)
{
	auto it = trigMap.find(a);
	Trig r;
	if (it == trigMap.end()) {
		std::string n = std::to_string(a->id);
		double sl = -1, sh = 1, cl = -1, ch = 1;
		if (a->flo >= -1e-9 && a->fhi <= PI + 1e-9) sl = 0;
		if (a->flo >= -PI - 1e-9 && a->fhi <= 1e-9) sh = 0;
		if (a->flo >= -PI / 2 - 1e-9 && a->fhi <= PI / 2 + 1e-9) cl = 0;
		r.c = X.var("cos!" + n, TF, 64, 0, 0, cl, ch);
		r.s = X.var("sin!" + n, TF, 64, 0, 0, sl, sh);
		trigMap[a] = r;
		if (X.polys) X.rule(r.s, r.s, X.f(K::FSub, C_(1), X.f(K::FMul, r.c, r.c)));
		auto& ax = trigAx[a];
		ax.push_back(X.raw(K::FLe, C_(cl), r.c)); ax.push_back(X.raw(K::FLe, r.c, C_(ch)));
		ax.push_back(X.raw(K::FLe, C_(sl), r.s)); ax.push_back(X.raw(K::FLe, r.s, C_(sh)));
		ax.push_back(X.raw(K::FEq, X.f(K::FAdd, X.f(K::FMul, r.c, r.c), X.f(K::FMul, r.s, r.s)), C_(1)));
	} else r = it->second;
	for (auto ax : trigAx[a]) addPC(s, ax);
	return r;
}
static Trig trigMulAdd(Trig a, Trig b)
{
	auto m = [&](const Expr* x, const Expr* y) { return X.f(K::FMul, x, y); };
	return { X.f(K::FSub, m(a.c, b.c), m(a.s, b.s)), X.f(K::FAdd, m(a.s, b.c), m(a.c, b.s)) };
}
static Trig trigPow(Trig a, int n)
{
	Trig r = a;
	for (int i = 1; i < n; i++) r = trigMulAdd(r, a);
	return r;
}
// Trigonometry of k*a as a multiple (mult) of an atom: multiples of one atom are
// expressed by each other, so that half and full angles are related.
static Trig unitTrig(State& s, const Expr* a, double k, double& mult)
{
	static std::unordered_map<const Expr*, std::vector<std::pair<double, const Expr*>>> units;
	auto& u = units[a];
	if (u.empty() && trigMap.count(a)) u.push_back({ 1, a });
	auto integral = [](double q, int max) { double r = std::round(q); return std::fabs(r) >= 1 && std::fabs(r) <= max && std::fabs(q - r) < 1e-11 * std::fabs(r); };
	for (auto& p : u)
		if (integral(k / p.first, 8)) {
			mult = std::round(k / p.first);
			return atomTrig(s, p.second);
		}
	bool one = integral(k, 4);
	double unit = one ? 1 : std::fabs(k);
	mult = std::round(k / unit);
	const Expr* at = one ? a : X.f(K::FMul, a, C_(unit));
	Trig t = atomTrig(s, at);
	for (auto& p : u)
		if (integral(p.first / unit, 4)) { // the older atom is a multiple of this one
			Trig o = trigMap[p.second], m = trigPow(t, (int)std::round(p.first / unit));
			if (X.polys && std::round(p.first / unit) == 2) {
				X.rule(t.s, t.c, X.f(K::FMul, C_(0.5), o.s));
				X.rule(t.c, t.c, X.f(K::FMul, C_(0.5), X.f(K::FAdd, C_(1), o.c)));
				X.rule(t.s, t.s, X.f(K::FMul, C_(0.5), X.f(K::FSub, C_(1), o.c)));
			}
			for (auto ax : { X.raw(K::FEq, o.c, m.c), X.raw(K::FEq, o.s, m.s) }) {
				trigAx[at].push_back(ax);
				addPC(s, ax);
			}
		}
	u.push_back({ unit, at });
	return t;
}
static Trig trig(State& s, const Expr* e)
{
	// piecewise angles: push through ite
	if (e->k == K::Ite) {
		Trig a = trig(s, e->op[1]), b = trig(s, e->op[2]);
		return { X.ite(e->op[0], a.c, b.c), X.ite(e->op[0], a.s, b.s) };
	}
	if (X.isFC(e)) {
		double cc, ss;
		snap(X.fval(e), cc, ss);
		return { C_(cc), C_(ss) };
	}
	auto known = trigMap.find(e);
	if (known != trigMap.end()) return atomTrig(s, e);
	std::map<uint32_t, std::pair<const Expr*, double>> t;
	double c = 0;
	decomp(e, 1, t, c);
	Trig r { C_(1), C_(0) };
	for (auto& kv : t) {
		const Expr* a = kv.second.first;
		double k = kv.second.second;
		if (std::fabs(k) < 1e-12) continue;
		double turns = k / (2 * PI);
		if (intValued(a) && std::fabs(turns - std::round(turns)) < 1e-12 * std::max(1.0, std::fabs(turns)) && std::round(turns) != 0) continue;
		double rk = std::round(k);
		Trig at;
		double halves = k / PI;
		if (intValued(a) && std::fabs(halves - std::round(halves)) < 1e-12 * std::max(1.0, std::fabs(halves)) && std::fmod(std::round(halves), 2) != 0) {
			// an odd multiple of a half turn times an integer: plus or minus one
			static std::unordered_map<const Expr*, const Expr*> parity;
			auto& p = parity[a];
			if (!p) {
				p = X.var("parity!" + std::to_string(a->id), TF, 64, 0, 0, -1, 1);
				if (X.polys) X.rule(p, p, C_(1));
			}
			addPC(s, X.raw(K::FEq, X.f(K::FMul, p, p), C_(1)));
			r = trigMulAdd(r, { p, C_(0) });
			continue;
		}
		if (a->k == K::Ite) {
			Trig p = trig(s, X.f(K::FMul, a->op[1], C_(k))), q = trig(s, X.f(K::FMul, a->op[2], C_(k)));
			at = { X.ite(a->op[0], p.c, q.c), X.ite(a->op[0], p.s, q.s) };
			rk = 1;
		}
		else at = unitTrig(s, a, k, rk);
		if (rk < 0) { at.s = X.f(K::FNeg, at.s); rk = -rk; }
		for (int i = 0; i < (int)rk; i++) r = trigMulAdd(r, at);
	}
	double cc, ss;
	snap(c, cc, ss);
	r = trigMulAdd(r, { C_(cc), C_(ss) });
	return r;
}

static const Expr* angleVar(State&, int kind, const Expr* key, const Expr* key2, double lo, double hi, const char* nm, bool& fresh)
{
	static std::map<std::tuple<int, const Expr*, const Expr*>, const Expr*> m;
	auto& v = m[{ kind, key, key2 }];
	fresh = !v;
	if (!v) v = X.var(std::string(nm) + "!" + std::to_string(key->id) + "_" + std::to_string(key2 ? key2->id : 0), TF, 64, 0, 0, lo, hi);
	return v;
}

static Val fAtan2(State& s, const Val& ya, const Val& xa)
{
	if (!ya.e && !xa.e) return Val(fromD(std::atan2(asD(ya.c), asD(xa.c))));
	const Expr *y = ex(ya, TF, 0), *x = ex(xa, TF, 0);
	if (nonfinite(ya, TF) || nonfinite(xa, TF)) throw Unsupported("atan2 of infinity");
	bool fresh;
	x = X.canonical(x), y = X.canonical(y);
	const Expr* th = angleVar(s, 1, y, x, -PI, PI, "atan2", fresh);
	Trig tr = atomTrig(s, th);
	Val r2 = mkv(X.f(K::FAdd, X.f(K::FMul, x, x), X.f(K::FMul, y, y)));
	const Expr* r = ex(fsqrtV(s, r2, TF), TF, 0);
	if (X.polys && !X.isFC(r)) {
		if (fresh && r->k == K::Var) X.rebase(r);
		X.rule(tr.c, r, x);
		X.rule(tr.s, r, y);
		// 1 / r through the constant coordinate
		if (fresh && X.isFC(y) && X.fval(y) != 0) X.rule(tr.c, X.f(K::FMul, C_(1 / X.fval(y)), X.f(K::FMul, x, tr.s)));
		else if (fresh && X.isFC(x) && X.fval(x) != 0) X.rule(tr.s, X.f(K::FMul, C_(1 / X.fval(x)), X.f(K::FMul, y, tr.c)));
	}
	addPC(s, X.raw(K::FLe, C_(-PI), th));
	addPC(s, X.raw(K::FLe, th, C_(PI)));
	addPC(s, X.raw(K::FEq, X.f(K::FMul, tr.c, r), x));
	addPC(s, X.raw(K::FEq, X.f(K::FMul, tr.s, r), y));
	auto imp = [&](const Expr* a, const Expr* b) { addPC(s, X.lor(X.lnot(a), b)); };
	const Expr* z = C_(0);
	auto lt = [&](const Expr* a, const Expr* b) { return X.fcmp(K::FLt, a, b); };
	imp(lt(z, y), X.raw(K::FLt, z, th));
	imp(lt(z, y), X.raw(K::FLt, th, C_(PI)));
	imp(lt(y, z), X.raw(K::FLt, th, z));
	const Expr* y0 = X.fcmp(K::FEq, y, z);
	imp(X.land(y0, X.fcmp(K::FLe, z, x)), X.raw(K::FEq, th, z));
	imp(X.land(y0, lt(x, z)), X.raw(K::FEq, th, C_(PI)));
	imp(X.land(y0, X.fcmp(K::FEq, x, z)), X.raw(K::FEq, tr.c, C_(1)));
	// half planes
	imp(lt(z, x), X.land(X.raw(K::FLt, C_(-PI / 2), th), X.raw(K::FLt, th, C_(PI / 2))));
	imp(X.land(lt(x, z), lt(z, y)), X.raw(K::FLt, C_(PI / 2), th));
	imp(X.land(lt(x, z), lt(y, z)), X.raw(K::FLt, th, C_(-PI / 2)));
	return mkv(th);
}

// ------------------------------------------------------------------ externals
#define A(i, j) args[i][j]
#define EXT [](State& s, const Ins& x, std::vector<std::vector<Val>>& args, std::vector<Val>& res)
#define UNUSED (void)s; (void)x; (void)args; (void)res

static void reg(const std::string& n, Ext e)
{
	extId[n] = exts.size();
	exts.push_back(e);
}

static void regF1(const std::string& base, double (*fn)(double), std::function<Val(State&, const Val&, T)> sym)
{
	auto h = [fn, sym](State& s, const Ins& x, std::vector<std::vector<Val>>& args, std::vector<Val>& res) {
		for (size_t i = 0; i < res.size(); i++) {
			T t = (*x.lv)[i].t;
			if (!args[0][i].e) {
				if (t == T::F64) res[i] = Val(fromD(fn(asD(args[0][i].c))));
				else res[i] = Val(fromF((float)fn((double)asF(args[0][i].c))));
			} else res[i] = sym(s, args[0][i], t);
		}
	};
	reg(base, h);
	reg(base + "f", h);
	reg("llvm." + base, h);
}

static uint64_t doAlloc(State& s, const Val& n, uint8_t kind)
{
	uint64_t k = needC(s, n, "allocation size");
	if (k >= (1u << OSH)) safety(s, "huge-allocation", "allocation of " + std::to_string(k) + " bytes");
	return s.mem.alloc(k, kind, 0xCD);
}
static void doFree(State& s, const Val& p)
{
	uint64_t a = needC(s, p, "free");
	if (!a) return;
	Obj* o = s.mem.get(a);
	if (!o || (a & ((1u << OSH) - 1)) || o->kind < 2) safety(s, "bad-free", "");
	if (!o->alive) safety(s, "double-free", "");
	o = s.mem.wr(a);
	o->alive = false;
	o->data.clear();
	o->data.shrink_to_fit();
	o->cells.clear();
}

static void initExts()
{
	// ---- harness interface
	reg("vp_int", EXT {
		UNUSED;
		std::string n = cstr(s, A(0, 0).c) + "#" + std::to_string(s.inputs.size());
		int64_t lo = sx(A(1, 0).c, 32), hi = sx(A(2, 0).c, 32);
		if (lo == hi) { s.inputs.push_back({ n, X.bv((uint64_t)lo, 32) }); res[0] = Val(msk((uint64_t)lo, 32)); return; }
		static std::map<std::string, const Expr*> vars; // one solver variable per input position and range
		auto& v = vars[n + "[" + std::to_string(lo) + "," + std::to_string(hi)];
		if (!v) v = X.var(n + (vars.size() > 0 ? "@" + std::to_string(vars.size()) : ""), T::BV, 32, lo, hi, 0, 0);
		addPC(s, X.raw(K::Sle, X.bv((uint64_t)lo, 32), v));
		addPC(s, X.raw(K::Sle, v, X.bv((uint64_t)hi, 32)));
		s.inputs.push_back({ n, v });
		res[0] = mkv(v);
	});
	reg("vp_real", EXT {
		UNUSED;
		std::string n = cstr(s, A(0, 0).c) + "#" + std::to_string(s.inputs.size());
		double lo = asD(A(1, 0).c), hi = asD(A(2, 0).c);
		static std::map<std::string, const Expr*> vars;
		auto& v = vars[n + "[" + std::to_string(lo) + "," + std::to_string(hi)];
		if (!v) v = X.var(n + (vars.size() > 0 ? "@" + std::to_string(vars.size()) : ""), T::F64, 64, 0, 0, lo, hi);
		addPC(s, X.raw(K::FLe, fz(T::F64, lo), v));
		addPC(s, X.raw(K::FLe, v, fz(T::F64, hi)));
		s.inputs.push_back({ n, v });
		res[0] = mkv(v);
	});
	reg("vp_f64", EXT { // any IEEE double (ieee mode), including NaN and infinities
		UNUSED;
		std::string n = cstr(s, A(0, 0).c) + "#" + std::to_string(s.inputs.size());
		static std::map<std::string, const Expr*> vars;
		auto& v = vars[n];
		if (!v) v = X.var(n, T::F64, 64, 0, 0, -INF, INF);
		s.inputs.push_back({ n, v });
		res[0] = mkv(v);
	});
	reg("vp_bool", EXT {
		UNUSED;
		std::string n = cstr(s, A(0, 0).c) + "#" + std::to_string(s.inputs.size());
		static std::map<std::string, const Expr*> vars;
		auto& v = vars[n];
		if (!v) v = X.var(n, T::BV, 1, -1, 0, 0, 0);
		s.inputs.push_back({ n, v });
		res[0] = mkv(v);
	});
	reg("vp_concrete", EXT { UNUSED; res[0] = Val(needC(s, A(0, 0), "vp_concrete")); });
	reg("vp_assume", EXT { UNUSED; doAssume(s, exb(A(0, 0))); });
	reg("vp_assert", EXT { UNUSED; doAssert(s, exb(A(0, 0)), cstr(s, A(1, 0).c)); });
	reg("vp_reach", EXT { UNUSED; std::string l = cstr(s, A(0, 0).c); S.reach[l]++; s.trace.push_back(l); });
	reg("vp_symbolic", EXT { UNUSED; res[0] = Val(1); });
	reg("vp_stop", EXT { UNUSED; throw PathEnd { "stop" }; });
	reg("vp_ite", EXT { UNUSED; res[0] = selectV(s, A(0, 0), A(1, 0), A(2, 0), { T::F64, 64, 0, false }); });
	reg("vp_itei", EXT { UNUSED; res[0] = selectV(s, A(0, 0), A(1, 0), A(2, 0), { T::BV, 32, 0, false }); });
	auto fminmax = [](bool mn) {
		return [mn](State& s, const Ins& x, std::vector<std::vector<Val>>& args, std::vector<Val>& res) {
			for (size_t i = 0; i < res.size(); i++) {
				T t = (*x.lv)[i].t;
				Val a = args[0][i], b = args[1][i];
				if (!a.e && std::isnan(dv(a, t))) { res[i] = b; continue; }
				if (!b.e && std::isnan(dv(b, t))) { res[i] = a; continue; }
				Val c = mkv(X.fcmp(K::FLt, ex(mn ? a : b, t, 0), ex(mn ? b : a, t, 0)));
				if (X.mode == Mode::Ieee && a.e) c = mkv(X.land(exb(c), X.lnot(X.fcmp(K::FIsNan, a.e))));
				// NaN in the other operand: prefer a
				if (X.mode == Mode::Ieee && b.e) c = mkv(X.lor(exb(c), X.fcmp(K::FIsNan, b.e)));
				res[i] = selectV(s, c, a, b, (*x.lv)[i]);
			}
		};
	};
	for (auto n : { "vp_min", "fmin", "fminf", "llvm.minnum", "llvm.minimum" }) reg(n, fminmax(true));
	for (auto n : { "vp_max", "fmax", "fmaxf", "llvm.maxnum", "llvm.maximum" }) reg(n, fminmax(false));

	// ---- allocation
	for (auto n : { "_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t" })
		reg(n, EXT { UNUSED; res[0] = Val(doAlloc(s, A(0, 0), 2)); });
	for (auto n : { "malloc" }) reg(n, EXT { UNUSED; res[0] = Val(doAlloc(s, A(0, 0), 3)); });
	reg("aligned_alloc", EXT { UNUSED; res[0] = Val(doAlloc(s, A(1, 0), 3)); });
	reg("calloc", EXT {
		UNUSED;
		uint64_t n = needC(s, A(0, 0), "calloc") * needC(s, A(1, 0), "calloc");
		res[0] = Val(s.mem.alloc(n, 3, 0));
	});
	reg("posix_memalign", EXT {
		UNUSED;
		uint64_t p = doAlloc(s, A(2, 0), 3);
		storeLeaf(s, resolve(s, A(0, 0), 8, true), { T::BV, 64, 0, true }, Val(p));
		res[0] = Val(0);
	});
	for (auto n : { "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "free" })
		reg(n, EXT { UNUSED; doFree(s, A(0, 0)); });

	// ---- memory
	for (auto n : { "llvm.memcpy", "llvm.memmove", "memcpy", "memmove", "llvm.memcpy.inline" })
		reg(n, EXT {
			UNUSED;
			uint64_t n = needC(s, A(2, 0), "memcpy size");
			if (n) {
				uint64_t d = resolve(s, A(0, 0), n, true), a = resolve(s, A(1, 0), n, false);
				memCopy(s, d, a, n);
			}
			if (res.size()) res[0] = A(0, 0);
		});
	for (auto n : { "llvm.memset", "memset" })
		reg(n, EXT {
			UNUSED;
			uint64_t n = needC(s, A(2, 0), "memset size");
			uint64_t v = needC(s, A(1, 0), "memset value");
			if (n) {
				uint64_t d = resolve(s, A(0, 0), n, true);
				Obj* o = s.mem.wr(d);
				uint32_t off = d & ((1u << OSH) - 1);
				clearCells(o, off, n);
				memset(&o->data[off], (int)(v & 255), n);
			}
			if (res.size()) res[0] = A(0, 0);
		});
	for (auto n : { "memcmp", "bcmp" })
		reg(n, EXT {
			UNUSED;
			uint64_t n = needC(s, A(2, 0), "memcmp size");
			int r = 0;
			if (n) {
				uint64_t a = resolve(s, A(0, 0), n, false), b = resolve(s, A(1, 0), n, false);
				for (uint64_t i = 0; i < n && !r; i++) {
					Val p = loadLeaf(s, a + i, { T::BV, 8, 0, false }), q = loadLeaf(s, b + i, { T::BV, 8, 0, false });
					uint64_t pc = needC(s, p, "memcmp"), qc = needC(s, q, "memcmp");
					r = pc < qc ? -1 : pc > qc ? 1 : 0;
				}
			}
			res[0] = Val(msk((uint64_t)(int64_t)r, 32));
		});
	reg("strlen", EXT { UNUSED; res[0] = Val(cstr(s, needC(s, A(0, 0), "strlen")).size()); });

	// ---- run-time type information
	reg("__dynamic_cast", EXT {
		UNUSED;
		uint64_t src = needC(s, A(0, 0), "dynamic_cast"), dst = A(2, 0).c;
		Leaf L64 { T::BV, 64, 0, false };
		uint64_t vptr = loadLeaf(s, resolve(s, Val(src), 8, false), L64).c;
		int64_t top = (int64_t)loadLeaf(s, resolve(s, Val(vptr - 16), 8, false), L64).c;
		uint64_t ti = loadLeaf(s, resolve(s, Val(vptr - 8), 8, false), L64).c;
		static std::unordered_map<uint64_t, const GlobalVariable*> tis;
		if (tis.empty())
			for (auto& g : gaddr)
				if (auto* v = dyn_cast<GlobalVariable>(g.first))
					if (v->getName().starts_with("_ZTI")) tis[g.second] = v;
		std::set<uint64_t> found;
		std::function<void(uint64_t, uint64_t)> walk = [&](uint64_t t, uint64_t off) {
			if (t == dst) found.insert(off);
			auto it = tis.find(t);
			if (it == tis.end() || !it->second->hasInitializer()) return;
			auto* c = dyn_cast<ConstantStruct>(it->second->getInitializer());
			if (!c || c->getNumOperands() < 3) return;
			auto addr = [&](const Constant* k) { auto* g = dyn_cast<GlobalValue>(k->stripPointerCasts()); return g && gaddr.count(g) ? gaddr[g] : 0; };
			if (c->getNumOperands() == 3) { walk(addr(c->getOperand(2)), off); return; }
			for (unsigned i = 4; i + 1 < c->getNumOperands(); i += 2) {
				int64_t f = cast<ConstantInt>(c->getOperand(i + 1))->getSExtValue();
				if (f & 1) throw Unsupported("dynamic_cast through a virtual base");
				walk(addr(c->getOperand(i)), off + (uint64_t)(f >> 8));
			}
		};
		walk(ti, 0);
		res[0] = Val(found.size() == 1 ? src + (uint64_t)top + *found.begin() : 0);
	});

	// ---- exceptions and termination
	reg("__cxa_allocate_exception", EXT { UNUSED; res[0] = Val(s.mem.alloc(needC(s, A(0, 0), "exc") + 64, 2, 0)); });
	reg("__cxa_free_exception", EXT { UNUSED; });
	reg("__cxa_throw", EXT {
		UNUSED;
		s.excObj = A(0, 0).c;
		s.excType = A(1, 0).c;
		s.excTypes[s.excObj] = s.excType;
		std::string tn;
		if (Obj* o = s.mem.get(s.excType)) {
			uint64_t np = 0;
			memcpy(&np, &o->data[(s.excType & ((1u << OSH) - 1)) + 8], 8);
			tn = cstr(s, np);
		}
		doThrow(s, "exception of type " + tn);
	});
	for (std::string e : { "St12out_of_range", "St16invalid_argument", "St13runtime_error", "St11logic_error", "St12length_error", "St12domain_error", "St11range_error" })
		for (auto c : { "C1EPKc", "C2EPKc", "D1Ev", "D2Ev", "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE" }) reg(("_ZN" + e + c).c_str(), EXT { UNUSED; });
	reg("__cxa_rethrow", EXT { UNUSED; s.excObj = s.caught; s.excType = s.excTypes[s.caught]; doThrow(s, "rethrow"); });
	reg("__cxa_begin_catch", EXT { UNUSED; s.caught = A(0, 0).c; res[0] = A(0, 0); });
	reg("__cxa_get_exception_ptr", EXT { UNUSED; res[0] = A(0, 0); });
	reg("__cxa_end_catch", EXT { UNUSED; });
	reg("llvm.eh.typeid.for", EXT { UNUSED; res[0] = Val(msk(((A(0, 0).c >> OSH) & 0x3fffffff) + 16, 32)); });
	for (auto n : { "_ZSt20__throw_length_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt19__throw_logic_errorPKc", "_ZSt25__throw_bad_function_callv", "_ZSt24__throw_invalid_argumentPKc", "_ZSt21__throw_runtime_errorPKc", "_ZSt16__throw_bad_castv", "_ZSt20__throw_domain_errorPKc", "_ZSt21__throw_bad_exceptionv", "_ZSt15__throw_bad_anyv", "_ZSt26__throw_bad_variant_accessPKc", "_ZSt27__throw_bad_optional_accessv" }) {
		std::string nm = n;
		reg(n, [nm](State& s, const Ins&, std::vector<std::vector<Val>>&, std::vector<Val>&) {
			s.excObj = s.mem.alloc(64, 2, 0);
			s.excType = 0;
			doThrow(s, demangle(nm));
		});
	}
	for (auto n : { "abort", "_ZSt9terminatev", "__assert_fail", "__cxa_pure_virtual", "__clang_call_terminate", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "__cxa_bad_cast", "__cxa_bad_typeid", "__cxa_throw_bad_array_new_length", "__stack_chk_fail" }) {
		std::string nm = n;
		reg(n, [nm](State& s, const Ins&, std::vector<std::vector<Val>>& args, std::vector<Val>&) {
			std::string d = demangle(nm);
			if (nm == "__assert_fail" && args.size()) d += ": " + cstr(s, args[0][0].c);
			safety(s, "abort", d);
		});
	}
	reg("raise", EXT { UNUSED; safety(s, "trap", "signal " + std::to_string(A(0, 0).c) + " raised (failed internal assertion)"); });
	for (auto n : { "llvm.trap", "llvm.debugtrap", "llvm.ubsantrap" }) reg(n, EXT { UNUSED; safety(s, "trap", "trap"); });
	for (auto n : { "exit", "_exit" }) reg(n, EXT { UNUSED; throw PathEnd { "exit" }; });

	// ---- environment
	for (auto n : { "__cxa_atexit", "__cxa_guard_release", "__cxa_guard_abort", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "pthread_mutex_lock", "pthread_mutex_unlock", "__cxa_thread_atexit", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev" })
		reg(n, EXT { UNUSED; for (auto& r : res) r = Val(0); });
	reg("__cxa_guard_acquire", EXT {
		UNUSED;
		uint64_t a = resolve(s, A(0, 0), 1, true);
		Val v = loadLeaf(s, a, { T::BV, 8, 0, false });
		storeLeaf(s, a, { T::BV, 8, 0, false }, Val(1));
		res[0] = Val(v.c ? 0 : 1);
	});
	for (auto n : { "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv" }) reg(n, EXT { UNUSED; res[0] = Val(0); });
	for (auto n : { "_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13random_device7_M_finiEv" }) reg(n, EXT { UNUSED; });
	reg("_ZNSt13random_device9_M_getvalEv", EXT { UNUSED; res[0] = Val(12345); });
	reg("_ZSt11_Hash_bytesPKvmm", EXT {
		UNUSED;
		uint64_t n = needC(s, A(1, 0), "hash length");
		if (O.hashconst) { res[0] = Val(0); return; }
		uint64_t a = resolve(s, A(0, 0), n, false);
		Obj* o = s.mem.get(a);
		uint32_t off = a & ((1u << OSH) - 1);
		auto it = o->cells.lower_bound(off);
		bool sym = it != o->cells.end() && it->first < off + n;
		if (O.hashsplit && n == 8) {
			// an arbitrary injective hash: split on equality with what was hashed before
			Leaf l { TF, 64, 0, false };
			Val v = loadLeaf(s, a, l);
			const Expr* e = ex(v, TF, 0);
			for (auto& h : s.hashes) {
				const Expr* c = X.fcmp(K::FEq, e, h.first);
				if (c->k == K::Const ? c->c != 0 : branch(s, c)) { res[0] = Val(h.second); return; }
			}
			uint64_t k = s.hashes.size() + 1, hv;
			if (sym) hv = std::_Hash_bytes(&k, 8, 77);
			else hv = std::_Hash_bytes(&o->data[off], n, A(2, 0).c);
			s.hashes.push_back({ e, hv });
			res[0] = Val(hv);
			return;
		}
		if (sym) throw Unsupported("hash of symbolic bytes");
		res[0] = Val(std::_Hash_bytes(&o->data[off], n, A(2, 0).c));
	});

	// ---- integer intrinsics
	auto minmax = [](unsigned pred) {
		return [pred](State& s, const Ins& x, std::vector<std::vector<Val>>& args, std::vector<Val>& res) {
			for (size_t i = 0; i < res.size(); i++)
				res[i] = selectV(s, icmp(args[0][i], args[1][i], (*x.lv)[i].w, pred), args[0][i], args[1][i], (*x.lv)[i]);
		};
	};
	reg("llvm.smax", minmax(CmpInst::ICMP_SGT));
	reg("llvm.smin", minmax(CmpInst::ICMP_SLT));
	reg("llvm.umax", minmax(CmpInst::ICMP_UGT));
	reg("llvm.umin", minmax(CmpInst::ICMP_ULT));
	reg("llvm.abs", EXT {
		for (size_t i = 0; i < res.size(); i++) {
			unsigned w = (*x.lv)[i].w;
			res[i] = selectV(s, icmp(A(0, i), Val(0), w, CmpInst::ICMP_SLT), ibin(s, Instruction::Sub, Val(0), A(0, i), w), A(0, i), (*x.lv)[i]);
		}
	});
	for (auto n : { "abs", "labs", "llabs" })
		reg(n, EXT {
			unsigned w = (*x.lv)[0].w;
			res[0] = selectV(s, icmp(A(0, 0), Val(0), w, CmpInst::ICMP_SLT), ibin(s, Instruction::Sub, Val(0), A(0, 0), w), A(0, 0), (*x.lv)[0]);
		});
	reg("llvm.usub.sat", EXT {
		for (size_t i = 0; i < res.size(); i++) {
			unsigned w = (*x.lv)[i].w;
			res[i] = selectV(s, icmp(A(0, i), A(1, i), w, CmpInst::ICMP_ULT), Val(0), ibin(s, Instruction::Sub, A(0, i), A(1, i), w), (*x.lv)[i]);
		}
	});
	auto ovf = [](unsigned op, bool sgn) {
		return [op, sgn](State& s, const Ins& x, std::vector<std::vector<Val>>& args, std::vector<Val>& res) {
			unsigned w = (*x.lv)[0].w;
			Val a = args[0][0], b = args[1][0];
			if (a.e || b.e) {
				if (X.mode != Mode::Real) throw Unsupported("overflow intrinsic");
				const Expr* e = X.bin(op == Instruction::Add ? K::Add : op == Instruction::Sub ? K::Sub : K::Mul, ex(a, T::BV, w), ex(b, T::BV, w));
				bool nn = ex(a, T::BV, w)->lo >= 0 && ex(b, T::BV, w)->lo >= 0;
				if (e->wrap || (!sgn && (!nn || e->lo < 0))) throw Unsupported("overflow intrinsic on wide values");
				res[0] = mkv(e);
				res[1] = Val(0);
				(void)s;
				return;
			}
			i128 p = sgn ? (i128)sx(a.c, w) : (i128)a.c, q = sgn ? (i128)sx(b.c, w) : (i128)b.c;
			i128 r = op == Instruction::Add ? p + q : op == Instruction::Sub ? p - q : 0;
			bool o;
			if (op == Instruction::Mul) {
				if (w == 64 && !sgn) {
					unsigned __int128 u = (unsigned __int128)a.c * b.c;
					o = (u >> 64) != 0;
					r = (i128)(uint64_t)u;
				} else {
					r = p * q;
					o = sgn ? r != (i128)sx((uint64_t)r, w) : (r >> w) != 0;
				}
			} else o = sgn ? r != (i128)sx((uint64_t)r, w) : (r < 0 || (r >> w) != 0);
			res[0] = Val(msk((uint64_t)r, w));
			res[1] = Val(o);
		};
	};
	reg("llvm.umul.with.overflow", ovf(Instruction::Mul, false));
	reg("llvm.smul.with.overflow", ovf(Instruction::Mul, true));
	reg("llvm.uadd.with.overflow", ovf(Instruction::Add, false));
	reg("llvm.sadd.with.overflow", ovf(Instruction::Add, true));
	reg("llvm.usub.with.overflow", ovf(Instruction::Sub, false));
	reg("llvm.ssub.with.overflow", ovf(Instruction::Sub, true));
	reg("llvm.ctlz", EXT { unsigned w = (*x.lv)[0].w; uint64_t v = needC(s, A(0, 0), "ctlz"); res[0] = Val(v ? __builtin_clzll(v) - (64 - w) : w); });
	reg("llvm.cttz", EXT { unsigned w = (*x.lv)[0].w; uint64_t v = needC(s, A(0, 0), "cttz"); res[0] = Val(v ? __builtin_ctzll(v) : w); });
	reg("llvm.ctpop", EXT { UNUSED; res[0] = Val(__builtin_popcountll(needC(s, A(0, 0), "ctpop"))); });
	reg("llvm.bswap", EXT { unsigned w = (*x.lv)[0].w; res[0] = Val(__builtin_bswap64(needC(s, A(0, 0), "bswap")) >> (64 - w)); });
	auto fsh = [](bool left) {
		return [left](State& s, const Ins& x, std::vector<std::vector<Val>>& args, std::vector<Val>& res) {
			unsigned w = (*x.lv)[0].w;
			uint64_t a = needC(s, args[0][0], "fsh"), b = needC(s, args[1][0], "fsh"), c = needC(s, args[2][0], "fsh") % w;
			uint64_t r = left ? (c ? (a << c) | (b >> (w - c)) : a) : (c ? (b >> c) | (a << (w - c)) : b);
			res[0] = Val(msk(r, w));
		};
	};
	reg("llvm.fshl", fsh(true));
	reg("llvm.fshr", fsh(false));
	reg("llvm.expect", EXT { UNUSED; res[0] = A(0, 0); });
	reg("llvm.threadlocal.address", EXT { UNUSED; res[0] = A(0, 0); });
	reg("llvm.launder.invariant.group", EXT { UNUSED; res[0] = A(0, 0); });
	reg("llvm.strip.invariant.group", EXT { UNUSED; res[0] = A(0, 0); });
	reg("llvm.invariant.start", EXT { UNUSED; res[0] = Val(0); });
	reg("llvm.stacksave", EXT { UNUSED; res[0] = Val(0); });
	reg("llvm.stackrestore", EXT { UNUSED; });
	reg("llvm.prefetch", EXT { UNUSED; });
	reg("llvm.is.constant", EXT { UNUSED; res[0] = Val(0); });
	reg("llvm.objectsize", EXT { UNUSED; res[0] = Val(~0ull); });
	auto vecred = [](unsigned op) {
		return [op](State& s, const Ins& x, std::vector<std::vector<Val>>& args, std::vector<Val>& res) {
			Val a = args[0][0];
			for (size_t i = 1; i < args[0].size(); i++) a = ibin(s, op, a, args[0][i], (*x.lv)[0].w);
			res[0] = a;
		};
	};
	reg("llvm.vector.reduce.and", vecred(Instruction::And));
	reg("llvm.vector.reduce.or", vecred(Instruction::Or));
	reg("llvm.vector.reduce.add", vecred(Instruction::Add));

	// ---- floating point
	regF1("sqrt", std::sqrt, [](State& s, const Val& a, T t) { return fsqrtV(s, a, t); });
	regF1("fabs", std::fabs, [](State& s, const Val& a, T t) {
		if (O.forkselect && X.mode == Mode::Real) return branch(s, X.fcmp(K::FLt, a.e, fz(t, 0))) ? mkv(X.f(K::FNeg, a.e)) : a;
		return mkv(X.f(K::FAbs, a.e));
	});
	regF1("floor", std::floor, [](State&, const Val& a, T) { return mkv(X.f(K::FFloor, a.e)); });
	regF1("ceil", std::ceil, [](State&, const Val& a, T) { return mkv(X.f(K::FCeil, a.e)); });
	regF1("trunc", std::trunc, [](State&, const Val& a, T) { return mkv(X.f(K::FTrunc, a.e)); });
	regF1("round", std::round, [](State&, const Val& a, T) { return mkv(X.f(K::FRound, a.e)); });
	auto real = [] { if (X.mode != Mode::Real) throw Unsupported("transcendental function in ieee mode"); };
	regF1("sin", std::sin, [real](State& s, const Val& a, T) { real(); return mkv(trig(s, a.e).s); });
	regF1("cos", std::cos, [real](State& s, const Val& a, T) { real(); return mkv(trig(s, a.e).c); });
	regF1("tan", std::tan, [real](State& s, const Val& a, T t) { real(); Trig q = trig(s, a.e); return fbin(s, K::FDiv, mkv(q.s), mkv(q.c), t); });
	auto arc = [](int kind) {
		return [kind](State& s, const Val& a, T t) {
			if (X.mode != Mode::Real) throw Unsupported("transcendental function in ieee mode");
			const Expr* e = a.e;
			if (kind < 2 && branch(s, X.lor(X.fcmp(K::FLt, e, C_(-1)), X.fcmp(K::FLt, C_(1), e)))) return fcst(t, std::nan(""));
			bool fresh;
			e = X.canonical(e);
			if (X.isFC(e)) { double v = X.fval(e); return fcst(t, kind == 0 ? std::acos(v) : kind == 1 ? std::asin(v) : std::atan(v)); }
			double lo = kind == 0 ? 0 : -PI / 2, hi = kind == 0 ? PI : PI / 2;
			const Expr* th = angleVar(s, 10 + kind, e, nullptr, lo, hi, kind == 0 ? "acos" : kind == 1 ? "asin" : "atan", fresh);
			Trig tr = atomTrig(s, th);
			if (X.polys && kind < 2) {
				// the other coordinate is not negative
				Val o = fsqrtV(s, mkv(X.f(K::FSub, C_(1), X.f(K::FMul, a.e, a.e))), t);
				const Expr* oe = ex(o, TF, 0);
				X.rule(kind == 0 ? tr.c : tr.s, a.e);
				X.rule(kind == 0 ? tr.s : tr.c, oe);
				addPC(s, X.raw(K::FEq, kind == 0 ? tr.s : tr.c, oe));
			}
			addPC(s, X.raw(K::FLe, C_(lo), th));
			addPC(s, X.raw(K::FLe, th, C_(hi)));
			if (kind == 0) addPC(s, X.raw(K::FEq, tr.c, e));
			else if (kind == 1) addPC(s, X.raw(K::FEq, tr.s, e));
			else {
				addPC(s, X.raw(K::FEq, tr.s, X.f(K::FMul, tr.c, e)));
				addPC(s, X.raw(K::FLt, C_(0), tr.c));
			}
			// sign of the angle
			if (kind > 0) {
				addPC(s, X.lor(X.lnot(X.fcmp(K::FLt, C_(0), e)), X.raw(K::FLt, C_(0), th)));
				addPC(s, X.lor(X.lnot(X.fcmp(K::FLt, e, C_(0))), X.raw(K::FLt, th, C_(0))));
				addPC(s, X.lor(X.lnot(X.fcmp(K::FEq, e, C_(0))), X.raw(K::FEq, th, C_(0))));
			}
			return mkv(th);
		};
	};
	regF1("acos", std::acos, arc(0));
	regF1("asin", std::asin, arc(1));
	regF1("atan", std::atan, arc(2));
	auto nosym = [](const char* n) { std::string nm = n; return [nm](State&, const Val&, T) -> Val { throw Unsupported("symbolic " + nm); }; };
	regF1("exp", std::exp, nosym("exp"));
	regF1("log", std::log, nosym("log"));
	regF1("log10", std::log10, nosym("log10"));
	regF1("cbrt", std::cbrt, nosym("cbrt"));
	regF1("rint", std::rint, nosym("rint"));
	regF1("nearbyint", std::nearbyint, nosym("nearbyint"));
	for (auto n : { "atan2", "atan2f" }) reg(n, EXT { UNUSED; if (A(0,0).e || A(1,0).e) { if (X.mode != Mode::Real) throw Unsupported("atan2 ieee"); } res[0] = fAtan2(s, A(0, 0), A(1, 0)); });
	for (auto n : { "hypot", "hypotf" })
		reg(n, EXT {
			T t = (*x.lv)[0].t;
			if (!A(0, 0).e && !A(1, 0).e) { double h = std::hypot(dv(A(0, 0), t), dv(A(1, 0), t)); res[0] = fcst(t, h); return; }
			Val a2 = fbin(s, K::FMul, A(0, 0), A(0, 0), t), b2 = fbin(s, K::FMul, A(1, 0), A(1, 0), t);
			res[0] = fsqrtV(s, fbin(s, K::FAdd, a2, b2, t), t);
		});
	for (auto n : { "fmod", "fmodf" }) reg(n, EXT { T t = (*x.lv)[0].t; res[0] = fbin(s, K::FRem, A(0, 0), A(1, 0), t); });
	for (auto n : { "remainder" })
		reg(n, EXT {
			T t = (*x.lv)[0].t;
			if (!A(0, 0).e && !A(1, 0).e) { res[0] = fcst(t, std::remainder(dv(A(0, 0), t), dv(A(1, 0), t))); return; }
			if (A(1, 0).e || X.mode != Mode::Real) throw Unsupported("symbolic remainder");
			// ties: away from zero instead of to even (both are valid representatives at the boundary)
			const Expr *a = A(0, 0).e, *m = ex(A(1, 0), t, 0);
			(void)s;
			res[0] = mkv(X.f(K::FSub, a, X.f(K::FMul, X.f(K::FRound, X.f(K::FDiv, a, m)), m)));
		});
	for (auto n : { "pow", "powf", "llvm.pow" })
		reg(n, EXT {
			T t = (*x.lv)[0].t;
			if (!A(0, 0).e && !A(1, 0).e) { res[0] = fcst(t, std::pow(dv(A(0, 0), t), dv(A(1, 0), t))); return; }
			if (A(1, 0).e) throw Unsupported("symbolic exponent");
			double p = dv(A(1, 0), t);
			if (p == 0.5) { res[0] = fsqrtV(s, A(0, 0), t); return; }
			if (p != std::floor(p) || p < 1 || p > 6) throw Unsupported("exponent");
			Val r = A(0, 0);
			for (int i = 1; i < (int)p; i++) r = fbin(s, K::FMul, r, A(0, 0), t);
			res[0] = r;
		});
	reg("llvm.powi", EXT {
		T t = (*x.lv)[0].t;
		int p = (int)sx(A(1, 0).c, 32);
		if (!A(0, 0).e) { res[0] = fcst(t, std::pow(dv(A(0, 0), t), p)); return; }
		if (p < 1 || p > 6) throw Unsupported("exponent");
		Val r = A(0, 0);
		for (int i = 1; i < p; i++) r = fbin(s, K::FMul, r, A(0, 0), t);
		res[0] = r;
	});
	for (auto n : { "llvm.fmuladd", "llvm.fma", "fma" })
		reg(n, EXT {
			for (size_t i = 0; i < res.size(); i++) {
				T t = (*x.lv)[i].t;
				res[i] = fbin(s, K::FAdd, fbin(s, K::FMul, A(0, i), A(1, i), t), A(2, i), t);
			}
		});
	for (auto n : { "copysign", "llvm.copysign", "copysignf" })
		reg(n, EXT {
			T t = (*x.lv)[0].t;
			if (!A(0, 0).e && !A(1, 0).e) { res[0] = fcst(t, std::copysign(dv(A(0, 0), t), dv(A(1, 0), t))); return; }
			if (X.mode != Mode::Real) throw Unsupported("copysign ieee");
			Val m = mkv(X.f(K::FAbs, ex(A(0, 0), t, 0))), n = mkv(X.f(K::FNeg, ex(m, t, 0)));
			res[0] = selectV(s, mkv(X.fcmp(K::FLt, ex(A(1, 0), t, 0), fz(t, 0))), n, m, (*x.lv)[0]);
		});
	for (auto n : { "nextafter" })
		reg(n, EXT { UNUSED; if (A(0, 0).e || A(1, 0).e) throw Unsupported("nextafter"); res[0] = Val(fromD(std::nextafter(asD(A(0, 0).c), asD(A(1, 0).c)))); });
	for (auto n : { "lround", "llvm.lround" })
		reg(n, EXT {
			if (!A(0, 0).e) { res[0] = Val((uint64_t)std::lround(asD(A(0, 0).c))); return; }
			res[0] = fpToInt(s, mkv(X.f(K::FRound, A(0, 0).e)), T::F64, (*x.lv)[0].w, true);
		});
	reg("llvm.is.fpclass", EXT {
		UNUSED;
		uint64_t mask = A(1, 0).c;
		T t = leaves(cast<CallBase>(x.I)->getArgOperand(0)->getType())[0].t;
		if (!A(0, 0).e) {
			double v = dv(A(0, 0), t);
			unsigned c = std::isnan(v) ? 3 : std::isinf(v) ? (v < 0 ? 4 : 512) : v == 0 ? (std::signbit(v) ? 32 : 64) : std::fpclassify(v) == FP_SUBNORMAL ? (v < 0 ? 16 : 128) : (v < 0 ? 8 : 256);
			res[0] = Val((mask & c) != 0);
			return;
		}
		if (X.mode == Mode::Real) {
			// finite: no nan/inf; sub-normals are not distinguished
			const Expr* r = X.fls;
			const Expr* z = fz(t, 0);
			if ((mask & 24) == 24) r = X.lor(r, X.fcmp(K::FLt, A(0, 0).e, z)); else if (mask & 24) throw Unsupported("fpclass");
			if ((mask & 96) == 96) r = X.lor(r, X.fcmp(K::FEq, A(0, 0).e, z)); else if (mask & 64) r = X.lor(r, X.fcmp(K::FEq, A(0, 0).e, z));
			if ((mask & 384) == 384) r = X.lor(r, X.fcmp(K::FLt, z, A(0, 0).e)); else if (mask & 384) throw Unsupported("fpclass");
			res[0] = mkv(r);
			return;
		}
		const Expr* v = A(0, 0).e;
		const Expr *pinf = fz(t, INF), *ninf = fz(t, -INF), *nan = X.fcmp(K::FIsNan, v);
		const Expr* inf = X.fls;
		if (mask & 512) inf = X.lor(inf, X.fcmp(K::FEq, v, pinf));
		if (mask & 4) inf = X.lor(inf, X.fcmp(K::FEq, v, ninf));
		const Expr* fin = X.land(X.fcmp(K::FLt, v, pinf), X.fcmp(K::FLt, ninf, v));
		const Expr* r = inf;
		if (mask & 3) r = X.lor(r, nan);
		if ((mask & 504) == 504) r = X.lor(r, fin);
		else if (mask & 504) throw Unsupported("fpclass ieee");
		res[0] = mkv(r);
	});
}

// prefix matched no-ops (iostreams)
static bool streamLike(const std::string& n)
{
	for (auto p : { "_ZNSo", "_ZStls", "_ZNSt14basic_ofstream", "_ZNSt14basic_ifstream", "_ZSt16__ostream_insert", "_ZNSt9basic_ios", "_ZNSt8ios_base", "_ZNSt13basic_filebuf", "_ZSt4endl", "_ZSt5flush", "_ZSt4setw" })
		if (n.rfind(p, 0) == 0) return true;
	return false;
}

// ------------------------------------------------------------------ main loop
static void finish(State& s, const char* why)
{
	S.paths++;
	SH->paths++;
	if (S.samples.size() < 3 && !s.inputs.empty()) {
		try {
			std::shared_ptr<Model> m;
			if (!s.models.empty()) m = s.models.back();
			if (m) {
				std::string j = "{\"inputs\":[";
				for (size_t i = 0; i < s.inputs.size(); i++) j += (i ? "," : "") + ("[" + jstr(s.inputs[i].name) + "," + jstr(numStr(*m, s.inputs[i].e)) + "]");
				j += "],\"trace\":[";
				for (size_t i = 0; i < s.trace.size(); i++) j += (i ? "," : "") + jstr(s.trace[i]);
				j += "],\"constraints\":" + std::to_string(s.pc.size()) + ",\"instructions\":" + std::to_string(s.insts) + ",\"end\":" + jstr(why) + "}";
				S.samples.push_back(j);
			}
		} catch (...) { }
	}
}

static std::vector<pid_t> kids;
static int procNo = 0;

static void openOut()
{
	OUT = fopen((O.out + "." + std::to_string(getpid())).c_str(), "w");
	if (!OUT) { perror("out"); _exit(3); }
}

static void maybeSplit()
{
	if (O.jobs <= 1 || work.size() < 1) return;
	int a = SH->active.load();
	if (a >= O.jobs) return;
	if (!SH->active.compare_exchange_strong(a, a + 1)) return;
	fflush(nullptr);
	pid_t p = fork();
	if (p < 0) { SH->active--; return; }
	size_t half = (work.size() + 1) / 2;
	if (p == 0) {
		// child: take the oldest half
		kids.clear();
		std::vector<std::unique_ptr<State>> mine;
		for (size_t i = 0; i < half; i++) mine.push_back(std::move(work[i]));
		for (size_t i = half; i < work.size(); i++) work[i].release(); // leak
		work.swap(mine);
		auto keep = S.vioCount;
		S = {};
		S.vioCount = keep;
		for (auto f : fnByIdx) f->calls = 0;
		procNo++;
		openOut();
		throw 1; // abandon the current state (it belongs to the parent)
	}
	kids.push_back(p);
	work.erase(work.begin(), work.begin() + half);
}

static void dumpStats()
{
	std::string j = "{\"type\":\"stats\"";
	auto add = [&](const char* k, double v) { char b[64]; snprintf(b, sizeof b, ",\"%s\":%.17g", k, v); j += b; };
	add("paths", S.paths); add("poly", X.npoly); add("insts", S.insts); add("queries", S.queries); add("unknown", S.unknown); add("forks", S.forks);
	add("asserts", S.asserts); add("asserts_solver", S.assertsSym); add("solver_s", S.solver); add("violations", S.vios);
	add("infeasible", S.infeasible); add("max_depth", S.maxDepth); add("exprs", X.nexpr); add("cache_hits", S.cacheHits);
	add("steps", S.insts);
	auto mp = [&](const char* k, const std::map<std::string, uint64_t>& m) {
		j += std::string(",\"") + k + "\":{";
		bool first = true;
		for (auto& e : m) { j += (first ? "" : ",") + jstr(e.first) + ":" + std::to_string(e.second); first = false; }
		j += "}";
	};
	mp("reach", S.reach); mp("assert_ids", S.assertIds); mp("incomplete", S.incomplete);
	// functions of the planner whose code was executed, inlined ones included
	std::map<std::string, uint64_t> fns;
	std::set<DISubprogram*> sps;
	for (auto f : fnByIdx)
		for (auto& b : f->bbs) {
			if (!b.seen) continue;
			for (auto& i : b.ins) {
				DILocation* L = i.I->getDebugLoc().get();
				for (; L; L = L->getInlinedAt()) sps.insert(L->getScope()->getSubprogram());
			}
		}
	for (auto sp : sps) {
		std::string fn = sp->getFilename().str(), dir = sp->getDirectory().str();
		if (!fn.empty() && fn[0] != '/') fn = dir + "/" + fn;
		if (fn.rfind(O.srcPrefix, 0) != 0) continue;
		std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : sp->getName().str();
		fns[nm + " @" + fn.substr(O.srcPrefix.size()) + ":" + std::to_string(sp->getLine())] += 1;
	}
	mp("functions", fns);
	j += ",\"samples\":[";
	for (size_t i = 0; i < S.samples.size(); i++) j += (i ? "," : "") + S.samples[i];
	j += "]}\n";
	fputs(j.c_str(), OUT);
	fclose(OUT);
	OUT = nullptr;
}

static void runAll()
{
	while (!work.empty()) {
		try {
			auto st = std::move(work.back());
			work.pop_back();
			State& s = *st;
			std::string dead;
			try {
				for (uint64_t n = 0;; n++) {
					step(s);
					if ((n & 0xff) == 0) {
						if (!work.empty()) maybeSplit();
						if ((n & 0xfff) == 0) {
							if (now() > deadline) throw Killed { "time budget" };
							if (SH->stop) throw Killed { "stopped" };
						}
						if (s.insts > O.maxinst) {
							std::shared_ptr<Model> m;
							if (!s.models.empty()) m = s.models.back();
							else check(s, nullptr, &m);
							report(s, "hang", "instruction limit", m);
							throw Killed { "instruction limit" };
						}
					}
				}
			} catch (PathEnd& e) {
				finish(s, e.why);
			} catch (Killed& k) {
				S.incomplete[k.why]++;
				if (O.verbose) fprintf(stderr, "killed: %s at %s\n", k.why.c_str(), where(s).c_str());
				if (k.why == "time budget" || k.why == "stopped") {
					S.incomplete["pending states"] += work.size();
					work.clear();
				}
			} catch (Unsupported& u) {
				S.incomplete[std::string("unsupported: ") + u.what()]++;
				if (O.verbose) fprintf(stderr, "unsupported: %s at %s\n", u.what(), where(s).c_str());
			}
			if (SH->paths > (long)O.maxpaths) { S.incomplete["path budget"] += 1 + work.size(); work.clear(); }
		} catch (int) {
			// freshly forked worker: solver stack belongs to the abandoned state, which is fine
		}
	}
}

static void setupGlobals(State& s)
{
	for (auto& G : M->globals()) {
		if (G.getName().starts_with("llvm.")) continue;
		uint64_t n = DL->getTypeAllocSize(G.getValueType());
		uint64_t a = s.mem.alloc(G.isDeclaration() ? std::max<uint64_t>(n, 256) : n, 0, 0);
		gaddr[&G] = a;
	}
	for (auto& F : *M) fnInfo(&F);
	for (auto& Al : M->aliases()) {
		std::vector<Val> v;
		auto* b = Al.getAliaseeObject();
		if (b && gaddr.count(b)) gaddr[&Al] = gaddr[b];
	}
	std::function<void(uint64_t, Constant*)> init = [&](uint64_t a, Constant* C) {
		if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
		if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
			StringRef r = cd->getRawDataValues();
			memcpy(&s.mem.get(a)->data[a & ((1u << OSH) - 1)], r.data(), r.size());
			return;
		}
		if (auto* cs = dyn_cast<ConstantStruct>(C)) {
			auto* sl = DL->getStructLayout(cs->getType());
			for (unsigned i = 0; i < cs->getNumOperands(); i++) init(a + sl->getElementOffset(i), cs->getOperand(i));
			return;
		}
		if (isa<ConstantArray>(C) || isa<ConstantVector>(C)) {
			auto* t = C->getType();
			uint64_t es = isa<ArrayType>(t) ? DL->getTypeAllocSize(t->getArrayElementType()) : DL->getTypeStoreSize(cast<VectorType>(t)->getElementType());
			for (unsigned i = 0; i < C->getNumOperands(); i++) init(a + i * es, cast<Constant>(C->getOperand(i)));
			return;
		}
		std::vector<Val> v;
		try { constLeaves(C, v); } catch (Unsupported&) { return; }
		auto& l = leaves(C->getType());
		for (size_t i = 0; i < l.size(); i++) storeLeaf(s, a + l[i].off, l[i], v[i]);
	};
	for (auto& G : M->globals()) {
		if (!gaddr.count(&G)) continue;
		if (G.hasInitializer()) init(gaddr[&G], G.getInitializer());
		if (G.isConstant() && G.hasInitializer()) s.mem.get(gaddr[&G])->ro = true;
	}
}

int main(int argc, char** argv)
{
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&] { return std::string(argv[++i]); };
		if (a == "--entry") O.entry = val();
		else if (a == "--out") O.out = val();
		else if (a == "--time") O.time = std::stod(val());
		else if (a == "--jobs") O.jobs = std::stoi(val());
		else if (a == "--maxinst") O.maxinst = std::stoull(val());
		else if (a == "--maxpaths") O.maxpaths = std::stoull(val());
		else if (a == "--qtimeout") O.qtimeout = std::stoul(val());
		else if (a == "--ieee") X.mode = Mode::Ieee;
		else if (a == "--nra") O.nra = X.polys = true;
		else if (a == "--polys") X.polys = true;
		else if (a == "--splitxor") O.splitxor = true;
		else if (a == "--hashsplit") O.hashsplit = true;
		else if (a == "--forkselect") O.forkselect = true;
		else if (a == "--hashconst") O.hashconst = true;
		else if (a == "--stop-first") O.stopFirst = true;
		else if (a == "--src") O.srcPrefix = val();
		else if (a == "--vios") O.vioPerId = std::stoi(val());
		else if (a == "-v") O.verbose = true;
		else if (a == "--dump-unknown") O.dumpUnknown = true;
		else if (a[0] == '-') { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
		else O.bc = a;
	}
	T0 = now();
	deadline = T0 + O.time;
	SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	new (SH) Shared;
	SH->active = 1; SH->paths = 0; SH->stop = 0; SH->vios = 0;

	LLVMContext ctx;
	SMDiagnostic err;
	auto mod = parseIRFile(O.bc, err, ctx);
	if (!mod) { err.print("symex", errs()); return 3; }
	M = mod.get();
	DL = &M->getDataLayout();
	X.init();
	initExts();
	for (auto& F : *M)
		if (F.isDeclaration() && streamLike(F.getName().str()) && !extId.count(F.getName().str()))
			reg(F.getName().str(), EXT { UNUSED; for (auto& r : res) r = args.size() && args[0].size() ? args[0][0] : Val(0); });
	ZS = Z3_mk_simple_solver(X.z);
	Z3_solver_inc_ref(X.z, ZS);
	openOut();

	auto st = std::make_unique<State>();
	try {
		setupGlobals(*st);
		// static initialisers
		std::vector<std::pair<uint64_t, Function*>> ctors;
		if (auto* gc = M->getGlobalVariable("llvm.global_ctors"))
			if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
				for (auto& o : ca->operands()) {
					auto* cs = cast<ConstantStruct>(o);
					ctors.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), dyn_cast<Function>(cs->getOperand(1)) });
				}
		std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
		for (auto& c : ctors) {
			if (!c.second) continue;
			std::vector<std::vector<Val>> none;
			enter(*st, fnInfo(c.second), none);
			try { while (true) step(*st); } catch (PathEnd&) { }
		}
		Function* E = M->getFunction(O.entry);
		if (!E) { fprintf(stderr, "no entry %s\n", O.entry.c_str()); return 3; }
		std::vector<std::vector<Val>> none;
		enter(*st, fnInfo(E), none);
		st->insts = 0;
	} catch (Unsupported& u) {
		S.incomplete[std::string("unsupported in setup: ") + u.what()]++;
		if (O.verbose) fprintf(stderr, "setup: %s\n", u.what());
		dumpStats();
		return 0;
	}
	work.push_back(std::move(st));
	runAll();
	dumpStats();
	SH->active--;
	for (auto k : kids) {
		int stt = 0;
		waitpid(k, &stt, 0);
		if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) {
			// a worker died: record it
			FILE* f = fopen((O.out + ".died." + std::to_string(k)).c_str(), "w");
			if (f) { fprintf(f, "{\"type\":\"died\",\"status\":%d}\n", stt); fclose(f); }
		}
	}
	if (O.verbose && procNo == 0) fprintf(stderr, "total %.2fs paths %ld violations %ld\n", now() - T0, SH->paths.load(), SH->vios.load());
	fflush(nullptr);
	_exit(0);
}
