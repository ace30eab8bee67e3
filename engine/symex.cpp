// Symbolic executor for LLVM 18 bitcode with a Z3 back end.
//
// The program under analysis is executed path by path.  Inputs obtained through
// the vp_* intrinsics are symbolic; every branch, switch, address or division
// whose outcome depends on them is put to the solver and each feasible side is
// explored.  vp_assert and the built-in checks (memory safety, traps, uncaught
// exceptions, division by zero, non-termination) are decided by the solver for
// every value satisfying the path condition.
#include "expr.h"

#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>

#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <fstream>
#include <memory>
#include <deque>
#include <algorithm>

using namespace llvm;
static Ctx X;
static const double INF = std::numeric_limits<double>::infinity();

static double now()
{
	using namespace std::chrono;
	return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ options
static struct {
	std::string bc, entry = "harness", out = "symex.out";
	double time = 600;
	int jobs = 1;
	uint64_t maxinst = 50000000;
	uint64_t maxpaths = 100000000;
	unsigned qtimeout = 20000; // ms
	bool hashconst = false, hashsplit = false, forkselect = false, splitxor = false;
	bool nra = false; // use fresh, sliced, non-incremental solver calls
	bool stopFirst = false;
	int vioPerId = 4;
	std::string srcPrefix = "/repo/";
	bool verbose = false;
	bool dumpUnknown = false;
} O;

struct Shared {
	std::atomic<int> active;
	std::atomic<long> paths;
	std::atomic<int> stop;
	std::atomic<long> vios;
};
static Shared* SH;
static double T0, deadline;

// ------------------------------------------------------------------ values
struct Val {
	const Expr* e = nullptr;
	uint64_t c = 0;
	Val() { }
	Val(uint64_t c) : c(c) { }
	bool sym() const { return e != nullptr; }
};
static Val mkv(const Expr* e)
{
	Val v;
	if (e->k == K::Const) v.c = e->c;
	else v.e = e;
	return v;
}

struct Leaf {
	T t;
	unsigned w; // bits
	uint64_t off; // byte offset in memory
	bool ptr;
};

static const DataLayout* DL;
static Module* M;
static std::unordered_map<Type*, std::vector<Leaf>> leafCache;

static void flattenTo(Type* ty, uint64_t off, std::vector<Leaf>& out)
{
	if (ty->isIntegerTy()) out.push_back({ T::BV, ty->getIntegerBitWidth(), off, false });
	else if (ty->isPointerTy()) out.push_back({ T::BV, 64, off, true });
	else if (ty->isDoubleTy()) out.push_back({ T::F64, 64, off, false });
	else if (ty->isFloatTy()) out.push_back({ T::F32, 32, off, false });
	else if (auto* st = dyn_cast<StructType>(ty)) {
		auto* sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++)
			flattenTo(st->getElementType(i), off + sl->getElementOffset(i), out);
	} else if (auto* at = dyn_cast<ArrayType>(ty)) {
		uint64_t sz = DL->getTypeAllocSize(at->getElementType());
		for (uint64_t i = 0; i < at->getNumElements(); i++)
			flattenTo(at->getElementType(), off + i * sz, out);
	} else if (auto* vt = dyn_cast<FixedVectorType>(ty)) {
		uint64_t sz = DL->getTypeStoreSize(vt->getElementType());
		for (unsigned i = 0; i < vt->getNumElements(); i++)
			flattenTo(vt->getElementType(), off + i * sz, out);
	} else if (ty->isVoidTy() || ty->isMetadataTy() || ty->isLabelTy() || ty->isTokenTy()) {
	} else if (ty->isX86_FP80Ty()) out.push_back({ T::F64, 64, off, false });
	else {
		std::string s; raw_string_ostream os(s); ty->print(os);
		throw Unsupported("type " + s);
	}
}
static const std::vector<Leaf>& leaves(Type* ty)
{
	auto it = leafCache.find(ty);
	if (it != leafCache.end()) return it->second;
	std::vector<Leaf> v;
	flattenTo(ty, 0, v);
	return leafCache[ty] = v;
}

// ------------------------------------------------------------------ memory
struct Cell {
	const Expr* e;
	uint32_t n; // bytes
};
struct Obj {
	int rc = 1;
	uint32_t size = 0;
	bool alive = true, ro = false;
	uint8_t kind = 0; // 0 global 1 stack 2 heap(new) 3 heap(malloc)
	std::vector<uint8_t> data;
	std::map<uint32_t, Cell> cells;
};
static const unsigned OSH = 24;
static const uint64_t FBASE = 1ull << 30; // object-id base of functions

class Mem {
public:
	std::vector<Obj*> o; // id-1 -> object
	Mem() { }
	Mem(const Mem& m) : o(m.o) { for (auto p : o) p->rc++; }
	~Mem() { for (auto p : o) if (--p->rc == 0) delete p; }
	Mem& operator=(const Mem&) = delete;
	uint64_t alloc(uint64_t size, uint8_t kind, uint8_t fill)
	{
		if (size >= (1u << OSH)) throw Unsupported("allocation too large");
		Obj* p = new Obj;
		p->size = size; p->kind = kind;
		p->data.assign(size, fill);
		o.push_back(p);
		return (uint64_t)o.size() << OSH;
	}
	Obj* get(uint64_t addr) const
	{
		uint64_t id = addr >> OSH;
		if (id == 0 || id > o.size()) return nullptr;
		return o[id - 1];
	}
	Obj* wr(uint64_t addr)
	{
		Obj*& p = o[(addr >> OSH) - 1];
		if (p->rc > 1) {
			p->rc--;
			p = new Obj(*p);
			p->rc = 1;
		}
		return p;
	}
};

static void clearCells(Obj* p, uint32_t off, uint32_t n)
{
	if (p->cells.empty()) return;
	auto it = p->cells.lower_bound(off);
	if (it != p->cells.begin()) {
		auto pr = std::prev(it);
		if (pr->first + pr->second.n > off) it = pr;
	}
	while (it != p->cells.end() && it->first < off + n) {
		uint32_t co = it->first, cn = it->second.n;
		const Expr* e = it->second.e;
		it = p->cells.erase(it);
		if (co < off || co + cn > off + n) {
			if (e->t != T::BV) {
				if (X.mode == Mode::Real) throw Unsupported("partial overwrite of a symbolic real");
				e = X.cast(K::F2I, e, T::BV, e->w);
			}
			if (e->w != cn * 8) e = X.zext(e, cn * 8);
			if (co < off) {
				const Expr* x = X.extract(e, 0, (off - co) * 8);
				p->cells[co] = { x, off - co };
			}
			if (co + cn > off + n) {
				uint32_t st = off + n;
				const Expr* x = X.extract(e, (st - co) * 8, (co + cn - st) * 8);
				p->cells[st] = { x, co + cn - st };
				it = p->cells.upper_bound(st);
			}
		}
	}
}

// ------------------------------------------------------------------ code
struct Opnd {
	int slot = -1; // first slot, or -1 for constants
	std::vector<Val> c;
};
struct FnInfo;
struct BBInfo;
struct Ins {
	Instruction* I;
	unsigned op;
	int dst = -1;
	std::vector<Opnd> ops;
	const std::vector<Leaf>* lv = nullptr; // result leaves
	const std::vector<Leaf>* lv0 = nullptr; // leaves of operand 0
	// GEP
	int64_t gepOff = 0;
	struct GI { int op; uint64_t scale; unsigned w; };
	std::vector<GI> gepIdx;
	uint64_t size = 0; // load/store/alloca size
	unsigned pred = 0;
	BBInfo* succ[2] = { nullptr, nullptr };
	std::vector<std::pair<uint64_t, BBInfo*>> cases;
	FnInfo* callee = nullptr;
	int intr = -1; // external handler id
	unsigned aggOff = 0; // extract/insertvalue slot
	std::vector<int> shuf;
};
struct BBInfo {
	BasicBlock* B;
	std::vector<Ins> ins;
	unsigned nphi = 0;
	bool seen = false;
	std::unordered_map<BasicBlock*, std::vector<Opnd>> phi; // per predecessor
};
struct FnInfo {
	Function* F;
	std::string name;
	bool compiled = false;
	bool repo = false;
	unsigned nslots = 0;
	std::deque<BBInfo> bbs;
	std::unordered_map<BasicBlock*, BBInfo*> bbm;
	std::vector<int> argSlot;
	std::vector<unsigned> argN;
	int ext = -1;
	uint64_t calls = 0;
	std::string nice;
};
static std::unordered_map<Function*, FnInfo*> fnMap;
static std::vector<FnInfo*> fnByIdx;
static std::unordered_map<std::string, FnInfo*> fnByName;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;

static FnInfo* fnInfo(Function* F)
{
	auto it = fnMap.find(F);
	if (it != fnMap.end()) return it->second;
	auto* f = new FnInfo;
	f->F = F;
	f->name = F->getName().str();
	fnMap[F] = f;
	fnByIdx.push_back(f);
	fnByName[f->name] = f;
	gaddr[F] = (FBASE + fnByIdx.size() - 1) << OSH;
	return f;
}

struct Frame {
	FnInfo* fn;
	std::vector<Val> r;
	BBInfo* bb;
	unsigned pc = 0;
	std::vector<uint64_t> allocas;
	std::vector<Val> va;
};

struct Model {
	Z3_model m;
	Model(Z3_model m) : m(m) { Z3_model_inc_ref(X.z, m); }
	~Model() { Z3_model_dec_ref(X.z, m); }
};

struct Input {
	std::string name;
	const Expr* e;
};

struct State {
	std::vector<Frame> st;
	Mem mem;
	std::vector<const Expr*> pc;
	std::unordered_set<const Expr*> known;
	std::vector<std::shared_ptr<Model>> models;
	std::vector<Input> inputs;
	std::vector<std::string> trace; // reach labels & notes on this path
	uint64_t insts = 0;
	unsigned depth = 0;
	uint64_t excObj = 0, excType = 0;
	uint64_t caught = 0;
	std::unordered_map<uint64_t, uint64_t> excTypes;
	int uncertain = 0;
	std::vector<std::pair<const Expr*, uint64_t>> hashes; // symbolic values hashed so far
};

struct PathEnd { const char* why; };
struct Killed { std::string why; }; // path aborted without verdict

// ------------------------------------------------------------------ statistics
static struct {
	uint64_t paths = 0, insts = 0, queries = 0, unknown = 0, forks = 0, asserts = 0, assertsSym = 0, infeasible = 0, steps = 0;
	double solver = 0;
	std::map<std::string, uint64_t> reach;
	std::map<std::string, uint64_t> assertIds;
	std::map<std::string, uint64_t> incomplete;
	std::map<std::string, int> vioCount;
	uint64_t vios = 0, maxDepth = 0, cacheHits = 0;
	std::vector<std::string> samples;
} S;
static FILE* OUT;

static std::string jstr(const std::string& s)
{
	std::string r = "\"";
	for (char ch : s) {
		if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
		else if (ch == '\n') r += "\\n";
		else if ((unsigned char)ch < 32) r += ' ';
		else r += ch;
	}
	return r + "\"";
}

// ------------------------------------------------------------------ solver
enum class R { Sat, Unsat, Unknown };
static Z3_solver ZS = nullptr;
static std::vector<const Expr*> zstack;

static void setTimeout(Z3_solver s, unsigned ms)
{
	Z3_params p = Z3_mk_params(X.z);
	Z3_params_inc_ref(X.z, p);
	Z3_params_set_uint(X.z, p, Z3_mk_string_symbol(X.z, "timeout"), ms);
	Z3_solver_set_params(X.z, s, p);
	Z3_params_dec_ref(X.z, p);
}

static void exprVars(const Expr* e, std::set<uint64_t>& out, std::unordered_set<const Expr*>& seen)
{
	std::vector<const Expr*> st { e };
	while (!st.empty()) {
		auto x = st.back(); st.pop_back();
		if (!seen.insert(x).second) continue;
		if (x->k == K::Var) out.insert(x->c);
		for (int i = 0; i < x->n; i++) st.push_back(x->op[i]);
	}
}
static std::unordered_map<const Expr*, std::set<uint64_t>> varCache;
static const std::set<uint64_t>& varsOf(const Expr* e)
{
	auto it = varCache.find(e);
	if (it != varCache.end()) return it->second;
	std::set<uint64_t> s;
	std::unordered_set<const Expr*> seen;
	exprVars(e, s, seen);
	return varCache[e] = s;
}

// constraints of pc connected to `extra` through shared variables
static std::vector<const Expr*> slice(const std::vector<const Expr*>& pc, const Expr* extra)
{
	std::set<uint64_t> vs = varsOf(extra);
	std::vector<bool> in(pc.size(), false);
	bool ch = true;
	while (ch) {
		ch = false;
		for (size_t i = 0; i < pc.size(); i++) {
			if (in[i]) continue;
			auto& pv = varsOf(pc[i]);
			bool hit = false;
			for (auto v : pv) if (vs.count(v)) { hit = true; break; }
			if (hit) { in[i] = true; ch = true; vs.insert(pv.begin(), pv.end()); }
		}
	}
	std::vector<const Expr*> r;
	for (size_t i = 0; i < pc.size(); i++) if (in[i]) r.push_back(pc[i]);
	return r;
}

static std::string smtlib(const std::vector<const Expr*>& cs)
{
	Z3_solver s = Z3_mk_simple_solver(X.z);
	Z3_solver_inc_ref(X.z, s);
	for (auto c : cs) Z3_solver_assert(X.z, s, X.toZ3(c));
	std::string r = Z3_solver_to_string(X.z, s);
	Z3_solver_dec_ref(X.z, s);
	return r;
}

static R freshCheck(const std::vector<const Expr*>& cs, unsigned ms, std::shared_ptr<Model>* out)
{
	Z3_solver s = Z3_mk_solver(X.z);
	Z3_solver_inc_ref(X.z, s);
	setTimeout(s, ms);
	for (auto c : cs) Z3_solver_assert(X.z, s, X.toZ3(c));
	Z3_lbool b = Z3_solver_check(X.z, s);
	if (b == Z3_L_TRUE && out) *out = std::make_shared<Model>(Z3_solver_get_model(X.z, s));
	Z3_solver_dec_ref(X.z, s);
	return b == Z3_L_TRUE ? R::Sat : b == Z3_L_FALSE ? R::Unsat : R::Unknown;
}

static std::map<std::vector<uint32_t>, R> qcache;

static R check(State& s, const Expr* extra, std::shared_ptr<Model>* out = nullptr, unsigned ms = 0)
{
	if (extra && extra->k == K::Const) {
		if (!extra->c) return R::Unsat;
		extra = nullptr;
	}
	if (!ms) ms = O.qtimeout;
	double left = (deadline - now()) * 1000;
	if (left < 200) throw Killed { "time budget" };
	if (ms > left) ms = (unsigned)left;
	double t = now();
	R r;
	if (O.nra) {
		std::vector<const Expr*> cs = extra ? slice(s.pc, extra) : s.pc;
		if (extra) cs.push_back(extra);
		std::vector<uint32_t> key;
		for (auto c : cs) key.push_back(c->id);
		std::sort(key.begin(), key.end());
		auto it = qcache.find(key);
		if (it != qcache.end() && it->second == R::Unsat) { S.cacheHits++; return R::Unsat; }
		S.queries++;
		r = freshCheck(cs, ms, out);
		qcache[key] = r;
		if (r == R::Sat && out) {
			// a sliced model need not mention the other variables; complete it only when asked
		}
		if (r == R::Unknown && O.dumpUnknown) {
			static int n = 0;
			std::ofstream f(O.out + ".unk." + std::to_string(getpid()) + "." + std::to_string(n++) + ".smt2");
			f << smtlib(cs) << "(check-sat)\n";
		}
	} else {
		S.queries++;
		size_t k = 0;
		while (k < zstack.size() && k < s.pc.size() && zstack[k] == s.pc[k]) k++;
		if (k < zstack.size()) {
			Z3_solver_pop(X.z, ZS, zstack.size() - k);
			zstack.resize(k);
		}
		for (; k < s.pc.size(); k++) {
			Z3_solver_push(X.z, ZS);
			Z3_solver_assert(X.z, ZS, X.toZ3(s.pc[k]));
			zstack.push_back(s.pc[k]);
		}
		setTimeout(ZS, ms);
		Z3_lbool b;
		if (extra) {
			Z3_solver_push(X.z, ZS);
			Z3_solver_assert(X.z, ZS, X.toZ3(extra));
			b = Z3_solver_check(X.z, ZS);
			if (b == Z3_L_TRUE && out) *out = std::make_shared<Model>(Z3_solver_get_model(X.z, ZS));
			Z3_solver_pop(X.z, ZS, 1);
		} else {
			b = Z3_solver_check(X.z, ZS);
			if (b == Z3_L_TRUE && out) *out = std::make_shared<Model>(Z3_solver_get_model(X.z, ZS));
		}
		r = b == Z3_L_TRUE ? R::Sat : b == Z3_L_FALSE ? R::Unsat : R::Unknown;
		if (r == R::Unknown) {
			std::vector<const Expr*> cs = extra ? slice(s.pc, extra) : s.pc;
			if (extra) cs.push_back(extra);
			S.queries++;
			r = freshCheck(cs, ms, out);
			if (r == R::Unknown && O.dumpUnknown) {
				static int n = 0;
				std::ofstream f(O.out + ".unk." + std::to_string(getpid()) + "." + std::to_string(n++) + ".smt2");
				f << smtlib(cs) << "(check-sat)\n";
			}
		}
	}
	double dt = now() - t;
	S.solver += dt;
	if (O.verbose && dt > 2) fprintf(stderr, "[slow query %.1fs -> %d] %s\n", dt, (int)r, extra ? X.str(extra, 5).c_str() : "pc");
	if (O.dumpUnknown && dt > 2) {
		static int n = 0;
		std::ofstream f(O.out + ".slow." + std::to_string(getpid()) + "." + std::to_string(n++) + ".smt2");
		auto cs = s.pc;
		if (extra) cs.push_back(extra);
		f << "; " << dt << " s -> " << (int)r << "\n" << smtlib(cs) << "(check-sat)\n";
	}
	if (r == R::Unknown) S.unknown++;
	return r;
}

// value of a boolean in a model: 1, 0, -1 unknown
static int evalBool(Model& m, const Expr* e)
{
	Z3_ast r;
	if (!Z3_model_eval(X.z, m.m, X.toZ3(e), true, &r)) return -1;
	Z3_lbool b = Z3_get_bool_value(X.z, r);
	return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
}

static void learn(State& s, const Expr* c)
{
	if (c->k == K::Const) return;
	if (!s.known.insert(c).second) return;
	if (c->k == K::And) { learn(s, c->op[0]); learn(s, c->op[1]); }
	if (c->k == K::Not && c->op[0]->k == K::Or) { learn(s, X.lnot(c->op[0]->op[0])); learn(s, X.lnot(c->op[0]->op[1])); }
}

// add a constraint known to be consistent with the path condition
static void addPC(State& s, const Expr* c)
{
	if (c->k == K::Const) return;
	if (s.known.count(c)) return;
	s.pc.push_back(c);
	learn(s, c);
	std::vector<std::shared_ptr<Model>> keep;
	for (auto& m : s.models)
		if (evalBool(*m, c) == 1) keep.push_back(m);
	s.models.swap(keep);
}

static int quick(State& s, const Expr* c)
{
	if (c->k == K::Const) return c->c ? 1 : 0;
	if (s.known.count(c)) return 1;
	if (s.known.count(X.lnot(c))) return 0;
	if (c->k == K::Not) { int r = quick(s, c->op[0]); return r < 0 ? r : !r; }
	if (c->k == K::And) {
		int a = quick(s, c->op[0]); if (a == 0) return 0;
		int b = quick(s, c->op[1]); if (b == 0) return 0;
		if (a == 1 && b == 1) return 1;
	}
	if (c->k == K::Or) {
		int a = quick(s, c->op[0]); if (a == 1) return 1;
		int b = quick(s, c->op[1]); if (b == 1) return 1;
		if (a == 0 && b == 0) return 0;
	}
	return -1;
}

static std::vector<std::unique_ptr<State>> work;

// Decide a boolean on this path; when both outcomes are feasible the other one
// is queued as a copy of the state that will re-execute the same instruction.
static bool branch(State& s, const Expr* c)
{
	int q = quick(s, c);
	if (q >= 0) return q;
	bool canT = false, canF = false;
	for (auto& m : s.models) {
		int v = evalBool(*m, c);
		if (v == 1) canT = true;
		if (v == 0) canF = true;
	}
	const Expr* nc = X.lnot(c);
	bool unk = false;
	if (!canT) {
		std::shared_ptr<Model> m;
		R r = check(s, c, &m);
		if (r == R::Sat) { canT = true; if (m && !O.nra) s.models.push_back(m); }
		else if (r == R::Unknown) { canT = true; unk = true; }
	}
	if (!canT) { learn(s, nc); return false; }
	if (!canF) {
		std::shared_ptr<Model> m;
		R r = check(s, nc, &m);
		if (r == R::Sat) { canF = true; if (m && !O.nra) s.models.push_back(m); }
		else if (r == R::Unknown) { canF = true; unk = true; }
	}
	if (!canF) { learn(s, c); return true; }
	if (unk) s.uncertain++;
	S.forks++;
	if (s.models.size() > 4) s.models.erase(s.models.begin(), s.models.end() - 4);
	auto o = std::make_unique<State>(s);
	o->depth = s.depth = s.depth + 1;
	if (s.depth > S.maxDepth) S.maxDepth = s.depth;
	addPC(*o, nc);
	addPC(s, c);
	work.push_back(std::move(o));
	return true;
}

// ------------------------------------------------------------------ violations
static std::string where(State& s)
{
	std::string r;
	int n = 0;
	for (int i = (int)s.st.size() - 1; i >= 0 && n < 8; i--) {
		auto& f = s.st[i];
		Instruction* I = f.pc < f.bb->ins.size() ? f.bb->ins[f.pc].I : nullptr;
		if (n) r += " < ";
		std::string nm = demangle(f.fn->name);
		if (nm.size() > 90) nm = nm.substr(0, 90) + "..";
		r += nm;
		if (I && I->getDebugLoc()) {
			auto* L = I->getDebugLoc().get();
			r += "@" + L->getFilename().str() + ":" + std::to_string(L->getLine());
		}
		n++;
	}
	return r;
}

static std::string numStr(Model& m, const Expr* e)
{
	Z3_ast r;
	if (!Z3_model_eval(X.z, m.m, X.toZ3(e), true, &r)) return "0";
	if (e->t == T::BV) {
		if (e->w == 1) return Z3_get_bool_value(X.z, r) == Z3_L_TRUE ? "1" : "0";
		if (X.mode == Mode::Real) return Z3_get_numeral_string(X.z, r);
		uint64_t v = 0;
		Z3_get_numeral_uint64(X.z, r, &v);
		return std::to_string(sx(v, e->w));
	}
	char buf[64];
	if (X.mode == Mode::Real) {
		std::string d;
		if (Z3_is_algebraic_number(X.z, r) || Z3_get_ast_kind(X.z, r) == Z3_NUMERAL_AST) {
			if (Z3_get_ast_kind(X.z, r) == Z3_NUMERAL_AST) {
				// exact rational -> nearest double through high precision decimal
				std::string q = Z3_get_numeral_decimal_string(X.z, r, 60);
				if (!q.empty() && q.back() == '?') q.pop_back();
				d = q;
			} else {
				std::string q = Z3_get_numeral_decimal_string(X.z, r, 40);
				if (!q.empty() && q.back() == '?') q.pop_back();
				d = q;
			}
		} else d = "0";
		snprintf(buf, sizeof buf, "%.17g", strtod(d.c_str(), nullptr));
		return buf;
	}
	Z3_ast bits = Z3_simplify(X.z, Z3_mk_fpa_to_ieee_bv(X.z, r));
	uint64_t v = 0;
	Z3_get_numeral_uint64(X.z, bits, &v);
	double d = e->t == T::F64 ? asD(v) : asF(v);
	if (std::isnan(d)) return "nan";
	snprintf(buf, sizeof buf, "%.17g", d);
	return buf;
}

static void report(State& s, const std::string& id, const std::string& detail, std::shared_ptr<Model> m, bool uncertain = false)
{
	S.vios++;
	SH->vios++;
	if (S.vioCount[id]++ >= O.vioPerId) return;
	// complete model over the whole path condition
	if (!m || O.nra) {
		std::shared_ptr<Model> full;
		if (m) full = m;
		if (O.nra || !m) {
			std::shared_ptr<Model> f2;
			if (!m) { if (check(s, nullptr, &f2) == R::Sat) full = f2; }
		}
		m = full;
	}
	std::string j = "{\"type\":\"violation\",\"id\":" + jstr(id) + ",\"detail\":" + jstr(detail) + ",\"where\":" + jstr(where(s));
	j += std::string(",\"uncertain\":") + (uncertain || s.uncertain ? "true" : "false");
	j += std::string(",\"model\":") + (m ? "true" : "false");
	j += ",\"inputs\":[";
	for (size_t i = 0; i < s.inputs.size(); i++) {
		if (i) j += ",";
		std::string v = "0";
		try { if (m) v = numStr(*m, s.inputs[i].e); } catch (Unsupported&) { }
		j += "[" + jstr(s.inputs[i].name) + "," + jstr(v) + "]";
	}
	j += "],\"trace\":[";
	for (size_t i = 0; i < s.trace.size(); i++) j += (i ? "," : "") + jstr(s.trace[i]);
	j += "]}\n";
	fputs(j.c_str(), OUT);
	fflush(OUT);
	if (O.verbose) fputs(j.c_str(), stderr);
	if (O.stopFirst) SH->stop = 1;
}

[[noreturn]] static void safety(State& s, const std::string& kind, const std::string& detail)
{
	std::shared_ptr<Model> m;
	if (!s.models.empty()) m = s.models.back();
	else check(s, nullptr, &m);
	report(s, "safety:" + kind, detail, m);
	throw PathEnd { "violation" };
}

// assert c on this path; continue assuming it
static void doAssert(State& s, const Expr* c, const std::string& id)
{
	S.asserts++;
	S.assertIds[id]++;
	int q = quick(s, c);
	if (q == 1) return;
	if (X.polys && q < 0) {
		c = X.normalCompare(c);
		q = quick(s, c);
		if (q == 1) return;
	}
	S.assertsSym++;
	if (getenv("VP_DUMP")) fprintf(stderr, "DUMP %s %s\n", id.c_str(), X.str(c, 40).substr(0, 6000).c_str());
	std::shared_ptr<Model> m;
	const Expr* nc = X.lnot(c);
	if (q == 0) {
		if (!s.models.empty()) m = s.models.back();
		else check(s, nullptr, &m);
		report(s, "assert:" + id, "assertion fails on this path", m);
		throw PathEnd { "violation" };
	}
	for (auto& mm : s.models)
		if (evalBool(*mm, c) == 0) { m = mm; break; }
	R r = R::Sat;
	if (!m) r = check(s, nc, &m);
	if (r == R::Unsat) { learn(s, c); return; }
	if (r == R::Unknown) {
		S.incomplete["unknown assert " + id]++;
		// go on assuming it, so that later obligations are still examined
		addPC(s, c);
		return;
	}
	if (O.nra && m && m->m) {
		// complete the model over the whole path
		std::shared_ptr<Model> full;
		std::vector<const Expr*> all = s.pc;
		all.push_back(nc);
		if (freshCheck(all, O.qtimeout, &full) == R::Sat) m = full;
	}
	report(s, "assert:" + id, "counterexample", m);
	// continue on the part of the path where it holds
	std::shared_ptr<Model> m2;
	R r2 = check(s, c, &m2);
	if (r2 == R::Unsat) throw PathEnd { "violation" };
	addPC(s, c);
	if (m2 && !O.nra) s.models.push_back(m2);
}

static void doAssume(State& s, const Expr* c)
{
	int q = quick(s, c);
	if (q == 1) return;
	if (q == 0) { S.infeasible++; throw PathEnd { "assume" }; }
	for (auto& m : s.models)
		if (evalBool(*m, c) == 1) { addPC(s, c); return; }
	std::shared_ptr<Model> m;
	R r = check(s, c, &m);
	if (r == R::Unsat) { S.infeasible++; throw PathEnd { "assume" }; }
	if (r == R::Unknown) s.uncertain++;
	addPC(s, c);
	if (m && !O.nra) s.models.push_back(m);
}

#include "exec.inc"
