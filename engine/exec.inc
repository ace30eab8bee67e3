// ------------------------------------------------------------------ constants
static void constLeaves(Constant* C, std::vector<Val>& out)
{
	Type* ty = C->getType();
	if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) {
		out.resize(out.size() + leaves(ty).size());
		return;
	}
	if (auto* ci = dyn_cast<ConstantInt>(C)) {
		if (ci->getBitWidth() > 64) {
			if (ci->getValue().getActiveBits() > 64) throw Unsupported("wide constant");
		}
		out.push_back(Val(ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth()), 0)));
		return;
	}
	if (auto* cf = dyn_cast<ConstantFP>(C)) {
		if (ty->isDoubleTy()) out.push_back(Val(fromD(cf->getValueAPF().convertToDouble())));
		else if (ty->isFloatTy()) out.push_back(Val(fromF(cf->getValueAPF().convertToFloat())));
		else {
			APFloat f = cf->getValueAPF();
			bool li;
			f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
			out.push_back(Val(fromD(f.convertToDouble())));
		}
		return;
	}
	if (auto* ca = dyn_cast<ConstantAggregate>(C)) {
		for (unsigned i = 0; i < ca->getNumOperands(); i++) constLeaves(cast<Constant>(ca->getOperand(i)), out);
		return;
	}
	if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
		for (unsigned i = 0; i < cd->getNumElements(); i++) constLeaves(cd->getElementAsConstant(i), out);
		return;
	}
	if (auto* gv = dyn_cast<GlobalValue>(C)) {
		if (auto* al = dyn_cast<GlobalAlias>(gv)) { constLeaves(al->getAliasee(), out); return; }
		if (auto* F = dyn_cast<Function>(gv)) fnInfo(F);
		auto it = gaddr.find(gv);
		if (it == gaddr.end()) throw Unsupported("global address of " + gv->getName().str());
		out.push_back(Val(it->second));
		return;
	}
	if (auto* ce = dyn_cast<ConstantExpr>(C)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0);
			auto* g = cast<GEPOperator>(ce);
			if (!g->accumulateConstantOffset(*DL, off)) break;
			std::vector<Val> b;
			constLeaves(cast<Constant>(g->getPointerOperand()), b);
			out.push_back(Val(b[0].c + off.getSExtValue()));
			return;
		}
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
			constLeaves(ce->getOperand(0), out);
			return;
		}
		case Instruction::Trunc: {
			constLeaves(ce->getOperand(0), out);
			out.back().c = msk(out.back().c, ty->getIntegerBitWidth());
			return;
		}
		case Instruction::Add: case Instruction::Sub: {
			std::vector<Val> a, b;
			constLeaves(ce->getOperand(0), a);
			constLeaves(ce->getOperand(1), b);
			out.push_back(Val(ce->getOpcode() == Instruction::Add ? a[0].c + b[0].c : a[0].c - b[0].c));
			return;
		}
		default: break;
		}
	}
	std::string s; raw_string_ostream os(s); C->print(os);
	throw Unsupported("constant " + s);
}

// ------------------------------------------------------------------ externals
typedef std::function<void(State&, const Ins&, std::vector<std::vector<Val>>&, std::vector<Val>&)> Ext;
static std::vector<Ext> exts;
static std::unordered_map<std::string, int> extId;
static void initExts();

static int findExt(const std::string& n)
{
	auto it = extId.find(n);
	if (it != extId.end()) return it->second;
	if (n.rfind("llvm.", 0) == 0) {
		// strip the type suffix
		std::string b = n;
		while (true) {
			auto it2 = extId.find(b);
			if (it2 != extId.end()) return it2->second;
			auto p = b.rfind('.');
			if (p == std::string::npos || p <= 4) break;
			b = b.substr(0, p);
		}
	}
	return -1;
}

// ------------------------------------------------------------------ compile
static void compileFn(FnInfo* fi)
{
	fi->compiled = true;
	Function* F = fi->F;
	if (auto* sp = F->getSubprogram()) {
		std::string fn = sp->getFilename().str(), dir = sp->getDirectory().str();
		if (!fn.empty() && fn[0] != '/') fn = dir + "/" + fn;
		fi->repo = fn.rfind(O.srcPrefix, 0) == 0;
		fi->nice = fn;
	}
	std::unordered_map<const Value*, int> slot;
	unsigned n = 0;
	for (auto& a : F->args()) {
		slot[&a] = n;
		fi->argSlot.push_back(n);
		unsigned k = leaves(a.getType()).size();
		fi->argN.push_back(k);
		n += k;
	}
	for (auto& B : *F)
		for (auto& I : B) {
			auto& l = leaves(I.getType());
			if (l.size()) { slot[&I] = n; n += l.size(); }
		}
	fi->nslots = n;
	for (auto& B : *F) {
		fi->bbs.emplace_back();
		fi->bbs.back().B = &B;
		fi->bbm[&B] = &fi->bbs.back();
	}
	auto mkop = [&](Value* v) {
		Opnd o;
		auto it = slot.find(v);
		if (it != slot.end()) { o.slot = it->second; return o; }
		if (auto* c = dyn_cast<Constant>(v)) { constLeaves(c, o.c); return o; }
		return o; // metadata etc.
	};
	for (auto& bi : fi->bbs) {
		for (auto& I : *bi.B) {
			if (auto* phi = dyn_cast<PHINode>(&I)) {
				bi.nphi++;
				Ins x; x.I = &I; x.op = I.getOpcode(); x.dst = slot[&I]; x.lv = &leaves(I.getType());
				bi.ins.push_back(x);
				std::set<BasicBlock*> seen;
				for (unsigned i = 0; i < phi->getNumIncomingValues(); i++)
					if (seen.insert(phi->getIncomingBlock(i)).second)
						bi.phi[phi->getIncomingBlock(i)].push_back(mkop(phi->getIncomingValue(i)));
				continue;
			}
			if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
				switch (ii->getIntrinsicID()) {
				case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::dbg_assign: case Intrinsic::invariant_end:
					continue;
				default: break;
				}
			}
			Ins x;
			x.I = &I;
			x.op = I.getOpcode();
			auto& l = leaves(I.getType());
			x.lv = &l;
			if (l.size()) x.dst = slot[&I];
			switch (x.op) {
			case Instruction::Call: case Instruction::Invoke: {
				auto* cb = cast<CallBase>(&I);
				for (auto& a : cb->args()) x.ops.push_back(a->getType()->isMetadataTy() ? Opnd() : mkop(a));
				Value* cv = cb->getCalledOperand()->stripPointerCasts();
				if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
				if (auto* CF = dyn_cast<Function>(cv)) x.callee = fnInfo(CF);
				else if (isa<InlineAsm>(cv)) x.callee = nullptr;
				else x.ops.push_back(mkop(cv)); // last: function pointer
				if (auto* inv = dyn_cast<InvokeInst>(&I)) {
					x.succ[0] = fi->bbm[inv->getNormalDest()];
					x.succ[1] = fi->bbm[inv->getUnwindDest()];
				}
				break;
			}
			case Instruction::GetElementPtr: {
				auto* g = cast<GetElementPtrInst>(&I);
				x.ops.push_back(mkop(g->getPointerOperand()));
				for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
					Value* idx = gti.getOperand();
					if (auto* st = gti.getStructTypeOrNull()) {
						x.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
					} else {
						uint64_t sc = DL->getTypeAllocSize(gti.getIndexedType());
						if (auto* ci = dyn_cast<ConstantInt>(idx)) x.gepOff += ci->getSExtValue() * (int64_t)sc;
						else {
							x.ops.push_back(mkop(idx));
							x.gepIdx.push_back({ (int)x.ops.size() - 1, sc, idx->getType()->getIntegerBitWidth() });
						}
					}
				}
				x.pred = 64;
				break;
			}
			case Instruction::Br: {
				auto* b = cast<BranchInst>(&I);
				if (b->isConditional()) {
					x.ops.push_back(mkop(b->getCondition()));
					x.succ[0] = fi->bbm[b->getSuccessor(0)];
					x.succ[1] = fi->bbm[b->getSuccessor(1)];
				} else x.succ[0] = fi->bbm[b->getSuccessor(0)];
				break;
			}
			case Instruction::Switch: {
				auto* sw = cast<SwitchInst>(&I);
				x.ops.push_back(mkop(sw->getCondition()));
				x.lv0 = &leaves(sw->getCondition()->getType());
				x.succ[0] = fi->bbm[sw->getDefaultDest()];
				for (auto& c : sw->cases()) x.cases.push_back({ c.getCaseValue()->getZExtValue(), fi->bbm[c.getCaseSuccessor()] });
				break;
			}
			case Instruction::Load: x.ops.push_back(mkop(I.getOperand(0))); x.size = DL->getTypeStoreSize(I.getType()); break;
			case Instruction::Store:
				x.ops.push_back(mkop(I.getOperand(0)));
				x.ops.push_back(mkop(I.getOperand(1)));
				x.lv0 = &leaves(I.getOperand(0)->getType());
				x.size = DL->getTypeStoreSize(I.getOperand(0)->getType());
				break;
			case Instruction::Alloca:
				x.ops.push_back(mkop(I.getOperand(0)));
				x.size = DL->getTypeAllocSize(cast<AllocaInst>(&I)->getAllocatedType());
				break;
			case Instruction::ExtractValue: {
				auto* ev = cast<ExtractValueInst>(&I);
				x.ops.push_back(mkop(ev->getAggregateOperand()));
				Type* t = ev->getAggregateOperand()->getType();
				unsigned off = 0;
				for (unsigned ix : ev->indices()) {
					for (unsigned i = 0; i < ix; i++) off += leaves(isa<StructType>(t) ? cast<StructType>(t)->getElementType(i) : cast<ArrayType>(t)->getElementType()).size();
					t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(ix) : cast<ArrayType>(t)->getElementType();
				}
				x.aggOff = off;
				break;
			}
			case Instruction::InsertValue: {
				auto* iv = cast<InsertValueInst>(&I);
				x.ops.push_back(mkop(iv->getAggregateOperand()));
				x.ops.push_back(mkop(iv->getInsertedValueOperand()));
				x.lv0 = &leaves(iv->getInsertedValueOperand()->getType());
				Type* t = iv->getAggregateOperand()->getType();
				unsigned off = 0;
				for (unsigned ix : iv->indices()) {
					for (unsigned i = 0; i < ix; i++) off += leaves(isa<StructType>(t) ? cast<StructType>(t)->getElementType(i) : cast<ArrayType>(t)->getElementType()).size();
					t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(ix) : cast<ArrayType>(t)->getElementType();
				}
				x.aggOff = off;
				break;
			}
			case Instruction::ShuffleVector: {
				auto* sv = cast<ShuffleVectorInst>(&I);
				x.ops.push_back(mkop(sv->getOperand(0)));
				x.ops.push_back(mkop(sv->getOperand(1)));
				x.lv0 = &leaves(sv->getOperand(0)->getType());
				for (int m : sv->getShuffleMask()) x.shuf.push_back(m);
				break;
			}
			case Instruction::ICmp: case Instruction::FCmp:
				x.pred = cast<CmpInst>(&I)->getPredicate();
				// fallthrough
			default:
				for (auto& o : I.operands()) if (!isa<BasicBlock>(o)) x.ops.push_back(mkop(o));
				if (I.getNumOperands() && !isa<BasicBlock>(I.getOperand(0))) x.lv0 = &leaves(I.getOperand(0)->getType());
				break;
			}
			bi.ins.push_back(std::move(x));
		}
	}
}

// ------------------------------------------------------------------ helpers
static inline const Val* opv(State& s, const Opnd& o)
{
	return o.slot >= 0 ? &s.st.back().r[o.slot] : o.c.data();
}
static const Expr* ex(const Val& v, T t, unsigned w)
{
	if (v.e) return v.e;
	return t == T::BV ? X.bv(v.c, w) : X.fc(t, v.c);
}
static const Expr* exb(const Val& v) { return v.e ? v.e : X.boolc(v.c & 1); }

static uint64_t concretize(State& s, const Expr* e, const char* what)
{
	// pick a value, fork off the rest
	if (e->k == K::Const) return e->c;
	for (int guard = 0; guard < 100000; guard++) {
		std::shared_ptr<Model> m;
		if (!s.models.empty()) m = s.models.back();
		else {
			R r = O.nra ? freshCheck(s.pc, O.qtimeout, &m) : check(s, nullptr, &m);
			if (r == R::Unsat) throw PathEnd { "infeasible" };
			if (r != R::Sat) throw Killed { std::string("cannot concretize ") + what };
			if (!O.nra) s.models.push_back(m);
		}
		Z3_ast r;
		Z3_model_eval(X.z, m->m, X.toZ3(e), true, &r);
		uint64_t v;
		if (e->t != T::BV) throw Killed { "concretize float" };
		if (e->w == 1) v = Z3_get_bool_value(X.z, r) == Z3_L_TRUE;
		else if (X.mode == Mode::Real) {
			int64_t iv;
			if (!Z3_get_numeral_int64(X.z, r, &iv)) {
				// the integer part of an irrational number: ask for the integer itself
				Z3_solver q = Z3_mk_simple_solver(X.z);
				Z3_solver_inc_ref(X.z, q);
				setTimeout(q, O.qtimeout);
				for (auto c : s.pc) Z3_solver_assert(X.z, q, X.toZ3(c));
				Z3_ast kk = Z3_mk_fresh_const(X.z, "whole", Z3_mk_int_sort(X.z));
				Z3_solver_assert(X.z, q, Z3_mk_eq(X.z, kk, X.toZ3(e)));
				S.queries++;
				bool ok = false;
				if (Z3_solver_check(X.z, q) == Z3_L_TRUE) {
					Z3_model mm = Z3_solver_get_model(X.z, q);
					Z3_model_inc_ref(X.z, mm);
					ok = Z3_model_eval(X.z, mm, kk, true, &r) && Z3_get_numeral_int64(X.z, r, &iv);
					Z3_model_dec_ref(X.z, mm);
				}
				Z3_solver_dec_ref(X.z, q);
				if (!ok) throw Killed { "concretize: not a number" };
			}
			v = msk((uint64_t)iv, e->w);
		} else Z3_get_numeral_uint64(X.z, r, &v);
		if (branch(s, X.cmp(K::Eq, e, X.bv(v, e->w)))) return v;
	}
	throw Killed { "concretize" };
}

// Resolve an address for an access of n bytes, checking bounds.
static uint64_t resolve(State& s, const Val& a, uint64_t n, bool write)
{
	uint64_t addr;
	if (a.e) {
		// bounds first: is any out-of-object value feasible?
		addr = concretize(s, a.e, "address");
	} else addr = a.c;
	Obj* o = s.mem.get(addr);
	if (!o) safety(s, addr < 4096 ? "null-dereference" : "wild-pointer", write ? "write through an invalid pointer" : "read through an invalid pointer");
	uint64_t off = addr & ((1u << OSH) - 1);
	if (!o->alive) safety(s, "use-after-free", write ? "write" : "read");
	if (off + n > o->size) safety(s, "out-of-bounds", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string(off) + " of an object of " + std::to_string(o->size));
	if (write && o->ro) safety(s, "write-to-constant", "");
	return addr;
}

static const Expr* toBV(const Expr* e)
{
	if (e->t == T::BV) return e;
	return X.cast(K::F2I, e, T::BV, e->w);
}

static Val loadLeaf(State& s, uint64_t addr, const Leaf& l)
{
	Obj* o = s.mem.get(addr);
	uint32_t off = (addr & ((1u << OSH) - 1));
	uint32_t n = (l.w + 7) / 8;
	if (!o->cells.empty()) {
		auto it = o->cells.upper_bound(off + n - 1);
		bool hit = false;
		if (it != o->cells.begin()) {
			auto pr = std::prev(it);
			if (pr->first + pr->second.n > off) hit = true;
		}
		if (hit) {
			auto f = o->cells.find(off);
			if (f != o->cells.end() && f->second.n == n) {
				const Expr* e = f->second.e;
				if (e->t == l.t && e->w == l.w) return mkv(e);
				if (l.t != T::BV) {
					if (e->t == T::BV) return mkv(X.cast(K::I2F, e->w == l.w ? e : X.zext(e, l.w), l.t, l.w));
					throw Unsupported("float width mismatch in memory");
				}
				e = toBV(e);
				if (e->w > l.w) return mkv(X.extract(e, 0, l.w));
				if (e->w < l.w) return mkv(X.zext(e, l.w));
				return mkv(e);
			}
			// assemble from pieces, little endian
			if (l.t == T::BV && l.w <= 64) {
				const Expr* acc = nullptr;
				uint32_t p = off;
				while (p < off + n) {
					const Expr* piece;
					uint32_t pn;
					auto q = o->cells.upper_bound(p);
					const Cell* cell = nullptr;
					uint32_t co = 0;
					if (q != o->cells.begin()) {
						auto pr = std::prev(q);
						if (pr->first + pr->second.n > p) { cell = &pr->second; co = pr->first; }
					}
					if (cell) {
						const Expr* e = cell->e;
						pn = std::min(co + cell->n, off + n) - p;
						if (p == co && pn == cell->n) piece = toBV(e);
						else {
							if (e->t != T::BV && X.mode == Mode::Real) throw Unsupported("partial read of a symbolic real");
							e = toBV(e);
							if (e->w < cell->n * 8) e = X.zext(e, cell->n * 8);
							piece = X.extract(e, (p - co) * 8, pn * 8);
						}
						if (piece->w < pn * 8) piece = X.zext(piece, pn * 8);
					} else {
						uint32_t e = q == o->cells.end() ? off + n : std::min(q->first, off + n);
						pn = e - p;
						uint64_t v = 0;
						memcpy(&v, &o->data[p], pn);
						piece = X.bv(v, pn * 8);
					}
					acc = acc ? X.concat(piece, acc) : piece;
					p += pn;
				}
				if (acc->w > l.w) acc = X.extract(acc, 0, l.w);
				return mkv(acc);
			}
			throw Unsupported("mixed read of a symbolic float");
		}
	}
	uint64_t v = 0;
	memcpy(&v, &o->data[off], std::min(n, 8u));
	if (l.t == T::BV) v = msk(v, l.w);
	return Val(v);
}

static void storeLeaf(State& s, uint64_t addr, const Leaf& l, const Val& v)
{
	Obj* o = s.mem.wr(addr);
	uint32_t off = (addr & ((1u << OSH) - 1));
	uint32_t n = (l.w + 7) / 8;
	clearCells(o, off, n);
	if (!v.e) {
		uint64_t c = v.c;
		memcpy(&o->data[off], &c, std::min(n, 8u));
		if (n > 8) memset(&o->data[off + 8], 0, n - 8);
		return;
	}
	const Expr* e = v.e;
	if (e->t == T::BV && e->k == K::F2I) { // keep reals as reals
		o->cells[off] = { e->op[0], n };
		return;
	}
	if (e->t == T::BV && e->k == K::Concat && e->w == n * 8 && e->op[1]->w % 8 == 0) {
		Leaf lo { T::BV, e->op[1]->w, 0, false }, hi { T::BV, e->op[0]->w, 0, false };
		storeLeaf(s, addr, lo, mkv(e->op[1]));
		storeLeaf(s, addr + lo.w / 8, hi, mkv(e->op[0]));
		return;
	}
	if (e->t == T::BV && e->k == K::ZExt && e->op[0]->k == K::F2I && e->op[0]->w % 8 == 0) {
		Leaf lo { T::BV, e->op[0]->w, 0, false }, hi { T::BV, e->w - e->op[0]->w, 0, false };
		storeLeaf(s, addr, lo, mkv(e->op[0]));
		storeLeaf(s, addr + lo.w / 8, hi, Val(0));
		return;
	}
	o->cells[off] = { e, n };
}

static void memCopy(State& s, uint64_t d, uint64_t a, uint64_t n)
{
	if (!n) return;
	Obj* so = s.mem.get(a);
	uint32_t ao = a & ((1u << OSH) - 1), dof = d & ((1u << OSH) - 1);
	std::vector<uint8_t> buf(so->data.begin() + ao, so->data.begin() + ao + n);
	std::vector<std::pair<uint32_t, Cell>> cs;
	if (!so->cells.empty()) {
		auto it = so->cells.lower_bound(ao);
		if (it != so->cells.begin()) {
			auto pr = std::prev(it);
			if (pr->first + pr->second.n > ao) {
				if (pr->second.e->t != T::BV && X.mode == Mode::Real) throw Unsupported("partial copy of a symbolic real");
				const Expr* e = toBV(pr->second.e);
				if (e->w < pr->second.n * 8) e = X.zext(e, pr->second.n * 8);
				uint32_t end = std::min<uint32_t>(pr->first + pr->second.n, ao + n);
				cs.push_back({ 0, { X.extract(e, (ao - pr->first) * 8, (end - ao) * 8), end - ao } });
			}
		}
		for (; it != so->cells.end() && it->first < ao + n; ++it) {
			uint32_t end = it->first + it->second.n;
			if (end <= ao + n) cs.push_back({ it->first - ao, it->second });
			else {
				if (it->second.e->t != T::BV && X.mode == Mode::Real) throw Unsupported("partial copy of a symbolic real");
				const Expr* e = toBV(it->second.e);
				if (e->w < it->second.n * 8) e = X.zext(e, it->second.n * 8);
				uint32_t k = ao + n - it->first;
				cs.push_back({ it->first - ao, { X.extract(e, 0, k * 8), k } });
			}
		}
	}
	Obj* o = s.mem.wr(d);
	clearCells(o, dof, n);
	memcpy(&o->data[dof], buf.data(), n);
	for (auto& c : cs) {
		if (c.second.e->k == K::Const) {
			uint64_t v = c.second.e->c;
			memcpy(&o->data[dof + c.first], &v, std::min(8u, c.second.n));
		} else o->cells[dof + c.first] = c.second;
	}
}

static std::string cstr(State& s, uint64_t a)
{
	std::string r;
	Obj* o = s.mem.get(a);
	if (!o) return r;
	for (uint32_t off = a & ((1u << OSH) - 1); off < o->size && o->data[off]; off++) r += (char)o->data[off];
	return r;
}

static uint64_t needC(State& s, const Val& v, const char* what)
{
	if (!v.e) return v.c;
	return concretize(s, v.e, what);
}

// ------------------------------------------------------------------ floats
static Val fcst(T t, double v) { return Val(t == T::F64 ? fromD(v) : fromF((float)v)); }
static const Expr* fz(T t, double v) { return X.fc(t, t == T::F64 ? fromD(v) : fromF((float)v)); }
static double dv(const Val& v, T t) { return t == T::F64 ? asD(v.c) : asF(v.c); }

static std::map<std::pair<int, const Expr*>, const Expr*> defVar; // definitional variables

static Val fsqrtV(State& s, const Val& a, T t)
{
	if (!a.e) return mkv(X.f(K::FSqrt, ex(a, t, 0)));
	if (X.mode == Mode::Ieee) return mkv(X.f(K::FSqrt, a.e));
	const Expr* x = t == T::F64 ? X.canonical(a.e) : a.e;
	if (X.isFC(x)) return mkv(X.f(K::FSqrt, x));
	if (x->flo < 0 && branch(s, X.fcmp(K::FLt, x, fz(t, 0)))) return fcst(t, std::nan(""));
	if (t == T::F64)
		if (const Expr* c = X.rootOf(a.e)) return mkv(c);
	// sqrt(y*y) = |y|
	if (x->k == K::FMul && x->op[0] == x->op[1]) return mkv(X.f(K::FAbs, x->op[0]));
	auto key = std::make_pair(1, x);
	const Expr*& r = defVar[key];
	if (!r) r = X.var("sqrt!" + std::to_string(x->id), t, x->w, 0, 0, std::sqrt(std::max(0.0, x->flo)) * (1 - 1e-12), std::sqrt(x->fhi) * (1 + 1e-12));
	if (X.polys && t == T::F64) X.root(r, a.e);
	addPC(s, X.raw(K::FLe, fz(t, 0), r));
	addPC(s, X.raw(K::FEq, X.f(K::FMul, r, r), x));
	return mkv(r);
}

static Val fbin(State& s, K k, const Val& a, const Val& b, T t)
{
	if (!a.e && !b.e) return mkv(X.f(k, ex(a, t, 0), ex(b, t, 0)));
	const Expr *x = ex(a, t, 0), *y = ex(b, t, 0);
	if (X.mode == Mode::Ieee) {
		if (k == K::FRem) throw Unsupported("symbolic fmod (ieee)");
		return mkv(X.f(k, x, y));
	}
	bool cx = !a.e, cy = !b.e;
	double vx = cx ? dv(a, t) : 0, vy = cy ? dv(b, t) : 0;
	if ((cx && std::isnan(vx)) || (cy && std::isnan(vy))) return fcst(t, std::nan(""));
	bool ix = cx && std::isinf(vx), iy = cy && std::isinf(vy);
	auto zero = fz(t, 0);
	auto sign = [&](const Expr* e) -> int { // sign of a symbolic value, forking
		if (branch(s, X.fcmp(K::FEq, e, zero))) return 0;
		return branch(s, X.fcmp(K::FLt, e, zero)) ? -1 : 1;
	};
	switch (k) {
	case K::FAdd:
		if (ix) return a;
		if (iy) return b;
		break;
	case K::FSub:
		if (ix) return a;
		if (iy) return fcst(t, -vy);
		break;
	case K::FMul:
		if (ix || iy) {
			int sg = sign(ix ? y : x);
			double v = ix ? vx : vy;
			return fcst(t, sg == 0 ? std::nan("") : sg * v);
		}
		break;
	case K::FDiv:
		if (iy) return fcst(t, 0.0);
		if (ix) {
			int sg = sign(y);
			return fcst(t, (sg == 0 ? 1 : sg) * vx);
		}
		if (cy && vy == 0) {
			int sg = sign(x);
			return fcst(t, sg == 0 ? std::nan("") : sg * (std::signbit(vy) ? -INF : INF));
		}
		if (!cy && !(y->flo > 0 || y->fhi < 0) && branch(s, X.fcmp(K::FEq, y, zero))) {
			if (cx) return fcst(t, vx == 0 ? std::nan("") : vx > 0 ? INF : -INF);
			int sg = sign(x);
			return fcst(t, sg == 0 ? std::nan("") : sg * INF);
		}
		if (cy) {
			// exact reciprocal multiplication keeps the term linear
			return mkv(X.f(K::FDiv, x, y));
		}
		{
			double r;
			if (X.polyRatio(x, y, r)) return fcst(t, r);
			if (const Expr* q = X.quotient(x, y)) return mkv(q);
		}
		break;
	case K::FRem: {
		if (iy) return a;
		if (!cy || ix || vy == 0) throw Unsupported("symbolic fmod modulus");
		const Expr* q = X.f(K::FDiv, x, y);
		const Expr* n = X.f(K::FTrunc, q);
		if (x->flo > -std::fabs(vy) && x->fhi < std::fabs(vy)) return a;
		return mkv(X.f(K::FSub, x, X.f(K::FMul, n, y)));
	}
	default: break;
	}
	const Expr* e = X.f(k, x, y);
	double c;
	if (X.polys && t == T::F64 && (k == K::FAdd || k == K::FSub || k == K::FMul) && X.polyConst(e, c)) return fcst(t, c);
	return mkv(e);
}

// does an expression contain / is a non-finite constant
static bool nonfinite(const Val& v, T t) { return !v.e && !std::isfinite(dv(v, t)); }

static const Expr* fcmpE(const Expr* a, const Expr* b, unsigned pred)
{
	auto eq = [&] { return X.fcmp(K::FEq, a, b); };
	auto un = [&] { return X.lor(X.fcmp(K::FIsNan, a), X.fcmp(K::FIsNan, b)); };
	switch (pred) {
	case CmpInst::FCMP_FALSE: return X.fls;
	case CmpInst::FCMP_TRUE: return X.tru;
	case CmpInst::FCMP_OEQ: return eq();
	case CmpInst::FCMP_OGT: return X.fcmp(K::FLt, b, a);
	case CmpInst::FCMP_OGE: return X.fcmp(K::FLe, b, a);
	case CmpInst::FCMP_OLT: return X.fcmp(K::FLt, a, b);
	case CmpInst::FCMP_OLE: return X.fcmp(K::FLe, a, b);
	case CmpInst::FCMP_ONE: return X.land(X.lnot(eq()), X.lnot(un()));
	case CmpInst::FCMP_ORD: return X.lnot(un());
	case CmpInst::FCMP_UNO: return un();
	case CmpInst::FCMP_UEQ: return X.lor(un(), eq());
	case CmpInst::FCMP_UGT: return X.lor(un(), X.fcmp(K::FLt, b, a));
	case CmpInst::FCMP_UGE: return X.lor(un(), X.fcmp(K::FLe, b, a));
	case CmpInst::FCMP_ULT: return X.lor(un(), X.fcmp(K::FLt, a, b));
	case CmpInst::FCMP_ULE: return X.lor(un(), X.fcmp(K::FLe, a, b));
	case CmpInst::FCMP_UNE: return X.lnot(eq());
	}
	throw Unsupported("fcmp");
}
static bool fcmpC(double a, double b, unsigned pred)
{
	bool un = std::isnan(a) || std::isnan(b);
	switch (pred) {
	case CmpInst::FCMP_FALSE: return false;
	case CmpInst::FCMP_TRUE: return true;
	case CmpInst::FCMP_OEQ: return a == b;
	case CmpInst::FCMP_OGT: return a > b;
	case CmpInst::FCMP_OGE: return a >= b;
	case CmpInst::FCMP_OLT: return a < b;
	case CmpInst::FCMP_OLE: return a <= b;
	case CmpInst::FCMP_ONE: return !un && a != b;
	case CmpInst::FCMP_ORD: return !un;
	case CmpInst::FCMP_UNO: return un;
	case CmpInst::FCMP_UEQ: return un || a == b;
	case CmpInst::FCMP_UGT: return un || a > b;
	case CmpInst::FCMP_UGE: return un || a >= b;
	case CmpInst::FCMP_ULT: return un || a < b;
	case CmpInst::FCMP_ULE: return un || a <= b;
	case CmpInst::FCMP_UNE: return !(a == b);
	}
	return false;
}

static Val icmp(const Val& a, const Val& b, unsigned w, unsigned pred)
{
	if (!a.e && !b.e) {
		uint64_t x = a.c, y = b.c;
		int64_t sx_ = sx(x, w), sy = sx(y, w);
		switch (pred) {
		case CmpInst::ICMP_EQ: return Val(x == y);
		case CmpInst::ICMP_NE: return Val(x != y);
		case CmpInst::ICMP_UGT: return Val(x > y);
		case CmpInst::ICMP_UGE: return Val(x >= y);
		case CmpInst::ICMP_ULT: return Val(x < y);
		case CmpInst::ICMP_ULE: return Val(x <= y);
		case CmpInst::ICMP_SGT: return Val(sx_ > sy);
		case CmpInst::ICMP_SGE: return Val(sx_ >= sy);
		case CmpInst::ICMP_SLT: return Val(sx_ < sy);
		case CmpInst::ICMP_SLE: return Val(sx_ <= sy);
		}
	}
	const Expr *x = ex(a, T::BV, w), *y = ex(b, T::BV, w);
	switch (pred) {
	case CmpInst::ICMP_EQ: return mkv(X.cmp(K::Eq, x, y));
	case CmpInst::ICMP_NE: return mkv(X.lnot(X.cmp(K::Eq, x, y)));
	case CmpInst::ICMP_UGT: return mkv(X.cmp(K::Ult, y, x));
	case CmpInst::ICMP_UGE: return mkv(X.cmp(K::Ule, y, x));
	case CmpInst::ICMP_ULT: return mkv(X.cmp(K::Ult, x, y));
	case CmpInst::ICMP_ULE: return mkv(X.cmp(K::Ule, x, y));
	case CmpInst::ICMP_SGT: return mkv(X.cmp(K::Slt, y, x));
	case CmpInst::ICMP_SGE: return mkv(X.cmp(K::Sle, y, x));
	case CmpInst::ICMP_SLT: return mkv(X.cmp(K::Slt, x, y));
	case CmpInst::ICMP_SLE: return mkv(X.cmp(K::Sle, x, y));
	}
	throw Unsupported("icmp");
}

static Val selectV(State& s, const Val& c, const Val& a, const Val& b, const Leaf& l)
{
	if (!c.e) return (c.c & 1) ? a : b;
	int q = quick(s, c.e);
	if (q >= 0) return q ? a : b;
	if (!a.e && !b.e && a.c == b.c) return a;
	if (l.ptr) return branch(s, c.e) ? a : b;
	if (l.t != T::BV && X.mode == Mode::Real && (nonfinite(a, l.t) || nonfinite(b, l.t)))
		return branch(s, c.e) ? a : b;
	return mkv(X.ite(c.e, ex(a, l.t, l.w), ex(b, l.t, l.w)));
}

static Val ibin(State& s, unsigned op, const Val& a, const Val& b, unsigned w)
{
	if (w > 64) throw Unsupported("wide integer arithmetic");
	bool div = op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem;
	if (div) {
		if (b.e) {
			if (b.e->lo <= 0 && b.e->hi >= 0 && branch(s, X.cmp(K::Eq, b.e, X.bv(0, w)))) safety(s, "division-by-zero", "");
		} else if (!b.c) safety(s, "division-by-zero", "");
	}
	if (!a.e && !b.e) {
		uint64_t x = a.c, y = b.c, r = 0;
		int64_t p = sx(x, w), q = sx(y, w);
		switch (op) {
		case Instruction::Add: r = x + y; break;
		case Instruction::Sub: r = x - y; break;
		case Instruction::Mul: r = x * y; break;
		case Instruction::UDiv: r = x / y; break;
		case Instruction::URem: r = x % y; break;
		case Instruction::SDiv: r = q == -1 ? (uint64_t)0 - (uint64_t)p : (uint64_t)(p / q); break;
		case Instruction::SRem: r = q == -1 ? 0 : (uint64_t)(p % q); break;
		case Instruction::And: r = x & y; break;
		case Instruction::Or: r = x | y; break;
		case Instruction::Xor: r = x ^ y; break;
		case Instruction::Shl: r = y >= w ? 0 : x << y; break;
		case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
		case Instruction::AShr: r = (uint64_t)(p >> (y >= w ? w - 1 : y)); break;
		}
		return Val(msk(r, w));
	}
	K k;
	switch (op) {
	case Instruction::Add: k = K::Add; break;
	case Instruction::Sub: k = K::Sub; break;
	case Instruction::Mul: k = K::Mul; break;
	case Instruction::UDiv: k = K::UDiv; break;
	case Instruction::URem: k = K::URem; break;
	case Instruction::SDiv: k = K::SDiv; break;
	case Instruction::SRem: k = K::SRem; break;
	case Instruction::And: k = K::And; break;
	case Instruction::Or: k = K::Or; break;
	case Instruction::Xor: k = K::Xor; break;
	case Instruction::Shl: k = K::Shl; break;
	case Instruction::LShr: k = K::LShr; break;
	case Instruction::AShr: k = K::AShr; break;
	default: throw Unsupported("int op");
	}
	// a symbolic shift amount is concretized
	Val bb = b;
	if (k == K::Xor && O.splitxor && w >= 32 && X.mode == Mode::Real && !(!b.e && msk(~b.c, w) == 0)) {
		// hashing: split on the hashed values
		uint64_t x = a.e ? concretize(s, a.e, "hash") : a.c, y = b.e ? concretize(s, b.e, "hash") : b.c;
		return Val(msk(x ^ y, w));
	}
	if ((k == K::Shl || k == K::LShr || k == K::AShr) && b.e && X.mode == Mode::Real) bb = Val(concretize(s, b.e, "shift"));
	return mkv(X.bin(k, ex(a, T::BV, w), ex(bb, T::BV, w)));
}

static Val fpToInt(State& s, const Val& a, T t, unsigned w, bool sgn)
{
	K k = sgn ? K::FPToSI : K::FPToUI;
	if (!a.e) return mkv(X.cast(k, ex(a, t, 0), T::BV, w));
	const Expr* e = X.cast(k, a.e, T::BV, w);
	if (X.mode == Mode::Real) {
		if (e->wrap) {
			double lo = sgn ? -std::ldexp(1.0, w - 1) : 0, hi = std::ldexp(1.0, sgn ? w - 1 : w);
			// truncation maps (lo-1, hi) into range
			const Expr* in = X.land(X.fcmp(K::FLt, fz(T::F64, lo - 1), a.e), X.fcmp(K::FLt, a.e, fz(T::F64, hi)));
			if (!branch(s, in)) return Val(msk(1ull << (w - 1), w));
		}
		return mkv(e);
	}
	double lo = sgn ? -std::ldexp(1.0, w - 1) : 0, hi = std::ldexp(1.0, sgn ? w - 1 : w);
	T tt = a.e->t;
	const Expr* in = X.land(w >= 64 ? X.fcmp(K::FLe, fz(tt, lo), a.e) : X.fcmp(K::FLt, fz(tt, lo - 1), a.e), X.fcmp(K::FLt, a.e, fz(tt, hi)));
	if (!branch(s, in)) return Val(msk(1ull << (w - 1), w));
	return mkv(e);
}

// ------------------------------------------------------------------ control
static void jump(State& s, BBInfo* to)
{
	Frame& f = s.st.back();
	BasicBlock* from = f.bb->B;
	if (to->nphi) {
		auto it = to->phi.find(from);
		std::vector<Val> tmp;
		for (unsigned i = 0; i < to->nphi; i++) {
			const Val* v = opv(s, it->second[i]);
			for (unsigned j = 0; j < to->ins[i].lv->size(); j++) tmp.push_back(v[j]);
		}
		unsigned p = 0;
		for (unsigned i = 0; i < to->nphi; i++)
			for (unsigned j = 0; j < to->ins[i].lv->size(); j++) f.r[to->ins[i].dst + j] = tmp[p++];
	}
	f.bb = to;
	to->seen = true;
	f.pc = to->nphi;
}

static void popFrame(State& s)
{
	for (auto a : s.st.back().allocas) {
		Obj* o = s.mem.wr(a);
		o->alive = false;
		o->data.clear();
		o->data.shrink_to_fit();
		o->cells.clear();
	}
	s.st.pop_back();
}

static void afterCall(State& s) // caller frame: move past the call/invoke
{
	Frame& f = s.st.back();
	Ins& x = f.bb->ins[f.pc];
	if (x.op == Instruction::Invoke) jump(s, x.succ[0]);
	else f.pc++;
}

static void enter(State& s, FnInfo* fi, std::vector<std::vector<Val>>& args)
{
	if (!fi->compiled) compileFn(fi);
	fi->calls++;
	if (s.st.size() > 400) throw Killed { "call depth" };
	Frame f;
	f.fn = fi;
	f.r.resize(fi->nslots);
	for (size_t i = 0; i < fi->argSlot.size() && i < args.size(); i++)
		for (unsigned j = 0; j < fi->argN[i]; j++) f.r[fi->argSlot[i] + j] = args[i][j];
	f.bb = fi->bbm[&fi->F->getEntryBlock()];
	f.bb->seen = true;
	f.pc = 0;
	s.st.push_back(std::move(f));
}

// does the thrown type match a catch type (single inheritance chain)
static bool typeMatches(State& s, uint64_t thrown, uint64_t want)
{
	for (int i = 0; i < 8 && thrown; i++) {
		if (thrown == want) return true;
		Obj* o = s.mem.get(thrown);
		if (!o) break;
		uint32_t off = thrown & ((1u << OSH) - 1);
		if (cstr(s, *(uint64_t*)&o->data[off + 8]) == (s.mem.get(want) ? cstr(s, *(uint64_t*)&s.mem.get(want)->data[(want & ((1u << OSH) - 1)) + 8]) : std::string("?"))) return true;
		if (o->size < off + 24) break;
		memcpy(&thrown, &o->data[off + 16], 8);
	}
	return false;
}

static void unwind(State& s)
{
	// s.excObj / s.excType hold the exception in flight
	while (!s.st.empty()) {
		Frame& f = s.st.back();
		Ins& x = f.bb->ins[f.pc];
		if (x.op == Instruction::Invoke) {
			BBInfo* lp = x.succ[1];
			jump(s, lp);
			// skip to the landingpad
			Frame& g = s.st.back();
			Ins& l = g.bb->ins[g.pc];
			if (l.op != Instruction::LandingPad) throw Unsupported("landingpad expected");
			auto* L = cast<LandingPadInst>(l.I);
			int sel = 0;
			bool take = L->isCleanup();
			for (unsigned i = 0; i < L->getNumClauses(); i++) {
				if (L->isCatch(i)) {
					Constant* c = L->getClause(i);
					if (c->isNullValue()) { sel = 1; take = true; break; }
					std::vector<Val> v;
					constLeaves(c, v);
					if (typeMatches(s, s.excType, v[0].c)) { sel = (int)(((v[0].c >> OSH) & 0x3fffffff) + 16); take = true; break; }
				} else { take = true; } // filter: treated as cleanup
			}
			if (take) {
				g.r[l.dst] = Val(s.excObj);
				g.r[l.dst + 1] = Val(msk((uint64_t)sel, 32));
				g.pc++;
				return;
			}
		}
		popFrame(s);
		if (s.st.empty()) break;
	}
	throw PathEnd { "uncaught" };
}

static void doThrow(State& s, const std::string& what)
{
	// remember where for reporting: is there any handler at all?
	bool handler = false;
	for (auto& f : s.st) {
		Ins& x = f.bb->ins[f.pc];
		if (x.op == Instruction::Invoke) {
			auto* L = dyn_cast<LandingPadInst>(x.succ[1]->B->getFirstNonPHI());
			if (!L) continue;
			for (unsigned i = 0; i < L->getNumClauses(); i++) {
				if (!L->isCatch(i)) continue;
				Constant* c = L->getClause(i);
				if (c->isNullValue()) {
					// clang_call_terminate pads also look like this: check
					bool term = false;
					for (auto& I : *x.succ[1]->B)
						if (auto* cb = dyn_cast<CallBase>(&I))
							if (cb->getCalledFunction() && cb->getCalledFunction()->getName() == "__clang_call_terminate") term = true;
					if (!term) handler = true;
				} else {
					std::vector<Val> v;
					constLeaves(c, v);
					if (typeMatches(s, s.excType, v[0].c)) handler = true;
				}
			}
		}
	}
	if (!handler) safety(s, "uncaught-exception", what);
	unwind(s);
}

static void callFn(State& s, const Ins& x, FnInfo* fi, std::vector<std::vector<Val>>& args)
{
	if (fi->ext == -1) {
		int e = findExt(fi->name);
		fi->ext = e >= 0 ? e : fi->F->isDeclaration() ? -2 : -3;
	}
	if (fi->ext >= 0) {
		std::vector<Val> res(x.lv->size());
		size_t depth = s.st.size();
		exts[fi->ext](s, x, args, res);
		if (s.st.size() != depth || &s.st.back().bb->ins[s.st.back().pc] != &x) return; // unwound
		for (size_t i = 0; i < res.size(); i++) s.st.back().r[x.dst + i] = res[i];
		afterCall(s);
		return;
	}
	if (fi->ext == -2) throw Unsupported("external function " + fi->name);
	enter(s, fi, args);
}

static void step(State& s)
{
	Frame& f = s.st.back();
	Ins& x = f.bb->ins[f.pc];
	s.insts++;
	S.insts++;
	auto set = [&](unsigned i, const Val& v) { s.st.back().r[x.dst + i] = v; };
	switch (x.op) {
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
	case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
		const Val *a = opv(s, x.ops[0]), *b = opv(s, x.ops[1]);
		for (unsigned i = 0; i < x.lv->size(); i++) set(i, ibin(s, x.op, a[i], b[i], (*x.lv)[i].w));
		f.pc++;
		break;
	}
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
		K k = x.op == Instruction::FAdd ? K::FAdd : x.op == Instruction::FSub ? K::FSub : x.op == Instruction::FMul ? K::FMul : x.op == Instruction::FDiv ? K::FDiv : K::FRem;
		const Val *a = opv(s, x.ops[0]), *b = opv(s, x.ops[1]);
		std::vector<Val> r;
		for (unsigned i = 0; i < x.lv->size(); i++) {
			T t = (*x.lv)[i].t;
			if (!a[i].e && !b[i].e && t == T::F64) {
				double p = asD(a[i].c), q = asD(b[i].c), v = k == K::FAdd ? p + q : k == K::FSub ? p - q : k == K::FMul ? p * q : k == K::FDiv ? p / q : std::fmod(p, q);
				r.push_back(Val(fromD(v)));
			} else r.push_back(fbin(s, k, a[i], b[i], t));
		}
		for (unsigned i = 0; i < r.size(); i++) set(i, r[i]);
		f.pc++;
		break;
	}
	case Instruction::FNeg: {
		const Val* a = opv(s, x.ops[0]);
		for (unsigned i = 0; i < x.lv->size(); i++) set(i, mkv(X.f(K::FNeg, ex(a[i], (*x.lv)[i].t, 0))));
		f.pc++;
		break;
	}
	case Instruction::ICmp: {
		const Val *a = opv(s, x.ops[0]), *b = opv(s, x.ops[1]);
		for (unsigned i = 0; i < x.lv->size(); i++) set(i, icmp(a[i], b[i], (*x.lv0)[i].w, x.pred));
		f.pc++;
		break;
	}
	case Instruction::FCmp: {
		const Val *a = opv(s, x.ops[0]), *b = opv(s, x.ops[1]);
		for (unsigned i = 0; i < x.lv->size(); i++) {
			T t = (*x.lv0)[i].t;
			if (!a[i].e && !b[i].e) set(i, Val(fcmpC(dv(a[i], t), dv(b[i], t), x.pred)));
			else set(i, mkv(fcmpE(ex(a[i], t, 0), ex(b[i], t, 0), x.pred)));
		}
		f.pc++;
		break;
	}
	case Instruction::Select: {
		const Val *c = opv(s, x.ops[0]), *a = opv(s, x.ops[1]), *b = opv(s, x.ops[2]);
		bool vec = x.lv0->size() > 1;
		std::vector<Val> r;
		if (O.forkselect && !vec && c[0].e && (*x.lv)[0].t != T::BV) {
			bool take = branch(s, c[0].e);
			c = opv(s, x.ops[0]), a = opv(s, x.ops[1]), b = opv(s, x.ops[2]);
			for (unsigned i = 0; i < x.lv->size(); i++) r.push_back(take ? a[i] : b[i]);
		} else
		for (unsigned i = 0; i < x.lv->size(); i++) r.push_back(selectV(s, c[vec ? i : 0], a[i], b[i], (*x.lv)[i]));
		for (unsigned i = 0; i < r.size(); i++) set(i, r[i]);
		f.pc++;
		break;
	}
	case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
		const Val* a = opv(s, x.ops[0]);
		for (unsigned i = 0; i < x.lv->size(); i++) {
			unsigned w0 = (*x.lv0)[i].w, w1 = (*x.lv)[i].w;
			if (!a[i].e) {
				if (w1 > 64 && x.op == Instruction::SExt && sx(a[i].c, w0) < 0) throw Unsupported("wide integer");
				set(i, Val(x.op == Instruction::SExt ? msk((uint64_t)sx(a[i].c, w0), w1) : x.op == Instruction::Trunc ? msk(a[i].c, w1) : a[i].c));
			} else set(i, mkv(x.op == Instruction::ZExt ? X.zext(a[i].e, w1) : x.op == Instruction::SExt ? X.sext(a[i].e, w1) : X.extract(a[i].e, 0, w1)));
		}
		f.pc++;
		break;
	}
	case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: {
		const Val* a = opv(s, x.ops[0]);
		for (unsigned i = 0; i < x.lv->size(); i++) {
			unsigned w0 = (*x.lv0)[i].w, w1 = (*x.lv)[i].w;
			if (w1 < w0) set(i, a[i].e ? mkv(X.extract(a[i].e, 0, w1)) : Val(msk(a[i].c, w1)));
			else if (w1 > w0 && a[i].e) set(i, mkv(X.zext(a[i].e, w1)));
			else set(i, a[i]);
		}
		f.pc++;
		break;
	}
	case Instruction::BitCast: {
		const Val* a = opv(s, x.ops[0]);
		auto &l0 = *x.lv0, &l1 = *x.lv;
		if (l0.size() == l1.size() && l0.size() && l0[0].w == l1[0].w) {
			for (unsigned i = 0; i < l1.size(); i++) {
				if (!a[i].e || l0[i].t == l1[i].t) set(i, a[i]);
				else if (l1[i].t == T::BV) set(i, mkv(X.cast(K::F2I, a[i].e, T::BV, l1[i].w)));
				else set(i, mkv(X.cast(K::I2F, a[i].e, l1[i].t, l1[i].w)));
			}
		} else {
			// through memory
			uint64_t m = s.mem.alloc(64, 1, 0);
			for (unsigned i = 0; i < l0.size(); i++) storeLeaf(s, m + l0[i].off, l0[i], a[i]);
			for (unsigned i = 0; i < l1.size(); i++) set(i, loadLeaf(s, m + l1[i].off, l1[i]));
		}
		f.pc++;
		break;
	}
	case Instruction::SIToFP: case Instruction::UIToFP: {
		const Val* a = opv(s, x.ops[0]);
		for (unsigned i = 0; i < x.lv->size(); i++)
			set(i, mkv(X.cast(x.op == Instruction::SIToFP ? K::SIToFP : K::UIToFP, ex(a[i], T::BV, (*x.lv0)[i].w), (*x.lv)[i].t, (*x.lv)[i].w)));
		f.pc++;
		break;
	}
	case Instruction::FPToSI: case Instruction::FPToUI: {
		const Val* a = opv(s, x.ops[0]);
		std::vector<Val> r;
		for (unsigned i = 0; i < x.lv->size(); i++) r.push_back(fpToInt(s, a[i], (*x.lv0)[i].t, (*x.lv)[i].w, x.op == Instruction::FPToSI));
		for (unsigned i = 0; i < r.size(); i++) set(i, r[i]);
		f.pc++;
		break;
	}
	case Instruction::FPExt: case Instruction::FPTrunc: {
		const Val* a = opv(s, x.ops[0]);
		for (unsigned i = 0; i < x.lv->size(); i++) {
			if ((*x.lv0)[i].t == (*x.lv)[i].t) { set(i, a[i]); continue; } // x86_fp80 treated as double
			set(i, mkv(X.cast(x.op == Instruction::FPExt ? K::FPExt : K::FPTrunc, ex(a[i], (*x.lv0)[i].t, 0), (*x.lv)[i].t, (*x.lv)[i].w)));
		}
		f.pc++;
		break;
	}
	case Instruction::GetElementPtr: {
		const Val* b = opv(s, x.ops[0]);
		bool symb = b->e;
		uint64_t c = b->c + x.gepOff;
		const Expr* e = nullptr;
		if (symb) e = X.bin(K::Add, b->e, X.bv(x.gepOff, 64));
		for (auto& gi : x.gepIdx) {
			const Val* v = opv(s, x.ops[gi.op]);
			if (!v->e && !e) c += (uint64_t)sx(v->c, gi.w) * gi.scale;
			else {
				if (!e) e = X.bv(c, 64);
				const Expr* ie = X.sext(ex(*v, T::BV, gi.w), 64);
				e = X.bin(K::Add, e, X.bin(K::Mul, ie, X.bv(gi.scale, 64)));
			}
		}
		set(0, e ? mkv(e) : Val(c));
		f.pc++;
		break;
	}
	case Instruction::Load: {
		uint64_t a = resolve(s, *opv(s, x.ops[0]), x.size, false);
		std::vector<Val> r;
		for (auto& l : *x.lv) r.push_back(loadLeaf(s, a + l.off, l));
		for (unsigned i = 0; i < r.size(); i++) set(i, r[i]);
		f.pc++;
		break;
	}
	case Instruction::Store: {
		uint64_t a = resolve(s, *opv(s, x.ops[1]), x.size, true);
		const Val* v = opv(s, x.ops[0]);
		for (unsigned i = 0; i < x.lv0->size(); i++) storeLeaf(s, a + (*x.lv0)[i].off, (*x.lv0)[i], v[i]);
		f.pc++;
		break;
	}
	case Instruction::Alloca: {
		uint64_t n = needC(s, *opv(s, x.ops[0]), "alloca");
		uint64_t a = s.mem.alloc(x.size * n, 1, 0xAA);
		f.allocas.push_back(a);
		set(0, Val(a));
		f.pc++;
		break;
	}
	case Instruction::Br: {
		if (!x.succ[1]) { jump(s, x.succ[0]); break; }
		const Val* c = opv(s, x.ops[0]);
		bool t = c->e ? branch(s, c->e) : (c->c & 1);
		jump(s, x.succ[t ? 0 : 1]);
		break;
	}
	case Instruction::Switch: {
		const Val* c = opv(s, x.ops[0]);
		BBInfo* to = nullptr;
		if (!c->e) {
			for (auto& k : x.cases) if (k.first == c->c) { to = k.second; break; }
		} else {
			for (auto& k : x.cases)
				if (branch(s, X.cmp(K::Eq, c->e, X.bv(k.first, c->e->w)))) { to = k.second; break; }
		}
		jump(s, to ? to : x.succ[0]);
		break;
	}
	case Instruction::ExtractValue: {
		const Val* a = opv(s, x.ops[0]);
		for (unsigned i = 0; i < x.lv->size(); i++) set(i, a[x.aggOff + i]);
		f.pc++;
		break;
	}
	case Instruction::InsertValue: {
		const Val *a = opv(s, x.ops[0]), *b = opv(s, x.ops[1]);
		for (unsigned i = 0; i < x.lv->size(); i++) set(i, i >= x.aggOff && i < x.aggOff + x.lv0->size() ? b[i - x.aggOff] : a[i]);
		f.pc++;
		break;
	}
	case Instruction::ExtractElement: {
		const Val* a = opv(s, x.ops[0]);
		uint64_t i = needC(s, *opv(s, x.ops[1]), "element");
		set(0, a[i]);
		f.pc++;
		break;
	}
	case Instruction::InsertElement: {
		const Val *a = opv(s, x.ops[0]), *b = opv(s, x.ops[1]);
		uint64_t k = needC(s, *opv(s, x.ops[2]), "element");
		for (unsigned i = 0; i < x.lv->size(); i++) set(i, i == k ? *b : a[i]);
		f.pc++;
		break;
	}
	case Instruction::ShuffleVector: {
		const Val *a = opv(s, x.ops[0]), *b = opv(s, x.ops[1]);
		int n = x.lv0->size();
		std::vector<Val> r;
		for (int m : x.shuf) r.push_back(m < 0 ? Val(0) : m < n ? a[m] : b[m - n]);
		for (unsigned i = 0; i < r.size(); i++) set(i, r[i]);
		f.pc++;
		break;
	}
	case Instruction::AtomicRMW: {
		auto* rm = cast<AtomicRMWInst>(x.I);
		Leaf l = (*x.lv)[0];
		uint64_t a = resolve(s, *opv(s, x.ops[0]), (l.w + 7) / 8, true);
		Val old = loadLeaf(s, a, l), v = *opv(s, x.ops[1]), nw;
		switch (rm->getOperation()) {
		case AtomicRMWInst::Add: nw = ibin(s, Instruction::Add, old, v, l.w); break;
		case AtomicRMWInst::Sub: nw = ibin(s, Instruction::Sub, old, v, l.w); break;
		case AtomicRMWInst::Xchg: nw = v; break;
		case AtomicRMWInst::And: nw = ibin(s, Instruction::And, old, v, l.w); break;
		case AtomicRMWInst::Or: nw = ibin(s, Instruction::Or, old, v, l.w); break;
		default: throw Unsupported("atomicrmw");
		}
		storeLeaf(s, a, l, nw);
		set(0, old);
		f.pc++;
		break;
	}
	case Instruction::AtomicCmpXchg: {
		Leaf l = (*x.lv)[0];
		uint64_t a = resolve(s, *opv(s, x.ops[0]), (l.w + 7) / 8, true);
		Val old = loadLeaf(s, a, l), c = *opv(s, x.ops[1]), v = *opv(s, x.ops[2]);
		Val eq = icmp(old, c, l.w, CmpInst::ICMP_EQ);
		bool t = eq.e ? branch(s, eq.e) : eq.c;
		if (t) storeLeaf(s, a, l, v);
		set(0, old);
		set(1, Val(t));
		f.pc++;
		break;
	}
	case Instruction::Fence: f.pc++; break;
	case Instruction::Unreachable: safety(s, "unreachable", "execution reached undefined behaviour"); break;
	case Instruction::Ret: {
		std::vector<Val> r;
		if (x.ops.size()) {
			const Val* v = opv(s, x.ops[0]);
			for (unsigned i = 0; i < x.lv0->size(); i++) r.push_back(v[i]);
		}
		popFrame(s);
		if (s.st.empty()) throw PathEnd { "return" };
		Frame& g = s.st.back();
		Ins& c = g.bb->ins[g.pc];
		for (unsigned i = 0; i < c.lv->size() && i < r.size(); i++) g.r[c.dst + i] = r[i];
		afterCall(s);
		break;
	}
	case Instruction::Resume: {
		popFrame(s);
		if (s.st.empty()) throw PathEnd { "uncaught" };
		unwind(s);
		break;
	}
	case Instruction::LandingPad: f.pc++; break;
	case Instruction::Call: case Instruction::Invoke: {
		FnInfo* fi = x.callee;
		auto* cb = cast<CallBase>(x.I);
		unsigned na = cb->arg_size();
		if (!fi) {
			if (isa<InlineAsm>(cb->getCalledOperand())) { afterCall(s); break; }
			uint64_t p = needC(s, *opv(s, x.ops[na]), "function pointer");
			uint64_t id = p >> OSH;
			if (id < FBASE || id - FBASE >= fnByIdx.size()) safety(s, p < 4096 ? "null-function-call" : "bad-function-pointer", "");
			fi = fnByIdx[id - FBASE];
		}
		std::vector<std::vector<Val>> args(na);
		for (unsigned i = 0; i < na; i++) {
			if (cb->getArgOperand(i)->getType()->isMetadataTy()) continue;
			auto& l = leaves(cb->getArgOperand(i)->getType());
			const Val* v = opv(s, x.ops[i]);
			args[i].assign(v, v + l.size());
			if (cb->isByValArgument(i)) {
				uint64_t n = DL->getTypeAllocSize(cb->getParamByValType(i));
				uint64_t src = resolve(s, args[i][0], n, false);
				uint64_t cp = s.mem.alloc(n, 1, 0);
				memCopy(s, cp, src, n);
				args[i][0] = Val(cp);
			}
		}
		callFn(s, x, fi, args);
		break;
	}
	default: throw Unsupported(std::string("instruction ") + x.I->getOpcodeName());
	}
}
#include "ext.inc"
