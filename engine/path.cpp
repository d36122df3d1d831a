#include "path.h"

std::string Lin::str() const
{
	if (top) return "?";
	std::string s;
	for (auto& k : t) {
		if (!s.empty()) s += " + ";
		if (k.second != 1) s += std::to_string(k.second) + "*";
		if (k.first.first == 0) {
			auto* V = (const Value*)k.first.second;
			std::string v;
			if (auto* I = dyn_cast<Instruction>(V)) v = "val@" + srcLocShort(I);
			else v = "arg";
			s += v;
		}
		else if (k.first.first == 1) {
			std::string b; raw_string_ostream o(b); ((const SCEV*)k.first.second)->print(o); s += "(" + o.str() + ")";
		}
		else s += "iterations(loop@" + srcLocShort(((const Loop*)k.first.second)->getHeader()->getFirstNonPHI()) + ")";
	}
	if (c || s.empty()) s += (s.empty() ? "" : " + ") + std::to_string(c);
	return s;
}

PathEngine::PathEngine(Function& f, Client& c, Report& r) : F(f), C(c), R(r), DT(f), LI(DT)
{
	TLII = std::make_unique<TargetLibraryInfoImpl>(Triple(F.getParent()->getTargetTriple()));
	TLI = std::make_unique<TargetLibraryInfo>(*TLII);
	AC = std::make_unique<AssumptionCache>(F);
	SE = std::make_unique<ScalarEvolution>(F, *TLI, *AC, DT, LI);
}

static const Value* stripCond(const Value* V)
{
	for (;;) {
		if (auto* I = dyn_cast<Instruction>(V)) {
			if (isa<FreezeInst>(I)) { V = I->getOperand(0); continue; }
			if (I->getOpcode() == Instruction::Xor)
				if (auto* K = dyn_cast<ConstantInt>(I->getOperand(1)))
					if (K->isOne() && I->getType()->isIntegerTy(1)) { V = I->getOperand(0); continue; }
		}
		return V;
	}
}

static void collectRoots(const Value* V, std::set<const Value*>& out, int d = 0)
{
	V = stripCond(V);
	if (isa<Constant>(V) || d > 6) return;
	if (auto* I = dyn_cast<Instruction>(V)) {
		if ((I->getOpcode() == Instruction::And || I->getOpcode() == Instruction::Or) && I->getType()->isIntegerTy(1)) {
			collectRoots(I->getOperand(0), out, d + 1);
			collectRoots(I->getOperand(1), out, d + 1);
			return;
		}
		if (auto* S = dyn_cast<SelectInst>(I)) {
			if (S->getType()->isIntegerTy(1)) {
				collectRoots(S->getCondition(), out, d + 1);
				collectRoots(S->getTrueValue(), out, d + 1);
				collectRoots(S->getFalseValue(), out, d + 1);
				return;
			}
		}
		if (auto* Cm = dyn_cast<ICmpInst>(I)) {
			if (Cm->isEquality() && isa<Constant>(Cm->getOperand(1))) { out.insert(Cm->getOperand(0)); return; }
			out.insert(Cm);
			return;
		}
	}
	out.insert(V);
}

void PathEngine::computeTracked()
{
	std::map<const Value*, std::set<const BasicBlock*>> uses;
	for (const BasicBlock& BB : F) {
		const Value* cond = nullptr;
		if (auto* B = dyn_cast<BranchInst>(BB.getTerminator())) {
			if (B->isConditional()) cond = B->getCondition();
		}
		else if (auto* S = dyn_cast<SwitchInst>(BB.getTerminator())) cond = S->getCondition();
		if (cond) {
			std::set<const Value*> roots;
			collectRoots(cond, roots);
			for (auto* r : roots) uses[r].insert(&BB);
		}
		for (const Instruction& I : BB)
			if (auto* S = dyn_cast<SelectInst>(&I)) {
				std::set<const Value*> roots;
				collectRoots(S->getCondition(), roots);
				for (auto* r : roots) uses[r].insert(&BB);
			}
	}
	for (auto& u : uses) {
		if (u.second.size() < 2) continue;
		if (!C.wantTrack(u.first)) continue;
		// integers compared to constants in loops (indices) explode: only pointers and i1
		if (!u.first->getType()->isPointerTy() && !u.first->getType()->isIntegerTy(1)) continue;
		tracked.insert(u.first);
		if (!C.keepAlways(u.first)) {
			// blocks from which a condition on the value can be evaluated before the value is recomputed
			auto& lv = condLive[u.first];
			const BasicBlock* def = isa<Instruction>(u.first) ? cast<Instruction>(u.first)->getParent() : nullptr;
			std::vector<const BasicBlock*> w(u.second.begin(), u.second.end());
			while (!w.empty()) {
				const BasicBlock* B = w.back();
				w.pop_back();
				if (!lv.insert(B).second) continue;
				if (B == def) continue;
				for (const BasicBlock* P : predecessors(B)) w.push_back(P);
			}
		}
		const Loop* DL = nullptr;
		if (auto* I = dyn_cast<Instruction>(u.first)) DL = LI.getLoopFor(I->getParent());
		for (auto* B : u.second) {
			const Loop* UL = LI.getLoopFor(B);
			if (UL && UL != DL && (!DL || DL->contains(UL))) splitAtDef.insert(u.first);
		}
	}
}

void PathEngine::note(PathState& S, const Instruction* I, const std::string& what)
{
	std::string s = what + " @" + srcLocShort(I);
	if (!S.trail.empty() && S.trail.back() == s) return;
	if (S.trail.size() > 24) S.trail.erase(S.trail.begin() + 4);
	S.trail.push_back(s);
}
std::string PathEngine::trail(const PathState& S) const
{
	std::string s;
	for (auto& t : S.trail) s += (s.empty() ? "" : " ; ") + t;
	return s;
}

const Value* PathEngine::resolve(const PathState& S, const Value* V) const
{
	for (int i = 0; i < 32; ++i) {
		auto it = S.phi.find(V);
		if (it != S.phi.end()) { V = it->second; continue; }
		if (auto* FI = dyn_cast<FreezeInst>(V)) { V = FI->getOperand(0); continue; }
		if (auto* P = dyn_cast<PHINode>(V))
			if (P->getNumIncomingValues() == 1) { V = P->getIncomingValue(0); continue; }
		break;
	}
	return V;
}

std::optional<int64_t> PathEngine::constOf(const PathState& S, const Value* V, int d) const
{
	if (d > 8) return {};
	V = resolve(S, V);
	if (auto* K = dyn_cast<ConstantInt>(V)) { if (K->getBitWidth() <= 64) return K->getBitWidth() == 1 ? (int64_t)K->getZExtValue() : K->getSExtValue(); return {}; }
	if (isa<ConstantPointerNull>(V)) return 0;
	auto it = S.facts.find(V);
	if (it != S.facts.end() && it->second.eq) return it->second.c;
	if (auto* I = dyn_cast<CastInst>(V)) {
		auto x = constOf(S, I->getOperand(0), d + 1);
		if (!x) return {};
		if (I->getOpcode() == Instruction::ZExt) {
			unsigned w = I->getOperand(0)->getType()->getIntegerBitWidth();
			if (w < 64) return (int64_t)((uint64_t)*x & ((1ull << w) - 1));
			return x;
		}
		if (I->getOpcode() == Instruction::SExt) {
			if (I->getOperand(0)->getType()->isIntegerTy(1)) return *x ? -1 : 0;
			return x;
		}
		if (I->getOpcode() == Instruction::Trunc) {
			unsigned w = I->getType()->getIntegerBitWidth();
			if (w == 1) return *x & 1;
			if (w < 64) { int64_t m = (int64_t)((uint64_t)*x << (64 - w)) >> (64 - w); return m; }
			return x;
		}
	}
	return {};
}

bool PathEngine::nonZero(PathState& S, const Value* V, int d)
{
	if (d > 8) return false;
	auto it0 = S.facts.find(V);
	if (it0 != S.facts.end()) {
		if (!it0->second.eq && it0->second.c == 0) return true;
		if (it0->second.eq && it0->second.c != 0) return true;
	}
	V = resolve(S, V);
	auto it = S.facts.find(V);
	if (it != S.facts.end()) {
		if (!it->second.eq && it->second.c == 0) return true;
		if (it->second.eq && it->second.c != 0) return true;
	}
	if (isa<Constant>(V)) {
		if (auto* K = dyn_cast<ConstantInt>(V)) return !K->isZero();
		return isa<GlobalObject>(V);
	}
	if (V->getType()->isPointerTy()) {
		if (C.nonNull(*this, S, V)) return true;
		if (isa<AllocaInst>(V)) return true;
		if (auto* CB = dyn_cast<CallBase>(V))
			if (CB->getCalledFunction() && CB->getCalledFunction()->getName() == "vf_allocate") return true;
		if (auto* G = dyn_cast<GetElementPtrInst>(V)) return nonZero(S, G->getPointerOperand(), d + 1);
		if (auto* A = dyn_cast<Argument>(V)) return A->hasNonNullAttr() || A->getDereferenceableBytes() > 0;
	}
	if (auto* I = dyn_cast<ZExtInst>(V)) return nonZero(S, I->getOperand(0), d + 1);
	return false;
}

std::optional<bool> PathEngine::boolOf(PathState& S, const Value* V, int d)
{
	if (d > 12) return {};
	if (auto k = constOf(S, V)) return *k != 0;
	const Value* W = resolve(S, V);
	if (auto* I = dyn_cast<Instruction>(W)) {
		if (I->getType()->isIntegerTy(1)) {
			if (I->getOpcode() == Instruction::Xor) {
				auto a = boolOf(S, I->getOperand(0), d + 1), b = boolOf(S, I->getOperand(1), d + 1);
				if (a && b) return *a != *b;
				return {};
			}
			if (I->getOpcode() == Instruction::And) {
				auto a = boolOf(S, I->getOperand(0), d + 1), b = boolOf(S, I->getOperand(1), d + 1);
				if ((a && !*a) || (b && !*b)) return false;
				if (a && b) return true;
				return {};
			}
			if (I->getOpcode() == Instruction::Or) {
				auto a = boolOf(S, I->getOperand(0), d + 1), b = boolOf(S, I->getOperand(1), d + 1);
				if ((a && *a) || (b && *b)) return true;
				if (a && b) return false;
				return {};
			}
		}
		if (auto* Se = dyn_cast<SelectInst>(I)) {
			auto c = boolOf(S, Se->getCondition(), d + 1);
			if (c) return boolOf(S, *c ? Se->getTrueValue() : Se->getFalseValue(), d + 1);
			auto a = boolOf(S, Se->getTrueValue(), d + 1), b = boolOf(S, Se->getFalseValue(), d + 1);
			if (a && b && *a == *b) return a;
			return {};
		}
		if (auto* Cm = dyn_cast<ICmpInst>(I)) {
			const Value *a = Cm->getOperand(0), *b = Cm->getOperand(1);
			auto ka = constOf(S, a), kb = constOf(S, b);
			if (ka && kb) {
				uint64_t ua = (uint64_t)*ka, ub = (uint64_t)*kb;
				switch (Cm->getPredicate()) {
					case ICmpInst::ICMP_EQ: return *ka == *kb;
					case ICmpInst::ICMP_NE: return *ka != *kb;
					case ICmpInst::ICMP_UGT: return ua > ub;
					case ICmpInst::ICMP_UGE: return ua >= ub;
					case ICmpInst::ICMP_ULT: return ua < ub;
					case ICmpInst::ICMP_ULE: return ua <= ub;
					case ICmpInst::ICMP_SGT: return *ka > *kb;
					case ICmpInst::ICMP_SGE: return *ka >= *kb;
					case ICmpInst::ICMP_SLT: return *ka < *kb;
					case ICmpInst::ICMP_SLE: return *ka <= *kb;
					default: break;
				}
			}
			const Value *ra = resolve(S, a), *rb = resolve(S, b);
			if (ra == rb) {
				if (Cm->isTrueWhenEqual()) return true;
				if (Cm->isFalseWhenEqual()) return false;
			}
			if (Cm->isEquality()) {
				if (kb && *kb == 0 && nonZero(S, a)) return Cm->getPredicate() == ICmpInst::ICMP_NE;
				if (ka && *ka == 0 && nonZero(S, b)) return Cm->getPredicate() == ICmpInst::ICMP_NE;
				if (kb) {
					auto it = S.facts.find(ra);
					if (it != S.facts.end() && !it->second.eq && it->second.c == *kb) return Cm->getPredicate() == ICmpInst::ICMP_NE;
				}
			}
			if (kb && *kb == 0) {
				if (Cm->getPredicate() == ICmpInst::ICMP_UGT && nonZero(S, a)) return true;
				if (Cm->getPredicate() == ICmpInst::ICMP_ULT) return false;
				if (Cm->getPredicate() == ICmpInst::ICMP_UGE) return true;
			}
			// a cast i1 compared with 0
		}
	}
	auto it = S.facts.find(W);
	if (it != S.facts.end()) {
		if (it->second.eq) return it->second.c != 0;
		if (it->second.c == 0) return true;
		if (W->getType()->isIntegerTy(1)) return false; // != 1
	}
	return {};
}

bool PathEngine::assume(PathState& S, const Value* V, bool v)
{
	if (auto k = boolOf(S, V)) {
		if (*k != v) return false;
	}
	const Value* W = resolve(S, V);
	if (isa<Constant>(W)) return true;
	S.facts[V] = Fact{ true, v ? 1 : 0 };
	S.facts[W] = Fact{ true, v ? 1 : 0 };
	if (auto* I = dyn_cast<Instruction>(W)) {
		if (I->getType()->isIntegerTy(1)) {
			if (I->getOpcode() == Instruction::Xor)
				if (auto* K = dyn_cast<ConstantInt>(I->getOperand(1))) return assume(S, I->getOperand(0), K->isOne() ? !v : v);
			if (I->getOpcode() == Instruction::And) {
				if (v) return assume(S, I->getOperand(0), true) && assume(S, I->getOperand(1), true);
				auto a = boolOf(S, I->getOperand(0)), b = boolOf(S, I->getOperand(1));
				if (a && *a && !b) return assume(S, I->getOperand(1), false);
				if (b && *b && !a) return assume(S, I->getOperand(0), false);
			}
			if (I->getOpcode() == Instruction::Or) {
				if (!v) return assume(S, I->getOperand(0), false) && assume(S, I->getOperand(1), false);
				auto a = boolOf(S, I->getOperand(0)), b = boolOf(S, I->getOperand(1));
				if (a && !*a && !b) return assume(S, I->getOperand(1), true);
				if (b && !*b && !a) return assume(S, I->getOperand(0), true);
			}
		}
		if (auto* Se = dyn_cast<SelectInst>(I)) {
			auto c = boolOf(S, Se->getCondition());
			if (c) return assume(S, *c ? Se->getTrueValue() : Se->getFalseValue(), v);
			auto a = boolOf(S, Se->getTrueValue()), b = boolOf(S, Se->getFalseValue());
			if (a && *a != v) return assume(S, Se->getCondition(), false) && assume(S, Se->getFalseValue(), v);
			if (b && *b != v) return assume(S, Se->getCondition(), true) && assume(S, Se->getTrueValue(), v);
		}
		if (auto* Cm = dyn_cast<ICmpInst>(I)) {
			const Value *a = Cm->getOperand(0), *b = Cm->getOperand(1);
			if (Cm->isEquality()) {
				bool equal = (Cm->getPredicate() == ICmpInst::ICMP_EQ) == v;
				auto ka = constOf(S, a), kb = constOf(S, b);
				const Value* x = nullptr;
				int64_t c = 0;
				if (kb && !ka) { x = a; c = *kb; }
				else if (ka && !kb) { x = b; c = *ka; }
				if (x && equal && !numPhi.empty() && x->getType()->isIntegerTy(64)) {
					// iteration counts are not negative
					Lin l = lin(S, x);
					if (!l.top && l.c > c) {
						bool pos = true;
						for (auto& t : l.t) if (t.first.first != 2 || t.second < 0) pos = false;
						if (pos) return false;
					}
				}
				if (x) {
					const Value* rx = resolve(S, x);
					Fact f{ equal, c };
					for (const Value* q : { x, rx }) {
						auto it = S.facts.find(q);
						if (equal || it == S.facts.end() || !it->second.eq) S.facts[q] = f;
					}
					if (auto* Z = dyn_cast<ZExtInst>(rx))
						if (Z->getOperand(0)->getType()->isIntegerTy(1)) {
							if (c == 0) { if (!assume(S, Z->getOperand(0), !equal)) return false; }
							else if (c == 1) { if (!assume(S, Z->getOperand(0), equal)) return false; }
						}
				}
				C.assumeEq(*this, S, a, b, equal);
			}
			else {
				// x u> 0, x u>= 1  => x != 0
				if (auto* K = dyn_cast<ConstantInt>(b)) {
					bool nz = (Cm->getPredicate() == ICmpInst::ICMP_UGT && v) || (Cm->getPredicate() == ICmpInst::ICMP_ULT && !v && !K->isZero()) ||
						  (Cm->getPredicate() == ICmpInst::ICMP_SGT && v && !K->isNegative());
					bool isz = (Cm->getPredicate() == ICmpInst::ICMP_ULT && v && K->isOne()) || (Cm->getPredicate() == ICmpInst::ICMP_UGT && !v && K->isZero());
					const Value* rx = resolve(S, a);
					if (nz) {
						auto it = S.facts.find(rx);
						if (it == S.facts.end()) S.facts[rx] = Fact{ false, 0 };
					}
					if (isz) S.facts[rx] = Fact{ true, 0 };
				}
			}
		}
	}
	return true;
}

std::optional<Lin> PathEngine::numVal(const PathState& S, const Value* V) const
{
	if (auto* P = dyn_cast<PHINode>(V)) {
		auto it = numPhi.find(P);
		if (it != numPhi.end() && it->second < S.cnt.size() && !S.cnt[it->second].top) return S.cnt[it->second];
	}
	return {};
}

// Loop header phis which ScalarEvolution cannot describe (their step depends on a loop invariant condition)
// but which bound another loop: their value is tracked per path like a counter.
static void unknownsOf(const SCEV* S, std::set<const Value*>& out)
{
	struct V {
		std::set<const Value*>& o;
		bool follow(const SCEV* S) { if (auto* U = dyn_cast<SCEVUnknown>(S)) o.insert(U->getValue()); return true; }
		bool isDone() const { return false; }
	} v{ out };
	visitAll(S, v);
}
void PathEngine::computeNumPhi()
{
	std::set<const Value*> unk;
	for (Loop* L : LI.getLoopsInPreorder()) {
		if (!C.wantCount(L)) continue;
		SmallVector<BasicBlock*, 8> ex;
		L->getExitingBlocks(ex);
		for (auto* B : ex) {
			const SCEV* ec = SE->getExitCount(L, B);
			if (!isa<SCEVCouldNotCompute>(ec)) unknownsOf(ec, unk);
		}
	}
	std::vector<const Value*> w(unk.begin(), unk.end());
	std::set<const Value*> seen;
	while (!w.empty()) {
		const Value* V = w.back();
		w.pop_back();
		if (!seen.insert(V).second) continue;
		auto* P = dyn_cast<PHINode>(V);
		if (!P || !P->getType()->isIntegerTy()) {
			if (auto* S = dyn_cast<SelectInst>(V)) { w.push_back(S->getTrueValue()); w.push_back(S->getFalseValue()); }
			continue;
		}
		const Loop* L = LI.getLoopFor(P->getParent());
		if (L && L->getHeader() == P->getParent() && !numPhi.count(P)) {
			unsigned n = numBase + numPhi.size();
			numPhi[P] = n;
		}
		for (auto& in : P->incoming_values())
			if (isa<Instruction>(in)) w.push_back(in);
	}
}

Lin PathEngine::lin(const PathState& S, const Value* V, int d)
{
	if (d > 16) return Lin::sym(0, V);
	if (auto l = numVal(S, V)) return *l;
	V = resolve(S, V);
	if (auto k = constOf(S, V)) return Lin(*k);
	if (auto l = numVal(S, V)) return *l;
	if (auto* Se = dyn_cast<SelectInst>(V)) {
		auto c = boolOf(const_cast<PathState&>(S), Se->getCondition());
		if (c) return lin(S, *c ? Se->getTrueValue() : Se->getFalseValue(), d + 1);
	}
	if (V->getType()->isIntegerTy() && SE->isSCEVable(V->getType())) {
		const SCEV* X = SE->getSCEV(const_cast<Value*>(V));
		if (!isa<SCEVUnknown>(X)) return lin(S, X, d + 1);
	}
	if (auto* I = dyn_cast<CastInst>(V))
		if (I->getType()->isIntegerTy() && I->getOperand(0)->getType()->isIntegerTy()) return lin(S, I->getOperand(0), d + 1);
	return Lin::sym(0, V);
}

Lin PathEngine::lin(const PathState& S, const SCEV* X, int d)
{
	if (d > 24) return Lin::sym(1, X);
	switch (X->getSCEVType()) {
		case scConstant: return Lin(cast<SCEVConstant>(X)->getValue()->getSExtValue());
		case scTruncate:
		case scZeroExtend:
		case scSignExtend: return lin(S, cast<SCEVCastExpr>(X)->getOperand(0), d + 1);
		case scAddExpr: {
			Lin r(0);
			for (auto* o : cast<SCEVAddExpr>(X)->operands()) r.add(lin(S, o, d + 1));
			return r;
		}
		case scMulExpr: {
			auto* m = cast<SCEVMulExpr>(X);
			if (m->getNumOperands() == 2)
				if (auto* K = dyn_cast<SCEVConstant>(m->getOperand(0))) {
					Lin r(0);
					r.add(lin(S, m->getOperand(1), d + 1), K->getValue()->getSExtValue());
					return r;
				}
			return Lin::sym(1, X);
		}
		case scAddRecExpr: {
			auto* a = cast<SCEVAddRecExpr>(X);
			if (a->isAffine())
				if (auto* K = dyn_cast<SCEVConstant>(a->getStepRecurrence(*SE))) {
					Lin r = lin(S, a->getStart(), d + 1);
					auto it = S.kval.find(a->getLoop());
					r.add(it != S.kval.end() ? it->second : Lin::sym(2, a->getLoop()), K->getValue()->getSExtValue());
					return r;
				}
			return Lin::sym(1, X);
		}
		case scUnknown: {
			const Value* V = cast<SCEVUnknown>(X)->getValue();
			if (auto l = numVal(S, V)) return *l;
			const Value* W = resolve(S, V);
			if (W != V) return lin(S, W, d + 1);
			if (auto k = constOf(S, V)) return Lin(*k);
			if (auto l = numVal(S, V)) return *l;
			if (auto* Se = dyn_cast<SelectInst>(V)) {
				auto c = boolOf(const_cast<PathState&>(S), Se->getCondition());
				if (c) return lin(S, *c ? Se->getTrueValue() : Se->getFalseValue(), d + 1);
			}
			return Lin::sym(0, V);
		}
		default: return Lin::sym(1, X);
	}
}

std::string PathEngine::fullKey(const BasicBlock* BB, const PathState& S, bool counters) const
{
	std::string k = S.cs->key();
	k += "#";
	for (auto* t : tracked) {
		auto it = S.facts.find(t);
		if (it == S.facts.end()) continue;
		// only while the value may still matter (its definition dominates the block)
		if (auto* I = dyn_cast<Instruction>(t))
			if (!DT.dominates(I->getParent(), BB)) continue;
		auto lv = condLive.find(t);
		if (lv != condLive.end() && !lv->second.count(BB)) continue;
		k += std::to_string((size_t)t) + (it->second.eq ? "=" : "!") + std::to_string(it->second.c) + ",";
	}
	if (!counters) return k;
	for (size_t i = 0; i < S.cnt.size(); ++i) {
		auto& l = S.cnt[i];
		if (i >= numBase && l.isZero()) { k += "|"; continue; }
		k += "|" + std::to_string(l.top) + "," + std::to_string(l.c);
		for (auto& s : l.t) k += "+" + std::to_string(s.second) + "*" + std::to_string(s.first.first) + ":" + std::to_string((size_t)s.first.second);
	}
	return k;
}

void PathEngine::arrive(const BasicBlock* from, const BasicBlock* to, PathState st)
{
	if (++steps > maxSteps) { overflow = true; return; }
	const Loop* L = LI.getLoopFor(to);
	// loops left
	if (from) {
		for (const Loop* X = LI.getLoopFor(from); X && !X->contains(to); X = X->getParentLoop()) {
			const SCEV* ec = SE->getExitCount(X, const_cast<BasicBlock*>(from));
			if (!isa<SCEVCouldNotCompute>(ec)) {
				// the exit count is expressed with values which are invariant in X
				st.kval.erase(X);
				Lin e = lin(st, ec);
				st.kval[X] = e;
				if (finalRun && getenv("VF_EXITC")) errs() << F.getName() << " leave loop@" << srcLocShort(X->getHeader()->getFirstNonPHI()) << " ec=" << *ec << " lin=" << e.str() << " cnt0=" << st.cnt[0].str() << "\n";
				for (auto& c : st.cnt) c.subst({ 2, X }, e);
			}
			st.hdr.erase(X);
			st.hdrKey.erase(X);
		}
	}
	bool header = L && L->getHeader() == to;
	bool back = header && from && L->contains(from);
	if (back) C.backedge(*this, st, L);
	// phis (parallel)
	std::vector<std::pair<const PHINode*, const Value*>> binds;
	std::map<const Value*, Fact> nf;
	std::map<const Value*, const Value*> np;
	for (const PHINode& P : to->phis()) {
		if (!from) break;
		const Value* V = P.getIncomingValueForBlock(from);
		binds.push_back({ &P, V });
		const Value* W = resolve(st, V);
		auto k = constOf(st, V);
		if (k) nf[&P] = Fact{ true, *k };
		else {
			auto it = st.facts.find(W);
			if (it != st.facts.end()) nf[&P] = it->second;
			else if (P.getType()->isPointerTy() && nonZero(st, V)) nf[&P] = Fact{ false, 0 };
			else if (P.getType()->isIntegerTy(1))
				if (auto b = boolOf(st, V)) nf[&P] = Fact{ true, *b ? 1 : 0 };
		}
		if (W != &P) np[&P] = W;
	}
	std::vector<std::pair<unsigned, Lin>> numNext;
	for (auto& b : binds) {
		auto it = numPhi.find(b.first);
		if (it != numPhi.end()) numNext.push_back({ it->second, lin(st, b.second) });
	}
	for (auto& b : binds) C.bindPhi(*this, st, b.first, b.second);
	for (auto& b : binds) {
		const Value* P = b.first;
		st.facts.erase(P);
		st.phi.erase(P);
		for (auto it = st.phi.begin(); it != st.phi.end();)
			if (it->second == P) it = st.phi.erase(it);
			else ++it;
	}
	for (auto& f : nf) st.facts[f.first] = f.second;
	for (auto& p : np)
		// the incoming value must not be another phi of this block being rebound
		if (!(isa<PHINode>(p.second) && cast<PHINode>(p.second)->getParent() == to)) st.phi[p.first] = p.second;

	if (from)
		for (const Loop* X = LI.getLoopFor(from); X && !X->contains(to); X = X->getParentLoop()) C.leaveLoop(*this, st, X);
	// header phis tracked numerically
	for (auto& nv : numNext) st.cnt[nv.first] = nv.second;
	if (header) {
		if (!back) {
			st.kval.erase(L);
			for (auto& c : st.cnt)
				if (c.t.count({ 2, L })) { c.top = true; c.t.clear(); }
			std::string ak = std::to_string((size_t)to) + "/" + fullKey(to, st, false);
			auto it = accel.find(ak);
			if (it != accel.end())
				for (size_t i = 0; i < st.cnt.size(); ++i) {
					if (it->second[i].top) { st.cnt[i].top = true; st.cnt[i].t.clear(); }
					else if (!it->second[i].isZero()) st.cnt[i].add(Lin::sym(2, L), it->second[i].c);
				}
			st.hdr[L] = st.cnt;
			st.hdrKey[L] = ak;
		}
		else {
			auto& h = st.hdr[L];
			if (h.size() == st.cnt.size()) {
				const std::string& ak = st.hdrKey[L];
				bool drop = false;
				for (size_t i = 0; i < h.size(); ++i) {
					if (h[i].top || st.cnt[i].top) { continue; }
					Lin d = st.cnt[i];
					d.add(h[i], -1);
					int64_t known = 0;
					auto kt = h[i].t.find({ 2, L });
					if (kt != h[i].t.end()) known = kt->second;
					if (d.isConst() && d.c == known) continue;
					Lin cur;
					auto av = accel.find(ak);
					if (av != accel.end()) cur = av->second[i];
					Lin nv = cur;
					if (d.isConst() && known == 0 && cur.isZero()) nv = Lin(d.c);
					else nv.top = true;
					if (getenv("VF_ACC")) errs() << F.getName() << " accel loop@" << srcLocShort(to->getFirstNonPHI()) << " cnt" << i << " d=" << d.str() << " known=" << known << " now=" << nv.str() << "\n   key=" << st.cs->key() << "\n";
					proposals.push_back({ (int)L->getLoopDepth(), ak, (unsigned)i, (unsigned)h.size(), nv });
					drop = true;
				}
				if (drop) return;
				st.cnt = h;
			}
		}
	}
	std::string k = fullKey(to, st);
	auto& tb = table[to];
	auto it = tb.find(k);
	if (it == tb.end()) {
		if (tb.size() >= maxStatesPerBlock) { overflow = true; return; }
		++states;
		tb.emplace(k, Entry{ std::move(st), true });
		work.push_back({ to, k });
		return;
	}
	Entry& E = it->second;
	bool changed = false;
	for (auto f = E.st.facts.begin(); f != E.st.facts.end();) {
		auto g = st.facts.find(f->first);
		if (g == st.facts.end() || !(g->second == f->second)) { f = E.st.facts.erase(f); changed = true; }
		else ++f;
	}
	for (auto f = E.st.phi.begin(); f != E.st.phi.end();) {
		auto g = st.phi.find(f->first);
		if (g == st.phi.end() || g->second != f->second) { f = E.st.phi.erase(f); changed = true; }
		else ++f;
	}
	for (auto f = E.st.kval.begin(); f != E.st.kval.end();) {
		auto g = st.kval.find(f->first);
		if (g == st.kval.end() || g->second != f->second) { f = E.st.kval.erase(f); changed = true; }
		else ++f;
	}
	auto before = E.st.cs->clone();
	E.st.cs->meet(*st.cs);
	if (!E.st.cs->same(*before)) changed = true;
	if (changed && !E.queued) {
		E.queued = true;
		work.push_back({ to, k });
	}
}

void PathEngine::execFrom(const BasicBlock* BB, BasicBlock::const_iterator it, PathState st)
{
	for (; it != BB->end(); ++it) {
		const Instruction* I = &*it;
		if (isa<PHINode>(I)) continue;
		if (isa<DbgInfoIntrinsic>(I)) continue;
		// kill the previous value of I
		st.facts.erase(I);
		for (auto p = st.phi.begin(); p != st.phi.end();)
			if (p->second == I || p->first == I) p = st.phi.erase(p);
			else ++p;
		C.kill(*this, st, I);
		if (I->isTerminator()) {
			terminator(I, std::move(st));
			return;
		}
		if (auto* CB = dyn_cast<CallBase>(I)) {
			if (C.mayThrow(CB)) {
				PathState u(st);
				if (C.callUnwind(*this, u, CB)) { ++paths; C.exit(*this, u, CB, EX_UNWIND); }
			}
			std::vector<PathState> forks;
			bool ok = C.call(*this, st, CB, forks);
			if (CB->doesNotReturn()) { ok = false; forks.clear(); }
			for (auto& f : forks) execFrom(BB, std::next(it), std::move(f));
			if (!ok) return;
		}
		else
			C.exec(*this, st, I);
		if (auto* Se = dyn_cast<SelectInst>(I)) {
			if (Se->getType()->isPointerTy() || tracked.count(Se)) {
				auto c = boolOf(st, Se->getCondition());
				if (!c) {
					PathState o(st);
					if (assume(o, Se->getCondition(), false)) {
						o.phi[Se] = resolve(o, Se->getFalseValue());
						execFrom(BB, std::next(it), std::move(o));
					}
					if (!assume(st, Se->getCondition(), true)) return;
					st.phi[Se] = resolve(st, Se->getTrueValue());
				}
				else
					st.phi[Se] = resolve(st, *c ? Se->getTrueValue() : Se->getFalseValue());
			}
		}
		if (splitAtDef.count(I) && !isa<SelectInst>(I)) {
			if (I->getType()->isPointerTy()) {
				if (!constOf(st, I) && !nonZero(st, I)) {
					PathState o(st);
					o.facts[I] = Fact{ true, 0 };
					execFrom(BB, std::next(it), std::move(o));
					st.facts[I] = Fact{ false, 0 };
				}
			}
			else if (!boolOf(st, I)) {
				PathState o(st);
				if (assume(o, I, false)) execFrom(BB, std::next(it), std::move(o));
				if (!assume(st, I, true)) return;
			}
		}
	}
}

void PathEngine::terminator(const Instruction* T, PathState st)
{
	const BasicBlock* BB = T->getParent();
	if (auto* B = dyn_cast<BranchInst>(T)) {
		if (!B->isConditional()) { arrive(BB, B->getSuccessor(0), std::move(st)); return; }
		if (B->getSuccessor(0) == B->getSuccessor(1)) { arrive(BB, B->getSuccessor(0), std::move(st)); return; }
		auto c = boolOf(st, B->getCondition());
		for (int i = 0; i < 2; ++i) {
			bool v = i == 0;
			if (c && *c != v) continue;
			PathState o(st);
			if (!assume(o, B->getCondition(), v)) continue;
			arrive(BB, B->getSuccessor(i), std::move(o));
		}
		return;
	}
	if (auto* Sw = dyn_cast<SwitchInst>(T)) {
		auto k = constOf(st, Sw->getCondition());
		bool taken = false;
		for (auto& cs : Sw->cases()) {
			int64_t v = cs.getCaseValue()->getSExtValue();
			if (k && *k != v) continue;
			PathState o(st);
			const Value* rx = resolve(o, Sw->getCondition());
			o.facts[rx] = Fact{ true, v };
			o.facts[Sw->getCondition()] = Fact{ true, v };
			taken = true;
			arrive(BB, cs.getCaseSuccessor(), std::move(o));
		}
		if (!(k && taken)) arrive(BB, Sw->getDefaultDest(), std::move(st));
		return;
	}
	if (auto* Iv = dyn_cast<InvokeInst>(T)) {
		if (C.mayThrow(Iv)) {
			PathState u(st);
			if (C.callUnwind(*this, u, Iv)) arrive(BB, Iv->getUnwindDest(), std::move(u));
		}
		std::vector<PathState> forks;
		bool ok = C.call(*this, st, Iv, forks);
		if (Iv->doesNotReturn()) return;
		for (auto& f : forks) arrive(BB, Iv->getNormalDest(), std::move(f));
		if (ok) arrive(BB, Iv->getNormalDest(), std::move(st));
		return;
	}
	if (isa<ReturnInst>(T)) { ++paths; C.exit(*this, st, T, EX_RETURN); return; }
	if (isa<ResumeInst>(T)) { ++paths; C.exit(*this, st, T, EX_UNWIND); return; }
	if (isa<UnreachableInst>(T)) return;
	for (const BasicBlock* S : successors(BB)) arrive(BB, S, st);
}

void PathEngine::once()
{
	table.clear();
	work.clear();
	states = paths = 0;
	needRestart = false;
	proposals.clear();
	PathState st;
	st.cs = C.initial(F);
	st.cnt.resize(C.counters() + numPhi.size());
	arrive(nullptr, &F.getEntryBlock(), std::move(st));
	while (!work.empty() && !overflow) {
		auto w = work.front();
		work.pop_front();
		Entry& E = table[w.first].find(w.second)->second;
		E.queued = false;
		PathState s(E.st);
		execFrom(w.first, w.first->begin(), std::move(s));
	}
	// innermost loops first, exact accelerations before giving up on a counter: what was observed in an
	// enclosing loop may be an artefact of an inner loop which was not accelerated yet
	if (!proposals.empty()) {
		needRestart = true;
		int md = 0;
		bool exact = false;
		for (auto& p : proposals) md = std::max(md, p.depth);
		for (auto& p : proposals) if (p.depth == md && !p.v.top) exact = true;
		for (auto& p : proposals) {
			if (p.depth != md || (exact && p.v.top)) continue;
			auto& v = accel[p.ak];
			if (v.empty()) v.resize(p.n);
			if (v[p.i].isZero() || v[p.i] == p.v) v[p.i] = p.v;
			else v[p.i].top = true;
		}
	}
}

void PathEngine::run()
{
	computeTracked();
	numBase = C.counters();
	computeNumPhi();
	// silent runs until the loop accelerations are stable, then the reporting run
	for (int i = 0; i < 200; ++i) {
		finalRun = false;
		once();
		if (overflow) break;
		if (!needRestart) break;
	}
	if (!needRestart && !overflow) {
		finalRun = true;
		once();
	}
	R.counts["states"] += states;
	R.counts["paths_to_exit"] += paths;
	if (overflow || needRestart) {
		R.imprecise = true;
		R.notes.push_back(F.getName().str() + ": exploration did not converge (states=" + std::to_string(states) + " steps=" + std::to_string(steps) + ")");
	}
}
