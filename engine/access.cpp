#include "access.h"

APath loadPath(PathEngine& E, const PathState& S, const LoadInst* L, int d)
{
	APath p = accessPath(E, S, L->getPointerOperand(), d + 1);
	if (!p.known) return p;
	p.loads.push_back(p.off.empty() ? "[0]" : p.off);
	p.off.clear();
	p.variable = false;
	p.stack = false;
	return p;
}

APath accessPath(PathEngine& E, const PathState& S, const Value* P, int d)
{
	APath r;
	if (d > 24) return r;
	const DataLayout& DL = E.F.getParent()->getDataLayout();
	int64_t off = 0;
	bool var = false;
	for (int i = 0; i < 64; ++i) {
		P = E.resolve(S, P);
		if (auto* G = dyn_cast<GEPOperator>(P)) {
			APInt o(64, 0);
			MapVector<Value*, APInt> vo;
			if (G->collectOffset(DL, 64, vo, o)) {
				off += o.getSExtValue();
				if (!vo.empty()) var = true;
			}
			else var = true;
			P = G->getPointerOperand();
			continue;
		}
		if (auto* C = dyn_cast<CastInst>(P)) { P = C->getOperand(0); continue; }
		if (auto* Se = dyn_cast<SelectInst>(P)) {
			auto c = E.boolOf(const_cast<PathState&>(S), Se->getCondition());
			if (c) { P = *c ? Se->getTrueValue() : Se->getFalseValue(); continue; }
		}
		break;
	}
	auto setoff = [&](APath& a) {
		a.variable = var;
		a.off = "[" + std::to_string(off) + "]";
	};
	r.base = P;
	if (auto* A = dyn_cast<Argument>(P)) { r.known = true; r.arg = A->getArgNo(); setoff(r); return r; }
	if (auto* AI = dyn_cast<AllocaInst>(P)) { r.known = true; r.stack = true; r.local = AI; setoff(r); return r; }
	if (isa<GlobalValue>(P)) { r.known = true; r.global = true; setoff(r); return r; }
	if (auto* L = dyn_cast<LoadInst>(P)) {
		r = loadPath(E, S, L, d + 1);
		r.base = L;
		if (r.known) setoff(r);
		return r;
	}
	{
		// value observed by a compare-exchange / exchange: like a load
		const Value* A = nullptr;
		if (auto* X = dyn_cast<ExtractValueInst>(P)) { if (auto* cx = dyn_cast<AtomicCmpXchgInst>(X->getAggregateOperand())) A = cx->getPointerOperand(); }
		else if (auto* rm = dyn_cast<AtomicRMWInst>(P)) A = rm->getPointerOperand();
		else if (auto* ip = dyn_cast<IntToPtrInst>(P)) { (void)ip; }
		if (A) {
			r = accessPath(E, S, A, d + 1);
			if (r.known) { r.loads.push_back(r.off.empty() ? "[0]" : r.off); r.stack = false; r.base = P; setoff(r); }
			return r;
		}
	}
	if (auto* CB = dyn_cast<CallBase>(P)) {
		if (CB->getCalledFunction() && (CB->getCalledFunction()->getName() == "vf_allocate" || CB->getCalledFunction()->getName().starts_with("_Znw") || CB->getCalledFunction()->getName() == "malloc")) {
			r.known = true; r.alloc = true; setoff(r); return r;
		}
		return r;
	}
	if (auto* Ph = dyn_cast<PHINode>(P)) {
		// unresolved phi: all incoming values must agree on root and loads (offsets may differ)
		bool first = true;
		APath acc;
		for (unsigned i = 0; i < Ph->getNumIncomingValues(); ++i) {
			const Value* V = Ph->getIncomingValue(i);
			if (V == Ph || isa<ConstantPointerNull>(V) || isa<UndefValue>(V)) continue;
			if (auto* G = dyn_cast<GEPOperator>(V)) if (G->getPointerOperand() == Ph) { var = true; continue; }
			APath q = accessPath(E, S, V, d + 6);
			if (!q.known) continue;
			if (first) { acc = q; first = false; }
			// lazily created: the object just allocated or the one stored in the container
			else if (acc.alloc != q.alloc && acc.arg != q.arg) { if (acc.alloc) acc = q; }
			else if (acc.root() != q.root() || acc.loads != q.loads) {
				// chained nodes: keep the shorter chain when one extends the other
				const APath& sh = acc.loads.size() <= q.loads.size() ? acc : q;
				const APath& lo = acc.loads.size() <= q.loads.size() ? q : acc;
				if (sh.root() == lo.root() && std::equal(sh.loads.begin(), sh.loads.end(), lo.loads.begin())) { APath t = sh; t.variable = true; acc = t; }
				else { APath bad; return bad; }
			}
			else if (acc.off != q.off) acc.variable = true;
		}
		if (!first) { acc.base = Ph; var = var || acc.variable; if (acc.off != "[" + std::to_string(0) + "]" && !acc.off.empty()) off += atoll(acc.off.c_str() + 1); setoff(acc); return acc; }
		return r;
	}
	return r;
}

void intSlice(PathEngine& E, const PathState& S, const Value* V, std::set<const LoadInst*>& out, int d)
{
	if (d > 24) return;
	V = E.resolve(S, V);
	if (auto* L = dyn_cast<LoadInst>(V)) {
		if (!L->getType()->isPointerTy()) out.insert(L);
		return;
	}
	if (auto* I = dyn_cast<Instruction>(V)) {
		if (isa<PHINode>(I)) return;
		if (isa<CallBase>(I)) {
			if (isa<IntrinsicInst>(I))
				for (auto& a : cast<CallBase>(I)->args()) intSlice(E, S, a, out, d + 1);
			return;
		}
		if (auto* Se = dyn_cast<SelectInst>(I)) {
			auto c = E.boolOf(const_cast<PathState&>(S), Se->getCondition());
			if (c) { intSlice(E, S, *c ? Se->getTrueValue() : Se->getFalseValue(), out, d + 1); return; }
			intSlice(E, S, Se->getTrueValue(), out, d + 1);
			intSlice(E, S, Se->getFalseValue(), out, d + 1);
			return;
		}
		if (isa<BinaryOperator>(I) || isa<CastInst>(I))
			for (auto& o : I->operands()) intSlice(E, S, o, out, d + 1);
	}
}
