// Ownership of memory on every exit of an operation, exceptional ones included.
//  L01 a block obtained from an allocator is, on every way out, owned by somebody: stored in the container (or another block), handed over, or released
//  L02 on every way out no field of the container designates memory that has been released
#include "flow.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/Dominators.h"

namespace {
struct LeakFlow {
	Function& F;
	Origins& O;
	bool ctor;
	std::vector<const CallBase*> sites;
	std::map<const Value*, int> num;
	using Set = std::set<int>;                 // live: nobody else designates it
	enum { HELD = 1, GONE = 2, LOST = 4 }; // the block a field designated on entry: still there, released or handed over, overwritten before that
	struct St { Set live; std::set<std::pair<int, int64_t>> inThis; std::map<int, int> entry; std::map<const Value*, const Instruction*> unlinked; bool credit = false; std::set<const Instruction*> popped; }; // inThis: only designated by a field of the object under construction
	static constexpr int64_t ANY = -1;
	std::map<int, const Instruction*> leakRet, leakUnw;
	std::vector<std::pair<int, int64_t>> owning; // (operand, field)
	std::map<int, std::pair<const Instruction*, bool>> lost;
	std::map<int, const Instruction*> overwrites;
	// nodes of the list which the destructor walks: taken out of the list, they have to be released or linked again
	std::set<int64_t> links;
	std::map<const Instruction*, bool> dropped; // -> by an exception
	// arrays whose slots own what they designate: the fields which hold their begin and end, and the distance of two slots
	std::set<std::string> heads;
	std::set<int64_t> strides;
	std::map<const Instruction*, bool> popped;
	static bool gather(LeakFlow& L, const Value* P, std::set<const LoadInst*>& loads, std::set<int64_t>& st, std::set<const Value*>& seen)
	{
		if (!seen.insert(P).second || seen.size() > 200) return false;
		if (auto* l = dyn_cast<LoadInst>(P)) { loads.insert(l); return true; }
		if (auto* g = dyn_cast<GEPOperator>(P)) {
			if (g->getNumIndices() == 1) st.insert(L.F.getParent()->getDataLayout().getTypeAllocSize(g->getSourceElementType()) * (g->getSourceElementType()->isIntegerTy(8) && isa<ConstantInt>(g->getOperand(1)) ? std::abs(cast<ConstantInt>(g->getOperand(1))->getSExtValue()) : 1));
			return gather(L, g->getPointerOperand(), loads, st, seen);
		}
		if (auto* p = dyn_cast<PHINode>(P)) { bool r = false; for (auto& u : p->incoming_values()) r |= gather(L, u, loads, st, seen); return r; }
		if (auto* c = dyn_cast<CastInst>(P)) return gather(L, c->getOperand(0), loads, st, seen);
		if (auto* s = dyn_cast<SelectInst>(P)) return gather(L, s->getTrueValue(), loads, st, seen) | gather(L, s->getFalseValue(), loads, st, seen);
		return false;
	}
	bool headAddr(const Value* A)
	{
		for (auto& x : O.of(A)) if (x.kind == O_ARG && !x.var && heads.count(x.str())) return true;
		return newHead(A) >= 0;
	}
	// the same structure, just allocated
	std::set<std::pair<uint64_t, int64_t>> newHeads;
	int64_t newLast = -1;
	int64_t newHead(const Value* A)
	{
		for (auto& x : O.of(A))
			if (x.kind == O_NEW && !x.depth && !x.var)
				if (auto* CB = dyn_cast<CallBase>(x.base)) if (CB->arg_size() == 3) if (auto* c = dyn_cast<ConstantInt>(CB->getArgOperand(2))) if (newHeads.count({ c->getZExtValue(), x.off })) return x.off;
		return -1;
	}
	// the address of a slot of such an array
	bool slot(const Value* P)
	{
		std::set<const LoadInst*> l;
		std::set<int64_t> s;
		std::set<const Value*> seen;
		gather(*this, P, l, s, seen);
		for (auto* x : l) if (headAddr(x->getPointerOperand())) return true;
		return false;
	}
	bool beyond(const Value* P)
	{
		std::set<const LoadInst*> l;
		std::set<int64_t> s;
		std::set<const Value*> seen;
		gather(*this, P, l, s, seen);
		for (auto* x : l) if (!headAddr(x->getPointerOperand()) || atLast(x->getPointerOperand())) return true;
		return false;
	}
	// what a slot designates
	bool slotContent(const Value* V)
	{
		if (heads.empty() || !V->getType()->isPointerTy()) return false;
		std::set<const LoadInst*> l;
		std::set<int64_t> s;
		std::set<const Value*> seen;
		gather(*this, V, l, s, seen);
		for (auto* x : l) if (slot(x->getPointerOperand())) return true;
		for (auto& x : O.of(V)) if (x.kind == O_ARG && x.depth >= 2 && (x.pathStr().find('v') != std::string::npos || x.pathStr().find("..") != std::string::npos)) return true;
		return false;
	}
	// the array loses one slot, or a slot is made empty
	bool loses(const StoreInst* S)
	{
		if (heads.empty() || !S->getValueOperand()->getType()->isPointerTy()) return false;
		if (isa<ConstantPointerNull>(S->getValueOperand())) {
			for (auto& x : O.of(S->getPointerOperand())) if (x.kind != O_ARG && x.kind != O_CONST) return false;
			if (!slot(S->getPointerOperand())) return false;
			// not the first value of a new slot: it is not at the end, or somebody has read it before
			if (!beyond(S->getPointerOperand())) return true;
			int64_t o1, o2;
			auto* b = baseOf(S->getPointerOperand(), o1);
			for (auto* U : b->users()) {
				if (auto* l = dyn_cast<LoadInst>(U); l && !o1 && l->getType()->isPointerTy() && DT && DT->dominates(l, S)) return true;
				if (auto* g = dyn_cast<GetElementPtrInst>(U)) for (auto* W : g->users()) if (auto* l = dyn_cast<LoadInst>(W); l && l->getType()->isPointerTy() && baseOf(g, o2) == b && o1 == o2 && DT && DT->dominates(l, S)) return true;
			}
			return false;
		}
		if (!headAddr(S->getPointerOperand())) return false;
		auto* g = dyn_cast<GEPOperator>(S->getValueOperand());
		int64_t off;
		if (!g) return false;
		auto* b = dyn_cast<LoadInst>(baseOf(g, off));
		if (!b || !strides.count(std::abs(off))) return false;
		int64_t o1, o2;
		auto *b1 = baseOf(b->getPointerOperand(), o1), *b2 = baseOf(S->getPointerOperand(), o2);
		if (b1 != b2 || o1 != o2) return false;
		return off < 0 ? isLast(S) : !isLast(S);
	}
	std::string lastHead;
	bool atLast(const Value* A) { for (auto& x : O.of(A)) if (x.kind == O_ARG && x.str() == lastHead) return true; int64_t h = newHead(A); return h >= 0 && h == newLast; }
	bool isLast(const StoreInst* S) { return atLast(S->getPointerOperand()); }
	void releasedSlot(St& st) { st.credit = true; st.popped.clear(); }
	const Value* baseOf(const Value* P, int64_t& off)
	{
		APInt o(64, 0);
		auto* b = P->stripAndAccumulateConstantOffsets(F.getParent()->getDataLayout(), o, true);
		off = o.getSExtValue();
		return b;
	}
	// the stored value is X's successor and it goes where X's predecessor keeps its successor: X
	const Value* unlinks(const StoreInst* S)
	{
		if (links.empty()) return nullptr;
		auto* V = dyn_cast<LoadInst>(S->getValueOperand());
		int64_t a, b, c;
		auto* P = dyn_cast<LoadInst>(baseOf(S->getPointerOperand(), c));
		if (!V || !P || !V->getType()->isPointerTy() || !links.count(c)) return nullptr;
		auto* X = baseOf(V->getPointerOperand(), a);
		if (a != c || baseOf(P->getPointerOperand(), b) != X || b == a) return nullptr;
		return X;
	}
	void settled(St& st, const Value* V)
	{
		if (st.unlinked.empty() || !V->getType()->isPointerTy()) return;
		int64_t o;
		auto* b = baseOf(V, o);
		st.unlinked.erase(b);
		if (auto* L = dyn_cast<LoadInst>(b)) { // aligned blocks keep the pointer to release in front of them
			b = baseOf(L->getPointerOperand(), o);
			if (o < 0) st.unlinked.erase(b);
		}
	}
	// fields whose content on entry this value may be
	Set entryOf(const Value* V, bool all = false)
	{
		Set r;
		if (owning.empty()) return r;
		auto& o = O.of(V);
		for (size_t i = 0; i < owning.size(); ++i) {
			bool some = false, every = !o.empty();
			for (auto& x : o) {
				bool m = x.kind == O_ARG && x.arg == owning[i].first && x.depth == 1 && atoll(x.pathStr().c_str() + 1) == owning[i].second && x.pathStr().find('v') == std::string::npos && x.pathStr().find("..") == std::string::npos;
				some |= m;
				every &= m;
			}
			if (all ? every : some) r.insert(i);
		}
		return r;
	}
	static void shift(St& st, int f, int from, int to, const Instruction* at = nullptr) { if (getenv("VF_SH") && (st.entry[f] & from)) errs() << "shift " << f << " " << st.entry[f] << " to " << to << " at " << (at ? srcLocShort(at) : "?") << "\n"; auto& m = st.entry[f]; if (m & from) m = (m & ~from) | to; }
	DominatorTree* DT = nullptr;
	// at: V was tested equal to the content of the field on the way here
	void gone(St& st, const Value* V, const Instruction* at = nullptr)
	{
		for (int f : entryOf(V)) shift(st, f, HELD | LOST, GONE, at);
		if (!at || owning.empty() || isa<Constant>(V)) return;
		for (auto* U : V->users()) {
			auto* C = dyn_cast<ICmpInst>(U);
			if (!C || !C->isEquality()) continue;
			auto o = entryOf(C->getOperand(C->getOperand(0) == V));
			if (o.empty()) continue;
			for (auto* W : C->users())
				if (auto* B = dyn_cast<BranchInst>(W); B && B->isConditional() && B->getSuccessor(0) != B->getSuccessor(1))
					if (DT->dominates(BasicBlockEdge(B->getParent(), B->getSuccessor(C->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1)), at->getParent()))
						for (int f : o) shift(st, f, HELD | LOST, GONE);
		}
	}
	// read from that very field, not from another one which may hold the same address (the beginning of the elements of an empty front)
	bool readFrom(const Value* V, int f)
	{
		std::vector<const Value*> w{ V };
		std::set<const Value*> seen;
		bool some = false;
		while (!w.empty()) {
			auto* X = w.back();
			w.pop_back();
			if (!seen.insert(X).second) continue;
			if (auto* L = dyn_cast<LoadInst>(X)) {
				for (auto& x : O.of(L->getPointerOperand())) if (x.kind != O_ARG || x.depth || x.arg != owning[f].first || x.var || x.off == owning[f].second) goto yes;
				return false;
				yes: some = true; continue;
			}
			if (auto* G = dyn_cast<GEPOperator>(X)) { w.push_back(G->getPointerOperand()); continue; }
			if (auto* P = dyn_cast<PHINode>(X)) { for (auto& y : P->incoming_values()) w.push_back(y); continue; }
			if (auto* T = dyn_cast<SelectInst>(X)) { w.push_back(T->getTrueValue()); w.push_back(T->getFalseValue()); continue; }
			if (auto* C = dyn_cast<CastInst>(X)) { w.push_back(C->getOperand(0)); continue; }
			if (!isa<Constant>(X)) { auto o = entryOf(X); if (!o.count(f)) return false; some = true; }
		}
		return some;
	}
	void entryStore(const StoreInst* S, St& st)
	{
		if (owning.empty()) return;
		bool stack = !O.of(S->getPointerOperand()).empty();
		for (auto& x : O.of(S->getPointerOperand())) stack &= x.kind == O_STACK && !x.depth;
		auto& w = O.of(S->getPointerOperand());
		int self = -1;
		if (w.size() == 1 && w.begin()->kind == O_ARG && !w.begin()->depth && !w.begin()->var)
			for (size_t i = 0; i < owning.size(); ++i) if (owning[i] == std::make_pair(w.begin()->arg, w.begin()->off)) self = i;
		if (!stack) for (int f : entryOf(S->getValueOperand())) if (f != self && readFrom(S->getValueOperand(), f)) shift(st, f, HELD | LOST, GONE, S);
		if (self >= 0 && !entryOf(S->getValueOperand()).count(self) && S->getValueOperand()->getType()->isPointerTy()) {
			if (st.entry[self] & HELD) overwrites[self] = S;
			shift(st, self, HELD, LOST);
		}
	}
	LeakFlow(Function& f, Origins& o, bool c) : F(f), O(o), ctor(c) {}
	Set designates(const Value* V)
	{
		Set s;
		if (!V->getType()->isPointerTy() && !V->getType()->isIntegerTy(64) && !V->getType()->isStructTy()) return s;
		for (auto& x : O.of(V)) if (x.kind == O_NEW && x.depth == 0) { auto it = num.find(x.base); if (it != num.end()) s.insert(it->second); }
		return s;
	}
	// pointers stored as tagged integers
	Set designatesDeep(const Value* V)
	{
		Set s = designates(V);
		if (s.size() || !V->getType()->isIntegerTy()) return s;
		std::vector<const Value*> w{ V };
		std::set<const Value*> seen;
		while (!w.empty() && seen.size() < 64) {
			auto* I = dyn_cast<Instruction>(w.back());
			w.pop_back();
			if (!I || !seen.insert(I).second) continue;
			if (isa<PtrToIntInst>(I)) { auto d = designates(I->getOperand(0)); s.insert(d.begin(), d.end()); }
			else if (isa<BinaryOperator>(I) || isa<CastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I) || isa<FreezeInst>(I)) for (auto& op : I->operands()) w.push_back(op);
		}
		return s;
	}
	static void minus(St& st, const Set& s) { for (int i : s) { st.live.erase(i); for (auto it = st.inThis.begin(); it != st.inThis.end();) it = it->first == i ? st.inThis.erase(it) : std::next(it); } }
	// what a pointer read back from the object under construction designates
	void minusField(St& st, const Value* P)
	{
		if (!ctor) return;
		for (auto& x : O.of(P)) {
			if (x.kind != O_ARG || x.arg || !x.depth) continue;
			std::string ps = x.pathStr();
			int64_t f = x.depth == 1 && ps.find('v') == std::string::npos && ps.find("..") == std::string::npos ? atoll(ps.c_str() + 1) : ANY;
			if (x.depth > 1) continue; // memory behind an owned block: the block itself remains
			Set hit;
			for (auto& y : st.inThis) if (f == ANY || y.second == ANY || y.second == f) hit.insert(y.first);
			minus(st, hit);
		}
	}
	void escape(St& st, const Set& s, const Value* where)
	{
		if (s.empty()) return;
		bool local = true, self = ctor, inside = ctor; // inside: memory that belongs to the object under construction, or to nobody else yet
		for (auto& x : O.of(where)) {
			if (x.kind == O_CONST) continue;
			if (x.kind == O_STACK && x.depth == 0) { self = false; continue; }
			if (x.kind == O_NEW && x.depth == 0 && s.size() == 1 && num.count(x.base) && num[x.base] == *s.begin()) { self = false; continue; } // into itself
			local = false;
			if (!(x.kind == O_NEW || (x.kind == O_ARG && x.arg == 0))) inside = false;
			if (!(x.kind == O_ARG && x.arg == 0 && !x.depth)) self = false;
		}
		if (local && !O.of(where).empty()) return;
		if (self) { 
			int64_t f = ANY;
			auto& w = O.of(where);
			if (w.size() == 1 && !w.begin()->depth && !w.begin()->var) f = w.begin()->off;
			for (int i : s) {
				bool mine = st.live.erase(i) > 0;
				for (auto& y : st.inThis) mine |= y.first == i;
				if (mine) st.inThis.insert({ i, f });
			}
			return;
		}
		if (inside) { for (int i : s) st.live.erase(i); return; }
		minus(st, s);
	}
	void step(const Instruction& I, St& st)
	{
		if (auto* S = dyn_cast<StoreInst>(&I); S && heads.size()) {
			if (loses(S)) { if (st.credit) st.credit = false; else st.popped.insert(S); }
			else if (!isa<AllocaInst>(getUnderlyingObject(S->getPointerOperand())) && slotContent(S->getValueOperand())) releasedSlot(st);
		}
		if (auto* S = dyn_cast<StoreInst>(&I)) {
			if (auto* X = unlinks(S)) st.unlinked[X] = S;
			else if (!isa<AllocaInst>(getUnderlyingObject(S->getPointerOperand()))) settled(st, S->getValueOperand());
		}
		if (auto* S = dyn_cast<StoreInst>(&I)) { entryStore(S, st); escape(st, designatesDeep(S->getValueOperand()), S->getPointerOperand()); return; }
		if (auto* X = dyn_cast<AtomicRMWInst>(&I)) { escape(st, designatesDeep(X->getValOperand()), X->getPointerOperand()); return; }
		if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) { escape(st, designatesDeep(X->getNewValOperand()), X->getPointerOperand()); return; }
		if (auto* T = dyn_cast<MemTransferInst>(&I)) { // a copied object carries what it holds
			Set s;
			for (auto& x : O.of(T->getRawSource()))
				if ((x.kind == O_STACK || x.kind == O_NEW) && x.depth == 0) {
					auto it = O.mem.find(x.base);
					if (it != O.mem.end()) for (auto& c : it->second) for (auto& y : c.second) if (y.kind == O_NEW && !y.depth) { auto n = num.find(y.base); if (n != num.end()) s.insert(n->second); }
				}
			escape(st, s, T->getRawDest());
			return;
		}
		if (auto* CB = dyn_cast<CallBase>(&I); CB && !isa<IntrinsicInst>(CB)) {
			auto* f = calleeOf(CB);
			StringRef n = f ? f->getName() : "";
			if (n == "vf_deallocate") settled(st, CB->getArgOperand(1));
			else if (!n.starts_with("vf_") && !n.starts_with("mem") && !(f && demBase(f).rfind("vf::", 0) == 0)) for (auto& a : CB->args()) settled(st, a);
		}
		if (auto* R = dyn_cast<ReturnInst>(&I)) { if (R->getReturnValue()) minus(st, designates(R->getReturnValue())); return; }
		auto* CB = dyn_cast<CallBase>(&I);
		if (!CB || isa<IntrinsicInst>(CB)) return;
		auto* f = calleeOf(CB);
		StringRef n = f ? f->getName() : "";
		if (n == "vf_deallocate") { if (slotContent(CB->getArgOperand(1))) releasedSlot(st); gone(st, CB->getArgOperand(1), CB); minus(st, designates(CB->getArgOperand(1))); minusField(st, CB->getArgOperand(1)); return; }
		if (n.starts_with("_ZdlPv") || n == "free") { minus(st, designates(CB->getArgOperand(0))); return; }
		if (n == "vf_allocate" || n.starts_with("vf_") || n.starts_with("__cxa") || n.starts_with("mem") || n.starts_with("_Znw")) return;
		if (f && demBase(f).rfind("vf::", 0) == 0) return; // user code works on the objects it is given, it does not keep or release memory
		for (auto& a : CB->args()) { gone(st, a); minus(st, designates(a)); } // body not known: may keep or release it
	}
	// edges on which a live block cannot be what is tested
	void edge(const BasicBlock* B, const BasicBlock* S, St& st)
	{
		auto* br = dyn_cast<BranchInst>(B->getTerminator());
		if (!br || !br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1)) return;
		test(br->getCondition(), S == br->getSuccessor(0), st, br);
	}
	void test(const Value* V, bool outcome, St& st, const Instruction* at)
	{
		if (auto* I = dyn_cast<Instruction>(V)) { // a || b, a && b
			const Value *x = nullptr, *y = nullptr;
			bool isOr = false;
			if (auto* S = dyn_cast<SelectInst>(I); S && S->getType()->isIntegerTy(1)) {
				if (auto* T = dyn_cast<ConstantInt>(S->getTrueValue()); T && T->isOne()) { x = S->getCondition(); y = S->getFalseValue(); isOr = true; }
				else if (auto* E = dyn_cast<ConstantInt>(S->getFalseValue()); E && E->isZero()) { x = S->getCondition(); y = S->getTrueValue(); }
			}
			else if (I->getType()->isIntegerTy(1) && (I->getOpcode() == Instruction::Or || I->getOpcode() == Instruction::And)) { x = I->getOperand(0); y = I->getOperand(1); isOr = I->getOpcode() == Instruction::Or; }
			if (x) {
				if (isOr != outcome) { test(x, outcome, st, at); test(y, outcome, st, at); }
				else { // one of both: what both exclude
					St a = st, b = st;
					test(x, outcome, a, at);
					test(y, outcome, b, at);
					for (auto it = st.live.begin(); it != st.live.end();) it = a.live.count(*it) || b.live.count(*it) ? std::next(it) : st.live.erase(it);
					for (auto& e : st.entry) e.second = a.entry[e.first] | b.entry[e.first];
					for (auto it = st.inThis.begin(); it != st.inThis.end();) it = a.inThis.count(*it) || b.inThis.count(*it) ? std::next(it) : st.inThis.erase(it);
				}
				return;
			}
		}
		auto* C = dyn_cast<ICmpInst>(V);
		if (!C || !C->isEquality()) return;
		const Value* p = C->getOperand(0);
		auto fixed = [](const Value* v) { return isa<ConstantPointerNull>(v) || isa<GlobalVariable>(v); }; // nothing, or the shared empty table
		if (fixed(p)) p = C->getOperand(1);
		else if (!fixed(C->getOperand(1))) return;
		if (outcome == (C->getPredicate() == CmpInst::ICMP_EQ)) { if (slotContent(p)) releasedSlot(st); gone(st, p, at); minus(st, designates(p)); minusField(st, p); }
	}
	const BasicBlock* decided(const Instruction* T)
	{
		auto* B = dyn_cast<BranchInst>(T);
		if (!B || !B->isConditional()) return nullptr;
		auto* C = dyn_cast<ICmpInst>(B->getCondition());
		if (!C || !C->isEquality()) return nullptr;
		auto arg = [&](const Value* V) {
			auto& o = O.of(V);
			return o.size() == 1 && o.begin()->kind == O_ARG && !o.begin()->depth && !o.begin()->var && V->getType()->isPointerTy() ? o.begin()->arg : -1;
		};
		int x = arg(C->getOperand(0)), y = arg(C->getOperand(1));
		if (x < 0 || y < 0 || x == y) return nullptr;
		return B->getSuccessor(C->getPredicate() == CmpInst::ICMP_EQ ? 1 : 0);
	}
	void solve()
	{
		for (auto& B : F)
			for (auto& I : B)
				if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = calleeOf(CB)) if (f->getName() == "vf_allocate" || f->getName().starts_with("_Znwm")) { num[CB] = sites.size(); sites.push_back(CB); }
		if (sites.empty() && owning.empty() && links.empty() && heads.empty()) return;
		DominatorTree dt(F);
		DT = &dt;
		std::vector<const BasicBlock*> order;
		for (auto* B : ReversePostOrderTraversal<Function*>(&F)) order.push_back(B);
		std::map<const BasicBlock*, St> in;
		for (size_t i = 0; i < owning.size(); ++i) in[order[0]].entry[i] = HELD;
		std::set<const BasicBlock*> seen{ order[0] };
		std::map<std::pair<const BasicBlock*, int>, const BasicBlock*> from;
		bool ch = true;
		while (ch) {
			ch = false;
			for (auto* B : order) {
				if (!seen.count(B)) continue;
				St st = in[B];
				const CallBase* born = nullptr;
				for (auto& I : *B) {
					step(I, st);
					if (auto* CB = dyn_cast<CallBase>(&I)) {
						auto it = num.find(CB);
						if (it != num.end()) { if (isa<InvokeInst>(CB)) born = CB; else st.live.insert(it->second); }
					}
				}
				auto* T = B->getTerminator();
				if (isa<ReturnInst>(T) || isa<ResumeInst>(T)) for (auto& e : st.entry) if (e.second & LOST) lost.insert({ e.first, { overwrites[e.first], isa<ResumeInst>(T) } });
				if (isa<ReturnInst>(T) && cast<ReturnInst>(T)->getReturnValue()) settled(st, cast<ReturnInst>(T)->getReturnValue());
				if (isa<ReturnInst>(T) || isa<ResumeInst>(T)) for (auto& u : st.unlinked) dropped.insert({ u.second, isa<ResumeInst>(T) });
				if (isa<ReturnInst>(T) || isa<ResumeInst>(T)) for (auto& u : st.popped) popped.insert({ u, isa<ResumeInst>(T) });
				if (isa<ReturnInst>(T)) for (int i : st.live) leakRet.insert({ i, T });
				if (isa<ResumeInst>(T)) {
					if (getenv("VF_TRACE")) for (int i : st.live) {
						if (leakUnw.count(i)) continue;
						errs() << "== leak of " << srcLoc(sites[i]).substr(0, 60) << "\n";
						int n = 0;
						for (auto* X = B; X && n < 60; ++n) { errs() << "  " << srcLoc(X->getTerminator()).substr(0, 70) << " | "; X->getTerminator()->print(errs()); errs() << "\n"; auto it = from.find({ X, i }); X = it == from.end() ? nullptr : it->second; }
					}
					for (int i : st.live) leakUnw.insert({ i, T });
					for (auto& i : st.inThis) leakUnw.insert({ i.first, T });
				}
				auto* only = decided(T);
				for (auto* S : successors(B)) {
					if (only && S != only) continue;
					St o = st;
					if (born && S == cast<InvokeInst>(born)->getNormalDest()) o.live.insert(num[born]);
					edge(B, S, o);
					bool n = seen.insert(S).second;
					auto& d = in[S];
					if (n) d.credit = o.credit;
					else if (d.credit && !o.credit) { d.credit = false; n = true; }
					for (auto* u : o.popped) n |= d.popped.insert(u).second;
					for (int i : o.live) if (d.live.insert(i).second) { n = true; from[{ S, i }] = B; }
					for (auto& e : o.entry) { auto& m = d.entry[e.first]; if ((m | e.second) != m) { m |= e.second; n = true; } }
					for (auto& u : o.unlinked) n |= d.unlinked.insert(u).second;
					for (auto& i : o.inThis) n |= d.inThis.insert(i).second;
					ch |= n;
				}
			}
		}
	}
};
}

int runLeaks(Module& M, const std::vector<std::string>& args, Report& R)
{
	std::string rules = "L01,L02";
	PrepOptions o;
	for (auto& a : args) {
		if (a.rfind("--rules=", 0) == 0) rules = a.substr(8);
		if (a.rfind("--roots=", 0) == 0) o.roots = a.substr(8);
		if (a.rfind("--opaque=", 0) == 0) o.opaque.push_back(a.substr(9));
	}
	o.loops = false;
	auto res = prepare(M, o);
	R.counts["residual_calls"] += res.residual.size();
	// fields that own the block they point to: what the destructor releases
	std::set<int64_t> own;
	for (Function* F : res.roots)
		if (F->getName() == "vf_dtor") {
			Origins O(*F);
			O.solve();
			for (auto& B : *F)
				for (auto& I : B)
					if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = calleeOf(CB)) if (f->getName() == "vf_deallocate")
						for (auto& x : O.of(CB->getArgOperand(1)))
							if (x.kind == O_ARG && !x.arg && x.depth == 1 && !x.off && !x.var && x.pathStr().find('v') == std::string::npos && x.pathStr().find("..") == std::string::npos) own.insert(atoll(x.pathStr().c_str() + 1));
		}
	// and the fields by which it walks from one block to the next
	std::set<int64_t> links;
	for (Function* F : res.roots)
		if (F->getName() == "vf_dtor")
			for (auto& B : *F)
				for (auto& I : B)
					if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = calleeOf(CB)) if (f->getName() == "vf_deallocate") {
						std::vector<const Value*> w{ CB->getArgOperand(1) };
						std::set<const Value*> seen;
						while (!w.empty()) {
							auto* V = w.back();
							w.pop_back();
							if (!seen.insert(V).second) continue;
							if (auto* P = dyn_cast<PHINode>(V)) { for (auto& x : P->incoming_values()) w.push_back(x); continue; }
							if (auto* L = dyn_cast<LoadInst>(V)) {
								APInt o(64, 0);
								auto* b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(M.getDataLayout(), o, true);
								if (seen.count(b) && isa<PHINode>(b) && o.isNonNegative()) links.insert(o.getSExtValue());
								else if (V == CB->getArgOperand(1) && o.isNegative()) w.push_back(b);
							}
						}
					}
	// arrays which the destructor walks, releasing what every slot designates
	std::set<std::string> heads;
	std::string lastHead;
	std::set<int64_t> strides;
	for (Function* F : res.roots)
		if (F->getName() == "vf_dtor") {
			Origins O(*F);
			O.solve();
			LeakFlow L(*F, O, false);
			for (auto& B : *F)
				for (auto& I : B)
					if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = calleeOf(CB)) if (f->getName() == "vf_deallocate")
						if (auto* V = dyn_cast<LoadInst>(CB->getArgOperand(1))) {
							int64_t off; auto* P = dyn_cast<PHINode>(L.baseOf(V->getPointerOperand(), off));
							if (!P) continue;
							std::set<const LoadInst*> l;
							std::set<int64_t> s;
							std::set<const Value*> seen;
							LeakFlow::gather(L, P, l, s, seen);
							for (auto* x : l) for (auto& y : O.of(x->getPointerOperand())) if (y.kind == O_ARG && !y.var && y.str().find('v') == std::string::npos && y.str().find("..") == std::string::npos) heads.insert(y.str());
							if (heads.size()) strides.insert(s.begin(), s.end());
							// the bound of the walk
							for (auto* U : P->users()) if (auto* C = dyn_cast<ICmpInst>(U)) for (auto& op : C->operands()) if (auto* x = dyn_cast<LoadInst>(op)) for (auto& y : O.of(x->getPointerOperand())) if (y.kind == O_ARG && !y.var) { heads.insert(y.str()); lastHead = y.str(); }
							for (auto& u : P->incoming_values()) for (auto* U : u->users()) if (auto* C = dyn_cast<ICmpInst>(U)) for (auto& op : C->operands()) if (auto* x = dyn_cast<LoadInst>(op)) for (auto& y : O.of(x->getPointerOperand())) if (y.kind == O_ARG && !y.var && heads.count(y.str()) == 0) { heads.insert(y.str()); lastHead = y.str(); }
						}
		}
	std::set<std::pair<uint64_t, int64_t>> newHeads;
	int64_t newLast = -1;
	for (Function* F : res.roots)
		if (F->getName() == "vf_dtor" && heads.size()) {
			Origins O(*F);
			O.solve();
			for (auto& B : *F)
				for (auto& I : B)
					if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = calleeOf(CB)) if (f->getName() == "vf_deallocate") if (auto* c = dyn_cast<ConstantInt>(CB->getArgOperand(3)))
						for (auto& x : O.of(CB->getArgOperand(1)))
							if (x.kind == O_ARG && !x.off && !x.var)
								for (auto& h : heads) if (h.rfind(x.str() + "[", 0) == 0 && h.find('*', x.str().size()) == std::string::npos) {
									int64_t o = atoll(h.c_str() + x.str().size() + 1);
									newHeads.insert({ c->getZExtValue(), o });
									if (h == lastHead) newLast = o;
								}
		}
	if (getenv("VF_SH")) { for (auto& h : newHeads) errs() << "new head " << h.first << " " << h.second << " last " << newLast << "\n"; for (auto& h : heads) errs() << "head " << h << "\n"; for (auto h : strides) errs() << "stride " << h << " last " << lastHead << "\n"; }
	// kinds of blocks (by element type) which the destructor releases
	std::set<uint64_t> kinds;
	bool anyKind = false;
	for (Function* F : res.roots)
		if (F->getName() == "vf_dtor") {
			std::vector<const Function*> w{ F };
			std::set<const Function*> seen{ F };
			while (!w.empty()) {
				auto* G = w.back();
				w.pop_back();
				for (auto& B : *G)
					for (auto& I : B)
						if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = calleeOf(CB)) {
							if (f->getName() == "vf_deallocate") { if (auto* c = dyn_cast<ConstantInt>(CB->getArgOperand(3))) kinds.insert(c->getZExtValue()); else anyKind = true; }
							if (!f->isDeclaration() && seen.insert(f).second) w.push_back(f);
						}
			}
		}
	R.counts["block_kinds"] += kinds.size();
	R.counts["owning_arrays"] += heads.size() > 0;
	R.counts["list_links"] += links.size();
	R.counts["owning_fields"] += own.size();
	for (Function* F : res.roots) {
		std::string root = F->getName().str();
		bool ctor = root.rfind("vf_k_", 0) == 0;
		Origins O(*F);
		O.solve();
		if (O.overflow) R.notes.push_back("budget exhausted: " + root);
		R.counts["roots"]++;
		LeakFlow L(*F, O, ctor);
		if (!ctor && root != "vf_dtor") for (int64_t f : own) {
			L.owning.push_back({ 0, f });
			if (root == "vf_swap" || root.find("assign") != std::string::npos) L.owning.push_back({ 1, f });
			R.counts["owned_blocks"]++;
		}
		if (kinds.size() && !anyKind)
			for (auto& B : *F)
				for (auto& I : B)
					if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = calleeOf(CB)) if (f->getName() == "vf_allocate") if (auto* c = dyn_cast<ConstantInt>(CB->getArgOperand(2))) if (!kinds.count(c->getZExtValue())) {
						bool scratch = false;
						for (auto& C : *F) for (auto& J : C) if (auto* D = dyn_cast<CallBase>(&J)) if (auto* g = calleeOf(D)) if (g->getName() == "vf_deallocate") if (auto* k = dyn_cast<ConstantInt>(D->getArgOperand(3))) scratch |= k == c;
						R.counts["scratch_blocks"] += scratch;
						if (!scratch) R.violation(root, "L01", srcLoc(&I), "blocks of this type are allocated by " + root + " and never released by the destructor");
					}
		if (root != "vf_dtor") { L.links = links; L.heads = heads; L.strides = strides; L.lastHead = lastHead; L.newHeads = newHeads; L.newLast = newLast; }
		for (auto& B : *F) for (auto& I : B) if (auto* S = dyn_cast<StoreInst>(&I)) R.counts["slots_lost"] += L.loses(S);
		for (auto& B : *F) for (auto& I : B) if (auto* S = dyn_cast<StoreInst>(&I)) R.counts["unlinked_nodes"] += L.unlinks(S) != nullptr;
		L.solve();
		for (auto& l : L.dropped) R.violation(root, "L01", srcLoc(l.first), root + " may " + (l.second ? "throw" : "return") + " with a node taken out of the list here that is neither released nor linked again");
		for (auto& l : L.popped) R.violation(root, "L01", srcLoc(l.first), root + " may " + (l.second ? "throw" : "return") + " after an array of owning pointers lost a slot here, without releasing what it designated");
		for (auto& l : L.lost) R.violation(root, "L01", srcLoc(l.second.first), root + " may " + (l.second.second ? "throw" : "return") + " with the block in field " + std::to_string(L.owning[l.first].second) + " of a" + std::to_string(L.owning[l.first].first) + " overwritten here, not released");
		R.counts["allocations"] += L.sites.size();
		for (auto& B : *F) { R.counts["normal_exits"] += isa<ReturnInst>(B.getTerminator()); R.counts["exceptional_exits"] += isa<ResumeInst>(B.getTerminator()); }
		for (auto& l : L.leakRet) R.violation(root, "L01", srcLoc(L.sites[l.first]), root + " may return while nothing designates the memory allocated here any more");
		for (auto& l : L.leakUnw) R.violation(root, "L01", srcLoc(L.sites[l.first]), root + " may throw while nothing designates the memory allocated here any more");
	}
	return 0;
}
