#include "flow.h"
#include <unordered_map>
#include "llvm/ADT/PostOrderIterator.h"
static const unsigned VF_BLUR = getenv("VB") ? atoi(getenv("VB")) : 16, VF_DEPTH = getenv("VD") ? atoi(getenv("VD")) : 4;
const Function* calleeOf(const CallBase* CB) { return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); }

// interned paths
static std::vector<std::pair<int, int64_t>> gPath{ { -1, 0 } };
static std::map<std::pair<int, int64_t>, int> gPathId;
static const int64_t PVAR = INT64_MIN, PDEEP = INT64_MIN + 1;
static int extend(int p, int64_t o)
{
	auto it = gPathId.find({ p, o });
	if (it != gPathId.end()) return it->second;
	gPath.push_back({ p, o });
	return gPathId[{ p, o }] = (int)gPath.size() - 1;
}
static int deepPath() { return extend(0, PDEEP); }
std::string Org::pathStr() const
{
	std::string s;
	for (int p = path; p > 0; p = gPath[p].first)
		s = (gPath[p].second == PVAR ? "[v]*" : gPath[p].second == PDEEP ? "..*" : "[" + std::to_string(gPath[p].second) + "]*") + s;
	return s;
}

std::string Org::str() const
{
	std::string s;
	switch (kind) {
		case O_ARG: s = "a" + std::to_string(arg); break;
		case O_STACK: s = "local"; break;
		case O_NEW: s = "new"; break;
		case O_GLOB: s = "global " + (base ? demName(base->getName()) : ""); break;
		case O_CALL: s = "result of " + (base && calleeOf(cast<CallBase>(base)) ? demBase(calleeOf(cast<CallBase>(base))) : std::string("call")); break;
		case O_CONST: s = "constant"; break;
		default: s = "?";
	}
	s += pathStr();
	if (var) s += "[v]";
	else if (off) s += "[" + std::to_string(off) + "]";
	return s;
}

Origins::Origins(Function& f)
  : F(f)
  , DL(f.getParent()->getDataLayout())
{
}

static Org blurred(Org o, int level)
{
	if (o.kind == O_CONST) return o;
	if (level >= 1) { o.var = true; o.off = 0; }
	if (level >= 2 && o.depth) { o.path = deepPath(); o.depth = 9; }
	return o;
}
bool Origins::mergeSet(std::set<Org>& cur, int& lv, const std::set<Org>& r)
{
	bool ch = false;
	for (auto& o : r) ch |= cur.insert(lv ? blurred(o, lv) : o).second;
	while (cur.size() > VF_BLUR && lv < 2) {
		++lv;
		std::set<Org> n;
		for (auto& o : cur) n.insert(blurred(o, lv));
		cur = n;
	}
	return ch;
}
bool Origins::merge(const Value* V, const std::set<Org>& r) { return mergeSet(val[V], level[V], r); }

std::set<Org> Origins::cst(const Value* V)
{
	std::set<Org> r;
	Org o;
	if (isa<UndefValue>(V)) return r;
	if (auto* G = dyn_cast<GlobalValue>(V)) { o.kind = O_GLOB; o.base = G; r.insert(o); return r; }
	if (auto* CE = dyn_cast<ConstantExpr>(V)) {
		for (auto& op : CE->operands())
			for (auto x : cst(op)) if (x.kind == O_GLOB) { x.var = true; r.insert(x); }
		if (r.size()) return r;
	}
	o.kind = O_CONST;
	r.insert(o);
	return r;
}

const std::set<Org>& Origins::of(const Value* V)
{
	if (isa<Instruction>(V) || isa<Argument>(V)) return val[V];
	auto it = cmemo.find(V);
	if (it == cmemo.end()) it = cmemo.emplace(V, cst(V)).first;
	return it->second;
}

std::set<Org> Origins::eval(const Value* V)
{
	std::set<Org> r;
	auto addv = [&](const Value* W, bool blur) {
		for (Org o : of(W)) {
			if (blur && o.kind != O_CONST) { o.var = true; o.off = 0; }
			if (blur && o.kind == O_CONST) continue;
			r.insert(o);
		}
	};
	if (auto* A = dyn_cast<Argument>(V)) { Org o; o.kind = O_ARG; o.arg = A->getArgNo(); r.insert(o); return r; }
	auto* I = cast<Instruction>(V);
	if (isa<AllocaInst>(I)) { Org o; o.kind = O_STACK; o.base = I; r.insert(o); return r; }
	if (auto* G = dyn_cast<GetElementPtrInst>(I)) {
		APInt off(64, 0);
		MapVector<Value*, APInt> vo;
		bool ok = G->collectOffset(DL, 64, vo, off);
		bool var = !ok || !vo.empty();
		for (Org o : of(G->getPointerOperand())) {
			if (o.kind == O_CONST) { r.insert(o); continue; }
			if (var || o.var) { o.var = true; o.off = 0; }
			else o.off += off.getSExtValue();
			if (o.off > 4096 || o.off < -4096) { o.var = true; o.off = 0; }
			r.insert(o);
		}
		return r;
	}
	auto fromMem = [&](const Value* P) {
		for (Org o : of(P)) {
			if (o.kind == O_STACK || o.kind == O_NEW) {
				if (o.depth == 0) {
					bool any = false;
					auto it = mem.find(o.base);
					if (it != mem.end())
						for (auto& s : it->second)
							if (s.first == VAROFF || o.var || s.first == o.off) { r.insert(s.second.begin(), s.second.end()); any |= !s.second.empty(); }
					if (any) continue;
				}
			}
			if (o.kind == O_CONST) continue;
			if (o.depth >= VF_DEPTH) { o.path = deepPath(); o.var = false; o.off = 0; o.depth = 9; r.insert(o); continue; }
			o.path = extend(o.path, o.var ? PVAR : o.off);
			o.depth++;
			o.var = false;
			o.off = 0;
			r.insert(o);
		}
	};
	if (auto* L = dyn_cast<LoadInst>(I)) { fromMem(L->getPointerOperand()); return r; }
	if (auto* X = dyn_cast<AtomicRMWInst>(I)) { fromMem(X->getPointerOperand()); return r; }
	if (auto* X = dyn_cast<AtomicCmpXchgInst>(I)) { fromMem(X->getPointerOperand()); return r; }
	if (auto* P = dyn_cast<PHINode>(I)) { for (auto& v : P->incoming_values()) if (v != P) addv(v, false); return r; }
	if (auto* S = dyn_cast<SelectInst>(I)) { addv(S->getTrueValue(), false); addv(S->getFalseValue(), false); return r; }
	if (isa<CmpInst>(I)) return r;
	if (auto* C = dyn_cast<CastInst>(I)) { addv(C->getOperand(0), false); return r; }
	if (auto* CB = dyn_cast<CallBase>(I)) {
		if (CB->getType()->isVoidTy()) return r;
		auto* f = calleeOf(CB);
		Org o;
		o.base = CB;
		if (f && (f->getName() == "vf_allocate" || f->getName().starts_with("_Znw") || f->getName() == "malloc")) { o.kind = O_NEW; r.insert(o); return r; }
		if (f && f->isIntrinsic()) {
			if (toPtr.count(I))
				for (auto& a : CB->args())
					if (!isa<MetadataAsValue>(a)) addv(a, true);
			return r;
		}
		o.kind = O_CALL;
		r.insert(o);
		return r;
	}
	if (!toPtr.count(I)) return r; // plain arithmetic
	for (auto& op : I->operands())
		if (isa<Instruction>(op) || isa<Argument>(op)) addv(op, true);
	return r;
}

void Origins::solve()
{
	// worklist in reverse post order
	std::vector<const Instruction*> order;
	std::unordered_map<const Instruction*, unsigned> num;
	for (auto* B : ReversePostOrderTraversal<Function*>(&F))
		for (auto& I : *B) { num[&I] = order.size(); order.push_back(&I); }
	std::set<unsigned> w;
	auto push = [&](const Instruction* I) { auto it = num.find(I); if (it != num.end()) w.insert(it->second); };
	// integers which become pointers
	{
		std::vector<const Value*> w2;
		for (auto& B : F)
			for (auto& I : B)
				if (isa<IntToPtrInst>(I)) w2.push_back(I.getOperand(0));
		while (!w2.empty()) {
			auto* v = w2.back();
			w2.pop_back();
			auto* I = dyn_cast<Instruction>(v);
			if (!I || !I->getType()->isIntegerTy() || isa<CmpInst>(I) || isa<LoadInst>(I) || !toPtr.insert(I).second) continue;
			if (isa<CallBase>(I) && !isa<IntrinsicInst>(I)) continue;
			if (auto* P = dyn_cast<PHINode>(I)) for (auto& x : P->incoming_values()) w2.push_back(x);
			else if (auto* S = dyn_cast<SelectInst>(I)) { w2.push_back(S->getTrueValue()); w2.push_back(S->getFalseValue()); }
			else for (auto& op : I->operands()) w2.push_back(op);
		}
	}
	for (auto& A : F.args()) val[&A] = eval(&A);
	for (auto& B : F)
		for (auto& I : B) push(&I);
	std::map<const Value*, std::set<const Instruction*>> readers;   // object -> loads from it
	std::map<const Instruction*, long> hist;
	long steps = 0, maxSteps = 400 * (long)w.size() + 100000;
	while (!w.empty()) {
		if (++steps > maxSteps) { overflow = true; break; }
		auto* I = order[*w.begin()];
		w.erase(w.begin());
		if (getenv("VF_HIST")) hist[I]++;
		if (auto* S = dyn_cast<StoreInst>(I)) {
			const std::set<Org> vs = of(S->getValueOperand());
			for (auto& o : of(S->getPointerOperand()))
				if ((o.kind == O_STACK || o.kind == O_NEW) && o.depth == 0) {
					int64_t off = o.var ? VAROFF : o.off;
					if (mergeSet(mem[o.base][off], memLevel[{ o.base, off }], vs))
						for (auto* L : readers[o.base]) push(L);
				}
			continue;
		}
		if (I->getType()->isVoidTy()) continue;
		const Value* ptr = nullptr;
		if (auto* L = dyn_cast<LoadInst>(I)) ptr = L->getPointerOperand();
		else if (auto* X = dyn_cast<AtomicRMWInst>(I)) ptr = X->getPointerOperand();
		else if (auto* X = dyn_cast<AtomicCmpXchgInst>(I)) ptr = X->getPointerOperand();
		if (ptr)
			for (auto& o : of(ptr))
				if ((o.kind == O_STACK || o.kind == O_NEW) && o.depth == 0) readers[o.base].insert(I);
		if (merge(I, eval(I))) {
			for (auto* U : I->users())
				if (auto* J = dyn_cast<Instruction>(U)) push(J);
		}
	}
	rounds = steps;
	if (getenv("VF_HIST")) {
		std::vector<std::pair<long, const Instruction*>> v;
		for (auto& h : hist) v.push_back({ h.second, h.first });
		std::sort(v.rbegin(), v.rend());
		for (size_t i = 0; i < v.size() && i < 12; ++i) { errs() << v[i].first << " "; v[i].second->print(errs()); errs() << " |set| " << val[v[i].second].size() << "\n"; }
		size_t tot = 0; for (auto& x : mem) for (auto& y : x.second) tot += y.second.size();
		errs() << "mem objects " << mem.size() << " entries " << tot << "\n";
	}
}
