// What the fields of the operands hold when a whole-container operation returns: flow-sensitive, field by field.
//  M05 functors stay with (travel to) the container they belong to, and are the ones used
//  M07 swap exchanges, move transfers, every field
//  A04 the allocator afterwards is the one its propagation traits ask for
#include "flow.h"
#include "llvm/ADT/PostOrderIterator.h"

namespace {
struct Sym {
	enum K { INIT, CST, VAL, OTHER } k = OTHER;
	int arg = -1;
	int64_t off = 0;
	const Value* v = nullptr;
	bool operator<(const Sym& o) const { return std::tie(k, arg, off, v) < std::tie(o.k, o.arg, o.off, o.v); }
	bool operator==(const Sym& o) const { return !(*this < o) && !(o < *this); }
	std::string str() const
	{
		if (k == INIT) return "a" + std::to_string(arg) + "[" + std::to_string(off) + "]";
		if (k == CST) return "constant";
		if (k == VAL) {
			if (auto* CB = dyn_cast_or_null<CallBase>(v)) if (auto* f = calleeOf(CB)) return "result of " + demBase(f);
			return "computed";
		}
		return "?";
	}
};
using Syms = std::set<Sym>;
struct Base {
	int arg = -1;
	const Value* obj = nullptr;
	bool operator<(const Base& o) const { return std::tie(arg, obj) < std::tie(o.arg, o.obj); }
	bool operator==(const Base& o) const { return arg == o.arg && obj == o.obj; }
};
using Cell = std::pair<Base, int64_t>;
using State = std::map<Cell, Syms>; // absent: initial contents

std::string symsStr(const Syms& s)
{
	std::string r;
	for (auto& x : s) r += (r.size() ? ", " : "") + x.str();
	return r;
}

struct CellFlow {
	Function& F;
	Origins& O;
	const DataLayout& DL;
	int64_t objSize;
	std::map<const Value*, Syms> val;
	State final;
	bool any = false; // some return reached
	std::map<const CallBase*, Syms> allocWith; // what the allocator of each allocation is
	CellFlow(Function& f, Origins& o, int64_t sz) : F(f), O(o), DL(f.getParent()->getDataLayout()), objSize(sz) {}

	static Syms initial(const Cell& c)
	{
		Sym s;
		if (c.first.arg < 0) return {}; // uninitialised local
		s.k = Sym::INIT;
		s.arg = c.first.arg;
		s.off = c.second;
		return { s };
	}
	Syms get(const State& st, const Cell& c)
	{
		auto it = st.find(c);
		return it == st.end() ? initial(c) : it->second;
	}
	// exact cell designated by a pointer; false when it does not concern a tracked object; imprecise: several or unknown offset
	bool target(const Value* P, Base& b, int64_t& off, bool& imprecise, std::vector<Base>& touched)
	{
		imprecise = false;
		int n = 0;
		for (auto& o : O.of(P)) {
			if (o.kind == O_CONST) continue;
			++n;
			if (o.depth) { if (o.kind != O_STACK) continue; continue; }
			Base x;
			if (o.kind == O_ARG) x.arg = o.arg;
			else if (o.kind == O_STACK) x.obj = o.base;
			else continue;
			touched.push_back(x);
			b = x;
			off = o.off;
			if (o.var) imprecise = true;
		}
		if (touched.empty()) return false;
		if (n != 1) imprecise = true;
		return true;
	}
	Syms valueOf(const State& st, const Value* V)
	{
		if (isa<Constant>(V)) { if (isa<UndefValue>(V)) return {}; Sym s; s.k = Sym::CST; return { s }; }
		auto it = val.find(V);
		if (it != val.end()) return it->second;
		if (isa<Instruction>(V)) return {};
		Sym s; s.k = Sym::VAL; s.v = V;
		return { s };
	}
	static Syms shifted(const Syms& s, int64_t d)
	{
		Syms r;
		for (auto x : s) { if (x.k == Sym::INIT) x.off += d; r.insert(x); }
		return r;
	}
	void smash(State& st, const Base& b)
	{
		Sym o;
		for (int64_t k = 0; k < objSize; k += 4) { auto s = get(st, { b, k }); s.insert(o); st[{ b, k }] = s; }
	}
	void step(const Instruction& I, State& st, bool& ch)
	{
		auto setVal = [&](const Value* V, const Syms& s) {
			auto& x = val[V];
			size_t n = x.size();
			x.insert(s.begin(), s.end());
			if (x.size() != n) ch = true;
		};
		Base b;
		int64_t off = 0;
		bool imp = false;
		std::vector<Base> t;
		if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = calleeOf(CB)) if (f->getName() == "vf_allocate") { auto s = valueOf(st, CB->getArgOperand(0)); allocWith[CB].insert(s.begin(), s.end()); }
		if (auto* L = dyn_cast<LoadInst>(&I)) {
			if (target(L->getPointerOperand(), b, off, imp, t) && !imp) setVal(L, get(st, { b, off }));
			else { Sym s; s.k = Sym::VAL; s.v = L; setVal(L, { s }); }
			return;
		}
		if (auto* S = dyn_cast<StoreInst>(&I)) {
			if (!target(S->getPointerOperand(), b, off, imp, t)) return;
			int64_t sz = DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue();
			auto v = valueOf(st, S->getValueOperand());
			if (imp) {
				for (auto& x : t)
					if (x == b && t.size() == 1 && off) { for (int64_t k = 0; k < std::max<int64_t>(sz, 4); k += 4) { auto s = get(st, { x, off + k }); auto w = shifted(v, k); s.insert(w.begin(), w.end()); st[{ x, off + k }] = s; } }
					else smash(st, x);
			}
			else
				for (int64_t k = 0; k < std::max<int64_t>(sz, 4); k += 4) st[{ b, off + k }] = shifted(v, k);
			return;
		}
		if (auto* M = dyn_cast<MemIntrinsic>(&I)) {
			if (!target(M->getRawDest(), b, off, imp, t)) return;
			auto* C = dyn_cast<ConstantInt>(M->getLength());
			auto* T = dyn_cast<MemTransferInst>(M);
			if (imp || !C) { for (auto& x : t) smash(st, x); return; }
			Base sb;
			int64_t so = 0;
			bool simp = false;
			std::vector<Base> t2;
			bool src = T && target(T->getRawSource(), sb, so, simp, t2) && !simp;
			State old = st;
			for (int64_t k = 0; k < (int64_t)C->getZExtValue(); k += 4) {
				Sym o;
				if (!T) o.k = Sym::CST;
				st[{ b, off + k }] = src ? get(old, { sb, so + k }) : Syms{ o };
			}
			return;
		}
		if (auto* X = dyn_cast<AtomicRMWInst>(&I)) { if (target(X->getPointerOperand(), b, off, imp, t)) for (auto& x : t) { auto s = get(st, { x, off }); s.insert(Sym()); st[{ x, off }] = s; } }
		if (I.getType()->isVoidTy()) return;
		if (auto* P = dyn_cast<PHINode>(&I)) {
			Syms s;
			for (auto& v : P->incoming_values()) if (v != P) { auto x = valueOf(st, v); s.insert(x.begin(), x.end()); }
			setVal(P, s);
			return;
		}
		if (auto* S = dyn_cast<SelectInst>(&I)) {
			auto s = valueOf(st, S->getTrueValue()), x = valueOf(st, S->getFalseValue());
			s.insert(x.begin(), x.end());
			setVal(S, s);
			return;
		}
		if (isa<FreezeInst>(I) || isa<BitCastInst>(I) || isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I)) { setVal(&I, valueOf(st, I.getOperand(0))); return; }
		Sym s;
		s.k = Sym::VAL;
		s.v = &I;
		setVal(&I, { s });
	}
	// the two operands are distinct objects
	const BasicBlock* decided(const Instruction* T)
	{
		auto* B = dyn_cast<BranchInst>(T);
		if (!B || !B->isConditional()) return nullptr;
		auto* C = dyn_cast<ICmpInst>(B->getCondition());
		if (!C || !C->isEquality()) return nullptr;
		auto arg = [&](const Value* V) {
			auto& o = O.of(V);
			return o.size() == 1 && o.begin()->kind == O_ARG && !o.begin()->depth && !o.begin()->var && V->getType()->isPointerTy() ? o.begin()->arg : -1;
		};
		int x = arg(C->getOperand(0)), y = arg(C->getOperand(1));
		if (x < 0 || y < 0 || x == y) return nullptr;
		return B->getSuccessor(C->getPredicate() == CmpInst::ICMP_EQ ? 1 : 0);
	}
	static bool join(State& a, const State& b)
	{
		bool ch = false;
		for (auto& c : b) {
			auto it = a.find(c.first);
			if (it == a.end()) {
				Syms s = initial(c.first);
				s.insert(c.second.begin(), c.second.end());
				if (s != initial(c.first) || c.first.first.arg < 0) { a[c.first] = s; ch = true; }
			}
			else {
				size_t n = it->second.size();
				it->second.insert(c.second.begin(), c.second.end());
				ch |= it->second.size() != n;
			}
		}
		for (auto& c : a)
			if (!b.count(c.first))
				for (auto& s : initial(c.first)) ch |= c.second.insert(s).second;
		return ch;
	}
	void solve()
	{
		std::vector<const BasicBlock*> order;
		for (auto* B : ReversePostOrderTraversal<Function*>(&F)) order.push_back(B);
		std::map<const BasicBlock*, State> in;
		std::set<const BasicBlock*> seen{ order[0] };
		in[order[0]] = {};
		bool ch = true;
		for (int n = 0; ch && n < 60; ++n) {
			ch = false;
			State fin;
			bool first = true;
			for (auto* B : order) {
				if (!seen.count(B)) continue;
				State st = in[B];
				for (auto& I : *B) step(I, st, ch);
				auto* T = B->getTerminator();
				if (isa<ReturnInst>(T)) {
					if (first) { fin = st; first = false; }
					else join(fin, st);
				}
				auto* only = decided(T);
				for (auto* S : successors(B)) {
					if (only && S != only) continue;
					if (seen.insert(S).second) { in[S] = st; ch = true; }
					else if (join(in[S], st)) ch = true;
				}
			}
			final = fin;
			any = !first;
		}
	}
	Syms at(int arg, int64_t off)
	{
		Cell c{ Base(), off };
		c.first.arg = arg;
		return get(final, c);
	}
};

int refParam(const Function& F, const char* name)
{
	auto* sp = F.getSubprogram();
	if (!sp) return -1;
	auto ty = sp->getType()->getTypeArray();
	for (unsigned i = 1; i < ty.size(); ++i) {
		const DIType* t = ty[i];
		bool ref = false;
		while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) {
			if (d->getTag() == dwarf::DW_TAG_reference_type) ref = true;
			if (d->getTag() == dwarf::DW_TAG_pointer_type) break;
			t = d->getBaseType();
		}
		auto* c = dyn_cast_or_null<DICompositeType>(t);
		if (ref && c && c->getName().starts_with(name)) return (int)F.arg_size() - (int)(ty.size() - i);
	}
	return -1;
}
}

int runCells(Module& M, const std::vector<std::string>& args, Report& R)
{
	std::string rules = "M05,M07,A04";
	bool prop = true;
	std::string props = "cms"; // propagates on copy assignment, move assignment, swap
	PrepOptions o;
	for (auto& a : args) {
		if (a.rfind("--rules=", 0) == 0) rules = a.substr(8);
		if (a == "--nonprop") props = "";
		if (a.rfind("--prop=", 0) == 0) props = a.substr(7);
		if (a.rfind("--roots=", 0) == 0) o.roots = a.substr(8);
		if (a.rfind("--opaque=", 0) == 0) o.opaque.push_back(a.substr(9));
	}
	o.loops = false;
	auto res = prepare(M, o);
	for (auto& r : res.residual) R.notes.push_back("not inlined: " + r);
	std::map<std::string, std::unique_ptr<Origins>> org;
	// learn the layout
	static const std::map<std::string, const char*> FUN{ { "vf_hash", "KHash<" }, { "vf_equal", "KEq<" }, { "vf_less", "KLess<" } };
	std::map<std::string, std::set<int64_t>> funOff;
	std::set<int64_t> allocOff, owned;
	std::map<int64_t, int64_t> fields; // offset -> width
	auto& DL = M.getDataLayout();
	for (Function* F : res.roots) {
		std::string root = F->getName().str();
		auto& O = org[root] = std::make_unique<Origins>(*F);
		O->solve();
		if (O->overflow) R.notes.push_back("budget exhausted: " + root);
		R.counts["roots"]++;
		bool ctor = root.rfind("vf_k_", 0) == 0, two = root == "vf_swap" || root == "vf_copy_assign" || root == "vf_move_assign" || root == "vf_merge";
		for (auto& B : *F)
			for (auto& I : B) {
				if (auto* CB = dyn_cast<CallBase>(&I)) {
					auto* f = calleeOf(CB);
					if (!f) continue;
					std::string n = f->getName().str();
					if (FUN.count(n)) {
						R.counts["functor_calls"]++;
						if (root.rfind("vf_c_", 0) == 0)
							for (auto& x : O->of(CB->getArgOperand(0)))
								if (x.kind == O_ARG && x.arg == 0 && x.depth == 1 && !x.var && x.pathStr().find('v') == std::string::npos) funOff[n].insert(atoll(x.pathStr().c_str() + 1));
					}
					if (n == "vf_allocate" && !ctor && !two)
						for (auto& x : O->of(CB->getArgOperand(0)))
							if (x.kind == O_ARG && x.arg == 0 && x.depth == 1 && !x.var && x.pathStr().find('v') == std::string::npos) allocOff.insert(atoll(x.pathStr().c_str() + 1));
					if (n == "vf_deallocate" && root == "vf_dtor")
						for (auto& x : O->of(CB->getArgOperand(1)))
							if (x.kind == O_ARG && x.arg == 0 && x.depth == 1 && !x.var && x.off == 0 && x.pathStr().find('v') == std::string::npos) owned.insert(atoll(x.pathStr().c_str() + 1));
				}
				if (auto* L = dyn_cast<LoadInst>(&I))
					if (!ctor)
						for (auto& x : O->of(L->getPointerOperand()))
							if (x.kind == O_ARG && x.arg == 0 && !x.depth && !x.var && x.off >= 0) fields[x.off] = std::max<int64_t>(fields[x.off], DL.getTypeStoreSize(L->getType()).getFixedValue());
			}
	}
	// iterators passed as a0 are no containers: roots with other first arguments are not used for learning fields
	int64_t objSize = 0;
	for (auto& f : fields) objSize = std::max(objSize, f.first + std::max<int64_t>(4, f.second));
	R.counts["fields"] = fields.size();
	std::string lay;
	for (auto& f : fields) lay += " " + std::to_string(f.first) + ":" + std::to_string(f.second);
	std::string fl;
	for (auto& f : funOff) for (auto x : f.second) fl += " " + f.first + "@" + std::to_string(x);
	for (auto x : allocOff) fl += " allocator@" + std::to_string(x);
	for (auto x : owned) fl += " owned@" + std::to_string(x);
	R.notes.push_back("layout:" + lay + " |" + fl);
	R.counts["functors"] = funOff.size();
	R.counts["allocators"] = allocOff.size();
	bool m05 = rules.find("M05") != std::string::npos, m07 = rules.find("M07") != std::string::npos, a04 = rules.find("A04") != std::string::npos;

	for (Function* F : res.roots) {
		std::string root = F->getName().str();
		auto& O = *org[root];
		bool ctor = root.rfind("vf_k_", 0) == 0;
		std::string where;
		if (auto* sp = F->getSubprogram()) where = root;
		// use of functors
		if (m05)
			for (auto& B : *F)
				for (auto& I : B)
					if (auto* CB = dyn_cast<CallBase>(&I)) {
						auto* f = calleeOf(CB);
						if (!f || !FUN.count(f->getName().str())) continue;
						std::string n = f->getName().str();
						int p = refParam(*F, FUN.at(n));
						bool two = root == "vf_copy_assign" || root == "vf_move_assign" || root == "vf_swap" || root == "vf_merge" || root.find("equal") != std::string::npos || root.rfind("vf_k_copy", 0) == 0 || root.rfind("vf_k_move", 0) == 0;
						std::string txt;
						bool imprecise = false, bad = false;
						for (auto& x : O.of(CB->getArgOperand(0))) {
							txt += (txt.size() ? ", " : "") + x.str();
							if (x.var || x.pathStr().find('v') != std::string::npos || x.pathStr().find("..") != std::string::npos) imprecise = true;
						}
						for (auto& x : O.of(CB->getArgOperand(0))) {
							if (x.kind == O_NEW || x.kind == O_STACK) continue;
							if (x.kind == O_ARG && (x.arg == 0 || x.arg == p || (two && x.arg == 1))) continue;
							if (x.kind == O_CALL && ctor && p < 0 && root.rfind("vf_k_copy", 0) && root.rfind("vf_k_move", 0)) continue; // default functor of a default construction
							if (imprecise && x.kind == O_CONST) continue;
							if (imprecise && x.kind == O_CALL) if (auto* cf = calleeOf(cast<CallBase>(x.base))) if (!cf->isDeclaration()) continue; // result of a recursive call that was not inlined
							bad = true;
						}
						if (bad) R.violation(root, "M05", srcLoc(CB), root + " applies a functor (" + n + ") which is not the one of the container: " + txt);
					}
		bool whole = ctor || root == "vf_swap" || root == "vf_copy_assign" || root == "vf_move_assign";
		bool keeps = !whole && root.rfind("vf_c_", 0) && root != "vf_dtor";
		if (!whole && !(keeps && m05)) continue;
		// first parameter: the container
		CellFlow C(*F, O, objSize);
		C.solve();
		if (!C.any) continue;
		R.counts["operations"]++;
		auto init = [](int a, int64_t off) { Sym s; s.k = Sym::INIT; s.arg = a; s.off = off; return s; };
		auto check = [&](const char* rule, const std::string& what, int arg, int64_t off, std::set<Sym> must, std::set<Sym> may) {
			R.counts["field_obligations"]++;
			auto s = C.at(arg, off);
			bool ok = !s.empty();
			for (auto& m : must) ok &= s.count(m) > 0;
			for (auto& x : s) ok &= may.count(x) > 0 || must.count(x) > 0;
			if (!ok) R.violation(root, rule, where, "after " + root + ", " + what + " (offset " + std::to_string(off) + ") of operand " + std::to_string(arg) + " holds: " + symsStr(s));
		};
		auto isAlloc = [&](int64_t off) { return allocOff.count(off) > 0; };
		if (m05)
			for (auto& fo : funOff)
				for (int64_t off : fo.second) {
					std::string what = "the functor used for " + fo.first.substr(3);
					int p = refParam(*F, FUN.at(fo.first));
					if (root == "vf_swap") { check("M05", what, 0, off, { init(1, off) }, {}); check("M05", what, 1, off, { init(0, off) }, {}); }
					else if (root == "vf_copy_assign" || root == "vf_move_assign") check("M05", what, 0, off, { init(1, off) }, {});
					else if (root.rfind("vf_k_copy", 0) == 0 || root.rfind("vf_k_move", 0) == 0) check("M05", what, 0, off, { init(1, off) }, {});
					else if (ctor && p >= 0) check("M05", what, 0, off, { init(p, 0) }, {});
					else if (ctor) {
						auto s = C.at(0, off);
						for (auto& x : s) if (x.k == Sym::INIT) R.violation(root, "M05", where, "after " + root + ", " + what + " is not initialised: " + symsStr(s));
					}
					else check("M05", what, 0, off, { init(0, off) }, {});
				}
		if (a04)
			for (int64_t off : allocOff) {
				std::string what = "the allocator";
				int p = refParam(*F, "BasicAl<");
				prop = props.find(root == "vf_swap" ? 's' : root == "vf_move_assign" ? 'm' : 'c') != std::string::npos;
				if (root == "vf_swap") {
					if (prop) { check("A04", what, 0, off, { init(1, off) }, { init(0, off) }); check("A04", what, 1, off, { init(0, off) }, { init(1, off) }); }
					else { check("A04", what, 0, off, { init(0, off) }, {}); check("A04", what, 1, off, { init(1, off) }, {}); }
				}
				else if (root == "vf_copy_assign" || root == "vf_move_assign") {
					if (prop) check("A04", what, 0, off, { init(1, off) }, { init(0, off) });
					else check("A04", what, 0, off, { init(0, off) }, {});
				}
				else if (ctor && p >= 0) check("A04", what, 0, off, { init(p, 0) }, {});
				else if (root == "vf_k_move") check("A04", what, 0, off, { init(1, off) }, {});
				else if (root == "vf_k_copy") {
					auto s = C.at(0, off);
					R.counts["field_obligations"]++;
					bool ok = s.size() == 1 && s.begin()->str() == "result of vf_select";
					if (!ok) R.violation(root, "A04", where, "after " + root + ", the allocator is not the one selected for copies (select_on_container_copy_construction): " + symsStr(s));
				}
				else if (ctor) { // default allocator
					auto s = C.at(0, off);
					R.counts["field_obligations"]++;
					for (auto& x : s) if (x.k == Sym::INIT) R.violation(root, "A04", where, "after " + root + ", the allocator is not initialised: " + symsStr(s));
				}
			}
		if (a04 && props.find('c') != std::string::npos && root == "vf_copy_assign")
			for (auto& al : C.allocWith)
				for (auto& x : al.second)
					if (x.k == Sym::INIT && x.arg == 0 && allocOff.count(x.off))
						R.violation(root, "A04", srcLoc(al.first), root + " allocates with the old allocator of the destination although the allocator of the source propagates");
		if (a04 && props.find('m') == std::string::npos && root == "vf_move_assign") {
			bool compares = false;
			for (auto& B : *F)
				for (auto& I : B)
					if (auto* X = dyn_cast<ICmpInst>(&I); X && X->isEquality()) {
						std::set<int> from;
						for (auto& op : X->operands())
							for (auto& s : C.valueOf({}, op)) if (s.k == Sym::INIT && allocOff.count(s.off)) from.insert(s.arg);
						compares |= from.size() == 2;
					}
			for (int64_t off : owned) {
				R.counts["field_obligations"]++;
				if (!compares && C.at(0, off).count(init(1, off)))
					R.violation(root, "A04", where, root + " takes over memory of the source without comparing the allocators, which do not propagate (field at offset " + std::to_string(off) + ")");
			}
		}
		if (m07 && (root == "vf_swap" || root == "vf_move_assign" || root == "vf_k_move"))
			for (auto& f : fields)
				for (int64_t k = 0; k < f.second; k += 4) {
					int64_t off = f.first + k;
					if (isAlloc(f.first)) continue;
					check("M07", "field", 0, off, { init(1, off) }, {});
					if (root == "vf_swap") check("M07", "field", 1, off, { init(0, off) }, {});
				}
		// with an allocator that compares equal, the contents are taken over: on no path at all they would have been left behind
		if (m07 && root == "vf_k_move_a")
			for (int64_t off : owned) {
				R.counts["field_obligations"]++;
				auto s = C.at(0, off);
				if (!s.count(init(1, off))) R.violation(root, "M07", where, "after " + root + " the container never owns the memory of the source, whatever the allocators (field at offset " + std::to_string(off) + "): " + symsStr(s));
			}
		if (m07 && root == "vf_k_move")
			for (int64_t off : owned) {
				R.counts["field_obligations"]++;
				auto s = C.at(1, off);
				if (s.count(init(1, off))) R.violation(root, "M07", where, "after " + root + " the source still owns the memory designated by its field at offset " + std::to_string(off));
			}
	}
	return 0;
}
