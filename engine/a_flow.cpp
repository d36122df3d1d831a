// Flow-insensitive effect rules over inlined operations.
//  M02 a const operation writes into the container it is given
#include "flow.h"

namespace {
bool isElFn(const Function* f, const char* what)
{
	std::string b = demBase(f);
	size_t p = b.find("vf::BasicEl<");
	if (p != 0) return false;
	size_t q = b.find(">::");
	if (q == std::string::npos) return false;
	return b.compare(q + 3, std::string::npos, what) == 0;
}
struct Event {
	const Instruction* I;
	std::string kind;     // store, memcpy, memset, atomic, ctor, dtor, assign, alloc, dealloc
	const Value* dst = nullptr;
	const Value* src = nullptr;
};
std::vector<Event> events(Function& F)
{
	std::vector<Event> ev;
	for (auto& B : F)
		for (auto& I : B) {
			if (auto* S = dyn_cast<StoreInst>(&I)) ev.push_back({ &I, "store", S->getPointerOperand(), S->getValueOperand() });
			else if (auto* X = dyn_cast<AtomicRMWInst>(&I)) ev.push_back({ &I, "atomic", X->getPointerOperand(), X->getValOperand() });
			else if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) ev.push_back({ &I, "atomic", X->getPointerOperand(), X->getNewValOperand() });
			else if (auto* M = dyn_cast<MemIntrinsic>(&I)) {
				const Value* src = nullptr;
				if (auto* T = dyn_cast<MemTransferInst>(&I)) src = T->getRawSource();
				ev.push_back({ &I, src ? "memcpy" : "memset", M->getRawDest(), src });
			}
			else if (auto* CB = dyn_cast<CallBase>(&I)) {
				auto* f = calleeOf(CB);
				if (!f) continue;
				StringRef n = f->getName();
				if (n == "memmove" || n == "memcpy") ev.push_back({ &I, "memcpy", CB->getArgOperand(0), CB->getArgOperand(1) });
				else if (n == "memset") ev.push_back({ &I, "memset", CB->getArgOperand(0), nullptr });
				else if (n == "vf_allocate") ev.push_back({ &I, "alloc", nullptr, CB->getArgOperand(0) });
				else if (n == "vf_deallocate") ev.push_back({ &I, "dealloc", CB->getArgOperand(1), CB->getArgOperand(0) });
				else if (isElFn(f, "BasicEl")) ev.push_back({ &I, CB->arg_size() > 1 && CB->getArgOperand(1)->getType()->isPointerTy() ? (f->getName().contains("EOS") ? "movector" : "copyctor") : "ctor", CB->getArgOperand(0), CB->arg_size() > 1 ? CB->getArgOperand(1) : nullptr });
				else if (isElFn(f, "~BasicEl")) ev.push_back({ &I, "dtor", CB->getArgOperand(0), nullptr });
				else if (isElFn(f, "operator=")) ev.push_back({ &I, f->getName().contains("EOS") ? "moveassign" : "copyassign", CB->getArgOperand(0), CB->getArgOperand(1) });
			}
		}
	return ev;
}
}

// index of the parameter of type (const) BasicAl&, -1 when there is none
static int allocParam(const Function& F)
{
	auto* sp = F.getSubprogram();
	if (!sp) return -1;
	auto ty = sp->getType()->getTypeArray();
	for (unsigned i = 1; i < ty.size(); ++i) {
		const DIType* t = ty[i];
		bool ref = false;
		while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) {
			if (d->getTag() == dwarf::DW_TAG_reference_type) ref = true;
			t = d->getBaseType();
		}
		auto* c = dyn_cast_or_null<DICompositeType>(t);
		if (ref && c && c->getName().starts_with("BasicAl<")) return (int)F.arg_size() - (int)(ty.size() - i); // counted from the end: aggregates may be split
	}
	return -1;
}

// which allocator may serve this operation
static void allocatorRule(Function& F, Origins& O, const std::vector<Event>& ev, bool prop, Report& R)
{
	std::string root = F.getName().str();
	int ap = allocParam(F);
	bool ctor = root.rfind("vf_k_", 0) == 0;
	for (auto& e : ev) {
		bool al = e.kind == "alloc";
		if (!al && e.kind != "dealloc") continue;
		R.counts[al ? "allocations" : "deallocations"]++;
		std::set<std::string> roots;
		std::string txt;
		bool imprecise = false; // read through structures whose cells are not told apart: constants are those of other cells
		for (auto& x : O.of(e.src)) imprecise |= x.var || x.pathStr().find('v') != std::string::npos || x.pathStr().find("..") != std::string::npos;
		for (auto& x : O.of(e.src)) {
			if (imprecise && (x.kind == O_CONST || x.kind == O_STACK)) continue;
			if (imprecise && x.kind == O_CALL) if (auto* cf = calleeOf(cast<CallBase>(x.base))) if (!cf->isDeclaration()) continue; // result of a recursive call that was not inlined
			if (x.kind == O_ARG && x.arg && x.depth >= 3 && x.arg != ap && (root.rfind("vf_m_erase", 0) == 0 || root.rfind("vf_m_insert_hint", 0) == 0 || root.rfind("vf_m_emplace_hint", 0) == 0)) continue; // structure of the container, through an iterator into it
			std::string r = x.kind == O_ARG ? "a" + std::to_string(x.arg) : x.kind == O_CONST ? "default" : x.kind == O_CALL ? (x.base && calleeOf(cast<CallBase>(x.base)) && calleeOf(cast<CallBase>(x.base))->getName() == "vf_select" ? "select" : "call")
			  : x.kind == O_NEW ? "new" : x.kind == O_STACK ? "local" : "?";
			roots.insert(r);
			txt += (txt.size() ? ", " : "") + x.str();
		}
		auto only = [&](std::set<std::string> ok) { for (auto& r : roots) if (!ok.count(r)) return false; return true; };
		std::string what = al ? "allocates" : "releases memory";
		std::string bad;
		std::string A = "a" + std::to_string(ap);
		if (ctor) {
			if (ap >= 0) { if (!only({ "a0", A, "new" })) bad = "the allocator it was given"; }
			else if (root == "vf_k_copy") { if (!only({ "a0", "select", "new" })) bad = "the allocator selected for copies (select_on_container_copy_construction)"; }
			else if (root == "vf_k_move") { if (!only({ "a0", "a1", "new" })) bad = "the allocator of the source"; }
		}
		else if (root == "vf_copy_assign") {
			if (prop) { if (al && roots.count("default")) bad = "the allocator of the source, which propagates"; }
			else if (al && (!roots.count("a0") || roots.count("default"))) bad = "its own allocator";
		}
		else if (root == "vf_move_assign" || root == "vf_swap" || root == "vf_merge") {
			if (al && !prop && root != "vf_merge" && (!roots.count("a0") && !roots.count("a1"))) bad = "the allocator of one of the operands";
			if (roots.count("default") || roots.count("select")) bad = "the allocator of one of the operands";
		}
		else if (!only({ "a0", "new" })) bad = "the allocator of the container";
		if (bad.size()) R.violation(root, "A02", srcLoc(e.I), root + " " + what + " with an allocator which is not " + bad + ": " + txt);
	}
}

// arguments through which functions that were not inlined (recursion) write: argument -> write sites; deep: behind a pointer found in it
struct Written {
	std::map<const Function*, std::unique_ptr<Origins>> org;
	std::map<const Function*, std::set<std::pair<int, bool>>> w;
	std::map<const Function*, std::map<std::pair<int, bool>, const Instruction*>> site;
	static bool residual(const CallBase* CB, const Function*& f)
	{
		f = calleeOf(CB);
		return f && !f->isDeclaration() && demBase(f).rfind("vf::", 0) != 0;
	}
	void collect(const Function* F)
	{
		if (org.count(F)) return;
		auto& O = org[F] = std::make_unique<Origins>(*const_cast<Function*>(F));
		O->solve();
		for (auto& B : *F)
			for (auto& I : B)
				if (auto* CB = dyn_cast<CallBase>(&I)) { const Function* g; if (residual(CB, g)) collect(g); }
		for (auto& e : events(*const_cast<Function*>(F))) {
			if (!e.dst) continue;
			if (auto* S = dyn_cast<StoreInst>(e.I)) if (S->isAtomic()) continue;
			for (auto& x : O->of(e.dst)) add(F, x, e.I);
		}
	}
	bool add(const Function* F, const Org& x, const Instruction* I)
	{
		if (x.kind != O_ARG) return false;
		std::pair<int, bool> k{ x.arg, x.depth > 0 };
		site[F].insert({ k, I });
		return w[F].insert(k).second;
	}
	void close()
	{
		for (bool ch = true; ch;) {
			ch = false;
			for (auto& p : org)
				for (auto& B : *p.first)
					for (auto& I : B)
						if (auto* CB = dyn_cast<CallBase>(&I)) {
							const Function* g;
							if (!residual(CB, g)) continue;
							auto ws = w[g];
							for (auto& k : ws)
								if (k.first < (int)CB->arg_size())
									for (auto x : p.second->of(CB->getArgOperand(k.first))) { if (k.second) x.depth++; ch |= add(p.first, x, site[g][k]); }
						}
		}
	}
};

// R01: elements that are not relocatable are never copied in bulk. The harness gives them a size no other structure has a multiple of.
struct BulkCopy {
	uint64_t es;
	const DataLayout& DL;
	bool scaled(const Value* v, int depth = 0) const
	{
		if (depth > 8) return false;
		if (auto* c = dyn_cast<ConstantInt>(v)) return c->getBitWidth() <= 64 && c->getSExtValue() && std::abs(c->getSExtValue()) % (int64_t)es == 0;
		if (auto* b = dyn_cast<BinaryOperator>(v)) {
			if (b->getOpcode() == Instruction::Mul) return scaled(b->getOperand(0), depth + 1) || scaled(b->getOperand(1), depth + 1) || twice(b, depth);
			if (b->getOpcode() == Instruction::Shl) return scaled(b->getOperand(0), depth + 1) || shl(b, depth);
			if (b->getOpcode() == Instruction::Add || b->getOpcode() == Instruction::Sub || b->getOpcode() == Instruction::Or) return scaled(b->getOperand(0), depth + 1) || scaled(b->getOperand(1), depth + 1);
			return false;
		}
		if (isa<CastInst>(v)) return scaled(cast<CastInst>(v)->getOperand(0), depth + 1);
		if (auto* p = dyn_cast<PHINode>(v)) { if (p->getNumIncomingValues() > 4) return false; for (auto& u : p->incoming_values()) if (scaled(u, depth + 3)) return true; return false; }
		if (auto* s = dyn_cast<SelectInst>(v)) return scaled(s->getTrueValue(), depth + 1) || scaled(s->getFalseValue(), depth + 1);
		return false;
	}
	// (x * 17) * 8
	bool twice(const BinaryOperator* b, int) const
	{
		auto* c = dyn_cast<ConstantInt>(b->getOperand(1));
		auto* i = dyn_cast<BinaryOperator>(b->getOperand(0));
		if (!c || !i || i->getOpcode() != Instruction::Mul) return false;
		auto* d = dyn_cast<ConstantInt>(i->getOperand(1));
		return d && (c->getZExtValue() * d->getZExtValue()) % es == 0;
	}
	bool shl(const BinaryOperator* b, int) const
	{
		auto* c = dyn_cast<ConstantInt>(b->getOperand(1));
		auto* i = dyn_cast<BinaryOperator>(b->getOperand(0));
		if (!c || !i || i->getOpcode() != Instruction::Mul) return false;
		auto* d = dyn_cast<ConstantInt>(i->getOperand(1));
		return d && ((d->getZExtValue() << c->getZExtValue()) % es) == 0;
	}
	// the pointer walks over elements
	bool element(const Value* v, std::set<const Value*>& seen) const
	{
		if (!seen.insert(v).second || seen.size() > 64) return false;
		if (auto* g = dyn_cast<GEPOperator>(v)) {
			if (auto* st = dyn_cast<StructType>(g->getSourceElementType())) if (g->getNumIndices() == 1 && DL.getTypeAllocSize(st) % es == 0) return true;
			if (g->getNumIndices() == 1 && g->getSourceElementType()->isIntegerTy(8) && scaled(g->getOperand(1))) return true;
			return element(g->getPointerOperand(), seen);
		}
		if (auto* p = dyn_cast<PHINode>(v)) { for (auto& u : p->incoming_values()) if (element(u, seen)) return true; return false; }
		if (auto* s = dyn_cast<SelectInst>(v)) return element(s->getTrueValue(), seen) || element(s->getFalseValue(), seen);
		if (auto* c = dyn_cast<CastInst>(v)) return element(c->getOperand(0), seen);
		return false;
	}
};
static void bulkRule(Function& F, uint64_t es, bool dbg, Report& R)
{
	std::string root = F.getName().str();
	BulkCopy K{ es, F.getParent()->getDataLayout() };
	for (auto& B : F)
		for (auto& I : B) {
			const Value *d = nullptr, *s = nullptr, *n = nullptr;
			if (auto* T = dyn_cast<MemTransferInst>(&I)) { d = T->getRawDest(); s = T->getRawSource(); n = T->getLength(); }
			else if (auto* CB = dyn_cast<CallBase>(&I)) {
				if (auto* cf = calleeOf(CB)) if (isElFn(cf, "BasicEl") || isElFn(cf, "operator=") || isElFn(cf, "~BasicEl")) R.counts["element_operations"]++;
				auto* f = calleeOf(CB);
				if (!f || !(f->getName() == "memmove" || f->getName() == "memcpy" || f->getName() == "realloc" || f->getName() == "mempcpy" || f->getName() == "bcopy")) continue;
				d = CB->getArgOperand(0); s = CB->getArgOperand(CB->arg_size() > 2 ? 1 : 0); n = CB->getArgOperand(CB->arg_size() - 1);
			}
			else continue;
			R.counts["bulk_copies"]++;
			std::set<const Value*> s1, s2;
			if (dbg) errs() << root << " bulk " << srcLocShort(&I) << " len " << *n << "\n";
			std::string why = K.scaled(n) ? "its length is a number of elements" : K.element(d, s1) ? "its destination is an element" : K.element(s, s2) ? "its source is an element" : "";
			if (why.size()) R.violation(root, "R01", srcLoc(&I), "elements which are not relocatable are copied bitwise: " + why);
		}
}

// M03: operations which leave the elements of the container where they are. what: 1 no element is moved within (node based containers), 2 no element operation at all
static void stableRule(Function& F, Origins& O, const std::vector<Event>& ev, bool nodes, Report& R)
{
	std::string root = F.getName().str();
	bool whole = root == "vf_swap" || root == "vf_k_move";
	static const char* except[] = { "vf_shrink", "vf_sort", "vf_assign", "vf_m_assign", "vf_copy_assign", "vf_move_assign", "vf_k_", "vf_dtor", "vf_m_insert_or_assign" };
	bool stable = nodes;
	for (auto* x : except) stable &= root.rfind(x, 0) != 0;
	if (whole) R.counts["whole_container_operations"]++;
	if (stable) R.counts["stable_operations"]++;
	for (auto& e : ev) {
		bool mv = e.kind == "moveassign" || e.kind == "copyassign" || e.kind == "movector";
		bool any = mv || e.kind == "copyctor" || e.kind == "ctor" || e.kind == "dtor";
		if (any) R.counts["element_operations"]++;
		if (whole && any && e.kind != "dtor") { R.violation(root, "M03", srcLoc(e.I), root + " moves elements one by one (" + e.kind + "): references and iterators do not follow"); continue; }
		if (whole && e.kind == "alloc" && root == "vf_swap") { R.violation(root, "M03", srcLoc(e.I), root + " allocates"); continue; }
		if (!stable || !mv) continue;
		R.counts["moves_examined"]++;
		const Value* v = e.kind == "movector" ? e.src : e.dst;
		for (auto& x : O.of(v))
			if (x.kind == O_ARG && x.depth >= 1) {
				R.violation(root, "M03", srcLoc(e.I), "an element of the container is " + std::string(e.kind == "movector" ? "moved elsewhere" : "overwritten by another") + " (" + e.kind + ", " + x.str() + "): references and iterators to it do not stay valid");
				break;
			}
	}
}

int runFlow(Module& M, const std::vector<std::string>& args, Report& R)
{
	std::string rules = "M02";
	bool prop = true, nodes = false;
	uint64_t elsize = 136;
	PrepOptions o;
	for (auto& a : args) {
		if (a.rfind("--rules=", 0) == 0) rules = a.substr(8);
		if (a == "--nonprop") prop = false;
		if (a == "--nodes") nodes = true;
		if (a.rfind("--elsize=", 0) == 0) elsize = std::stoul(a.substr(9));
		if (a.rfind("--roots=", 0) == 0) o.roots = a.substr(8);
		if (a.rfind("--opaque=", 0) == 0) o.opaque.push_back(a.substr(9));
	}
	o.loops = false;
	auto res = prepare(M, o);
	for (auto& r : res.residual) R.notes.push_back("not inlined: " + r);
	R.counts["residual_calls"] += res.residual.size();
	bool dbg = getenv("VF_DBG");
	Written W;
	if (rules.find("M02") != std::string::npos) {
		for (Function* F : res.roots)
			for (auto& B : *F)
				for (auto& I : B)
					if (auto* CB = dyn_cast<CallBase>(&I)) { const Function* g; if (Written::residual(CB, g)) W.collect(g); }
		W.close();
		R.counts["functions_not_inlined"] += W.org.size();
	}
	if (rules == "R01") {
		for (Function* F : res.roots) { R.counts["roots"]++; bulkRule(*F, elsize, dbg, R); }
		for (auto& F : M) if (!F.isDeclaration() && demBase(&F).rfind("vf::", 0) != 0 && std::find(res.roots.begin(), res.roots.end(), &F) == res.roots.end()) { R.counts["functions_not_inlined"]++; bulkRule(F, elsize, dbg, R); }
		return 0;
	}
	for (Function* F : res.roots) {
		std::string root = F->getName().str();
		Origins O(*F);
		O.solve();
		if (getenv("VF_TIME")) errs() << root << " insts " << F->getInstructionCount() << " steps " << O.rounds << "\n";
		if (O.overflow) R.notes.push_back("budget exhausted: " + root);
		R.counts["roots"]++;
		auto ev = events(*F);
		R.counts["effects"] += ev.size();
		if (dbg)
			for (auto& e : ev) {
				errs() << root << " " << e.kind << " " << srcLocShort(e.I) << " dst=";
				if (e.dst) for (auto& x : O.of(e.dst)) errs() << x.str() << ",";
				errs() << " src=";
				if (e.src) for (auto& x : O.of(e.src)) errs() << x.str() << ",";
				errs() << "\n";
			}
		if (rules.find("M03") != std::string::npos) stableRule(*F, O, ev, nodes, R);
		if (rules.find("A02") != std::string::npos) allocatorRule(*F, O, ev, prop, R);
		if (rules.find("M02") != std::string::npos) {
			for (auto& B : *F)
				for (auto& I : B)
					if (auto* CB = dyn_cast<CallBase>(&I)) {
						const Function* g;
						if (!Written::residual(CB, g)) continue;
						R.counts["writes"] += W.w[g].size();
						for (auto& k : W.w[g])
							if (k.first < (int)CB->arg_size())
								for (auto& x : O.of(CB->getArgOperand(k.first)))
									if ((x.kind == O_ARG && (x.arg == 0 || (x.arg == 1 && root == "vf_c_equal"))) || (k.second && x.kind == O_STACK))
										R.violation(root, "M02", srcLoc(W.site[g][k]), "a const operation writes into the container it is applied to, in " + demBase(g) + " called with " + x.str());
					}
			for (auto& e : ev) {
				if (!e.dst) continue;
				R.counts["writes"]++;
				if (auto* S = dyn_cast<StoreInst>(e.I)) if (S->isAtomic()) continue; // caches: atomic
				for (auto& x : O.of(e.dst))
					if (x.kind == O_ARG && (x.arg == 0 || (x.arg == 1 && root == "vf_c_equal")))
						R.violation(root, "M02", srcLoc(e.I), "a const operation writes (" + e.kind + ") into the container it is applied to, at " + x.str());
					else if (x.kind == O_GLOB && e.kind != "atomic") {
						auto* g = dyn_cast_or_null<GlobalVariable>(x.base);
						if (g && g->isThreadLocal()) continue;
						if (g && (g->getName().starts_with("_ZGV") || g->getName().starts_with("llvm."))) continue;
						bool guarded = false; // dynamic initialisation of a local static, under its guard
						for (auto& B : *F) for (auto& J : B) if (auto* CB = dyn_cast<CallBase>(&J)) if (auto* f = calleeOf(CB)) guarded |= f->getName() == "__cxa_guard_acquire";
						if (guarded) continue;
						R.violation(root, "M02", srcLoc(e.I), "a const operation writes (" + e.kind + ") into static storage, at " + x.str());
					}
			}
		}
	}
	return 0;
}
