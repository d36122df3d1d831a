// Interprocedural exception and allocation effects over the call graph (no inlining).
//  E01 an exception of user code or an allocation is stopped by std::terminate (noexcept function)
//  E02 an exception handler can complete without rethrowing: the exception is swallowed
//  A01 memory is obtained from or returned to something else than the container's allocator
#include "common.h"

namespace {
struct Why {
	const CallBase* at = nullptr; // call site in this function
	const Function* next = nullptr;
};
struct Calls {
	Module& M;
	Report& R;
	std::map<const Function*, Why> throws;
	std::set<const Function*> reach; // from the roots
	std::vector<const Function*> roots;
	std::map<const Function*, std::vector<const CallBase*>> callers;
	std::map<const Function*, std::pair<const Function*, const CallBase*>> parent;
	Calls(Module& m, Report& r) : M(m), R(r) {}

	static bool inSeq(const Function* F)
	{
		auto* sp = F->getSubprogram();
		return sp && sp->getFilename().contains("seq/");
	}
	static std::string fileOf(const Function* F)
	{
		auto* sp = F->getSubprogram();
		return sp ? sp->getFilename().str() : "";
	}
	static const Function* callee(const CallBase* CB)
	{
		return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
	}
	static bool isTerminateFn(StringRef n) { return n == "__clang_call_terminate" || n == "_ZSt9terminatev"; }

	// does an exception landing at LP leave the function
	bool escapesFrom(const BasicBlock* BB, std::set<const BasicBlock*>* term = nullptr)
	{
		std::vector<const BasicBlock*> w{ BB };
		std::set<const BasicBlock*> seen;
		bool esc = false;
		while (!w.empty()) {
			auto* B = w.back();
			w.pop_back();
			if (!seen.insert(B).second) continue;
			bool stop = false;
			for (auto& I : *B) {
				if (isa<ResumeInst>(I)) esc = true;
				if (auto* CB = dyn_cast<CallBase>(&I))
					if (auto* F = callee(CB)) {
						StringRef n = F->getName();
						if (isTerminateFn(n)) { if (term) term->insert(B); stop = true; break; }
						if (n == "__cxa_rethrow" || n == "__cxa_throw") {
							if (!isa<InvokeInst>(CB)) esc = true;
						}
					}
			}
			if (stop) continue;
			for (auto* S : successors(B)) w.push_back(S);
		}
		return esc;
	}
	// does the landing pad lead straight to terminate (no handler in between)
	const CallBase* terminates(const BasicBlock* LP)
	{
		const BasicBlock* B = LP;
		for (int n = 0; n < 8 && B; ++n) {
			for (auto& I : *B)
				if (auto* CB = dyn_cast<CallBase>(&I))
					if (auto* F = callee(CB)) {
						if (isTerminateFn(F->getName())) return CB;
						if (!F->isIntrinsic()) return nullptr;
					}
			B = B->getSingleSuccessor();
		}
		return nullptr;
	}
	bool siteThrows(const CallBase* CB)
	{
		if (CB->doesNotThrow()) return false;
		auto* F = callee(CB);
		if (!F) return false; // indirect: not user code of this harness
		if (F->isIntrinsic()) return false;
		return throws.count(F);
	}
	void seed()
	{
		for (auto& F : M) {
			if (!F.isDeclaration() || F.isIntrinsic() || F.doesNotThrow()) continue;
			std::string d = demName(F.getName());
			StringRef n = F.getName();
			bool user = d.find("vf::") != std::string::npos || n.starts_with("vf_");
			bool lib = n.starts_with("_Znw") || n.starts_with("_Zna") || n.starts_with("_ZSt") || n == "__cxa_throw" || n == "__cxa_rethrow" || n.starts_with("_ZNSt");
			if (n.starts_with("__cxa") || n.starts_with("_ZSt9terminate") || n.starts_with("__clang")) lib = n == "__cxa_throw";
			if (n.starts_with("_ZSt20__throw_system_error")) continue;
			if (user || lib) throws[&F] = {};
		}
	}
	void solve()
	{
		seed();
		bool ch = true;
		while (ch) {
			ch = false;
			for (auto& F : M) {
				if (F.isDeclaration() || throws.count(&F) || F.doesNotThrow()) continue;
				for (auto& B : F) {
					for (auto& I : B) {
						auto* CB = dyn_cast<CallBase>(&I);
						if (!CB || !siteThrows(CB)) continue;
						bool esc = true;
						if (auto* II = dyn_cast<InvokeInst>(CB)) {
							if (callee(CB)->getName() == "__cxa_rethrow") continue; // its handler decides
							esc = escapesFrom(II->getUnwindDest());
						}
						if (esc) { throws[&F] = { CB, callee(CB) }; ch = true; break; }
					}
					if (throws.count(&F)) break;
				}
			}
		}
	}
	std::string chain(const Function* F)
	{
		std::string s;
		std::set<const Function*> seen;
		while (F && seen.insert(F).second) {
			if (s.size()) s += " -> ";
			s += shortFn(F);
			auto it = throws.find(F);
			if (it == throws.end() || !it->second.next) break;
			F = it->second.next;
		}
		return s;
	}
	static std::string shortFn(const Function* F)
	{
		if (auto* sp = F->getSubprogram()) {
			std::string s = sp->getName().str();
			// class name
			if (auto* sc = sp->getScope())
				if (auto* ty = dyn_cast<DICompositeType>(sc)) {
					std::string c = ty->getName().str();
					size_t p = c.find('<');
					s = c.substr(0, p) + "::" + s.substr(0, s.find('<') == 0 ? std::string::npos : s.find('<'));
				}
			return s;
		}
		std::string d = demBase(F);
		std::string o;
		int depth = 0;
		for (char c : d) {
			if (c == '<') depth++;
			else if (c == '>') depth--;
			else if (!depth) o += c;
		}
		return o.size() ? o : d;
	}
	void reachable(const std::regex& re)
	{
		std::vector<const Function*> w;
		for (auto& F : M)
			if (!F.isDeclaration() && std::regex_search(F.getName().str(), re)) {
				roots.push_back(&F);
				reach.insert(&F);
				w.push_back(&F);
				R.counts["roots"]++;
			}
		while (!w.empty()) {
			auto* F = w.back();
			w.pop_back();
			for (auto& B : *F)
				for (auto& I : B) {
					for (auto& op : I.operands())
						if (auto* G = dyn_cast<Function>(op->stripPointerCasts())) {
							auto* CB = dyn_cast<CallBase>(&I);
							if (reach.insert(G).second) {
								parent[G] = { F, CB };
								if (!G->isDeclaration()) w.push_back(G);
							}
						}
				}
		}
	}
	std::string via(const Function* F)
	{
		std::string s = shortFn(F);
		for (int n = 0; n < 12; ++n) {
			auto it = parent.find(F);
			if (it == parent.end()) break;
			F = it->second.first;
			s = shortFn(F) + " -> " + s;
		}
		return s;
	}

	void e01()
	{
		for (auto& F : M) {
			if (F.isDeclaration() || !reach.count(&F)) continue;
			for (auto& B : F)
				for (auto& I : B) {
					auto* II = dyn_cast<InvokeInst>(&I);
					if (!II) continue;
					R.counts["invoke_sites"]++;
					if (!siteThrows(II)) continue;
					R.counts["throwing_sites"]++;
					if (!terminates(II->getUnwindDest())) continue;
					R.violation(shortFn(&F), "E01", srcLoc(II),
						"an exception thrown by " + chain(callee(II)) + " is stopped by std::terminate in " + shortFn(&F));
				}
		}
	}
	void e02()
	{
		for (auto& F : M) {
			if (F.isDeclaration() || !reach.count(&F)) continue;
			if (!inSeq(&F)) continue;
			for (auto& B : F)
				for (auto& I : B) {
					auto* CB = dyn_cast<CallBase>(&I);
					if (!CB || !callee(CB) || callee(CB)->getName() != "__cxa_begin_catch") continue;
					R.counts["handlers"]++;
					// an exception can arrive here at all
					std::vector<const BasicBlock*> w{ &B };
					std::set<const BasicBlock*> seen;
					const Instruction* ret = nullptr;
					while (!w.empty()) {
						auto* X = w.back();
						w.pop_back();
						if (!seen.insert(X).second) continue;
						bool stop = false;
						for (auto& J : *X) {
							if (X == &B && &J == &I) continue;
							if (auto* C2 = dyn_cast<CallBase>(&J))
								if (auto* G = callee(C2)) {
									StringRef n = G->getName();
									if (n == "__cxa_rethrow" || n == "__cxa_throw" || isTerminateFn(n)) { stop = true; break; }
								}
							if (isa<ReturnInst>(J)) ret = &J;
						}
						if (stop) continue;
						auto* T = X->getTerminator();
						if (auto* II = dyn_cast<InvokeInst>(T)) w.push_back(II->getNormalDest());
						else for (auto* S : successors(X)) w.push_back(S);
					}
					if (ret)
						R.violation(shortFn(&F), "E02", srcLoc(&I), "exception handler of " + shortFn(&F) + " completes without rethrowing: the exception is swallowed");
				}
		}
	}
	// the pointer designates (part of) an automatic object of this function or, for a parameter, of every caller
	bool localObject(const Value* v, int depth)
	{
		v = v->stripInBoundsOffsets();
		if (isa<AllocaInst>(v) || isa<ConstantPointerNull>(v)) return true;
		if (depth > 5) return false;
		if (auto* L = dyn_cast<LoadInst>(v)) {
			auto* A = dyn_cast<AllocaInst>(L->getPointerOperand());
			if (!A) return false;
			const StoreInst* only = nullptr;
			for (auto* U : A->users())
				if (auto* S = dyn_cast<StoreInst>(U)) {
					if (S->getPointerOperand() != A || only) return false;
					only = S;
				}
			if (!only) return false;
			v = only->getValueOperand()->stripInBoundsOffsets();
			if (isa<AllocaInst>(v)) return true;
			if (isa<LoadInst>(v)) return localObject(v, depth + 1);
		}
		auto* P = dyn_cast<Argument>(v);
		if (!P) return false;
		const Function* F = P->getParent();
		if (std::find(roots.begin(), roots.end(), F) != roots.end()) return false;
		auto& cs = callers[F];
		if (cs.empty()) return false;
		for (auto* C : cs)
			if (P->getArgNo() >= C->arg_size() || !localObject(C->getArgOperand(P->getArgNo()), depth + 1)) return false;
		return true;
	}
	// a call on behalf of an object that does not outlive the calling function, or of a standard algorithm's scratch buffer
	bool scratch(const CallBase* CB, const Function* G)
	{
		auto* sp = G->getSubprogram();
		if (!sp) return false;
		bool cls = isa_and_nonnull<DICompositeType>(sp->getScope());
		bool stdns = false;
		for (const DIScope* sc = sp->getScope(); sc; sc = sc->getScope())
			if (auto* ns = dyn_cast<DINamespace>(sc)) stdns |= ns->getName() == "std";
		if (!stdns) return false;
		if (cls) {
			if (CB->arg_empty()) return false;
			return localObject(CB->getArgOperand(CB->hasStructRetAttr() && CB->arg_size() > 1 ? 1 : 0), 0);
		}
		static const std::regex alg("^(inplace_merge|stable_sort|stable_partition|get_temporary_buffer|return_temporary_buffer|sort|merge)(<|$)");
		return std::regex_search(sp->getName().str(), alg);
	}
	void a01()
	{
		static const std::regex mem("^(_Znw|_Zna|_Zdl|_Zda|malloc$|calloc$|realloc$|free$|aligned_alloc$|posix_memalign$|_mm_malloc$|_mm_free$|memalign$|valloc$)");
		std::set<const Function*> seen;
		for (auto* F : reach)
			for (auto& B : *F)
				for (auto& I : B)
					if (auto* CB = dyn_cast<CallBase>(&I))
						if (auto* G = callee(CB)) callers[G].push_back(CB);
		std::vector<const Function*> w;
		for (auto* F : roots) { seen.insert(F); w.push_back(F); parent.erase(F); }
		while (!w.empty()) {
			auto* F = w.back();
			w.pop_back();
			for (auto& B : *F)
				for (auto& I : B) {
					auto* CB = dyn_cast<CallBase>(&I);
					for (auto& op : I.operands()) {
						auto* G = dyn_cast<Function>(op->stripPointerCasts());
						if (!G) continue;
						bool call = CB && CB->isCallee(&op);
						if (call && scratch(CB, G)) { R.counts["scratch_sites"]++; continue; }
						if (call && (G->getName() == "vf_allocate" || G->getName() == "vf_deallocate")) R.counts["allocator_call_sites"]++;
						if (std::regex_search(G->getName().str(), mem)) {
							if (call && isa<AllocaInst>(CB->getArgOperand(0)->stripInBoundsOffsets())) continue;
							R.violation(shortFn(F), "A01", srcLoc(&I), "memory obtained or released through " + demName(G->getName()) + " instead of the container's allocator (" + via(F) + ")");
							continue;
						}
						if (G->isDeclaration() || !seen.insert(G).second) continue;
						parent[G] = { F, CB };
						w.push_back(G);
					}
				}
		}
		R.counts["functions_allocation"] += seen.size();
	}
};
}

int runCalls(Module& M, const std::vector<std::string>& args, Report& R)
{
	std::string roots = "^vf_", rules = "E01,E02,A01";
	for (auto& a : args) {
		if (a.rfind("--roots=", 0) == 0) roots = a.substr(8);
		if (a.rfind("--rules=", 0) == 0) rules = a.substr(8);
	}
	Calls C(M, R);
	C.solve();
	C.reachable(std::regex(roots));
	for (auto* F : C.reach)
		if (!F->isDeclaration()) R.counts["functions"]++;
	if (rules.find("E01") != std::string::npos) C.e01();
	if (rules.find("E02") != std::string::npos) C.e02();
	if (rules.find("A01") != std::string::npos) C.a01();
	return 0;
}
