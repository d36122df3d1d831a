#include "common.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Support/FormatVariadic.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/GVN.h"
#include "llvm/Transforms/Scalar/IndVarSimplify.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/CorrelatedValuePropagation.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Scalar/LowerExpectIntrinsic.h"

std::string demName(StringRef mangled)
{
	static std::map<std::string, std::string> memo;
	auto it = memo.find(mangled.str());
	if (it != memo.end())
		return it->second;
	std::string d = llvm::demangle(mangled.str());
	memo[mangled.str()] = d;
	return d;
}

std::string demBase(const Function* F)
{
	std::string d = demName(F->getName());
	// cut the argument list: the last '(' at template depth 0 which is not part of "operator()"
	int depth = 0, par = 0;
	size_t cut = std::string::npos;
	for (size_t i = 0; i < d.size(); ++i) {
		char c = d[i];
		if (d.compare(i, 10, "operator()") == 0) { i += 9; continue; }
		if (d.compare(i, 10, "operator<<") == 0 || d.compare(i, 10, "operator>>") == 0) { i += 9; continue; }
		if (d.compare(i, 9, "operator<") == 0 || d.compare(i, 9, "operator>") == 0) { i += 8; continue; }
		if (d.compare(i, 10, "operator->") == 0) { i += 9; continue; }
		if (c == '<') depth++;
		else if (c == '>' && (i == 0 || d[i - 1] != '-')) depth--;
		else if (c == '(') { if (depth == 0 && par == 0) cut = i; par++; }
		else if (c == ')') par--;
	}
	if (cut != std::string::npos)
		d = d.substr(0, cut);
	return d;
}

static std::string shortFile(StringRef f)
{
	std::string s = f.str();
	size_t p = s.find("/seq/");
	if (p != std::string::npos)
		return s.substr(p + 1);
	p = s.rfind('/');
	return p == std::string::npos ? s : s.substr(p + 1);
}

std::string srcLoc(const Instruction* I)
{
	const DILocation* L = I ? I->getDebugLoc().get() : nullptr;
	if (!L) {
		// nearest located instruction in the block
		if (I)
			for (const Instruction* J = I->getPrevNode(); J && !L; J = J->getPrevNode())
				L = J->getDebugLoc().get();
		if (I && !L)
			for (const Instruction* J = I->getNextNode(); J && !L; J = J->getNextNode())
				L = J->getDebugLoc().get();
	}
	if (!L)
		return "?";
	std::string out;
	int n = 0;
	for (; L && n < 8; L = L->getInlinedAt()) {
		std::string f = shortFile(L->getFilename());
		if (f.compare(0, 4, "seq/") != 0 && L->getInlinedAt())
			continue; // skip libstdc++ frames
		std::string fn;
		if (auto* sp = L->getScope()->getSubprogram())
			fn = sp->getName().str();
		if (n)
			out += " <- ";
		out += f + ":" + std::to_string(L->getLine()) + " (" + fn + ")";
		++n;
	}
	return out;
}
std::string srcLocShort(const Instruction* I)
{
	std::string s = srcLoc(I);
	size_t p = s.find(" <- ");
	return p == std::string::npos ? s : s.substr(0, p);
}
std::string valStr(const Value* V)
{
	std::string s;
	raw_string_ostream os(s);
	V->print(os);
	return os.str();
}

static bool matchAny(const std::vector<std::regex>& rs, const std::string& s)
{
	for (auto& r : rs)
		if (std::regex_search(s, r))
			return true;
	return false;
}

// std::atomic<T*> is accessed as i64 by the front end: give pointers their type back
static bool flowsToPtr(Value* V)
{
	std::vector<Value*> w{ V };
	std::set<Value*> seen;
	while (!w.empty()) {
		Value* X = w.back();
		w.pop_back();
		if (!seen.insert(X).second) continue;
		for (User* U : X->users()) {
			if (isa<IntToPtrInst>(U)) return true;
			if (isa<PHINode>(U) || isa<SelectInst>(U)) w.push_back(U);
		}
	}
	return false;
}
// phi/select of integers which are pointers cast to integers, cast back to pointers
static void pointerPhis(Function& F)
{
	Type* PT = PointerType::getUnqual(F.getContext());
	bool again = true;
	for (int round = 0; again && round < 8; ++round) {
		again = false;
		for (BasicBlock& BB : F)
			for (Instruction& I : make_early_inc_range(BB)) {
				auto asPtr = [&](Value* V) -> Value* {
					if (auto* C = dyn_cast<PtrToIntInst>(V)) return C->getPointerOperand();
					if (auto* K = dyn_cast<ConstantInt>(V)) if (K->isZero()) return ConstantPointerNull::get(cast<PointerType>(PT));
					return nullptr;
				};
				if (!I.getType()->isIntegerTy(64)) continue;
				if (auto* P = dyn_cast<PHINode>(&I)) {
					if (!flowsToPtr(P)) continue;
					bool ok = true;
					for (auto& in : P->incoming_values()) if (in.get() != P && !asPtr(in)) ok = false;
					if (!ok) continue;
					PHINode* N = PHINode::Create(PT, P->getNumIncomingValues(), "", P);
					for (unsigned k = 0; k < P->getNumIncomingValues(); ++k)
						N->addIncoming(P->getIncomingValue(k) == P ? N : asPtr(P->getIncomingValue(k)), P->getIncomingBlock(k));
					IRBuilder<> B(&*BB.getFirstInsertionPt());
					Value* X = B.CreatePtrToInt(N, P->getType());
					P->replaceAllUsesWith(X);
					P->eraseFromParent();
					again = true;
				}
				else if (auto* S = dyn_cast<SelectInst>(&I)) {
					if (!flowsToPtr(S)) continue;
					Value *a = asPtr(S->getTrueValue()), *b = asPtr(S->getFalseValue());
					if (!a || !b) continue;
					IRBuilder<> B(S);
					Value* X = B.CreatePtrToInt(B.CreateSelect(S->getCondition(), a, b), S->getType());
					S->replaceAllUsesWith(X);
					S->eraseFromParent();
					again = true;
				}
			}
	}
	for (BasicBlock& BB : F)
		for (Instruction& I : make_early_inc_range(BB))
			if (auto* C = dyn_cast<IntToPtrInst>(&I))
				if (auto* P = dyn_cast<PtrToIntInst>(C->getOperand(0)))
					if (P->getPointerOperand()->getType() == C->getType()) { C->replaceAllUsesWith(P->getPointerOperand()); C->eraseFromParent(); }
}

static void atomicPointers(Function& F)
{
	Type* PT = PointerType::getUnqual(F.getContext());
	for (BasicBlock& BB : F)
		for (Instruction& I : make_early_inc_range(BB)) {
			if (auto* L = dyn_cast<LoadInst>(&I)) {
				if (!L->getType()->isIntegerTy(64)) continue;
				if (!flowsToPtr(L)) continue;
				IRBuilder<> B(L);
				LoadInst* N = B.CreateLoad(PT, L->getPointerOperand());
				N->setAlignment(L->getAlign());
				N->setAtomic(L->getOrdering(), L->getSyncScopeID());
				N->setVolatile(L->isVolatile());
				N->setDebugLoc(L->getDebugLoc());
				Value* X = B.CreatePtrToInt(N, L->getType());
				for (User* U : make_early_inc_range(L->users()))
					if (auto* C = dyn_cast<IntToPtrInst>(U)) C->replaceAllUsesWith(N);
				L->replaceAllUsesWith(X);
				L->eraseFromParent();
			}
			else if (auto* S = dyn_cast<StoreInst>(&I)) {
				if (auto* C = dyn_cast<PtrToIntInst>(S->getValueOperand())) {
					if (!C->getType()->isIntegerTy(64)) continue;
					S->setOperand(0, C->getPointerOperand());
				}
			}
		}
	pointerPhis(F);
}

static void runFPM(Function& F, FunctionAnalysisManager& FAM, int level, bool loops)
{
	FunctionPassManager FPM;
	if (level == 0) {
		FPM.addPass(LowerExpectIntrinsicPass());
		FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
		FPM.addPass(EarlyCSEPass(true));
		FPM.addPass(SCCPPass());
		FPM.addPass(InstCombinePass());
		FPM.addPass(CorrelatedValuePropagationPass());
		FPM.addPass(SimplifyCFGPass());
	}
	else {
		FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
		FPM.addPass(EarlyCSEPass(true));
		FPM.addPass(InstCombinePass());
		FPM.addPass(SimplifyCFGPass());
		FPM.addPass(GVNPass());
		FPM.addPass(SCCPPass());
		FPM.addPass(CorrelatedValuePropagationPass());
		FPM.addPass(InstCombinePass());
		FPM.addPass(SimplifyCFGPass());
		FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
		FPM.addPass(GVNPass());
		FPM.addPass(ADCEPass());
		FPM.addPass(SimplifyCFGPass());
		if (loops) {
			FPM.addPass(LoopSimplifyPass());
			FPM.addPass(LCSSAPass());
			FPM.addPass(createFunctionToLoopPassAdaptor(IndVarSimplifyPass()));
			FPM.addPass(InstCombinePass());
			FPM.addPass(SimplifyCFGPass());
			FPM.addPass(LoopSimplifyPass());
			FPM.addPass(LCSSAPass());
		}
	}
	FPM.run(F, FAM);
}

// Functions which cannot let an exception out, recursive ones included: greatest fixpoint over the call graph.
static void inferNoUnwind(Module& M)
{
	auto mayThrow = [](const CallBase* CB, const std::set<const Function*>& quiet) {
		if (CB->doesNotThrow() || isa<IntrinsicInst>(CB)) return false;
		auto* f = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
		if (!f) return !CB->isInlineAsm();
		return !f->doesNotThrow() && !quiet.count(f);
	};
	std::set<const Function*> quiet;
	for (Function& F : M) if (!F.isDeclaration()) quiet.insert(&F);
	for (bool ch = true; ch;) {
		ch = false;
		for (Function& F : M) {
			if (!quiet.count(&F) || F.doesNotThrow()) continue;
			bool call = false, inv = false, res = false;
			for (BasicBlock& B : F)
				for (Instruction& I : B) {
					res |= isa<ResumeInst>(I);
					if (auto* CB = dyn_cast<CallBase>(&I)) if (mayThrow(CB, quiet)) (isa<InvokeInst>(CB) ? inv : call) = true;
				}
			if (call || (inv && res)) { quiet.erase(&F); ch = true; }
		}
	}
	for (Function& F : M) if (quiet.count(&F)) F.setDoesNotThrow();
}

PrepResult prepare(Module& M, const PrepOptions& o)
{
	PrepResult res;
	std::vector<std::regex> op, opn, ro;
	for (auto& s : o.opaque) op.emplace_back(s);
	for (auto& s : o.opaque_nounwind) opn.emplace_back(s);
	for (auto& s : o.keep_readonly) ro.emplace_back(s);
	std::regex rootre(o.roots);

	for (Function& F : M) {
		if (F.isIntrinsic())
			continue;
		F.removeFnAttr(Attribute::OptimizeNone);
		F.removeFnAttr(Attribute::NoInline);
		F.removeFnAttr(Attribute::AlwaysInline);
		std::string d = demName(F.getName());
		bool isroot = (o.rootNames.empty() ? std::regex_search(F.getName().str(), rootre) : o.rootNames.count(F.getName().str()) > 0) && !F.isDeclaration();
		if (!isroot && !F.isDeclaration() && (o.opaqueNames.count(F.getName().str()) || matchAny(op, d) || matchAny(opn, d))) {
			F.deleteBody();
			F.setComdat(nullptr);
			F.setLinkage(GlobalValue::ExternalLinkage);
			if (matchAny(opn, d))
				F.addFnAttr(Attribute::NoUnwind);
		}
		if (F.isDeclaration()) {
			StringRef n = F.getName();
			if (d.find("vf::") != std::string::npos || n.starts_with("vf_"))
				F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly(ModRefInfo::ModRef));
			if (n == "vf_allocate" || n == "vf_new")
				F.addRetAttr(Attribute::NoAlias);
			if (matchAny(ro, d))
				F.setMemoryEffects(MemoryEffects::readOnly());
		}
		if (isroot)
			res.roots.push_back(&F);
	}

	inferNoUnwind(M);

	LoopAnalysisManager LAM;
	FunctionAnalysisManager FAM;
	CGSCCAnalysisManager CGAM;
	ModuleAnalysisManager MAM;
	PassBuilder PB;
	PB.registerModuleAnalyses(MAM);
	PB.registerCGSCCAnalyses(CGAM);
	PB.registerFunctionAnalyses(FAM);
	PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);

	if (o.opt > 0)
		for (Function& F : M)
			if (!F.isDeclaration())
				runFPM(F, FAM, 0, false);

	if (o.inl) {
		for (Function* R : res.roots) {
			// call chain depth per inlined callee, for recursion control
			std::map<const CallBase*, std::map<Function*, int>> dummy;
			std::map<Function*, int> times;
			bool again = true;
			unsigned round = 0;
			while (again && round++ < o.max_rounds) {
				again = false;
				std::vector<CallBase*> calls;
				for (BasicBlock& BB : *R)
					for (Instruction& I : BB)
						if (auto* CB = dyn_cast<CallBase>(&I)) {
							Function* C = CB->getCalledFunction();
							if (!C)
								if (auto* Cst = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()))
									C = Cst;
							if (C && !C->isDeclaration() && C != R && !C->isIntrinsic())
								calls.push_back(CB);
						}
				for (CallBase* CB : calls) {
					Function* C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
					if (C->getFunctionType() != CB->getFunctionType())
						continue;
					// recursion control through the debug inlining chain
					int rec = 0;
					if (const DILocation* L = CB->getDebugLoc().get())
						for (const DILocation* q = L; q; q = q->getInlinedAt())
							if (auto* sp = q->getScope()->getSubprogram())
								if (sp == C->getSubprogram())
									++rec;
					if (rec >= 2)
						continue;
					InlineFunctionInfo IFI;
					if (InlineFunction(*CB, IFI).isSuccess()) {
						again = true;
						++res.inlined;
					}
				}
				if (again) {
					FAM.invalidate(*R, PreservedAnalyses::none());
					if (o.opt > 0)
						runFPM(*R, FAM, 0, false);
				}
			}
			for (BasicBlock& BB : *R)
				for (Instruction& I : BB)
					if (auto* CB = dyn_cast<CallBase>(&I))
						if (Function* C = CB->getCalledFunction())
							if (!C->isDeclaration())
								res.residual.push_back(R->getName().str() + ": " + demName(C->getName()) + " at " + srcLocShort(&I));
			FAM.invalidate(*R, PreservedAnalyses::none());
			if (o.opt > 1) {
				atomicPointers(*R);
				FAM.invalidate(*R, PreservedAnalyses::none());
				runFPM(*R, FAM, 1, false);
				atomicPointers(*R);
				FAM.invalidate(*R, PreservedAnalyses::none());
				runFPM(*R, FAM, 1, o.loops);
			}
		}
	}
	FAM.clear();
	return res;
}

void Report::print(raw_ostream& os)
{
	json::Array vs, ns;
	for (auto& v : violations)
		vs.push_back(json::Object{ { "root", v.root }, { "rule", v.rule }, { "where", v.where }, { "msg", v.msg } });
	for (auto& n : notes)
		ns.push_back(n);
	json::Object c;
	for (auto& k : counts)
		c[k.first] = (int64_t)k.second;
	json::Object o{ { "violations", std::move(vs) }, { "notes", std::move(ns) }, { "counts", std::move(c) }, { "imprecise", imprecise } };
	os << formatv("{0:2}", json::Value(std::move(o))) << "\n";
}
