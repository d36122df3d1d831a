// Shared infrastructure of the static analyser: module preparation (opaque events, whole-wrapper
// inlining, normalisation), naming, source locations and JSON reports.
#pragma once
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <memory>
#include <regex>

using namespace llvm;

std::string demName(StringRef mangled);       // demangled, memoised
std::string demBase(const Function* F);       // demangled name without argument list
std::string srcLoc(const Instruction* I);     // "file:line" of the innermost /repo location, with inlining chain
std::string srcLocShort(const Instruction* I);
std::string valStr(const Value* V);

struct PrepOptions {
	std::vector<std::string> opaque;      // regexes on demangled names: bodies removed, calls are events
	std::vector<std::string> opaque_nounwind;
	std::vector<std::string> keep_readonly; // opaque & memory(read)
	std::string roots = "^vf_";           // regex on symbol names
	std::set<std::string> opaqueNames;    // symbols whose body is removed
	std::set<std::string> rootNames;      // symbols analysed (instead of `roots`) when not empty
	bool inl = true;
	int opt = 2;                          // 0 none, 1 light, 2 full normalisation
	unsigned max_rounds = 60;
	bool lines = true;
	bool loops = true;
};
struct PrepResult {
	std::vector<Function*> roots;
	std::vector<std::string> residual; // call sites which could not be inlined (recursion)
	unsigned inlined = 0;
};
PrepResult prepare(Module& M, const PrepOptions& o);

struct Violation {
	std::string root, rule, where, msg;
};
struct Report {
	std::vector<Violation> violations;
	std::vector<std::string> notes;
	std::map<std::string, long> counts;
	std::set<std::string> seen;
	bool imprecise = false;
	void violation(const std::string& root, const std::string& rule, const std::string& where, const std::string& msg)
	{
		std::string k = root + "|" + rule + "|" + where + "|" + msg;
		if (seen.insert(k).second)
			violations.push_back({ root, rule, where, msg });
	}
	void noteOnce(const std::string& n)
	{
		if (seen.insert("note:" + n).second) notes.push_back(n);
	}
	void print(raw_ostream& os);
};

int runLocks(Module& M, const std::vector<std::string>& args, Report& R);
int runCalls(Module& M, const std::vector<std::string>& args, Report& R);
int runFlow(Module& M, const std::vector<std::string>& args, Report& R);
int runCells(Module& M, const std::vector<std::string>& args, Report& R);
int runLockWord(Module& M, const std::vector<std::string>& args, Report& R);
int runLeaks(Module& M, const std::vector<std::string>& args, Report& R);
