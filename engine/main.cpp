#include "common.h"
#include "llvm/Support/FormatVariadic.h"
int main(int argc, char** argv)
{
	if (argc < 3) {
		errs() << "usage: seqir ANALYSIS FILE.bc [opts]\n";
		return 2;
	}
	LLVMContext C;
	SMDiagnostic E;
	auto M = parseIRFile(argv[2], E, C);
	if (!M) {
		E.print("seqir", errs());
		return 2;
	}
	std::vector<std::string> args(argv + 3, argv + argc);
	Report R;
	std::string a = argv[1];
	int rc = 2;
	if (a == "dump") {
		PrepOptions o;
		for (auto& s : args) {
			if (s.rfind("--opaque=", 0) == 0) o.opaque.push_back(s.substr(9));
			else if (s.rfind("--opaquen=", 0) == 0) o.opaque_nounwind.push_back(s.substr(10));
			else if (s.rfind("--roots=", 0) == 0) o.roots = s.substr(8);
			else if (s == "--noloops") o.loops = false;
		}
		auto res = prepare(*M, o);
		for (auto* F : res.roots) {
			F->print(outs());
			errs() << F->getName() << " insts=" << F->getInstructionCount() << "\n";
		}
		for (auto& r : res.residual)
			errs() << "residual " << r << "\n";
		return 0;
	}
	if (a == "locks") rc = runLocks(*M, args, R);
	else if (a == "calls") rc = runCalls(*M, args, R);
	else if (a == "flow") rc = runFlow(*M, args, R);
	else if (a == "leaks") rc = runLeaks(*M, args, R);
	else if (a == "cells") rc = runCells(*M, args, R);
	else if (a == "lockword") rc = runLockWord(*M, args, R);
	else { errs() << "unknown analysis\n"; return 2; }
	R.print(outs());
	return rc;
}
