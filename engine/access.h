// Access paths: where does a pointer come from, as  root argument + chain of (offset, load).
#pragma once
#include "path.h"

struct APath {
	bool known = false;
	bool stack = false;      // local alloca
	bool alloc = false;      // rooted in a fresh allocation of this call
	bool global = false;
	int arg = -1;            // root argument
	std::vector<std::string> loads; // "[off]" of each load in the chain, header first
	std::string off;         // trailing constant offset or "v"
	bool variable = false;   // some GEP index after the last load is not constant
	const Value* base = nullptr;
	const AllocaInst* local = nullptr; // the root is this local object (also after loads from it)
	int depth() const { return (int)loads.size(); }
	std::string root() const { return arg >= 0 ? "a" + std::to_string(arg) : alloc ? "new" : stack ? "stack" : global ? "glob" : "?"; }
	std::string str() const
	{
		std::string s = root();
		for (auto& l : loads) s += l + "*";
		return s + off;
	}
	// prefix with n loads
	std::string prefix(int n) const
	{
		std::string s = root();
		for (int i = 0; i < n && i < (int)loads.size(); ++i) s += loads[i] + "*";
		return s;
	}
};
APath accessPath(PathEngine& E, const PathState& S, const Value* P, int depth = 0);
// path of the value produced by load L (its address path + one load)
APath loadPath(PathEngine& E, const PathState& S, const LoadInst* L, int depth = 0);
// integer loads (and the pointers they come from) in the arithmetic closure of V
void intSlice(PathEngine& E, const PathState& S, const Value* V, std::set<const LoadInst*>& out, int depth = 0);
