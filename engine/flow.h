// Flow-insensitive origins of values in one (inlined) function: where may this pointer or integer come from.
#pragma once
#include "common.h"

enum OrgKind { O_ARG, O_STACK, O_NEW, O_GLOB, O_CALL, O_CONST, O_UNK };
struct Org {
	OrgKind kind = O_UNK;
	int arg = -1;
	const Value* base = nullptr;
	int path = 0;      // interned "[8]*[0]*": loads made from the root
	int depth = 0;     // number of loads
	bool var = false;  // pending offset is not constant
	int64_t off = 0;   // pending constant offset
	bool operator<(const Org& o) const
	{
		return std::tie(kind, arg, base, path, var, off) < std::tie(o.kind, o.arg, o.base, o.path, o.var, o.off);
	}
	std::string str() const;
	std::string pathStr() const;
};
struct Origins {
	Function& F;
	const DataLayout& DL;
	std::map<const Value*, std::set<Org>> val;
	// contents of local and fresh objects
	std::map<const Value*, std::map<int64_t, std::set<Org>>> mem; // VAROFF: unknown offset
	static constexpr int64_t VAROFF = INT64_MIN;
	bool overflow = false;
	long rounds = 0;
	Origins(Function& f);
	void solve();
	const std::set<Org>& of(const Value* V);
	std::set<Org> eval(const Value* V);
private:
	std::set<Org> cst(const Value* V);
	std::map<const Value*, std::set<Org>> cmemo;
	std::map<std::pair<const Value*, int64_t>, int> memLevel;
	bool mergeSet(std::set<Org>& cur, int& lv, const std::set<Org>& r);
	std::map<const Value*, int> level;
	std::set<const Value*> toPtr;
	bool merge(const Value* V, const std::set<Org>& r);
};
const Function* calleeOf(const CallBase* CB);
