// Path-sensitive abstract interpretation over one (fully inlined) function.
//
// State = client typestate (finite key) x branch facts (SSA value == / != constant) x resolved phis
//         x symbolic linear counters. States with the same key at a block are merged (facts are
//         intersected), ESP style.  Counters are accelerated at loop headers: a counter which changes by
//         a constant d per iteration becomes base + d * k(L), and k(L) is replaced on loop exits by the
//         exit count ScalarEvolution derives (or stays a symbol, shared with the induction variables of L,
//         when the loop is left by an exception).
#pragma once
#include "common.h"
#include <deque>
#include <optional>

typedef std::pair<int, const void*> Sym; // 0: Value, 1: SCEV, 2: Loop trip counter

struct Lin {
	std::map<Sym, int64_t> t;
	int64_t c = 0;
	bool top = false;
	Lin(int64_t v = 0) : c(v) {}
	static Lin sym(int k, const void* p) { Lin l; l.t[{ k, p }] = 1; return l; }
	bool isConst() const { return !top && t.empty(); }
	bool isZero() const { return isConst() && c == 0; }
	Lin& add(const Lin& o, int64_t m = 1)
	{
		if (o.top) top = true;
		if (top) { t.clear(); c = 0; return *this; }
		c += m * o.c;
		for (auto& k : o.t)
			if ((t[k.first] += m * k.second) == 0)
				t.erase(k.first);
		return *this;
	}
	void subst(const Sym& s, const Lin& by)
	{
		auto it = t.find(s);
		if (it == t.end()) return;
		int64_t m = it->second;
		t.erase(it);
		add(by, m);
	}
	bool operator==(const Lin& o) const { return top == o.top && c == o.c && t == o.t; }
	bool operator!=(const Lin& o) const { return !(*this == o); }
	std::string str() const;
};

struct Fact {
	bool eq;
	int64_t c;
	bool operator==(const Fact& o) const { return eq == o.eq && c == o.c; }
};

struct ClientState {
	virtual ~ClientState() {}
	virtual std::unique_ptr<ClientState> clone() const = 0;
	virtual std::string key() const = 0;
	virtual void meet(const ClientState& o) = 0;        // keys are equal
	virtual bool same(const ClientState& o) const = 0;  // merged part identical
};

struct PathState {
	std::map<const Value*, Fact> facts;
	std::map<const Value*, const Value*> phi;
	std::map<const Loop*, Lin> kval;
	std::map<const Loop*, std::vector<Lin>> hdr;
	std::map<const Loop*, std::string> hdrKey;
	std::vector<Lin> cnt;
	std::unique_ptr<ClientState> cs;
	std::vector<std::string> trail;
	PathState() {}
	PathState(const PathState& o)
	  : facts(o.facts), phi(o.phi), kval(o.kval), hdr(o.hdr), hdrKey(o.hdrKey), cnt(o.cnt), cs(o.cs ? o.cs->clone() : nullptr), trail(o.trail)
	{
	}
	PathState(PathState&&) = default;
	PathState& operator=(PathState&&) = default;
	PathState& operator=(const PathState& o) { PathState t(o); *this = std::move(t); return *this; }
};

enum ExitKind { EX_RETURN, EX_UNWIND };

class PathEngine;
struct Client {
	virtual ~Client() {}
	virtual std::unique_ptr<ClientState> initial(Function& F) = 0;
	virtual unsigned counters() { return 0; }
	// instruction about to be (re)executed: its previous value dies
	virtual void kill(PathEngine&, PathState&, const Instruction*) {}
	// phi P takes value V on this edge
	virtual void bindPhi(PathEngine&, PathState&, const PHINode*, const Value*) {}
	// non-call instructions
	virtual void exec(PathEngine&, PathState&, const Instruction*) {}
	// call effect on the normal return; may push extra outcome states in `forks`; return false if infeasible
	virtual bool call(PathEngine&, PathState&, const CallBase*, std::vector<PathState>&) { return true; }
	// call effect on the exceptional outcome
	virtual bool callUnwind(PathEngine&, PathState&, const CallBase*) { return true; }
	virtual void assumeEq(PathEngine&, PathState&, const Value*, const Value*, bool /*equal*/) {}
	virtual void exit(PathEngine&, PathState&, const Instruction*, ExitKind) {}
	// after the phis of an exit block of L have been bound
	virtual void leaveLoop(PathEngine&, PathState&, const Loop*) {}
	// does the client count events of L
	virtual bool wantCount(const Loop*) { return true; }
	virtual void backedge(PathEngine&, PathState&, const Loop*) {}
	virtual bool nonNull(PathEngine&, PathState&, const Value*) { return false; }
	virtual bool mayThrow(const CallBase* CB) { return !CB->doesNotThrow(); }
	// does the value deserve to be part of the merge key when it is a correlated condition
	virtual bool keepAlways(const Value*) { return false; }
	virtual bool wantTrack(const Value*) { return true; }
};

class PathEngine {
public:
	Function& F;
	Client& C;
	Report& R;
	DominatorTree DT;
	LoopInfo LI;
	std::unique_ptr<TargetLibraryInfoImpl> TLII;
	std::unique_ptr<TargetLibraryInfo> TLI;
	std::unique_ptr<AssumptionCache> AC;
	std::unique_ptr<ScalarEvolution> SE;
	std::set<const Value*> tracked, splitAtDef;
	std::map<const Value*, std::set<const BasicBlock*>> condLive;
	std::map<std::string, std::vector<Lin>> accel; // (header,key) -> per iteration delta
	struct Proposal { int depth; std::string ak; unsigned i, n; Lin v; };
	std::vector<Proposal> proposals;
	std::map<const PHINode*, unsigned> numPhi;
	unsigned numBase = 0;
	std::optional<Lin> numVal(const PathState&, const Value*) const;
	void computeNumPhi();
	bool needRestart = false;
	bool finalRun = false;
	long steps = 0, maxSteps = 3000000, states = 0, paths = 0;
	bool overflow = false;
	unsigned maxStatesPerBlock = 400;

	PathEngine(Function& f, Client& c, Report& r);
	void run();

	// --- queries usable by clients
	const Value* resolve(const PathState&, const Value* V) const; // through phis / selects known on the path
	std::optional<int64_t> constOf(const PathState&, const Value* V, int depth = 0) const;
	std::optional<bool> boolOf(PathState&, const Value* V, int depth = 0);
	bool nonZero(PathState&, const Value* V, int depth = 0);
	bool assume(PathState&, const Value* Cnd, bool v); // false: contradiction
	Lin lin(const PathState&, const Value* V, int depth = 0);
	Lin lin(const PathState&, const SCEV* S, int depth = 0);
	void note(PathState& S, const Instruction* I, const std::string& what);
	std::string trail(const PathState& S) const;

private:
	struct Entry { PathState st; bool queued; };
	std::map<const BasicBlock*, std::map<std::string, Entry>> table;
	std::deque<std::pair<const BasicBlock*, std::string>> work;
	void computeTracked();
	std::string fullKey(const BasicBlock* BB, const PathState&, bool counters = true) const;
	void arrive(const BasicBlock* from, const BasicBlock* to, PathState st);
	void process(const BasicBlock* BB, PathState st);
	void execFrom(const BasicBlock* BB, BasicBlock::const_iterator it, PathState st);
	void terminator(const Instruction* T, PathState st);
	void once();
};
