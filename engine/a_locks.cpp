// Lock discipline of the concurrent hash tables: typestate over lock objects.
//   C01 balance/mode   C02 guarded element access   C03 revalidation & guarded publication   C05 lock order
#include "access.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <chrono>

static std::string shortName(const std::string& s);
namespace {

enum { DATA = 0, TABLE = 1, BUCKET = 2 };
enum { EXCL = 0, SHARED = 1 };
const char* clsName[] = { "container-data lock", "table lock", "bucket lock" };
const char* modeName[] = { "exclusive", "shared" };

struct Held {
	std::set<const Value*> names;
	int cls, mode, cont;
	bool valid;
	std::set<std::string> need; // header fields the bucket index was computed from
	std::string where;
};

struct LS : ClientState {
	std::vector<Held> held;
	std::map<const Value*, int> fresh; // loads (and their container) executed under the protection of a lock held ever since
	bool published = false;       // the table has been replaced on this path
	bool maskOut = false;         // the new hash mask has been made visible on this path
	std::set<const Value*> relaxed; // atomic loads weaker than acquire, not followed by an acquire fence (may)
	std::unique_ptr<ClientState> clone() const override { return std::make_unique<LS>(*this); }
	std::string key() const override
	{
		std::string k = published ? "P" : "";
		if (maskOut) k += "M";
		for (auto& h : held) {
			k += std::to_string(h.cls) + (h.mode ? "s" : "x") + std::to_string(h.cont) + (h.valid ? "v" : "-");
			for (auto& n : h.need) k += n;
			k += ";";
		}
		return k;
	}
	void meet(const ClientState& o_) override
	{
		auto& o = static_cast<const LS&>(o_);
		for (size_t i = 0; i < held.size(); ++i)
			for (auto it = held[i].names.begin(); it != held[i].names.end();)
				if (!o.held[i].names.count(*it)) it = held[i].names.erase(it);
				else ++it;
		for (auto it = fresh.begin(); it != fresh.end();)
			if (!o.fresh.count(it->first)) it = fresh.erase(it);
			else ++it;
		relaxed.insert(o.relaxed.begin(), o.relaxed.end());
	}
	bool same(const ClientState& o_) const override
	{
		auto& o = static_cast<const LS&>(o_);
		if (fresh.size() != o.fresh.size() || relaxed.size() != o.relaxed.size()) return false;
		for (size_t i = 0; i < held.size(); ++i)
			if (held[i].names.size() != o.held[i].names.size()) return false;
		return true;
	}
};

struct LockOp { bool is = false; std::string op; };
static LockOp lockOp(const CallBase* CB)
{
	LockOp r;
	const Function* f = CB->getCalledFunction();
	if (!f) return r;
	static const std::regex re("seq::(spinlock|shared_spinner<[^:]*>)::(lock|unlock|lock_shared|unlock_shared|try_lock|try_lock_shared|is_locked|try_lock_until|try_lock_for|try_lock_fast|is_locked_shared)(<.*>)?\\(");
	std::smatch m;
	std::string d = demName(f->getName());
	if (std::regex_search(d, m, re)) { r.is = true; r.op = m[2]; }
	return r;
}

struct Guarded { // facts gathered over all the roots (first pass)
	std::set<std::string> lockField;   // header field holding the bucket lock array, "[d]*[o]"
	std::set<std::string> maskField;   // header fields bucket indices are computed from
	std::set<std::string> tableLock;   // where the table lock is
	std::set<std::string> tableField;  // header fields element pointers are derived from
	std::set<std::string> plainStored; // header fields written with ordinary stores after construction
};

// strip the root name: "a0[8]*[64]*" -> "[8]*[64]*"
static std::string noRoot(const std::string& s) { size_t p = s.find('['); return p == std::string::npos ? s : s.substr(p); }

struct Locks : Client {
	Report& R;
	Guarded& G;
	bool learn;
	std::string root;
	int base = 0; // 1: the function is a member of the table itself (analysed on its own)
	const std::regex* ctorRe = nullptr;
	std::set<int> privateArgs; // containers no other thread can see yet
	const std::set<std::string>* summary = nullptr; // lock neutral functions of the table, analysed on their own
	std::set<int> containerArgs;
	std::set<std::string> ruleset;
	bool exempt = false; // destructor: the caller guarantees that no other thread uses the container
	long nOrd = 0;
	std::set<const Instruction*> ordSites;
	long nTable = 0, nLock = 0, nEl = 0, nStore = 0, nUnlock = 0, nExit = 0;
	std::set<const Instruction*> lockSites, elSites, storeSites;

	Locks(Report& r, Guarded& g, bool l) : R(r), G(g), learn(l) {}
	bool on(const char* r) { return ruleset.count(r); }
	unsigned counters() override { return 8; } // (container 0/1) x (excl/shared) bucket locks, rest spare

	std::unique_ptr<ClientState> initial(Function&) override { return std::make_unique<LS>(); }
	static LS& ls(PathState& S) { return static_cast<LS&>(*S.cs); }

	uint64_t containerBytes = 0;
	bool isPrivate(const APath& p)
	{
		if (p.local && p.local->getAllocationSize(p.local->getModule()->getDataLayout())->getFixedValue() >= containerBytes - 8 && containerBytes) return true;
		return (p.arg >= 0 && privateArgs.count(p.arg)) || (p.arg < 0 && p.alloc && !privateArgs.empty());
	}
	int contOf(const APath& p) { return isPrivate(p) ? -1 : p.arg >= 0 && containerArgs.count(p.arg) ? p.arg : p.alloc ? *containerArgs.begin() : -1; }

	void viol(PathEngine& E, PathState& S, const char* rule, const Instruction* I, const std::string& m)
	{
		if (!E.finalRun || learn || !on(rule)) return;
		R.violation(root, rule, srcLoc(I), m + "  [path: " + E.trail(S) + "]");
	}

	int tableLocksHeld(LS& s, PathState& S, int cont)
	{
		int n = 0;
		for (auto& h : s.held)
			if (h.cls != DATA && (cont < 0 || h.cont == cont)) ++n;
		for (int i = 0; i < 4; ++i)
			if (!S.cnt[i].isZero() && (cont < 0 || (i / 2) == idx(cont))) ++n;
		return n;
	}
	int idx(int cont) { return cont == *containerArgs.begin() ? 0 : 1; }

	void kill(PathEngine&, PathState& S, const Instruction* I) override
	{
		auto& s = ls(S);
		for (auto& h : s.held) h.names.erase(I);
		s.fresh.erase(I);
	}
	void bindPhi(PathEngine& E, PathState& S, const PHINode* P, const Value* V) override
	{
		auto& s = ls(S);
		const Value* W = E.resolve(S, V);
		for (auto& h : s.held) {
			bool m = h.names.count(V) || h.names.count(W);
			h.names.erase(P);
			if (m) h.names.insert(P);
		}
		auto fr = s.fresh.find(V);
		if (fr == s.fresh.end()) fr = s.fresh.find(W);
		int fc = fr == s.fresh.end() ? -1 : fr->second;
		s.fresh.erase(P);
		if (fc >= 0) s.fresh[P] = fc;
	}
	bool nonNull(PathEngine& E, PathState& S, const Value* V) override
	{
		auto& s = ls(S);
		for (auto& h : s.held)
			if (h.names.count(V)) return true;
		return false;
	}
	void backedge(PathEngine& E, PathState& S, const Loop* L) override
	{
		auto& s = ls(S);
		for (size_t i = 0; i < s.held.size();) {
			auto& h = s.held[i];
			bool inLoop = h.cls == BUCKET && !h.names.empty();
			for (auto* n : h.names) {
				auto* I = dyn_cast<Instruction>(n);
				if (!I || !L->contains(I->getParent()) || (isa<PHINode>(I) && I->getParent() == L->getHeader())) inLoop = false;
			}
			// a phi of the header taking the lock over the back edge keeps the lock individually
			if (inLoop)
				for (const PHINode& P : L->getHeader()->phis())
					for (unsigned k = 0; k < P.getNumIncomingValues(); ++k)
						if (L->contains(P.getIncomingBlock(k)) && h.names.count(P.getIncomingValue(k))) inLoop = false;
			if (inLoop) {
				S.cnt[idx(h.cont) * 2 + h.mode].add(Lin(1));
				s.held.erase(s.held.begin() + i);
			}
			else ++i;
		}
	}

	bool wantCount(const Loop* L) override
	{
		for (auto* B : L->blocks())
			for (auto& I : *B)
				if (auto* CB = dyn_cast<CallBase>(&I))
					if (lockOp(CB).is) return true;
		return false;
	}
	void leaveLoop(PathEngine&, PathState& S, const Loop* L) override
	{
		auto& s = ls(S);
		for (size_t i = 0; i < s.held.size();) {
			auto& h = s.held[i];
			bool inLoop = h.cls == BUCKET && h.valid;
			for (auto* n : h.names) {
				auto* I = dyn_cast<Instruction>(n);
				if (!I || !L->contains(I->getParent())) inLoop = false;
			}
			if (inLoop) {
				S.cnt[idx(h.cont) * 2 + h.mode].add(Lin(1));
				s.held.erase(s.held.begin() + i);
			}
			else ++i;
		}
	}
	bool fresh(PathEngine& E, PathState& S, const Value* V)
	{
		auto& s = ls(S);
		return s.fresh.count(V) || s.fresh.count(E.resolve(S, V));
	}
	std::string fieldOf(PathEngine& E, PathState& S, const LoadInst* L)
	{
		APath p = loadPath(E, S, L);
		if (!p.known || p.depth() != 2 - base || contOf(p) < 0) return "";
		return p.prefix(2 - base);
	}

	void classify(PathEngine& E, PathState& S, const Value* P, int& cls, int& cont, APath& p)
	{
		p = accessPath(E, S, P);
		cls = -1;
		cont = -1;
		if (!p.known) return;
		cont = contOf(p);
		if (p.alloc) cls = p.variable ? BUCKET : TABLE;
		else if (p.depth() + base == 0) cls = DATA;
		else if (p.depth() + base == 1) cls = TABLE;
		else cls = BUCKET;
	}

	void acquire(PathEngine& E, PathState& S, const CallBase* CB, const Value* P, int mode, bool blocking)
	{
		auto& s = ls(S);
		int cls, cont;
		APath p;
		classify(E, S, P, cls, cont, p);
		++nLock;
		lockSites.insert(CB);
		if (isPrivate(p)) return;
		if (cls < 0 || cont < 0) {
			R.imprecise = true;
			if (E.finalRun && !learn) R.noteOnce(root + ": lock of unknown provenance at " + srcLocShort(CB) + " " + valStr(E.resolve(S,P)));
			cls = BUCKET;
			cont = *containerArgs.begin();
		}
		const Value* W = E.resolve(S, P);
		deref(E, S, CB, P);
		// C05: order
		for (auto& h : s.held) {
			if (h.names.count(P) || h.names.count(W))
				viol(E, S, "C05", CB, std::string("acquires a ") + clsName[cls] + " it already holds (self deadlock)");
			if (h.cont == cont && h.cls > cls)
				viol(E, S, "C05", CB, std::string("acquires the ") + clsName[cls] + " while holding a " + clsName[h.cls] + " of the same container (taken at " + h.where + ")");
			if (h.cont == cont && h.cls == cls && cls != BUCKET)
				viol(E, S, "C05", CB, std::string("acquires a second ") + clsName[cls] + " of the same container");
		}
		if (cls == DATA && blocking) {
			for (auto& h : s.held)
				if (h.cls == DATA && h.cont != cont) {
					// a fixed order, e.g. by address, is fine
					bool ordered = false;
					for (auto& fa : S.facts)
						if (auto* cm = dyn_cast<ICmpInst>(fa.first))
							if (!cm->isEquality() && isa<Argument>(cm->getOperand(0)->stripPointerCasts()) && isa<Argument>(cm->getOperand(1)->stripPointerCasts())) ordered = true;
					if (!ordered) viol(E, S, "C05", CB, "acquires the data lock of a second container while holding that of another, in no fixed order: two threads doing so with the operands exchanged wait for each other forever");
				}
		}
		if (cls == TABLE) {
			++nTable;
			if (learn) G.tableLock.insert(noRoot(p.prefix(1 - base) + p.off));
		}
		if (cls == BUCKET) {
			bool tableX = false, bucket = !S.cnt[idx(cont) * 2].isZero() || !S.cnt[idx(cont) * 2 + 1].isZero();
			for (auto& h : s.held) {
				if (h.cont == cont && h.cls == TABLE && h.mode == EXCL) tableX = true;
				if (h.cont == cont && h.cls == BUCKET) bucket = true;
			}
			if (bucket && !tableX) viol(E, S, "C05", CB, "acquires a bucket lock while holding another bucket lock of the same table without the exclusive table lock");
		}
		else if (!S.cnt[idx(cont) * 2].isZero() || !S.cnt[idx(cont) * 2 + 1].isZero())
			viol(E, S, "C05", CB, std::string("acquires the ") + clsName[cls] + " while holding bucket locks of the same container");
		if (cls != DATA)
			for (int other : containerArgs)
				if (other != cont && tableLocksHeld(s, S, other)) {
					int nd = 0;
					for (auto& h : s.held)
						if (h.cls == DATA && h.mode == EXCL) ++nd;
					if (nd < 2) viol(E, S, "C05", CB, "acquires locks of one container while holding table locks of another without both container-data locks");
				}
		Held h;
		h.cls = cls;
		h.mode = mode;
		h.cont = cont;
		h.where = srcLocShort(CB);
		h.names = { P, W };
		h.valid = true;
		if (cls == BUCKET) {
			if (learn && p.known && p.depth() >= 3 - base) G.lockField.insert(noRoot(p.prefix(2 - base)));
			std::set<const LoadInst*> sl;
			const Value* q = W;
			for (int i = 0; i < 16; ++i) {
				q = E.resolve(S, q);
				auto* GEP = dyn_cast<GEPOperator>(q);
				if (!GEP) break;
				for (auto it = GEP->idx_begin(); it != GEP->idx_end(); ++it) intSlice(E, S, *it, sl);
				q = GEP->getPointerOperand();
			}
			// the array slot itself may be selected by the index
			if (auto* L = dyn_cast<LoadInst>(q)) {
				const Value* a = E.resolve(S, L->getPointerOperand());
				for (int i = 0; i < 16; ++i) {
					auto* GEP = dyn_cast<GEPOperator>(a);
					if (!GEP) break;
					for (auto it = GEP->idx_begin(); it != GEP->idx_end(); ++it) intSlice(E, S, *it, sl);
					a = E.resolve(S, GEP->getPointerOperand());
				}
			}
			for (auto* L : sl) {
				std::string f = fieldOf(E, S, L);
				if (f.empty()) continue;
				if (learn) G.maskField.insert(noRoot(f));
				if (!fresh(E, S, L)) h.need.insert(f);
			}
			h.valid = h.need.empty();
			bool tableHeld = false;
			for (auto& x : s.held)
				if (x.cont == cont && x.cls == TABLE) tableHeld = true;
			if (h.valid && sl.empty() && !tableHeld && !learn) {
				// an index which does not come from the current mask and no table lock: cannot be checked
				h.valid = true;
			}
		}
		E.note(S, CB, std::string(blocking ? "lock" : "try_lock ok") + " " + modeName[mode] + " " + clsName[cls] + (cls == BUCKET && !h.valid ? " (index from an unprotected read)" : ""));
		s.held.push_back(h);
	}

	void release(PathEngine& E, PathState& S, const CallBase* CB, const Value* P, int mode)
	{
		auto& s = ls(S);
		++nUnlock;
		lockSites.insert(CB);
		const Value* W = E.resolve(S, P);
		int cls, cont;
		APath p;
		classify(E, S, P, cls, cont, p);
		if (isPrivate(p)) return;
		int found = -1;
		for (size_t i = 0; i < s.held.size(); ++i)
			if (s.held[i].names.count(P) || s.held[i].names.count(W)) found = (int)i;
		if (found < 0)
			// same static location (header fields): pointer recomputed
			for (size_t i = 0; i < s.held.size() && found < 0; ++i)
				if (s.held[i].cls == cls && s.held[i].cont == cont && (cls != BUCKET || s.held[i].names.empty())) found = (int)i;
		if (found >= 0) {
			Held h = s.held[found];
			if (h.mode != mode)
				viol(E, S, "C01", CB, std::string("releases as ") + modeName[mode] + " a " + clsName[h.cls] + " acquired as " + modeName[h.mode] + " at " + h.where);
			s.held.erase(s.held.begin() + found);
			E.note(S, CB, std::string("unlock ") + modeName[mode] + " " + clsName[h.cls]);
			if (tableLocksHeld(s, S, h.cont) == 0)
				for (auto it = s.fresh.begin(); it != s.fresh.end();)
					if (it->second == h.cont) it = s.fresh.erase(it);
					else ++it;
			return;
		}
		if (cls == BUCKET || cls < 0) {
			if (cont < 0) cont = *containerArgs.begin();
			// bucket lock held through a counter, or individually under another name
			int ci = idx(cont) * 2 + mode;
			for (size_t i = 0; i < s.held.size(); ++i)
				if (s.held[i].cls == BUCKET && s.held[i].cont == cont) {
					S.cnt[idx(cont) * 2 + s.held[i].mode].add(Lin(1));
					s.held.erase(s.held.begin() + i);
					break;
				}
			if (S.cnt[ci].isConst() && S.cnt[ci].c <= 0)
				viol(E, S, "C01", CB, std::string("releases (") + modeName[mode] + ") a bucket lock which is not held");
			S.cnt[ci].add(Lin(-1));
			E.note(S, CB, std::string("unlock ") + modeName[mode] + " one of the bucket locks");
			return;
		}
		viol(E, S, "C01", CB, std::string("releases (") + modeName[mode] + ") a " + clsName[cls] + " which is not held");
	}

	void assumeEq(PathEngine& E, PathState& S, const Value* a, const Value* b, bool equal) override
	{
		if (!equal) return;
		auto& s = ls(S);
		for (auto& h : s.held) {
			if (h.valid || h.cls != BUCKET) continue;
			for (int k = 0; k < 2; ++k) {
				const Value *x = k ? b : a, *y = k ? a : b;
				// x: the current value of a field the index depends on, read under this lock;
				// y: an earlier value of the same field
				if (!freshOperand(E, S, x)) continue;
				std::set<const Value*> v1, v2;
				std::string f = fieldOfValue(E, S, x, v1);
				if (f.empty() || !h.need.count(f) || fieldOfValue(E, S, y, v2) != f) continue;
				h.need.erase(f);
				if (h.need.empty()) {
					h.valid = true;
					if (!exempt)
						for (auto* L : v1acq(E, S, x)) {
							++nOrd;
							ordSites.insert(L);
							if (!L->isAtomic() || s.relaxed.count(L))
								viol(E, S, "C06", L, std::string("re-validates a bucket index with ") + (L->isAtomic() ? "an atomic load weaker than acquire" : "an ordinary load") + " of the hash mask: the table seen afterwards may be an older one");
						}
				}
				break;
			}
		}
	}
	std::set<const LoadInst*> v1acq(PathEngine& E, PathState& S, const Value* x)
	{
		std::set<const LoadInst*> sl, out;
		x = E.resolve(S, x);
		if (auto* L = dyn_cast<LoadInst>(x)) sl.insert(L);
		else intSlice(E, S, x, sl);
		for (auto* L : sl)
			if (!fieldOf(E, S, L).empty()) out.insert(L);
		return out;
	}
	// the loads of x which are masked/combined the same way on both sides are looked at through simple arithmetic
	bool freshOperand(PathEngine& E, PathState& S, const Value* V)
	{
		std::set<const LoadInst*> sl;
		V = E.resolve(S, V);
		if (auto* L = dyn_cast<LoadInst>(V)) return fresh(E, S, L);
		if (fresh(E, S, V)) return true;
		intSlice(E, S, V, sl);
		for (auto* L : sl)
			if (fresh(E, S, L)) return true;
		return false;
	}
	// the header field every possible value of V was read from ("" when it is not a single one)
	std::string fieldOfValue(PathEngine& E, PathState& S, const Value* V, std::set<const Value*>& seen)
	{
		V = E.resolve(S, V);
		if (!seen.insert(V).second) return "*";
		if (auto* L = dyn_cast<LoadInst>(V)) return fieldOf(E, S, L);
		if (auto* P = dyn_cast<PHINode>(V)) {
			std::string r = "*";
			for (auto& in : P->incoming_values()) {
				std::string f = fieldOfValue(E, S, in, seen);
				if (f == "*") continue;
				if (f.empty() || (r != "*" && r != f)) return "";
				r = f;
			}
			return r;
		}
		std::set<const LoadInst*> sl;
		intSlice(E, S, V, sl);
		std::string r;
		for (auto* L : sl) {
			std::string f = fieldOf(E, S, L);
			if (f.empty()) continue;
			if (!r.empty() && r != f) return "";
			r = f;
		}
		return r;
	}

	// a lock which currently protects the fields of the table (a bucket lock only once its index is validated)
	bool anyLock(LS& s, PathState& S, int cont)
	{
		for (auto& h : s.held)
			if (h.cont == cont && (h.cls == TABLE || (h.cls == BUCKET && h.valid))) return true;
		return !S.cnt[idx(cont) * 2].isZero() || !S.cnt[idx(cont) * 2 + 1].isZero();
	}
	// memory reached through a pointer obtained by an atomic load weaker than acquire
	void deref(PathEngine& E, PathState& S, const Instruction* I, const Value* P)
	{
		auto& s = ls(S);
		if (exempt || learn) return;
		std::vector<const Value*> w{ accessPath(E, S, P).base };
		std::set<const Value*> seen;
		while (!w.empty() && seen.size() < 32) {
			const Value* b = w.back();
			w.pop_back();
			if (!b) continue;
			b = E.resolve(S, b);
			while (auto* G = dyn_cast<GEPOperator>(b)) b = E.resolve(S, G->getPointerOperand());
			if (!seen.insert(b).second) continue;
			if (auto* Ph = dyn_cast<PHINode>(b)) {
				for (auto& in : Ph->incoming_values()) w.push_back(in);
				continue;
			}
			if (auto* PI = dyn_cast<IntToPtrInst>(b)) { w.push_back(PI->getOperand(0)); continue; }
			if (auto* EV = dyn_cast<ExtractValueInst>(b))
				if (auto* X = dyn_cast<AtomicCmpXchgInst>(EV->getAggregateOperand())) {
					++nOrd;
					ordSites.insert(X);
					APath xp = accessPath(E, S, X->getPointerOperand());
					if (xp.known && xp.arg >= 0 && contOf(xp) >= 0 && !isAcquireOrStronger(X->getFailureOrdering()) && !isAcquireOrStronger(X->getSuccessOrdering()))
						viol(E, S, "C06", I, "follows a pointer obtained at " + srcLocShort(X) + " by a compare-exchange weaker than acquire: what it points to may not be visible yet");
					continue;
				}
			auto* L = dyn_cast<LoadInst>(b);
			if (!L) continue;
			if (L->isAtomic()) {
				++nOrd;
				ordSites.insert(L);
				// the locks of the table order reads of its header only: lock arrays are created without them
				if (s.relaxed.count(L) && !(fresh(E, S, L) && !fieldOf(E, S, L).empty()))
					viol(E, S, "C06", I, "follows a pointer obtained at " + srcLocShort(L) + " by an atomic load weaker than acquire: what it points to may not be visible yet");
			}
			w.push_back(accessPath(E, S, L->getPointerOperand()).base);
		}
	}

	// is it known on this path that the table has no lock array (checked under a lock)?
	bool noLockArray(PathEngine& E, PathState& S, int cont)
	{
		auto& s = ls(S);
		for (auto& f : S.facts) {
			if (!f.second.eq || f.second.c != 0) continue;
			const Value* V = E.resolve(S, f.first);
			auto* L = dyn_cast<LoadInst>(V);
			if (!L || !L->getType()->isPointerTy()) continue;
			APath p = loadPath(E, S, L);
			if (!p.known || contOf(p) != cont || !G.lockField.count(noRoot(p.str()))) continue;
			if (s.fresh.count(L) || s.fresh.count(f.first)) return true;
		}
		return false;
	}

	void element(PathEngine& E, PathState& S, const Instruction* CB, const Value* P, bool mut, const std::string& what, bool raw = false)
	{
		APath p = accessPath(E, S, P);
		if (!p.known || p.arg < 0) return;
		int cont = contOf(p);
		if (cont < 0 || p.depth() < 2 - base) return;
		if (learn && raw) return;
		if (raw && !G.tableField.count(noRoot(p.prefix(2 - base)))) return;
		++nEl;
		elSites.insert(CB);
		if (learn) { G.tableField.insert(noRoot(p.prefix(2 - base))); return; }
		auto& s = ls(S);
		bool dtor = raw || what.find('~') != std::string::npos;
		bool ok = false, staleLock = false, wrongMode = false, tableHeld = false;
		for (auto& h : s.held) {
			if (h.cont != cont) continue;
			bool m = !mut || h.mode == EXCL;
			if (h.cls == BUCKET) {
				if (!h.valid) { staleLock = true; continue; }
				if (m) ok = true; else wrongMode = true;
			}
			if (h.cls == TABLE) {
				tableHeld = true;
				if (s.published && dtor) ok = true; // detached table, not reachable any more
				if (noLockArray(E, S, cont)) { if (m) ok = true; else wrongMode = true; }
			}
		}
		for (int m = 0; m < 2; ++m)
			if (!S.cnt[idx(cont) * 2 + m].isZero()) { if (!mut || m == EXCL) ok = true; else wrongMode = true; }
		if (!ok) {
			std::string w = wrongMode ? "with a lock held in shared mode only" : staleLock ? "under a bucket lock whose index was computed before the lock was taken and not re-checked" : tableHeld ? "holding only the table lock although bucket locks may exist" : "without holding any lock";
			viol(E, S, wrongMode || !staleLock ? "C02" : "C03", CB, (mut ? "may modify" : "reads") + std::string(raw ? " the bucket storage" : " a stored element (" + what + ")") + " " + w);
		}
		if (raw) return;
		// provenance: the table pointers must have been read under protection
		std::vector<const LoadInst*> chain;
		const Value* b = p.base;
		for (int i = 0; i < 8 && b; ++i) {
			b = E.resolve(S, b);
			auto* L = dyn_cast<LoadInst>(b);
			if (!L) break;
			APath lp = loadPath(E, S, L);
			if (lp.known && lp.depth() == 2 - base && !L->isAtomic()) {
				if (!fresh(E, S, L) && ok)
					viol(E, S, "C03", CB, std::string("accesses a stored element (") + what + ") through a table pointer which was read before the protecting lock was taken");
			}
			APath ap = accessPath(E, S, L->getPointerOperand());
			b = ap.base;
		}
	}

	void exec(PathEngine& E, PathState& S, const Instruction* I) override
	{
		auto& s = ls(S);
		if (auto* L = dyn_cast<LoadInst>(I)) {
			APath p = accessPath(E, S, L->getPointerOperand());
			int cont = p.known ? contOf(p) : -1;
			if (cont >= 0 && !exempt && !learn) {
				if (L->isAtomic()) {
					if (!isAcquireOrStronger(L->getOrdering())) s.relaxed.insert(L);
					else s.relaxed.erase(L);
				}
				else {
					deref(E, S, L, L->getPointerOperand());
					if (p.arg >= 0 && p.depth() == 1 - base) {
						std::string f = noRoot(p.prefix(1 - base) + p.off) + "*";
						if (G.plainStored.count(f)) {
							++nOrd;
							ordSites.insert(L);
							if (!anyLock(s, S, cont)) viol(E, S, "C06", L, "reads a field of the table which other threads modify, neither atomically nor under a (validated) lock of the table");
						}
					}
					element(E, S, L, L->getPointerOperand(), false, "", true);
				}
			}
			if (cont >= 0 && tableLocksHeld(s, S, cont)) s.fresh[L] = cont;
			return;
		}
		const Value *xNew = nullptr, *xPtr = nullptr;
		AtomicOrdering xOrd = AtomicOrdering::SequentiallyConsistent;
		if (auto* X = dyn_cast<AtomicCmpXchgInst>(I)) { xNew = X->getNewValOperand(); xPtr = X->getPointerOperand(); xOrd = X->getSuccessOrdering(); }
		if (auto* X = dyn_cast<AtomicRMWInst>(I))
			if (X->getOperation() == AtomicRMWInst::Xchg) { xNew = X->getValOperand(); xPtr = X->getPointerOperand(); xOrd = X->getOrdering(); }
		if (xNew) {
			if (learn || exempt) return;
			APath p = accessPath(E, S, xPtr);
			if (!p.known || p.arg < 0 || contOf(p) < 0) return;
			++nOrd;
			ordSites.insert(I);
			xNew = E.resolve(S, xNew);
			const Value* pv = xNew->getType()->isPointerTy() ? xNew : nullptr;
			if (auto* PI = dyn_cast<PtrToIntInst>(xNew)) pv = PI->getPointerOperand();
			if (pv && !isa<ConstantPointerNull>(pv) && !isReleaseOrStronger(xOrd))
				viol(E, S, "C06", I, "publishes a pointer to other threads with an atomic operation weaker than release");
			return;
		}
		if (auto* Fe = dyn_cast<FenceInst>(I)) {
			if (isAcquireOrStronger(Fe->getOrdering())) s.relaxed.clear();
			return;
		}
		if (auto* St = dyn_cast<StoreInst>(I)) {
			APath p = accessPath(E, S, St->getPointerOperand());
			if (p.known && p.arg >= 0 && contOf(p) >= 0 && !exempt) {
				if (learn) {
					if (p.depth() == 1 - base && !St->isAtomic()) G.plainStored.insert(noRoot(p.prefix(1 - base) + p.off) + "*");
					return;
				}
				if (!St->isAtomic()) {
					deref(E, S, St, St->getPointerOperand());
					element(E, S, St, St->getPointerOperand(), true, "", true);
					if (p.depth() == 1 - base) {
						++nOrd;
						ordSites.insert(St);
						bool tx = false;
						for (auto& h : s.held)
							if (h.cont == contOf(p) && h.cls == TABLE && h.mode == EXCL) tx = true;
						if (!tx) viol(E, S, "C06", St, "modifies a field of the table with an ordinary store without holding the exclusive table lock");
					}
				}
				else if (!isReleaseOrStronger(St->getOrdering())) {
					const Value* V = E.resolve(S, St->getValueOperand());
					const Value* pv = V->getType()->isPointerTy() ? V : nullptr;
					if (auto* PI = dyn_cast<PtrToIntInst>(V)) pv = PI->getPointerOperand();
					++nOrd;
					ordSites.insert(St);
					if (pv && !isa<ConstantPointerNull>(pv)) viol(E, S, "C06", St, "publishes a pointer to other threads with an atomic store weaker than release");
				}
			}
			if (learn) return;
			if (!p.known || p.arg < 0 || p.depth() != 1 - base || contOf(p) < 0) return;
			std::string f = noRoot(p.prefix(1 - base) + p.off) + "*";
			bool table = G.tableField.count(f), mask = G.maskField.count(f);
			if (!table && !mask) return;
			if (!exempt && mask && St->isAtomic() && !isReleaseOrStronger(St->getOrdering()))
				viol(E, S, "C06", St, "makes the new hash mask visible with an atomic store weaker than release");
			if (!exempt && table && !mask && s.maskOut)
				viol(E, S, "C06", St, "replaces the table after the new hash mask has been made visible: a thread which sees the new mask may use the old table");
			if (mask) s.maskOut = true;
			else if (table) s.maskOut = false;
			++nStore;
			storeSites.insert(St);
			int cont = contOf(p);
			bool tableX = false;
			for (auto& h : s.held)
				if (h.cont == cont && h.cls == TABLE && h.mode == EXCL) tableX = true;
			if (!tableX) viol(E, S, "C03", St, "replaces the table without the exclusive table lock");
			s.published = true;
			if (noLockArray(E, S, cont)) return;
			Lin& c = S.cnt[idx(cont) * 2];
			bool any = !c.isZero();
			for (auto& h : s.held)
				if (h.cont == cont && h.cls == BUCKET && h.mode == EXCL) any = true;
			// every bucket of the table being replaced: as many locks as (mask + 1)
			if (any && !c.isZero() && !c.top) {
				bool full = false;
				if (c.t.size() == 1 && c.c == 1 && c.t.begin()->second == 1 && c.t.begin()->first.first == 0)
					if (auto* L = dyn_cast<LoadInst>((const Value*)c.t.begin()->first.second)) full = G.maskField.count(noRoot(fieldOf(E, S, L))) && fresh(E, S, L);
				if (!full) viol(E, S, "C03", St, std::string("replaces the ") + (mask ? "hash mask" : "table") + " holding " + c.str() + " bucket locks instead of all of them (mask + 1)");
			}
			if (!any) viol(E, S, "C03", St, std::string("replaces the ") + (mask ? "hash mask" : "table") + " without holding the bucket locks");
		}
	}

	bool call(PathEngine& E, PathState& S, const CallBase* CB, std::vector<PathState>& forks) override
	{
		LockOp op = lockOp(CB);
		if (op.is) {
			const Value* P = CB->getArgOperand(0);
			if (op.op == "lock") acquire(E, S, CB, P, EXCL, true);
			else if (op.op == "lock_shared") acquire(E, S, CB, P, SHARED, true);
			else if (op.op == "unlock") release(E, S, CB, P, EXCL);
			else if (op.op == "unlock_shared") release(E, S, CB, P, SHARED);
			else if (op.op.compare(0, 8, "try_lock") == 0) {
				PathState fail(S);
				fail.facts[CB] = Fact{ true, 0 };
				forks.push_back(std::move(fail));
				acquire(E, S, CB, P, op.op == "try_lock_shared" ? SHARED : EXCL, false);
				S.facts[CB] = Fact{ true, 1 };
			}
			return true;
		}
		const Function* f = CB->getCalledFunction();
		if (!f) { vfcall(E, S, CB, nullptr); return true; }
		if (ctorRe && std::regex_search(demName(f->getName()), *ctorRe)) {
			// constructs a container of its own from others: takes and releases their locks
			++nLock;
			lockSites.insert(CB);
			for (auto& A : CB->args()) {
				if (!A->getType()->isPointerTy()) continue;
				APath p = accessPath(E, S, A);
				if (p.known && p.arg >= 0 && containerArgs.count(p.arg) && p.depth() == 0)
					for (auto& h : ls(S).held)
						if (h.cont == p.arg) { viol(E, S, "C05", CB, std::string("copies or moves a container while holding its ") + clsName[h.cls]); break; }
			}
			E.note(S, CB, "construct a container");
			return true;
		}
		if (summary && summary->count(f->getName().str())) {
			int cls, cont;
			APath p;
			classify(E, S, CB->getArgOperand(0), cls, cont, p);
			++nLock;
			lockSites.insert(CB);
			if (cls == TABLE && cont >= 0 && tableLocksHeld(ls(S), S, cont))
				viol(E, S, "C05", CB, "calls " + shortName(demBase(f)) + ", which takes the table lock, while holding table or bucket locks of the same container");
			E.note(S, CB, "call " + shortName(demBase(f)));
			return true;
		}
		std::string d = demName(f->getName());
		if (d.find("std::lock<") != std::string::npos) {
			if (CB->arg_size() >= 2) {
				APath a = accessPath(E, S, CB->getArgOperand(0)), b = accessPath(E, S, CB->getArgOperand(1));
				if (a.known && b.known && a.arg >= 0 && b.arg >= 0 && a.arg != b.arg) {
					// two distinct containers must be known to be distinct, otherwise std::lock(l, l) never returns
					bool distinct = false;
					for (auto& fa : S.facts)
						if (auto* cm = dyn_cast<ICmpInst>(fa.first))
							if (cm->isEquality() && fa.second.eq) {
								bool eq = (cm->getPredicate() == ICmpInst::ICMP_EQ) == (fa.second.c != 0);
								const Value *x = cm->getOperand(0)->stripPointerCasts(), *y = cm->getOperand(1)->stripPointerCasts();
								if (!eq && isa<Argument>(x) && isa<Argument>(y) && x != y) distinct = true;
							}
					if (!distinct) viol(E, S, "C05", CB, "locks the data locks of two containers without excluding that they are the same container (a container compared or merged with itself never returns)");
				}
			}
			for (unsigned i = 0; i < CB->arg_size(); ++i) acquireData(E, S, CB, CB->getArgOperand(i));
			return true;
		}
		vfcall(E, S, CB, f);
		return true;
	}
	void acquireData(PathEngine& E, PathState& S, const CallBase* CB, const Value* P)
	{
		auto& s = ls(S);
		int cls, cont;
		APath p;
		classify(E, S, P, cls, cont, p);
		++nLock;
		lockSites.insert(CB);
		if (isPrivate(p)) return;
		for (auto& h : s.held)
			if (h.cls >= DATA && !(h.cls == DATA && h.cont != cont)) viol(E, S, "C05", CB, "std::lock on container-data locks while holding other locks");
		Held h;
		h.cls = cls < 0 ? DATA : cls;
		h.mode = EXCL;
		h.cont = cont;
		h.where = srcLocShort(CB);
		h.names = { P, E.resolve(S, P) };
		h.valid = true;
		s.held.push_back(h);
		E.note(S, CB, "std::lock " + std::string(clsName[h.cls]));
	}
	// An allocation whose result is only ever used to name a lock to be released: the lock array of a lock
	// which is held exists already (lock arrays are created on first use and live as long as the table), so
	// this allocation is not reached at run time and cannot fail.
	std::map<const CallBase*, bool> unlockOnly;
	bool forUnlockOnly(const CallBase* CB)
	{
		const Function* f = CB->getCalledFunction();
		if (!f || f->getName() != "vf_allocate") return false;
		auto it = unlockOnly.find(CB);
		if (it != unlockOnly.end()) return it->second;
		bool un = false, other = false;
		std::vector<const Value*> w{ CB };
		std::set<const Value*> seen;
		while (!w.empty()) {
			const Value* V = w.back();
			w.pop_back();
			if (!seen.insert(V).second) continue;
			for (const User* U : V->users()) {
				if (isa<GetElementPtrInst>(U) || isa<PHINode>(U) || isa<CastInst>(U) || isa<SelectInst>(U)) w.push_back(U);
				else if (auto* C = dyn_cast<CallBase>(U)) {
					LockOp o = lockOp(C);
					if (o.is) (o.op.compare(0, 6, "unlock") == 0 ? un : other) = true;
				}
			}
		}
		return unlockOnly[CB] = un && !other;
	}
	bool callUnwind(PathEngine& E, PathState& S, const CallBase* CB) override
	{
		if (!lockOp(CB).is) {
			if (forUnlockOnly(CB)) return false;
			vfcall(E, S, CB, CB->getCalledFunction());
			E.note(S, CB, "exception from " + (CB->getCalledFunction() ? demBase(CB->getCalledFunction()).substr(0, 60) : std::string("indirect call")));
		}
		return true;
	}

	void vfcall(PathEngine& E, PathState& S, const CallBase* CB, const Function* f)
	{
		if (!f) return;
		std::string d = demName(f->getName());
		if (d.find("vf::") == std::string::npos) return;
		std::string b = demBase(f);
		// argument types, split at top level
		std::vector<std::string> types;
		std::string args = d.size() > b.size() ? d.substr(b.size()) : "";
		{
			int dep = 0;
			std::string cur;
			for (size_t i = 1; i < args.size(); ++i) {
				char c = args[i];
				if (c == '<' || c == '(') dep++;
				if (c == '>' ) dep--;
				if (c == ')') { if (dep == 0) { if (!cur.empty()) types.push_back(cur); break; } dep--; }
				if (c == ',' && dep == 0) { types.push_back(cur); cur.clear(); continue; }
				cur += c;
			}
		}
		size_t p = b.rfind("::");
		std::string last = p == std::string::npos ? b : b.substr(p + 2);
		bool isEl = b.find("vf::BasicEl<") != std::string::npos && b.find("operator()") == std::string::npos;
		unsigned ai = 0;
		std::string shortn = b.size() > 90 ? b.substr(0, 90) + "..." : b;
		if (isEl) {
			// member function of the element: `this` is an element
			bool mut = !(args.find(") const") != std::string::npos);
			element(E, S, CB, CB->getArgOperand(0), mut, shortn);
			ai = 1;
		}
		else if (b.find("operator()") != std::string::npos) ai = 1;
		else return;
		for (size_t i = 0; i < types.size() && ai < CB->arg_size(); ++i, ++ai) {
			if (types[i].find("BasicEl") == std::string::npos) continue;
			bool cst = types[i].find(" const&") != std::string::npos || types[i].find(" const*") != std::string::npos;
			element(E, S, CB, CB->getArgOperand(ai), !cst, shortn);
		}
	}

	void exit(PathEngine& E, PathState& S, const Instruction* I, ExitKind k) override
	{
		auto& s = ls(S);
		++nExit;
		for (auto& h : s.held)
			viol(E, S, "C01", I, std::string(k == EX_RETURN ? "returns" : "propagates an exception") + " while still holding a " + clsName[h.cls] + " (" + modeName[h.mode] + ", acquired at " + h.where + ")");
		for (int i = 0; i < 4; ++i)
			if (!S.cnt[i].isZero()) {
				if (S.cnt[i].top) { if (E.finalRun && !learn) { R.imprecise = true; R.noteOnce(root + ": bucket lock count unknown at exit " + srcLocShort(I)); } continue; }
				viol(E, S, "C01", I, std::string(k == EX_RETURN ? "returns" : "propagates an exception") + " with an unbalanced number of " + modeName[i & 1] + " bucket locks: acquired - released = " + S.cnt[i].str());
			}
	}
	bool wantTrack(const Value* V) override
	{
		// correlated conditions which decide about locks: pointers into lock arrays / lock pointers themselves
		if (V->getType()->isPointerTy()) return true;
		return V->getType()->isIntegerTy(1);
	}
};
}

static bool isContainerArg(const Argument& A)
{
	return A.hasAttribute(Attribute::Dereferenceable) && A.getDereferenceableBytes() >= 24;
}

static std::string shortName(const std::string& s)
{
	std::string r;
	int d = 0;
	for (char c : s) {
		if (c == '<') d++;
		if (!d) r += c;
		if (c == '>') d--;
	}
	return r;
}
static long analyseOne(Function& F, Guarded& G, int pass, int base, const std::set<std::string>& rules, const std::set<std::string>* summary, Report& R, const std::string& name, const std::regex* ctorRe = nullptr)
{
	Locks C(R, G, pass == 0);
	C.root = name;
	C.ruleset = rules;
	C.base = base;
	C.summary = summary;
	C.ctorRe = ctorRe;
	C.exempt = name.find("~") != std::string::npos || name == "vf_dtor";
	// container arguments are named in the harness by metadata: every argument of container size
	for (auto& A : F.args())
		if (isContainerArg(A)) { C.containerArgs.insert(A.getArgNo()); C.containerBytes = std::max(C.containerBytes, A.getDereferenceableBytes()); }
	// vf_k_*: the first argument is under construction
	if (name.rfind("vf_k_", 0) == 0) C.privateArgs.insert(0);
	if (C.containerArgs.empty()) { R.notes.push_back("no container argument in " + C.root); return 0; }
	PathEngine E(F, C, R);
	auto t0 = std::chrono::steady_clock::now();
	E.run();
	if (getenv("VF_TIME")) errs() << C.root << " pass " << pass << " " << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() << "s states " << E.states << " steps " << E.steps << " tracked " << E.tracked.size() << "\n";
	R.counts["lock_sites"] += C.lockSites.size();
	R.counts["element_sites"] += C.elSites.size();
	R.counts["ordering_sites"] += C.ordSites.size();
	R.counts["publication_sites"] += C.storeSites.size();
	R.counts["lock_transitions"] += C.nLock + C.nUnlock;
	R.counts["exits"] += C.nExit;
	return C.nTable;
}

// Member functions of the table which take the table lock themselves and cannot hand out a lock: void, `this`
// is the only pointer argument.  Each is analysed on its own, and if the analysis succeeds callers see one event.
static std::set<std::string> summaryCandidates(Module& M, const PrepOptions& o, const std::set<uint64_t>& rootBytes)
{
	std::regex ore(o.opaque_nounwind[0]);
	std::map<Function*, std::set<Function*>> calls;
	std::set<Function*> locking;
	std::map<Function*, int> sites;
	for (Function& F : M)
		for (BasicBlock& B : F)
			for (Instruction& I : B)
				if (auto* CB = dyn_cast<CallBase>(&I))
					if (Function* C = CB->getCalledFunction()) {
						calls[&F].insert(C);
						sites[C]++;
						if (!C->isIntrinsic() && std::regex_search(demName(C->getName()), ore)) locking.insert(&F);
					}
	bool again = true;
	while (again) {
		again = false;
		for (auto& c : calls)
			if (!locking.count(c.first))
				for (auto* t : c.second)
					if (locking.count(t)) { locking.insert(c.first); again = true; break; }
	}
	std::set<std::string> out;
	std::map<uint64_t, int> sizes;
	std::vector<Function*> sel;
	for (auto* F : locking) {
		if (F->isDeclaration() || !F->getReturnType()->isVoidTy() || F->arg_empty() || F->getName().starts_with("vf_")) continue;
		if (demName(F->getName()).find("seq::") == std::string::npos) continue;
		if (std::regex_search(demName(F->getName()), ore)) continue;
		Argument* T = F->getArg(0);
		if (!isContainerArg(*T) || rootBytes.count(T->getDereferenceableBytes())) continue;
		if (T->getDereferenceableBytes() < 64) continue;
		bool ok = true;
		for (auto& A : F->args())
			if (A.getArgNo() && A.getType()->isPointerTy()) ok = false;
		if (ok) { sel.push_back(F); sizes[T->getDereferenceableBytes()]++; }
	}
	// the class most of them belong to
	uint64_t best = 0;
	for (auto& z : sizes) if (!best || z.second > sizes[best]) best = z.first;
	for (auto* F : sel)
		if (F->getArg(0)->getDereferenceableBytes() == best) out.insert(F->getName().str());
	return out;
}

int runLocks(Module& M, const std::vector<std::string>& args, Report& R)
{
	PrepOptions o;
	o.opaque = { "^(void |bool )?seq::(spinlock|shared_spinner<[^:]*>)::(lock|unlock|lock_shared|unlock_shared|try_lock|try_lock_shared|is_locked|try_lock_until|try_lock_for|try_lock_fast|is_locked_shared)(<.*>)?\\(", "^void std::lock<" };
	o.opaque_nounwind = { o.opaque[0] };
	o.opaque = { o.opaque[1] };
	o.keep_readonly = { "::is_locked(_shared)?\\(" };
	std::set<std::string> rules = { "C01", "C02", "C03", "C05", "C06" };
	for (auto& a : args)
		if (a.rfind("--roots=", 0) == 0) o.roots = a.substr(8);
		else if (a.rfind("--rules=", 0) == 0) {
			rules.clear();
			std::string x = a.substr(8);
			for (size_t p = 0; p < x.size(); p += 4) rules.insert(x.substr(p, 3));
		}
	std::regex ctorReV("seq::(concurrent_(set|map)|detail::ConcurrentHashTable)<.*>::(concurrent_(set|map)|ConcurrentHashTable)\\(seq::.*(const&|&&)");
	const std::regex* ctorRe = nullptr;
	for (auto& a : args)
		if (a == "--opaque-ctors") {
			ctorRe = &ctorReV;
			o.opaque.push_back("seq::(concurrent_(set|map)|detail::ConcurrentHashTable)<.*>::(concurrent_(set|map)|ConcurrentHashTable)\\(seq::.*(const&|&&)");
		}
	std::set<std::string> summary;
	// container size, from the roots
	std::set<uint64_t> rootBytes;
	std::regex rootre(o.roots);
	for (Function& F : M)
		if (!F.isDeclaration() && std::regex_search(F.getName().str(), rootre))
			for (auto& A : F.args())
				if (isContainerArg(A)) rootBytes.insert(A.getDereferenceableBytes());
	std::set<std::string> cand = summaryCandidates(M, o, rootBytes);
	Guarded G, G2;
	std::unique_ptr<Module> M2;
	PrepResult res2;
	if (!cand.empty()) {
		M2 = CloneModule(M);
		PrepOptions o2 = o;
		o2.rootNames = cand;
		res2 = prepare(*M2, o2);
		// each candidate is analysed with everything inlined
		for (Function* F : res2.roots) {
			Report dummy;
			// a function which does not take the table lock relies on its caller: it is inlined there
			if (analyseOne(*F, G2, 0, 1, rules, nullptr, dummy, demBase(F))) summary.insert(F->getName().str());
		}
	}
	o.opaqueNames = summary;
	auto res = prepare(M, o);
	for (auto& r : res.residual) { R.notes.push_back("not inlined: " + r); R.imprecise = true; }
	for (Function* F : res.roots) {
		Report dummy;
		analyseOne(*F, G, 0, 0, rules, &summary, dummy, F->getName().str(), ctorRe);
	}
	// the fields found on either side describe the same table: translate paths through the place of the table lock
	std::string pre;
	int64_t shift = 0;
	bool canShare = false;
	if (G.tableLock.size() && G2.tableLock.size()) {
		std::string a = *G.tableLock.begin(), b = *G2.tableLock.begin();
		size_t st = a.find('*');
		if (st != std::string::npos) {
			pre = a.substr(0, st + 1);
			shift = atoll(a.c_str() + st + 2) - atoll(b.c_str() + 1);
			canShare = true;
		}
	}
	auto share = [&](std::set<std::string>& full, std::set<std::string>& sub) {
		if (!canShare) return;
		std::set<std::string> f0 = full;
		for (auto& f : sub) full.insert(pre + "[" + std::to_string(atoll(f.c_str() + 1) + shift) + "]*");
		for (auto& f : f0)
			if (f.rfind(pre, 0) == 0) sub.insert("[" + std::to_string(atoll(f.c_str() + pre.size() + 1) - shift) + "]*");
	};
	share(G.lockField, G2.lockField);
	share(G.maskField, G2.maskField);
	share(G.tableField, G2.tableField);
	share(G.plainStored, G2.plainStored);
	for (Function* F : res2.roots)
		if (summary.count(F->getName().str())) {
			std::string n = shortName(demBase(F));
			analyseOne(*F, G2, 1, 1, rules, nullptr, R, n);
			R.counts["functions_analysed_standalone"]++;
			R.notes.push_back("analysed on its own, one event for its callers: " + n);
		}
	for (Function* F : res.roots) {
		analyseOne(*F, G, 1, 0, rules, &summary, R, F->getName().str(), ctorRe);
		R.counts["roots"]++;
	}
	for (auto& g : G.lockField) R.notes.push_back("lock array field " + g);
	for (auto& g : G.maskField) R.notes.push_back("mask field " + g);
	for (auto& g : G.tableField) R.notes.push_back("table field " + g);
	for (auto& g : G.plainStored) R.notes.push_back("ordinary (non atomic) header field " + g);
	return 0;
}
