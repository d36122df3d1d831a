// C04: the lock primitives implement mutual exclusion. Every atomic operation on the lock word, on every path of every primitive, is classified by its
// effect (bits set, cleared, added) and by what the path knows about the previous value; the classification is checked against the invariant
//   word = exclusive bits (while held exclusively) + hints + unit * (holders in shared mode and those who are just trying)
#include "common.h"
#include "llvm/IR/CFG.h"

namespace {
typedef uint64_t u64;
struct Op {
	const Instruction* I;
	enum K { Load, Store, Set, Add, And, Or, Xor, Xchg, Other, CasFail } k;
	u64 c = 0;        // operand
	bool cknown = true;
	u64 Z = 0, O = 0; // bits of the previous value known to be zero, one
	AtomicOrdering ord = AtomicOrdering::NotAtomic;
};
struct Val { enum { U, C, V, VAdd, Expr } k = U; u64 c = 0; int op = -1; const Value* e = nullptr; };
struct State {
	const BasicBlock *bb = nullptr, *pred = nullptr;
	std::map<const Value*, Val> env;
	std::vector<Op> ops;
	std::map<const BasicBlock*, int> visits;
};
struct Path { std::vector<Op> ops; int ret = -1; const Instruction* end = nullptr; };
bool acq(AtomicOrdering o) { return isAtLeastOrStrongerThan(o, AtomicOrdering::Acquire); }
bool rel(AtomicOrdering o) { return isAtLeastOrStrongerThan(o, AtomicOrdering::Release); }

struct Explorer {
	Function& F;
	unsigned bits = 0;
	u64 mask = 0;
	std::vector<Path> paths;
	unsigned steps = 0;
	bool overflow = false;
	explicit Explorer(Function& f) : F(f) {}
	bool word(const Value* p) const
	{
		p = p->stripPointerCasts();
		if (auto* g = dyn_cast<GEPOperator>(p)) if (g->hasAllZeroIndices()) return word(g->getPointerOperand());
		return p == F.getArg(0);
	}
	Val eval(State& s, const Value* v)
	{
		if (auto* c = dyn_cast<ConstantInt>(v)) { Val r; r.k = Val::C; r.c = c->getZExtValue(); return r; }
		auto it = s.env.find(v);
		if (it != s.env.end()) return it->second;
		return Val();
	}
	u64 Z(State& s, const Val& v) { return v.k == Val::C ? ~v.c : v.k == Val::V ? s.ops[v.op].Z | ~mask : 0; }
	u64 O(State& s, const Val& v) { return v.k == Val::C ? v.c : v.k == Val::V ? s.ops[v.op].O : 0; }
	// truth of an i1: -1 unknown
	// masked view of an atomic value: (v & m)
	bool masked(State& s, const Value* v, int& op, u64& m)
	{
		Val e = eval(s, v);
		if (e.k == Val::V) { op = e.op; m = mask; return true; }
		if (e.k == Val::Expr) return masked(s, e.e, op, m);
		if (auto* b = dyn_cast<BinaryOperator>(v)) if (b->getOpcode() == Instruction::And) if (auto* c = dyn_cast<ConstantInt>(b->getOperand(1))) if (masked(s, b->getOperand(0), op, m)) { m &= c->getZExtValue(); return true; }
		if (auto* c = dyn_cast<CastInst>(v)) if (isa<ZExtInst>(c) || isa<TruncInst>(c)) if (masked(s, c->getOperand(0), op, m)) { unsigned w = c->getType()->getIntegerBitWidth(); if (w < 64) m &= (u64(1) << w) - 1; return true; }
		if (auto* f = dyn_cast<FreezeInst>(v)) return masked(s, f->getOperand(0), op, m);
		return false;
	}
	// restrict s to v == b; false: impossible. Conditions it does not understand leave s as it is.
	bool assume(State& s, const Value* v, bool b)
	{
		if (auto* c = dyn_cast<ConstantInt>(v)) return c->isOne() == b;
		Val e = eval(s, v);
		if (e.k == Val::C) return ((e.c & 1) != 0) == b;
		if (e.k == Val::Expr) return assume(s, e.e, b);
		if (auto* f = dyn_cast<FreezeInst>(v)) return assume(s, f->getOperand(0), b);
		if (auto* x = dyn_cast<BinaryOperator>(v)) {
			if (x->getOpcode() == Instruction::Xor) if (auto* c = dyn_cast<ConstantInt>(x->getOperand(1))) return assume(s, x->getOperand(0), b != (c->isOne()));
			if (x->getOpcode() == Instruction::And && b) return assume(s, x->getOperand(0), true) && assume(s, x->getOperand(1), true);
			if (x->getOpcode() == Instruction::Or && !b) return assume(s, x->getOperand(0), false) && assume(s, x->getOperand(1), false);
		}
		if (auto* q = dyn_cast<ICmpInst>(v)) {
			int op; u64 m;
			auto* c = dyn_cast<ConstantInt>(q->getOperand(1));
			if (c && masked(s, q->getOperand(0), op, m)) {
				u64 k = c->getZExtValue();
				auto p = q->getPredicate();
				if (p == CmpInst::ICMP_NE) { p = CmpInst::ICMP_EQ; b = !b; }
				else if (p == CmpInst::ICMP_UGE) { p = CmpInst::ICMP_ULT; b = !b; }
				else if (p == CmpInst::ICMP_UGT) { if (k == ~u64(0)) return true; p = CmpInst::ICMP_ULT; k++; b = !b; }
				else if (p == CmpInst::ICMP_ULE) { p = CmpInst::ICMP_ULT; k++; }
				else if (p == CmpInst::ICMP_SGT && c->isMinusOne()) { p = CmpInst::ICMP_EQ; k = 0; m &= u64(1) << (c->getBitWidth() - 1); }
				else if (p == CmpInst::ICMP_SLT && c->isZero()) { p = CmpInst::ICMP_EQ; k = 0; m &= u64(1) << (c->getBitWidth() - 1); b = !b; }
				Op& o = s.ops[op];
				if (p == CmpInst::ICMP_EQ) {
					if (k & ~m) return !b;
					if (b) { if ((k & o.Z) || ((m & ~k) & o.O)) return false; o.O |= k; o.Z |= m & ~k; return true; }
					if ((o.Z | o.O) & m) { u64 known = (o.Z | o.O) & m; if (known == m && (o.O & m) == k) return false; }
					if (m && !(m & (m - 1))) { if (k) o.Z |= m; else o.O |= m; }
					return true;
				}
				if (p == CmpInst::ICMP_ULT && k && !(k & (k - 1))) {
					u64 hi = m & ~(k - 1);
					if (b) { if (hi & o.O) return false; o.Z |= hi; }
					else if ((o.Z & hi) == hi) return false;
					return true;
				}
				return true;
			}
			Val a = eval(s, q->getOperand(0)), d = eval(s, q->getOperand(1));
			if (a.k == Val::C && d.k == Val::C && q->isEquality()) return (a.c == d.c) == ((q->getPredicate() == CmpInst::ICMP_EQ) == b);
			return true;
		}
		if (auto* t = dyn_cast<TruncInst>(v)) {
			int op; u64 m;
			if (masked(s, t, op, m)) { Op& o = s.ops[op]; if (b) { if (o.Z & 1) return false; o.O |= 1; } else { if (o.O & 1) return false; o.Z |= 1; } }
			return true;
		}
		return true;
	}
	// all ways v can be b, forking where a disjunction needs it
	void split(State s, const Value* v, bool b, std::vector<State>& out, int depth = 0)
	{
		if (depth < 8) {
			Val e = eval(s, v);
			if (e.k == Val::Expr) return split(s, e.e, b, out, depth + 1);
			if (auto* x = dyn_cast<BinaryOperator>(v)) {
				if (x->getOpcode() == Instruction::Xor) if (auto* c = dyn_cast<ConstantInt>(x->getOperand(1))) if (x->getType()->isIntegerTy(1)) return split(s, x->getOperand(0), b != c->isOne(), out, depth + 1);
				if (x->getType()->isIntegerTy(1) && ((x->getOpcode() == Instruction::And && !b) || (x->getOpcode() == Instruction::Or && b))) {
					bool w = x->getOpcode() == Instruction::Or;
					split(s, x->getOperand(0), w, out, depth + 1);
					std::vector<State> t;
					split(s, x->getOperand(0), !w, t, depth + 1);
					for (auto& u : t) split(u, x->getOperand(1), w, out, depth + 1);
					return;
				}
			}
			if (auto* q = dyn_cast<SelectInst>(v)) if (q->getType()->isIntegerTy(1)) {
				for (int k = 0; k < 2; ++k) {
					std::vector<State> t;
					split(s, q->getCondition(), k, t, depth + 1);
					for (auto& u : t) split(u, k ? q->getTrueValue() : q->getFalseValue(), b, out, depth + 1);
				}
				return;
			}
		}
		if (assume(s, v, b)) out.push_back(s);
	}
	void run()
	{
		State s;
		s.bb = &F.getEntryBlock();
		std::vector<State> work{ s };
		while (!work.empty()) {
			State t = std::move(work.back());
			work.pop_back();
			if (++steps > 20000) { overflow = true; return; }
			if (++t.visits[t.bb] > 4) continue;
			block(std::move(t), work);
		}
	}
	void block(State s, std::vector<State>& work)
	{
		std::vector<std::pair<const Value*, Val>> phis;
		for (auto& P : s.bb->phis()) {
			const Value* in = s.pred ? P.getIncomingValueForBlock(s.pred) : nullptr;
			Val v = in ? eval(s, in) : Val();
			if (v.k == Val::U && in && !isa<PHINode>(in)) { v.k = Val::Expr; v.e = in; }
			phis.push_back({ &P, v });
		}
		for (auto& p : phis) s.env[p.first] = p.second;
		std::vector<State> cur{ s };
		for (auto& I : *s.bb) {
			if (isa<PHINode>(I)) continue;
			std::vector<State> next;
			for (auto& t : cur) instr(std::move(t), I, next, work);
			cur = std::move(next);
		}
	}
	void record(State& t, const Instruction& I, Op o, bool value = true)
	{
		o.I = &I;
		t.ops.push_back(o);
		if (value) { Val v; v.k = Val::V; v.op = (int)t.ops.size() - 1; t.env[&I] = v; }
	}
	void instr(State t, const Instruction& I, std::vector<State>& next, std::vector<State>& work)
	{
		auto width = [&](Type* T) { unsigned b = T->isIntegerTy() ? T->getIntegerBitWidth() : 64; if (b > bits) { bits = b; mask = b >= 64 ? ~u64(0) : (u64(1) << b) - 1; } };
		if (auto* L = dyn_cast<LoadInst>(&I)) {
			if (word(L->getPointerOperand())) { width(L->getType()); Op o; o.k = Op::Load; o.ord = L->getOrdering(); record(t, I, o); }
			next.push_back(std::move(t));
			return;
		}
		if (auto* S = dyn_cast<StoreInst>(&I)) {
			if (word(S->getPointerOperand())) {
				width(S->getValueOperand()->getType());
				Op o; o.k = Op::Store; o.ord = S->getOrdering();
				Val v = eval(t, S->getValueOperand());
				o.cknown = v.k == Val::C; o.c = v.c;
				record(t, I, o, false);
			}
			next.push_back(std::move(t));
			return;
		}
		if (auto* X = dyn_cast<AtomicRMWInst>(&I)) {
			if (word(X->getPointerOperand())) {
				width(X->getType());
				Op o; o.ord = X->getOrdering();
				Val v = eval(t, X->getValOperand());
				o.cknown = v.k == Val::C; o.c = v.c & mask;
				switch (X->getOperation()) {
					case AtomicRMWInst::Xchg: o.k = Op::Xchg; break;
					case AtomicRMWInst::Add: o.k = Op::Add; break;
					case AtomicRMWInst::Sub: o.k = Op::Add; o.c = (0 - v.c) & mask; break;
					case AtomicRMWInst::And: o.k = Op::And; break;
					case AtomicRMWInst::Or: o.k = Op::Or; break;
					case AtomicRMWInst::Xor: o.k = Op::Xor; break;
					default: o.k = Op::Other;
				}
				record(t, I, o);
			}
			next.push_back(std::move(t));
			return;
		}
		if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) {
			if (word(X->getPointerOperand())) {
				width(X->getCompareOperand()->getType());
				Val e = eval(t, X->getCompareOperand()), n = eval(t, X->getNewValOperand());
				for (int ok = 0; ok < 2; ++ok) {
					State u = t;
					Op o; o.ord = ok ? X->getSuccessOrdering() : X->getFailureOrdering();
					if (!ok) o.k = Op::CasFail;
					else {
						o.k = Op::Set;
						o.Z = Z(u, e); o.O = O(u, e);
						o.cknown = n.k == Val::C; o.c = n.c;
						if (n.k == Val::VAdd && e.k == Val::V && n.op == e.op) { o.k = Op::Add; o.cknown = true; o.c = n.c & mask; }
						o.Z &= mask; o.O &= mask;
					}
					o.I = &I;
					u.ops.push_back(o);
					int id = (int)u.ops.size() - 1;
					for (auto* us : I.users())
						if (auto* x = dyn_cast<ExtractValueInst>(us)) {
							Val v;
							if (x->getIndices()[0] == 1) { v.k = Val::C; v.c = ok; }
							else { v.k = Val::V; v.op = id; }
							u.env[x] = v;
						}
					next.push_back(std::move(u));
				}
				return;
			}
			next.push_back(std::move(t));
			return;
		}
		if (isa<ExtractValueInst>(&I)) { next.push_back(std::move(t)); return; } // set above, or unknown
		if (auto* b = dyn_cast<BinaryOperator>(&I)) {
			t.env.erase(&I);
			Val a = eval(t, b->getOperand(0)), c = eval(t, b->getOperand(1));
			Val r;
			if (a.k == Val::C && c.k == Val::C) {
				r.k = Val::C;
				switch (b->getOpcode()) {
					case Instruction::Add: r.c = a.c + c.c; break;
					case Instruction::Sub: r.c = a.c - c.c; break;
					case Instruction::And: r.c = a.c & c.c; break;
					case Instruction::Or: r.c = a.c | c.c; break;
					case Instruction::Xor: r.c = a.c ^ c.c; break;
					default: r.k = Val::U;
				}
			}
			else if (b->getOpcode() == Instruction::Add && a.k == Val::V && c.k == Val::C) { r.k = Val::VAdd; r.op = a.op; r.c = c.c; }
			if (r.k != Val::U) t.env[&I] = r;
			next.push_back(std::move(t));
			return;
		}
		if (auto* q = dyn_cast<SelectInst>(&I)) {
			t.env.erase(&I);
			if (!q->getType()->isIntegerTy(1)) {
				for (int k = 0; k < 2; ++k) {
					std::vector<State> u;
					split(t, q->getCondition(), k, u);
					for (auto& w : u) { Val v = eval(w, k ? q->getTrueValue() : q->getFalseValue()); if (v.k != Val::U) w.env[&I] = v; next.push_back(w); }
				}
				return;
			}
			next.push_back(std::move(t));
			return;
		}
		if (isa<CastInst>(&I) || isa<FreezeInst>(&I)) {
			t.env.erase(&I);
			Val a = eval(t, I.getOperand(0));
			if (a.k == Val::C || isa<FreezeInst>(&I)) t.env[&I] = a;
			next.push_back(std::move(t));
			return;
		}
		if (auto* R = dyn_cast<ReturnInst>(&I)) {
			const Value* v = R->getReturnValue();
			if (!v || !v->getType()->isIntegerTy()) { paths.push_back({ t.ops, -1, &I }); return; }
			while (isa<ZExtInst>(v) && cast<ZExtInst>(v)->getOperand(0)->getType()->isIntegerTy(1)) v = cast<ZExtInst>(v)->getOperand(0);
			for (int k = 0; k < 2; ++k) {
				std::vector<State> u;
				split(t, v, k, u);
				for (auto& w : u) paths.push_back({ w.ops, k, &I });
			}
			return;
		}
		if (auto* B = dyn_cast<BranchInst>(&I)) {
			for (unsigned k = 0; k < B->getNumSuccessors(); ++k) {
				std::vector<State> u;
				if (B->isConditional()) split(t, B->getCondition(), k == 0, u);
				else u.push_back(t);
				for (auto& w : u) { w.pred = B->getParent(); w.bb = B->getSuccessor(k); work.push_back(std::move(w)); }
			}
			return;
		}
		if (I.isTerminator()) { // switch, invoke: every way
			if (auto* S = dyn_cast<SwitchInst>(&I)) {
				int op; u64 m;
				bool known = masked(t, S->getCondition(), op, m);
				for (auto& c : S->cases()) {
					State w = t;
					if (known) { u64 k = c.getCaseValue()->getZExtValue(); Op& o = w.ops[op]; if ((k & ~m) || (k & o.Z) || ((m & ~k) & o.O)) continue; o.O |= k; o.Z |= m & ~k; }
					w.pred = I.getParent(); w.bb = c.getCaseSuccessor(); work.push_back(std::move(w));
				}
				t.pred = I.getParent(); t.bb = S->getDefaultDest(); work.push_back(std::move(t));
				return;
			}
			if (isa<ResumeInst>(&I)) { paths.push_back({ t.ops, -2, &I }); return; }
			for (auto* b : successors(&I)) { State w = t; w.pred = I.getParent(); w.bb = b; work.push_back(std::move(w)); }
			return;
		}
		next.push_back(std::move(t));
	}
};
std::string hex(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
}

int runLockWord(Module& M, const std::vector<std::string>&, Report& R)
{
	PrepOptions o;
	o.roots = "^vf_lk_";
	o.loops = false;
	auto res = prepare(M, o);
	for (auto& r : res.residual) R.notes.push_back("not inlined: " + r);
	std::map<std::string, std::unique_ptr<Explorer>> E;
	unsigned bits = 0;
	bool dbg = getenv("VF_DBG");
	for (Function* F : res.roots) {
		std::string n = F->getName().str().substr(6);
		auto& e = E[n] = std::make_unique<Explorer>(*F);
		e->run();
		if (e->overflow) R.notes.push_back("budget exhausted: " + n);
		bits = std::max(bits, e->bits);
		R.counts["roots"]++;
		R.counts["paths"] += e->paths.size();
		if (dbg) for (auto& p : e->paths) {
			errs() << n << " ret=" << p.ret << ":";
			for (auto& x : p.ops) { static const char* k[] = { "load", "store", "set", "add", "and", "or", "xor", "xchg", "other", "casfail" }; errs() << "  " << k[x.k] << (x.cknown ? " " + hex(x.c) : " ?") << " Z=" << hex(x.Z) << " O=" << hex(x.O); }
			errs() << "\n";
		}
	}
	u64 mask = bits >= 64 ? ~u64(0) : (u64(1) << bits) - 1;
	auto shared = [](const std::string& n) { return n.find("shared") != std::string::npos; };
	auto unlock = [](const std::string& n) { return n.rfind("unlock", 0) == 0; };
	auto query = [](const std::string& n) { return n.rfind("q_", 0) == 0 || n == "ctor"; };
	auto bad = [&](const std::string& n, const Instruction* I, const std::string& m) { R.violation("vf_lk_" + n, "C04", srcLoc(I), n + "(): " + m); };
	// an operation which changes the word
	auto writes = [](const Op& x) { return x.k != Op::Load && x.k != Op::CasFail; };
	u64 W = 0, unit = 0, hints = 0;
	// the acquisition of a path: the last operation which may be one
	struct Acq { std::string n; const Path* p; int op; };
	std::vector<Acq> ex, sh;
	// 1. which bits stand for what: from the exclusive and the shared acquisitions
	for (int pass = 0; pass < 2; ++pass)
		for (auto& e : E) {
			if (unlock(e.first) || query(e.first) || shared(e.first) != (pass == 1)) continue;
			unsigned acquired = 0;
			for (auto& p : e.second->paths) {
				if (p.ret == 0) continue;
				if (p.ret == -2) { bad(e.first, p.end, "may leave by an exception"); continue; }
				int a = -1;
				for (int i = 0; i < (int)p.ops.size(); ++i) {
					auto& x = p.ops[i];
					if (x.k == Op::Set || x.k == Op::Xchg || (x.k == Op::Add && pass == 1 && x.c && !(x.c & (x.c - 1)))) a = i; // the last one
				}
				if (a < 0) { bad(e.first, p.end, "returns as if the lock had been taken, on a path without any operation that takes it"); continue; }
				acquired++;
				auto& x = p.ops[a];
				(pass == 0 || x.k != Op::Add ? ex : sh).push_back({ e.first, &p, a });
				if (x.k == Op::Add) {
					if (unit && unit != x.c) bad(e.first, x.I, "shared holders are counted in different units");
					unit = x.c;
				}
				else if (x.cknown) W |= x.c;
				else R.notes.push_back(e.first + ": takes the lock with a value that is not known");
			}
			if (!acquired) bad(e.first, &*e.second->F.begin()->begin(), "never takes the lock");
		}
	R.counts["acquisitions"] += ex.size() + sh.size();
	u64 low = unit ? unit - 1 : mask; // bits below the count of shared holders
	u64 count = mask & ~low;
	if (unit && (W & count)) { R.violation("vf_lk_lock", "C04", "", "exclusive holders are marked with bits " + hex(W) + " which belong to the count of shared holders (unit " + hex(unit) + ")"); }
	// hints: bits set by those who wait
	for (auto& e : E)
		if (!unlock(e.first) && !query(e.first))
			for (auto& p : e.second->paths)
				for (auto& x : p.ops) if (x.k == Op::Or) hints |= x.c;
	std::set<u64> accepted;
	for (auto& a : ex) {
		auto& x = a.p->ops[a.op];
		u64 known = x.Z | x.O;
		if (x.O & W & ~hints) bad(a.n, x.I, "takes the lock exclusively from a value which says that it is held exclusively");
		else if ((x.Z & W) != W) bad(a.n, x.I, "takes the lock exclusively although it may be held exclusively: nothing on this path says that bits " + hex(W & ~x.Z) + " were clear");
		else if (unit && ((x.Z & count) != count)) bad(a.n, x.I, "takes the lock exclusively although it may be held in shared mode: nothing on this path says that bits " + hex(count & ~x.Z) + " were clear");
		if (!acq(x.ord)) bad(a.n, x.I, "takes the lock with an operation that does not acquire");
		if (x.cknown && !(x.c & W)) bad(a.n, x.I, "does not mark the lock as held");
		if (x.k == Op::Xchg && unit) bad(a.n, x.I, "overwrites the count of shared holders");
		accepted.insert(x.O & known);
	}
	for (auto& a : sh) {
		auto& x = a.p->ops[a.op];
		if ((x.Z & W) != W) bad(a.n, x.I, "takes the lock in shared mode although it may be held exclusively: nothing on this path says that bits " + hex(W & ~x.Z) + " were clear");
		if (!acq(x.ord)) bad(a.n, x.I, "takes the lock in shared mode with an operation that does not acquire");
		if (bits <= 8 && !(x.Z & (u64(1) << (bits - 1)))) bad(a.n, x.I, "the count of shared holders may overflow into nothing: nothing on this path says that the highest bit was clear");
	}
	// 2. everything else on the way keeps the word as it is, but for hints
	for (auto& e : E) {
		if (unlock(e.first) || query(e.first)) continue;
		for (auto& p : e.second->paths) {
			int a = -1;
			for (auto& v : { &ex, &sh }) for (auto& q : *v) if (q.p == &p) a = q.op;
			u64 net = 0;
			const Instruction* last = nullptr;
			for (int i = 0; i < (int)p.ops.size(); ++i) {
				auto& x = p.ops[i];
				if (i == a || !writes(x)) continue;
				R.counts["word_operations"]++;
				last = x.I;
				if (x.k == Op::Add && x.cknown) { net += x.c; if (unit && x.c != unit && ((0 - x.c) & mask) != unit) bad(e.first, x.I, "adds " + hex(x.c) + " to the lock word, which is no unit of shared holders"); else if (!unit) bad(e.first, x.I, "adds to the lock word"); }
				else if (x.k == Op::Or && x.cknown) { if ((x.c & W) || (x.c & count & (unit ? mask : 0))) bad(e.first, x.I, "sets bits " + hex(x.c) + " of the lock word without having taken the lock"); }
				else if (x.k == Op::Xchg && x.cknown && (x.O & x.c) == x.c && !unit) {} // it was already so
				else if (x.k == Op::Xchg && x.cknown && a >= 0) {} // an earlier attempt of the same path: it found the lock held, or it is reported above
				else if (x.k == Op::Xchg && x.cknown && !unit && !(x.Z & W)) {} // result unknown on this path: it failed
				else bad(e.first, x.I, p.ret == 0 ? "changes the lock word although it reports failure" : "changes the lock word in addition to taking the lock");
			}
			if (net & mask) bad(e.first, last, "leaves the count of shared holders changed by " + hex(net & mask) + (p.ret == 0 ? " although it reports failure" : " beyond its own"));
			// a failed attempt which kept what it took
			if (p.ret == 0)
				for (auto& x : p.ops)
					if ((x.k == Op::Set || (x.k == Op::Xchg && (x.Z & W) == W))) bad(e.first, x.I, "reports failure although it has taken the lock");
			// taken twice
			if (a >= 0)
				for (int i = 0; i < a; ++i) if (p.ops[i].k == Op::Set || (p.ops[i].k == Op::Xchg && (p.ops[i].Z & W) == W)) bad(e.first, p.ops[i].I, "takes the lock twice on one path");
		}
	}
	// 3. releases
	u64 clears = 0;
	for (auto& e : E) {
		if (!unlock(e.first)) continue;
		bool s = shared(e.first) && unit;
		for (auto& p : e.second->paths) {
			int n = 0;
			for (auto& x : p.ops) {
				if (!writes(x)) continue;
				R.counts["word_operations"]++;
				n++;
				if (!rel(x.ord)) bad(e.first, x.I, "releases the lock with an operation that does not release");
				if (s) {
					if (x.k != Op::Add || !x.cknown || ((0 - x.c) & mask) != unit) bad(e.first, x.I, "does not take exactly one shared holder off the count");
					continue;
				}
				u64 cl = 0, ch = 0; // bits cleared, other effect
				if (x.k == Op::And && x.cknown) cl = ~x.c & mask;
				else if ((x.k == Op::Store || x.k == Op::Xchg) && x.cknown) { cl = mask & ~x.c; ch = x.c; if (unit) { bad(e.first, x.I, "overwrites the count of those who are trying to take the lock in shared mode"); continue; } }
				else if (x.k == Op::Add && x.cknown && ((0 - x.c) & mask) == W) cl = W;
				else if (x.k == Op::Xor && x.cknown && x.c == W) cl = W;
				else { R.notes.push_back(e.first + ": releases the lock with an operation whose effect is not known"); continue; }
				if (unit && (cl & count)) bad(e.first, x.I, "clears bits " + hex(cl & count) + " of the count of shared holders");
				if ((cl & W) != W) bad(e.first, x.I, "does not clear the mark of exclusive holders " + hex(W));
				if (ch) bad(e.first, x.I, "sets bits " + hex(ch) + " of the lock word");
				clears |= cl;
			}
			if (!n) bad(e.first, p.end, "returns without releasing the lock");
			if (n > 1) bad(e.first, p.end, "releases the lock more than once");
		}
	}
	// 4. hints do not block for ever: exclusive acquisition accepts the word when only hints are set
	if (hints) {
		bool ok = false;
		for (u64 v : accepted) ok |= (v & hints) == hints;
		if (!ok) R.violation("vf_lk_lock", "C04", "", "waiting threads set bits " + hex(hints) + " of the lock word, but no exclusive acquisition accepts a free lock with these bits set: it is never taken again");
	}
	for (auto& e : E)
		if (e.first == "ctor")
			for (auto& p : e.second->paths) {
				bool init = false;
				for (auto& x : p.ops) if (x.k == Op::Store) { init = true; if (!x.cknown || x.c) bad("ctor", x.I, "a new lock is not free"); }
				if (!init) bad("ctor", p.end, "does not initialise the lock word");
			}
	R.counts["exclusive_bits"] = (long)W;
	return 0;
}
