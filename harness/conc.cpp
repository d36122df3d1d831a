// Public operations of concurrent_set (default) or concurrent_map (-DMAP), every user type opaque.
#define VF_KEEP_FUNCS 1
#include "vf.hpp"
#include <execution>
#include <algorithm>
namespace vf {
struct Pol {}; // stands for an execution policy; the algorithms themselves are taken to be sequential
struct CInp { // opaque input iterator
	using iterator_category = std::input_iterator_tag;
	using value_type = int;
	using difference_type = std::ptrdiff_t;
	using pointer = const int*;
	using reference = const int&;
	std::uint64_t p;
	const int& operator*() const;
	CInp& operator++();
	bool operator==(const CInp&) const;
	bool operator!=(const CInp&) const;
};
}
template<> struct __pstl::execution::is_execution_policy<vf::Pol> : std::true_type {};
namespace std {
template<class It, class F> void for_each(vf::Pol&&, It b, It e, F f) { for (; b != e; ++b) f(*b); }
template<class It, class F> void for_each(vf::Pol&, It b, It e, F f) { for (; b != e; ++b) f(*b); }
}
#include <seq/concurrent_map.hpp>
using namespace vf;
#ifndef SHARDS
#define SHARDS seq::low_concurrency_shared
#endif
#ifndef ELT
#define ELT El
#endif
#ifndef ALLOC
#define ALLOC Al
#endif
#define W extern "C" __attribute__((used))
#ifdef MAP
using V = std::pair<ELT, Map>;
using S = seq::concurrent_map<ELT, Map, Hash, Eq, ALLOC<V>, SHARDS>;
#else
using V = ELT;
using S = seq::concurrent_set<ELT, Hash, Eq, ALLOC<V>, SHARDS>;
#endif
// in every group: the analysis learns the layout of the table from it
W bool vf_contains(const S& s, const ELT& k) { return s.contains(k); }
#if !defined(GROUP) || GROUP == 2 || GROUP >= 6 // 6, 7, 8 (as 1, 5, 4): with the destructor, which tells what the table owns
W void vf_dtor(S& s) { s.~S(); }
#endif
// ---- group A: single element operations
#if !defined(GROUP) || GROUP == 1 || GROUP == 6
W size_t vf_c_visit(const S& s, const ELT& k, CVis& v) { return s.visit(k, v); }
W size_t vf_m_visit(S& s, const ELT& k, Vis& v) { return s.visit(k, v); }
W size_t vf_cvisit(S& s, const ELT& k, CVis& v) { return s.cvisit(k, v); }
W size_t vf_count(const S& s, const ELT& k) { return s.count(k); }
W size_t vf_erase(S& s, const ELT& k) { return s.erase(k); }
W size_t vf_erase_f(S& s, const ELT& k, CVis& v) { return s.erase_if(k, v); }
W bool vf_insert(S& s, const V& k) { return s.insert(k); }
W bool vf_insert_r(S& s, V& k) { return s.insert(std::move(k)); }
W bool vf_insert_or_visit(S& s, const V& k, Vis& v) { return s.insert_or_visit(k, v); }
W bool vf_insert_or_cvisit(S& s, const V& k, CVis& v) { return s.insert_or_cvisit(k, v); }
#ifdef MAP
W bool vf_emplace(S& s, const ELT& k, int i) { return s.emplace(k, i); }
W bool vf_emplace_or_visit(S& s, const ELT& k, int i, Vis& v) { return s.emplace_or_visit(k, i, v); }
W bool vf_try_emplace(S& s, const ELT& k, int i) { return s.try_emplace(k, i); }
W bool vf_try_emplace_or_visit(S& s, const ELT& k, int i, Vis& v) { return s.try_emplace_or_visit(k, i, v); }
W bool vf_try_emplace_or_cvisit(S& s, const ELT& k, int i, CVis& v) { return s.try_emplace_or_cvisit(k, i, v); }
W bool vf_insert_or_assign(S& s, const ELT& k, const Map& m) { return s.insert_or_assign(k, m); }
#else
W bool vf_emplace(S& s, int k) { return s.emplace(k); }
W bool vf_emplace_or_visit(S& s, int k, Vis& v) { return s.emplace_or_visit(k, v); }
W bool vf_emplace_or_cvisit(S& s, int k, CVis& v) { return s.emplace_or_cvisit(k, v); }
#endif
#endif
// ---- group B: whole container operations
#if !defined(GROUP) || GROUP == 2
W bool vf_visit_all(S& s, Vis& v) { return s.visit_all(v); }
W bool vf_visit_all_c(const S& s, CVis& v) { return s.visit_all(v); }
W bool vf_cvisit_all(const S& s, CVis& v) { return s.cvisit_all(v); }
W size_t vf_erase_if(S& s, CVis& v) { return s.erase_if(v); }
W void vf_clear(S& s) { s.clear(); }
W void vf_reserve(S& s, size_t n) { s.reserve(n); }
W void vf_rehash(S& s, size_t n) { s.rehash(n); }
W size_t vf_size(const S& s) { return s.size(); }
W float vf_load(const S& s) { return s.load_factor(); }
W float vf_max_load(const S& s) { return s.max_load_factor(); }
W void vf_alloc(const S& s, ALLOC<V>* out) { *out = s.get_allocator(); }
W void vf_swap(S& s, S& o) { s.swap(o); }
W void vf_move_assign(S& s, S& o) { s = std::move(o); }
W bool vf_eq(S& s, S& o) { return s == o; }
#ifndef MAP
W void vf_insert_range(S& s, CInp& b, CInp& e) { s.insert(b, e); }
#endif
#endif
#if !defined(GROUP) || GROUP == 3
W size_t vf_merge(S& s, S& o) { return s.merge(o); }
W void vf_copy_assign(S& s, const S& o) { s = o; }
#endif
// ---- copies: the new container is not visible to other threads yet
#if !defined(GROUP) || GROUP == 5 || GROUP == 7
W void vf_k_copy(S* s, const S& o) { new (s) S(o); }
W void vf_k_copy_a(S* s, const S& o, const ALLOC<V>& a) { new (s) S(o, a); }
W void vf_k_move(S* s, S& o) { new (s) S(std::move(o)); }
W void vf_k_move_a(S* s, S& o, const ALLOC<V>& a) { new (s) S(std::move(o), a); }
#endif
// ---- group C: operations taking an execution policy
#if !defined(GROUP) || GROUP == 4 || GROUP == 8
W bool vf_p_visit_all(S& s, Vis& v) { return s.visit_all(Pol{}, v); }
W bool vf_p_cvisit_all(const S& s, CVis& v) { return s.cvisit_all(Pol{}, v); }
W size_t vf_p_erase_if(S& s, CVis& v) { return s.erase_if(Pol{}, v); }
#endif
