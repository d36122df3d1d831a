// Public operations of the associative containers on opaque user types.
// KIND: 1 flat, 2 ordered, 3 radix, 4 radix_hash; MAP: map variants; MULTI (flat only)
#include "iters.hpp"
#include <functional>
#include <string>
#if KIND == 1
#include <seq/flat_map.hpp>
#elif KIND == 2
#include <seq/ordered_map.hpp>
#elif KIND == 3
#include <seq/radix_map.hpp>
#else
#include <seq/radix_hash_map.hpp>
#endif
#ifndef ELT
#define ELT El
#endif
#ifndef MAPPED
#define MAPPED Map
#endif
#ifndef ALLOC
#define ALLOC Al
#endif
using namespace vf;
namespace vf {
struct Ext { template<class T> std::uint64_t operator()(const T&) const noexcept; };
#if KIND == 3
struct ExtS { template<class T> seq::tstring_view operator()(const T&) const noexcept; };
#endif
}
#ifdef STRKEY
#define EXT ExtS
#else
#define EXT Ext
#endif
using K = ELT;
using FH = KHash<K>;
using FE = KEq<K>;
using FL = KLess<K>;
#ifdef MAP
using M = MAPPED;
using V = std::pair<K, M>;
#else
using V = K;
#endif
using A = ALLOC<V>;
#if KIND == 1 && defined(MAP) && defined(MULTI)
using C = seq::flat_multimap<K, M, FL, A>;
#elif KIND == 1 && defined(MAP)
using C = seq::flat_map<K, M, FL, A>;
#elif KIND == 1 && defined(MULTI)
using C = seq::flat_multiset<K, FL, A>;
#elif KIND == 1
using C = seq::flat_set<K, FL, A>;
#elif KIND == 2 && defined(MAP)
using C = seq::ordered_map<K, M, FH, FE, A>;
#elif KIND == 2
using C = seq::ordered_set<K, FH, FE, A>;
#elif KIND == 3 && defined(MAP)
using C = seq::radix_map<K, M, EXT, A>;
#elif KIND == 3
using C = seq::radix_set<K, EXT, A>;
#elif KIND == 4 && defined(MAP)
using C = seq::radix_hash_map<K, M, FH, FE, A>;
#else
using C = seq::radix_hash_set<K, FH, FE, A>;
#endif
using It = C::iterator;
using CIt = C::const_iterator;
using Il = std::initializer_list<V>;
#define W extern "C" __attribute__((used))

// ---- construction: vf_k_*
W void vf_k_default(C* c) { new (c) C(); }
W void vf_k_alloc(C* c, const A& a) { new (c) C(a); }
#if KIND == 1
W void vf_k_range(C* c, InIt<V>& b, InIt<V>& e, const FL& l, const A& a) { new (c) C(b, e, l, a); }
#elif KIND == 2 || KIND == 4
W void vf_k_funs(C* c, const FH& h, const FE& q, const A& a) { new (c) C(h, q, a); }
W void vf_k_range(C* c, InIt<V>& b, InIt<V>& e, const FH& h, const FE& q, const A& a) { new (c) C(b, e, h, q, a); }
#else
W void vf_k_range(C* c, InIt<V>& b, InIt<V>& e, const A& a) { new (c) C(b, e, a); }
#endif
W void vf_k_range_a(C* c, InIt<V>& b, InIt<V>& e, const A& a) { new (c) C(b, e, a); }
W void vf_k_copy(C* c, const C& o) { new (c) C(o); }
W void vf_k_copy_a(C* c, const C& o, const A& a) { new (c) C(o, a); }
W void vf_k_move(C* c, C& o) { new (c) C(std::move(o)); }
W void vf_k_move_a(C* c, C& o, const A& a) { new (c) C(std::move(o), a); }
W void vf_k_il(C* c, Il l) { new (c) C(l); }
W void vf_dtor(C& c) { c.~C(); }
// ---- whole container
W void vf_copy_assign(C& c, const C& o) { c = o; }
W void vf_move_assign(C& c, C& o) { c = std::move(o); }
W void vf_swap(C& c, C& o) { c.swap(o); }
W void vf_clear(C& c) { c.clear(); }
// ---- modification
W void vf_m_insert(C& c, const V& v) { c.insert(v); }
W void vf_m_insert_r(C& c, V& v) { c.insert(std::move(v)); }
W void vf_m_insert_hint(C& c, CIt& h, const V& v) { c.insert(h, v); }
W void vf_m_insert_hint_r(C& c, CIt& h, V& v) { c.insert(h, std::move(v)); }
W void vf_m_insert_range(C& c, InIt<V>& b, InIt<V>& e) { c.insert(b, e); }
W void vf_m_insert_rrange(C& c, RaIt<V>& b, RaIt<V>& e) { c.insert(b, e); }
W void vf_m_insert_il(C& c, Il l) { c.insert(l); }
W void vf_m_erase(C& c, CIt& i) { c.erase(i); }
W void vf_m_erase_range(C& c, CIt& i, CIt& j) { c.erase(i, j); }
W size_t vf_m_erase_key(C& c, const K& k) { return c.erase(k); }
#ifndef MAP
W void vf_m_emplace(C& c, int i) { c.emplace(i); }
W void vf_m_emplace_hint(C& c, CIt& h, int i) { c.emplace_hint(h, i); }
#else
W void vf_m_emplace(C& c, const K& k, int i) { c.emplace(k, i); }
#if !defined(MULTI)
W void vf_m_try_emplace(C& c, const K& k, int i) { c.try_emplace(k, i); }
W void vf_m_try_emplace_r(C& c, K& k, int i) { c.try_emplace(std::move(k), i); }
W void vf_m_try_emplace_h(C& c, CIt& h, const K& k, int i) { c.try_emplace(h, k, i); }
W void vf_m_insert_or_assign(C& c, const K& k, const M& m) { c.insert_or_assign(k, m); }
W void vf_m_insert_or_assign_r(C& c, K& k, M& m) { c.insert_or_assign(std::move(k), std::move(m)); }
W void vf_m_insert_or_assign_h(C& c, CIt& h, const K& k, const M& m) { c.insert_or_assign(h, k, m); }
W void vf_m_subscript(C& c, const K& k) { c[k]; }
W void vf_m_subscript_r(C& c, K& k) { c[std::move(k)]; }
W M& vf_at(C& c, const K& k) { return c.at(k); }
W const M& vf_at_c(const C& c, const K& k) { return c.at(k); }
#endif
#endif
#if KIND == 1
W void vf_m_insert_pos(C& c, const V& v) { c.insert_pos(v); }
W void vf_m_erase_pos(C& c, size_t p) { c.erase_pos(p); }
W void vf_m_erase_pos2(C& c, size_t p, size_t q) { c.erase(p, q); }
W void vf_m_assign(C& c, InIt<V>& b, InIt<V>& e) { c.assign(b, e); }
#ifndef MULTI
W void vf_m_insert_sorted(C& c, RaIt<V>& b, RaIt<V>& e) { c.insert(seq::sorted_unique_t{}, b, e); }
W void vf_k_il_f(C* c, Il l, const FL& f, const A& a) { new (c) C(l, f, a); }
#endif
#endif
#if KIND == 2
W void vf_m_push_back(C& c, const V& v) { c.push_back(v); }
W void vf_m_push_back_r(C& c, V& v) { c.push_back(std::move(v)); }
W void vf_m_push_front(C& c, const V& v) { c.push_front(v); }
W void vf_m_push_front_r(C& c, V& v) { c.push_front(std::move(v)); }
W void vf_rehash(C& c) { c.rehash(); }
W void vf_rehash_n(C& c, size_t n) { c.rehash(n); }
W void vf_shrink(C& c) { c.shrink_to_fit(); }
W void vf_sequence(C& c) { c.sequence(); }
#endif
#if KIND == 2 || KIND == 4
W void vf_reserve(C& c, size_t n) { c.reserve(n); }
#endif
#if KIND == 3
W void vf_merge(C& c, C& o) { c.merge(o); }
#endif
// ---- reading: vf_c_*
W size_t vf_c_size(const C& c) { return c.size(); }
W bool vf_c_empty(const C& c) { return c.empty(); }
W size_t vf_c_max_size(const C& c) { return c.max_size(); }
W void vf_c_alloc(const C& c, A* o) { *o = c.get_allocator(); }
W void vf_c_find(const C& c, const K& k, CIt* o) { new (o) CIt(c.find(k)); }
W bool vf_c_contains(const C& c, const K& k) { return c.contains(k); }
W size_t vf_c_count(const C& c, const K& k) { return c.count(k); }
W void vf_c_iterate(const C& c, CVis& f) { for (auto it = c.begin(); it != c.end(); ++it) f(*it); }
W bool vf_c_equal(const C& c, const C& o) { return c == o; }
#if KIND != 4
W void vf_c_riterate(const C& c, CVis& f) { for (auto it = c.rbegin(); it != c.rend(); ++it) f(*it); }
#endif
#if KIND == 1 || KIND == 3
W void vf_c_lower(const C& c, const K& k, CIt* o) { new (o) CIt(c.lower_bound(k)); }
W void vf_c_upper(const C& c, const K& k, CIt* o) { new (o) CIt(c.upper_bound(k)); }
W void vf_c_equal_range(const C& c, const K& k, CIt* o) { new (o) CIt(c.equal_range(k).first); }
#endif
#if KIND == 1
W size_t vf_c_find_pos(const C& c, const K& k) { return c.find_pos(k); }
W const V& vf_c_pos(const C& c, size_t i) { return c.pos(i); }
#endif
#if KIND == 2
W float vf_c_load(const C& c) { return c.load_factor(); }
#endif
W void vf_c_crange(const C& c, CVis& f) { for (auto it = c.cbegin(); it != c.cend(); it++) f(*it);
#if KIND != 4
	for (auto it = c.crbegin(); it != c.crend(); it++) f(*it); for (auto it = c.cend(); it != c.cbegin();) f(*--it);
#endif
}
W bool vf_c_nequal(const C& c, const C& o) { return c != o; }
#if KIND == 1
W size_t vf_c_lower_pos(const C& c, const K& k) { return c.lower_bound_pos(k); }
W size_t vf_c_upper_pos(const C& c, const K& k) { return c.upper_bound_pos(k); }
W size_t vf_c_equal_range_pos(const C& c, const K& k) { auto p = c.equal_range_pos(k); return p.first ^ p.second; }
W void vf_c_key_comp(const C& c, FL* o) { new (o) FL(c.key_comp()); }
#endif
#if KIND == 2 || KIND == 4
W void vf_c_hash_function(const C& c, FH* o) { new (o) FH(c.hash_function()); }
W void vf_c_key_eq(const C& c, FE* o) { new (o) FE(c.key_eq()); }
W float vf_c_max_load(const C& c) { return c.max_load_factor(); }
#endif
#if KIND == 2
W const void* vf_c_sequence(const C& c) { return &c.sequence(); }
W const void* vf_c_csequence(const C& c) { return &c.csequence(); }
W size_t vf_c_max_probe(const C& c) { return (size_t)c.max_probe_distance(); }
#endif
#if KIND == 3
W const V* vf_c_find_ptr(const C& c, const K& k) { return c.find_ptr(k); }
#ifdef STRKEY
W void vf_c_prefix(const C& c, const K& k, CIt* o) { new (o) CIt(c.prefix(k)); }
W void vf_c_prefix_range(const C& c, const K& k, CVis& f) { auto p = c.prefix_range(k); for (auto it = p.first; it != p.second; ++it) f(*it); }
#endif
#endif
