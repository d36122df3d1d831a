// Public operations of the sequence containers on opaque element and allocator types.
// CONT: 1 devector, 2 tiered_vector, 3 sequence
#include "iters.hpp"
#ifndef ELT
#define ELT El
#endif
#ifndef ALLOC
#define ALLOC Al
#endif
#if CONT == 1
#include <seq/devector.hpp>
#elif CONT == 2
#include <seq/tiered_vector.hpp>
#else
#include <seq/sequence.hpp>
#endif
using namespace vf;
using T = ELT;
using A = ALLOC<T>;
#ifndef TRAITS
#define TRAITS
#endif
#if CONT == 1
using C = seq::devector<T, A>;
#elif CONT == 2
using C = seq::tiered_vector<T, A>;
#else
using C = seq::sequence<T, A>;
#endif
#define W extern "C" __attribute__((used))
using It = C::iterator;
using CIt = C::const_iterator;
using Il = std::initializer_list<T>;

// ---- construction: vf_k_*: arg0 is raw storage
W void vf_k_default(C* c) { new (c) C(); }
W void vf_k_alloc(C* c, const A& a) { new (c) C(a); }
W void vf_k_count(C* c, size_t n, const A& a) { new (c) C(n, a); }
W void vf_k_fill(C* c, size_t n, const T& v, const A& a) { new (c) C(n, v, a); }
W void vf_k_range(C* c, InIt<T>& b, InIt<T>& e, const A& a) { new (c) C(b, e, a); }
W void vf_k_rrange(C* c, RaIt<T>& b, RaIt<T>& e, const A& a) { new (c) C(b, e, a); }
W void vf_k_copy(C* c, const C& o) { new (c) C(o); }
W void vf_k_copy_a(C* c, const C& o, const A& a) { new (c) C(o, a); }
W void vf_k_move(C* c, C& o) { new (c) C(std::move(o)); }
W void vf_k_move_a(C* c, C& o, const A& a) { new (c) C(std::move(o), a); }
W void vf_k_il(C* c, Il l, const A& a) { new (c) C(l, a); }
W void vf_dtor(C& c) { c.~C(); }
// ---- whole container
W void vf_copy_assign(C& c, const C& o) { c = o; }
W void vf_move_assign(C& c, C& o) { c = std::move(o); }
W void vf_swap(C& c, C& o) { c.swap(o); }
W void vf_clear(C& c) { c.clear(); }
W void vf_resize(C& c, size_t n) { c.resize(n); }
W void vf_resize_v(C& c, size_t n, const T& v) { c.resize(n, v); }
W void vf_resize_front(C& c, size_t n) { c.resize_front(n); }
W void vf_resize_front_v(C& c, size_t n, const T& v) { c.resize_front(n, v); }
W void vf_assign_range(C& c, InIt<T>& b, InIt<T>& e) { c.assign(b, e); }
W void vf_assign_rrange(C& c, RaIt<T>& b, RaIt<T>& e) { c.assign(b, e); }
W void vf_assign_il(C& c, Il l) { c.assign(l); }
W void vf_assign_fill(C& c, size_t n, const T& v) { c.assign(n, v); }
#if CONT != 2
W void vf_shrink(C& c) { c.shrink_to_fit(); }
W void vf_reserve(C& c, size_t n) { c.reserve(n); }
#endif
// ---- modification: vf_m_*
W void vf_m_push_back(C& c, const T& v) { c.push_back(v); }
W void vf_m_push_back_r(C& c, T& v) { c.push_back(std::move(v)); }
W void vf_m_emplace_back(C& c, int i) { c.emplace_back(i); }
W void vf_m_push_front(C& c, const T& v) { c.push_front(v); }
W void vf_m_push_front_r(C& c, T& v) { c.push_front(std::move(v)); }
W void vf_m_emplace_front(C& c, int i) { c.emplace_front(i); }
W void vf_m_pop_back(C& c) { c.pop_back(); }
W void vf_m_pop_front(C& c) { c.pop_front(); }
W void vf_m_erase(C& c, CIt& i) { c.erase(i); }
W void vf_m_erase_range(C& c, CIt& i, CIt& j) { c.erase(i, j); }
#if CONT == 3
W void vf_m_emplace(C& c, int i) { c.emplace(i); }
W void vf_m_insert(C& c, const T& v) { c.insert(v); }
W void vf_m_insert_r(C& c, T& v) { c.insert(std::move(v)); }
W void vf_m_emplace_back_iter(C& c, int i) { c.emplace_back_iter(i); }
W void vf_m_emplace_front_iter(C& c, int i) { c.emplace_front_iter(i); }
W void vf_sort(C& c, Less& l) { c.sort(l); }
#else
W void vf_m_emplace(C& c, CIt& p, int i) { c.emplace(p, i); }
W void vf_m_insert(C& c, CIt& p, const T& v) { c.insert(p, v); }
W void vf_m_insert_r(C& c, CIt& p, T& v) { c.insert(p, std::move(v)); }
W void vf_m_insert_range(C& c, CIt& p, InIt<T>& b, InIt<T>& e) { c.insert(p, b, e); }
W void vf_m_insert_rrange(C& c, CIt& p, RaIt<T>& b, RaIt<T>& e) { c.insert(p, b, e); }
W void vf_m_insert_fill(C& c, CIt& p, size_t n, const T& v) { c.insert(p, n, v); }
W void vf_m_insert_il(C& c, CIt& p, Il l) { c.insert(p, l); }
#endif
#if CONT == 1
W void vf_m_reserve_back(C& c, size_t n) { c.reserve_back(n); }
W void vf_m_reserve_front(C& c, size_t n) { c.reserve_front(n); }
#endif
#if CONT == 2
W void vf_m_insert_pos(C& c, size_t p, const T& v) { c.insert(p, v); }
W void vf_m_insert_pos_r(C& c, size_t p, T& v) { c.insert(p, std::move(v)); }
W void vf_m_emplace_pos(C& c, size_t p, int i) { c.emplace(p, i); }
W void vf_m_erase_pos(C& c, size_t p) { c.erase(p); }
W void vf_m_erase_pos_range(C& c, size_t p, size_t q) { c.erase(p, q); }
W void vf_m_insert_pos_range(C& c, size_t p, RaIt<T>& b, RaIt<T>& e) { c.insert(p, b, e); }
W void vf_for_each(C& c, size_t b, size_t e, Vis& f) { c.for_each(b, e, f); }
#endif
// ---- reading: vf_c_*: the container is const
W size_t vf_c_size(const C& c) { return c.size(); }
W bool vf_c_empty(const C& c) { return c.empty(); }
W const T& vf_c_front(const C& c) { return c.front(); }
W const T& vf_c_back(const C& c) { return c.back(); }
W size_t vf_c_max_size(const C& c) { return c.max_size(); }
W void vf_c_alloc(const C& c, A* out) { *out = c.get_allocator(); }
W void vf_c_iterate(const C& c, CVis& f) { for (auto it = c.begin(); it != c.end(); ++it) f(*it); }
W void vf_c_riterate(const C& c, CVis& f) { for (auto it = c.rbegin(); it != c.rend(); ++it) f(*it); }
#if CONT != 3
W const T& vf_c_index(const C& c, size_t p) { return c[p]; }
W const T& vf_at_c(const C& c, size_t p) { return c.at(p); }
W T& vf_at(C& c, size_t p) { return c.at(p); }
W T& vf_index(C& c, size_t p) { return c[p]; }
W std::ptrdiff_t vf_c_distance(const CIt& a, const CIt& b) { return b - a; }
#endif
#if CONT != 2
W size_t vf_c_capacity(const C& c) { return c.capacity(); }
#endif
#if CONT == 3
W size_t vf_c_footprint(const C& c) { return c.memory_footprint(); }
#endif
#if CONT != 1
W void vf_c_iterator_at(const C& c, size_t p, CIt* o) { new (o) CIt(c.iterator_at(p)); }
#endif
#if CONT == 2
W void vf_c_for_each(const C& c, size_t b, size_t e, CVis& f) { c.for_each(b, e, f); }
W size_t vf_c_bucket_size(const C& c) { return c.bucket_size(); }
#endif
#if CONT == 1
W size_t vf_c_back_capacity(const C& c) { return c.back_capacity(); }
W size_t vf_c_front_capacity(const C& c) { return c.front_capacity(); }
W const T* vf_c_data(const C& c) { return c.data(); }
#endif
#if CONT != 3
W void vf_c_jump(const C& c, size_t n, CVis& f) { auto it = c.begin(); it += n; f(*it); it -= 2; f(*it); --it; f(it[3]); f(*(it + 1)); f(*(it - 1)); }
#endif
W void vf_c_crange(const C& c, CVis& f) { for (auto it = c.cbegin(); it != c.cend(); it++) f(*it); for (auto it = c.cend(); it != c.cbegin();) f(*--it); for (auto it = c.crbegin(); it != c.crend(); it++) f(*it); }
