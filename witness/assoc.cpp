// Members of the associative containers: KIND 1 flat, 2 ordered, 3 radix, 4 radix_hash, 5 concurrent; MAP; MULTI (flat); ELEM: key type
#include "wit.hpp"
#include <functional>
#if KIND == 1
#include <seq/flat_map.hpp>
#elif KIND == 2
#include <seq/ordered_map.hpp>
#elif KIND == 3
#include <seq/radix_map.hpp>
#elif KIND == 4
#include <seq/radix_hash_map.hpp>
#else
#include <seq/concurrent_map.hpp>
#endif
using namespace wit;
using K = ELEM;
#ifdef MAP
using M = MAPPED;
using V = std::pair<K, M>;
#else
using V = K;
#endif
#ifdef STD // functors of the standard library and of seq
template<class X> using Alloc = std::allocator<X>;
using HF = seq::hasher<K>; using EF = std::equal_to<>; using LF = std::less<>;
#if KIND == 3
using XF = seq::default_key;
#endif
#define ARGH HF(), EF(),
#define ARGL LF(),
#else
template<class X> using Alloc = AlX<X>;
#ifdef HET
using HF = HashT; using EF = EqT; using LF = LessT; using XF = KeyT;
#else
using HF = HashN; using EF = EqN; using LF = LessN; using XF = Key;
#endif
#define ARGH HF(1), EF(2),
#define ARGL LF(3),
#endif
using A = Alloc<V>;
#if KIND == 1 && defined(MULTI) && defined(MAP)
using C = seq::flat_multimap<K, M, LF, A>;
#elif KIND == 1 && defined(MULTI)
using C = seq::flat_multiset<K, LF, A>;
#elif KIND == 1 && defined(MAP)
using C = seq::flat_map<K, M, LF, A>;
#elif KIND == 1
using C = seq::flat_set<K, LF, A>;
#elif KIND == 2 && defined(MAP)
using C = seq::ordered_map<K, M, HF, EF, A>;
#elif KIND == 2
using C = seq::ordered_set<K, HF, EF, A>;
#elif KIND == 3 && defined(MAP)
using C = seq::radix_map<K, M, XF, A>;
#elif KIND == 3
using C = seq::radix_set<K, XF, A>;
#elif KIND == 4 && defined(MAP)
using C = seq::radix_hash_map<K, M, HF, EF, A>;
#elif KIND == 4
using C = seq::radix_hash_set<K, HF, EF, A>;
#elif defined(MAP)
using C = seq::concurrent_map<K, M, HF, EF, A>;
#else
using C = seq::concurrent_set<K, HF, EF, A>;
#endif
#if KIND == 1
#define FUN ARGL
#elif KIND == 3
#define FUN
#else
#define FUN ARGH
#endif

#if KIND != 5
using It = C::iterator;
using CIt = C::const_iterator;
void lookup(C& c, const C& k, const K& key)
{
	(void)c.find(key); (void)k.find(key); (void)k.count(key); (void)k.contains(key); (void)c.erase(key);
	(void)k.size(); (void)k.empty(); (void)k.max_size(); (void)k.get_allocator();
	for (auto& r : k) (void)r;
	for (auto i = k.cbegin(); i != k.cend(); i++) (void)*i;
	It i = c.begin(); CIt j = i; (void)(i == j); (void)(j != c.end());
#if KIND != 4
	for (auto i2 = c.rbegin(); i2 != c.rend(); ++i2) (void)*i2;
	for (auto i2 = k.crbegin(); i2 != k.crend(); ++i2) (void)*i2;
#endif
#if KIND == 1 || KIND == 3
	(void)c.lower_bound(key); (void)k.lower_bound(key); (void)c.upper_bound(key); (void)k.upper_bound(key); (void)c.equal_range(key); (void)k.equal_range(key);
#endif
#if KIND == 1
	(void)k.find_pos(key); (void)k.lower_bound_pos(key); (void)k.upper_bound_pos(key); (void)k.equal_range_pos(key); (void)k.pos(0); 
	c.erase_pos(0); c.erase(0, 1);
#elif KIND == 2
	(void)k.load_factor(); (void)k.max_load_factor(); c.max_load_factor(0.5f); c.rehash(); c.rehash(3); (void)k.hash_function(); (void)k.key_eq(); c.sequence(); (void)k.sequence(); (void)k.csequence();
#elif KIND == 4
	(void)k.hash_function(); (void)k.key_eq();
#endif
	c.erase(c.begin()); c.erase(c.cbegin(), c.cend()); c.clear();
#if defined(MAP) && !defined(MULTI)
	(void)c.at(key); (void)k.at(key);
#endif
}
void moving(C& c, C& o, V& v, K& key, const A& a)
{
	C x(FUN a), y(std::move(o)), z(std::move(o), a);
	c = std::move(o);
	c.swap(o);
	c.insert(std::move(v));
	c.insert(c.cend(), std::move(v));
	c.emplace(std::move(v));
	c.emplace_hint(c.cend(), std::move(v));
#if !defined(MULTI) && KIND != 2 && KIND != 4
	c.merge(o);
#endif
#if KIND == 2
	c.push_back(std::move(v)); c.push_front(std::move(v));
#endif
#ifdef MAP
	M m{};
	c.try_emplace(std::move(key), std::move(m));
	c.try_emplace(c.cend(), std::move(key), std::move(m));
	c.insert_or_assign(std::move(key), std::move(m));
	c.insert_or_assign(c.cend(), std::move(key), std::move(m));
#ifndef MULTI
	(void)c[std::move(key)];
#endif
#endif
}
#ifdef COPY
void copying(C& c, C& k, const V& v, const K& key, const A& a, const V* b, const V* e, In<V> i, In<V> j, std::list<V>& l, std::initializer_list<V> il)
{
	C x(k), y(k, a), z(b, e, FUN a), w(i, j, FUN a);
	c = k;
	c.insert(v); c.insert(c.cend(), v); c.insert(b, e); c.insert(i, j); c.insert(l.begin(), l.end()); c.insert(il);
	(void)(c == k); (void)(c != k);
#if KIND == 2
	c.push_back(v); c.push_front(v); c.shrink_to_fit();
#endif
#ifdef MAP
	const M m{};
	c.try_emplace(key, m); c.try_emplace(c.cend(), key, m); c.insert_or_assign(key, m); c.insert_or_assign(c.cend(), key, m);
#ifndef MULTI
	(void)c[key];
#endif
#endif
}
#endif
#else
struct Vis { template<class X> bool operator()(X&&) const { return true; } };
struct VisC { template<class X> bool operator()(const X&) const { return true; } template<class X> bool operator()(X&) const { static_assert(sizeof(X) == 0, "a visitor of const elements got a modifiable one"); return true; } }; // only ever sees const elements
void constVisits(C& c, const C& k, const K& key, K& mk, V& v, VisC f)
{
	(void)k.visit(key, f); (void)k.cvisit(key, f); (void)c.cvisit(key, f); k.visit_all(f); k.cvisit_all(f); c.cvisit_all(f);
	c.insert_or_cvisit(std::move(v), f); c.emplace_or_cvisit(std::move(v), f);
#ifdef MAP
	c.try_emplace_or_cvisit(std::move(mk), M{}, f);
#endif
}
void lookup(C& c, const C& k, const K& key, Vis f)
{
	(void)c.visit(key, f); (void)k.visit(key, f); (void)k.count(key); (void)k.contains(key); (void)c.erase(key); (void)c.erase_if(key, f); (void)c.erase_if(f);
	c.visit_all(f); k.visit_all(f); k.cvisit_all(f); (void)k.cvisit(key, f);
	(void)k.size(); (void)k.empty(); (void)k.max_size(); (void)k.get_allocator(); (void)k.load_factor(); (void)k.max_load_factor(); c.max_load_factor(2.f); c.rehash(3); c.reserve(3); c.clear();
	(void)k.hash_function(); (void)k.key_eq();
}
void moving(C& c, C& o, V& v, K& key, const A& a, Vis f)
{
	C x(0, FUN a), y(std::move(o)), z(std::move(o), a);
	c = std::move(o);
	c.swap(o);
	c.insert(std::move(v)); c.emplace(std::move(v)); c.insert_or_visit(std::move(v), f); c.insert_or_cvisit(std::move(v), f); c.emplace_or_visit(std::move(v), f); c.emplace_or_cvisit(std::move(v), f);
	c.merge(o);
#ifdef MAP
	M m{};
	c.try_emplace(std::move(key), std::move(m)); c.insert_or_assign(std::move(key), std::move(m)); c.try_emplace_or_visit(std::move(key), std::move(m), f); c.try_emplace_or_cvisit(std::move(key), std::move(m), f);
#endif
}
#ifdef COPY
void copying(C& c, C& k, const V& v, const K& key, const A& a, const V* b, const V* e, In<V> i, In<V> j, std::initializer_list<V> il, Vis f)
{
	C x(k), y(k, a);
	c = k;
	c.insert(v); c.insert(b, e); c.insert(i, j); c.insert(il); c.insert_or_visit(v, f); c.insert_or_cvisit(v, f); c.insert_or_visit(b, e, f); c.insert_or_cvisit(b, e, f);
	(void)(c == k); (void)(c != k);
#ifdef MAP
	const M m{};
	c.try_emplace(key, m); c.insert_or_assign(key, m); c.try_emplace_or_visit(key, m, f); c.try_emplace_or_cvisit(key, m, f);
#endif
}
#endif
#endif
