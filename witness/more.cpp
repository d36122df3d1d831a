// The rest of the members of the associative containers, and heterogeneous lookup (HET). Macros as in assoc.cpp
#include "wit.hpp"
#ifdef HET // transparent functors of the user; keys are found by int
namespace wit {
struct HetKey { int v; HetKey() : v(0) {} explicit HetKey(int i) : v(i) {} HetKey(HetKey&& o) noexcept : v(o.v) {} HetKey& operator=(HetKey&& o) noexcept { v = o.v; return *this; } HetKey(const HetKey&) = delete; HetKey& operator=(const HetKey&) = delete; ~HetKey() {} };
inline int rank(const HetKey& k) { return k.v; } inline int rank(int i) { return i; }
struct HashT { using is_transparent = void; int s; explicit HashT(int i) : s(i) {} template<class T> std::size_t operator()(const T& t) const { return static_cast<std::size_t>(rank(t)); } };
struct EqT { using is_transparent = void; int s; explicit EqT(int i) : s(i) {} template<class T, class U> bool operator()(const T& a, const U& b) const { return rank(a) == rank(b); } };
struct LessT { using is_transparent = void; int s; explicit LessT(int i) : s(i) {} template<class T, class U> bool operator()(const T& a, const U& b) const { return rank(a) < rank(b); } };
struct KeyT { std::uint64_t operator()(const HetKey& k) const noexcept { return static_cast<std::uint64_t>(k.v); } std::uint64_t operator()(int i) const noexcept { return static_cast<std::uint64_t>(i); } };
}
#endif
#include "assoc.cpp"
template<class X> void use(const X&) {}
struct VLess { template<class X> bool operator()(const X& a, const X& b) const { return a < b; } };
struct Pred { template<class X> bool operator()(const X&) const { return true; } };
#ifdef HET
void het(C& c, const C& k, int x)
{
	use(c.erase(x)); use(k.count(x)); use(k.contains(x));
#if KIND == 5
	Vis f; VisC g; use(c.visit(x, f)); use(k.visit(x, g)); use(k.cvisit(x, g)); use(c.cvisit(x, g)); use(c.erase_if(x, Pred()));
#else
	It i = c.find(x); CIt j = k.find(x); (void)(j == i);
#if KIND == 1 || KIND == 3
	i = c.lower_bound(x); j = k.lower_bound(x); i = c.upper_bound(x); j = k.upper_bound(x);
#endif
#if KIND == 1
	use(k.find_pos(x)); use(k.lower_bound_pos(x)); use(k.upper_bound_pos(x)); use(k.equal_range_pos(x)); std::pair<It, It> r = c.equal_range(x); std::pair<CIt, CIt> q = k.equal_range(x); use(r); use(q);
#elif KIND == 3 && defined(MAP)
	use(c.find_ptr(x)); use(k.find_ptr(x));
#endif
#endif
}
#else
#if KIND == 5
void more(C& c, const C& k, C& o, V& v, K& key, const A& a, Vis f, VisC g)
{
#ifdef STD
	C x(a);
#endif
	use(c.get_allocator()); use(k.size()); c.merge(std::move(o));
	use(c.erase_if(key, Pred())); use(c.erase_if(Pred())); bool b = c.insert_or_visit(std::move(v), f); b = c.insert_or_cvisit(std::move(v), g); b = c.insert(std::move(v)); b = c.emplace(std::move(v)); use(b);
#ifdef MAP
	b = c.insert(std::pair<K&&, M>(std::move(key), M{})); b = c.try_emplace(std::move(key), M{}); b = c.insert_or_assign(std::move(key), M{});
	b = c.try_emplace_or_visit(std::move(key), M{}, f); b = c.try_emplace_or_cvisit(std::move(key), M{}, g);
#endif
}
#ifdef COPY
void moreCopy(C& c, const V& v, std::initializer_list<V> il, const A& a, Vis f, VisC g) { C x(il, 0, FUN a); c.insert_or_visit(il, f); c.insert_or_cvisit(il, g); bool b = c.insert_or_cvisit(v, g); use(b); }
#endif
#else
void more(C& c, const C& k, C& o, const K& key, V& v, K& mk, const A& a, In<V> f, In<V> l)
{
#ifdef STD
	C x(a);
#endif
	use(c.get_allocator());
	It i = c.begin(); ++i; i++; --i; i--; CIt j = k.begin(); ++j; j++; --j; j--; CIt j2(i); (void)(j == j2); (void)(j != k.end()); use(*i); use(*j); use(i.operator->()); use(j.operator->());
	static_assert(std::is_same<decltype(c.begin()), It>::value && std::is_same<decltype(k.begin()), CIt>::value && std::is_same<decltype(k.end()), CIt>::value && std::is_same<decltype(k.find(key)), CIt>::value && std::is_same<decltype(c.find(key)), It>::value, "the constness of the iterators");
	static_assert(!std::is_assignable<decltype(*k.begin()), V&&>::value && !std::is_assignable<decltype(*k.find(key)), V&&>::value, "a const container must not give away its elements");
	i = c.erase(c.begin()); i = c.erase(k.begin()); i = c.erase(c.cbegin(), c.cend()); use(seq::erase_if(c, Pred()));
#ifndef MULTI
	{ std::pair<It, bool> r = c.insert(std::move(v)); r = c.emplace(std::move(v)); i = c.insert(c.cend(), std::move(v)); i = c.emplace_hint(c.cend(), std::move(v)); }
#ifdef MAP
	{ std::pair<It, bool> r = c.insert(std::pair<K&&, M>(std::move(mk), M{})); i = c.insert(c.cend(), std::pair<K&&, M>(std::move(mk), M{})); r = c.try_emplace(std::move(mk), M{}); r = c.insert_or_assign(std::move(mk), M{}); }
#endif
#endif
#if KIND != 4
#if KIND == 2 || (KIND == 3 && !defined(MAP))
	c.shrink_to_fit();
#endif
	for (auto q = k.rbegin(); q != k.rend(); ++q) use(*q);
#endif
#if KIND == 1
	use(c.key_comp());
#ifdef MAP
	use(k.value_comp());
#endif

	use(c.insert_pos(std::move(v))); use(c.emplace_pos(std::move(v)));
	{ auto w = c.extract(); c.replace(std::move(w)); }
#if defined(MAP) && !defined(MULTI)
	use(c.try_emplace_pos(std::move(mk), M{})); use(c.insert_or_assign_pos(std::move(mk), M{})); use(c.try_emplace_pos(c.cend(), std::move(mk), M{}));
#endif
#elif KIND == 2
	c.sort(VLess()); c.sort(); c.reserve(3); use(k.max_probe_distance()); 
	{ std::pair<It, bool> r = c.emplace_back(std::move(v)); r = c.emplace_front(std::move(v)); r = c.push_back(std::move(v)); r = c.push_front(std::move(v)); }
#ifdef MAP
	c.stable_sort(VLess());
	{
		std::pair<It, bool> r = c.try_emplace_back(std::move(mk), M{}); r = c.try_emplace_front(std::move(mk), M{}); i = c.try_emplace_back(c.cend(), std::move(mk), M{}); i = c.try_emplace_front(c.cend(), std::move(mk), M{});
		r = c.push_back_or_assign(std::move(mk), M{}); r = c.push_front_or_assign(std::move(mk), M{}); i = c.push_back_or_assign(c.cend(), std::move(mk), M{}); i = c.push_front_or_assign(c.cend(), std::move(mk), M{});
		r = c.push_back(std::pair<K&&, M>(std::move(mk), M{})); r = c.push_front(std::pair<K&&, M>(std::move(mk), M{}));
	}
#else
	c.sort(VLess(), seq::buffer<V*>{ &v, 1 });
#endif
#elif KIND == 4
	c.rehash(3); c.reserve(3); use(k.load_factor()); use(k.max_load_factor()); c.max_load_factor(1.f);
#endif
}
#ifdef COPY
void moreCopy(C& c, const C& k, const V& v, const K& key, const A& a, const V* b, const V* e, In<V> f, In<V> l, std::initializer_list<V> il)
{
	C x(il, FUN a);
#if KIND == 1 || KIND == 3
	c.assign(b, e); c.assign(f, l);
#endif
#if KIND == 1
#ifdef MULTI
	c.insert(seq::sorted_equivalent_t{}, b, e); c.insert(seq::sorted_equivalent_t{}, il);
#else
	c.insert(seq::sorted_unique_t{}, b, e); c.insert(seq::sorted_unique_t{}, f, l); c.insert(seq::sorted_unique_t{}, il); use(c.insert_pos(v)); use(c.emplace_pos(v));
#ifdef MAP
	use(c.try_emplace_pos(key, M{})); use(c.insert_or_assign_pos(key, M{})); use(c.try_emplace_pos(c.cend(), key, M{}));
#endif
#endif
#elif KIND == 2
	{ std::pair<It, bool> r = c.emplace_back(v); r = c.emplace_front(v); r = c.push_back(v); r = c.push_front(v); }
#ifdef MAP
	{
		std::pair<It, bool> r = c.try_emplace_back(key, M{}); r = c.try_emplace_front(key, M{}); It i = c.try_emplace_back(c.cend(), key, M{}); i = c.try_emplace_front(c.cend(), key, M{});
		r = c.push_back_or_assign(key, M{}); r = c.push_front_or_assign(key, M{}); i = c.push_back_or_assign(c.cend(), key, M{}); i = c.push_front_or_assign(c.cend(), key, M{});
	}
#endif
#endif
}
#endif
#if KIND == 3 && defined(STRKEY)
void prefixes(C& c, const C& k, const K& key)
{
	CIt j = k.prefix(key); use(j); for (auto r = k.prefix_range(key); r.first != r.second; ++r.first) use(*r.first);
	for (auto r = c.prefix_range(key); r.first != r.second; ++r.first) use(*r.first);
}
#endif
#endif
#endif
