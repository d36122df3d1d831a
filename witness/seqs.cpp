// Members of the sequence containers: CONT 1 devector, 2 tiered_vector, 3 sequence; ELEM: element type
#include "wit.hpp"
#if CONT == 1
#include <seq/devector.hpp>
template<class T, class A> using Cont = seq::devector<T, A>;
#elif CONT == 2
#include <seq/tiered_vector.hpp>
template<class T, class A> using Cont = seq::tiered_vector<T, A>;
#else
#include <seq/sequence.hpp>
template<class T, class A> using Cont = seq::sequence<T, A>;
#endif
using namespace wit;
using T = ELEM;
#ifndef NOALX
using A = AlX<T>;
#else
using A = std::allocator<T>;
#endif
using C = Cont<T, A>;
using It = C::iterator;
using CIt = C::const_iterator;

void moving(C& c, C& o, T& v, const A& a, std::move_iterator<T*> b, std::move_iterator<T*> e)
{
	C x(a), y(std::move(o)), z(std::move(o), a);
	c = std::move(o);
	c.swap(o);
	c.clear();
	c.push_back(std::move(v));
	c.push_front(std::move(v));
	c.emplace_back(std::move(v));
	c.emplace_front(std::move(v));
	c.pop_back();
	c.pop_front();
	c.erase(c.cbegin());
	c.erase(c.cbegin(), c.cend());
#if CONT != 3
	c.insert(c.cbegin(), std::move(v));
	c.emplace(c.cbegin(), std::move(v));
	c.insert(c.cbegin(), b, e);
	(void)c[0];
	(void)c.at(0);
	(void)static_cast<const C&>(c)[0];
	(void)static_cast<const C&>(c).at(0);
#else
	c.insert(std::move(v));
	c.emplace(std::move(v));
#endif
	c.assign(b, e);
	C w(b, e, a);
#if CONT != 2
	c.shrink_to_fit();
	c.reserve(3);
#endif
	(void)c.front(); (void)c.back(); (void)static_cast<const C&>(c).front(); (void)static_cast<const C&>(c).back();
	(void)c.size(); (void)c.empty(); (void)c.max_size(); (void)c.get_allocator();
	for (auto& r : c) (void)r;
	for (auto& r : static_cast<const C&>(c)) (void)r;
	for (auto i = c.rbegin(); i != c.rend(); ++i) (void)*i;
	for (auto i = c.crbegin(); i != c.crend(); ++i) (void)*i;
#if CONT != 1
	(void)c.iterator_at(0); (void)static_cast<const C&>(c).iterator_at(0);
#endif
}
#ifdef COPY
void copying(C& c, const C& o, const T& v, const A& a, const T* b, const T* e, In<T> i, In<T> j, std::list<T>& l, std::initializer_list<T> il)
{
	C x(o), r(std::size_t(3), v, a);
	C y(o, a), z(b, e, a), w(i, j, a), q(il, a);
	c.assign(b, e);
	c.assign(i, j);
	c.assign(l.begin(), l.end());
	c.assign(il);
	c = o;
#ifdef NOALX
	c = il;
#endif
	c.push_back(v);
	c.push_front(v);
	c.assign(std::size_t(4), v);
	c.resize(4, v);
#if CONT != 3
	c.resize_front(4, v);
	c.insert(c.cbegin(), v);
	c.insert(c.cbegin(), b, e);
	c.insert(c.cbegin(), i, j);
	c.insert(c.cbegin(), l.begin(), l.end());
	c.insert(c.cbegin(), il);
	c.insert(c.cbegin(), std::size_t(3), v);
#else
	c.insert(v);
#endif
}
#endif
void defaults(C& c, const A& a)
{
	C x(std::size_t(4), a);
	c.resize(4);
#if CONT != 3
	c.resize_front(4);
#endif
	c.emplace_back();
	c.emplace_front();
}
template<class X> void use(const X&) {}
struct Each { template<class X> void operator()(X&) const {} };
struct By { template<class X> bool operator()(const X& a, const X& b) const { return a < b; } };
template<class I> void walk(I b, I e)
{
	using D = typename std::iterator_traits<I>::difference_type;
	I z; (void)z; I c(b); c = e; ++b; b++; --b; b--; use(*b); use(*b++); use(*++b); (void)b.operator->();
	D d = e - b; b += d; b -= d; use(b + d); use(b - d); use(b < e); use(b > e); use(b <= e); use(b >= e); use(b == e); use(b != e); use(std::distance(b, e));
#if CONT != 3
	use(b[0]); use(d + b);
#endif
}
void iterators(C& c, const C& k, It i, CIt j)
{
	static_assert(std::is_same<decltype(c.begin()), It>::value && std::is_same<decltype(k.begin()), CIt>::value && std::is_same<decltype(k.end()), CIt>::value && std::is_same<decltype(c.cbegin()), CIt>::value, "the constness of the iterators");
	static_assert(!std::is_assignable<decltype(*k.begin()), T&&>::value && !std::is_assignable<decltype(k.front()), T&&>::value && !std::is_assignable<decltype(k.back()), T&&>::value, "a const container must not give away its elements");
#if CONT != 1
	walk(c.begin(), c.end()); walk(k.begin(), k.end()); use(i == j); use(j != i);
#endif
	j = i; CIt q(i); use(q);
	for (auto r = k.rbegin(); r != k.rend(); ++r) use(*r);
#if CONT == 2
	c.for_each(std::size_t(0), std::size_t(1), Each()); k.for_each(std::size_t(0), std::size_t(1), Each());
	c.erase(std::size_t(0)); c.erase(std::size_t(0), std::size_t(1)); c.emplace(std::size_t(0));
	i = c.erase(c.cbegin()); i = c.erase(c.cbegin(), c.cend());
#elif CONT == 3
	c.sort(By()); T buf[1]; c.sort(By(), seq::buffer<T*>{ buf, 1 }); c.resize_front(4); i = c.erase(c.cbegin()); i = c.erase(c.cbegin(), c.cend());
#else
	use(k.capacity()); use(k.back_capacity()); use(k.front_capacity()); c.reserve_back(3); c.reserve_front(3); (void)c.data(); (void)k.data();
	static_assert(std::is_same<decltype(c.data()), T*>::value && std::is_same<decltype(k.data()), const T*>::value, "the constness of data()");
#endif
}
#ifdef COPY
void more(C& c, const T& v, T& m, std::initializer_list<T> il, const T* b, const T* e)
{
#if CONT == 2
	c.insert(std::size_t(0), v); c.insert(std::size_t(0), std::move(m)); c.insert(std::size_t(0), b, e); c.insert(std::size_t(0), std::size_t(2), v);
#elif CONT == 3
	c.resize_front(4, v); c.resize(4, v); (void)il; (void)b; (void)e; (void)m;
#else
	(void)b; (void)e; c.insert(c.begin(), il); c.insert(c.cend(), std::move(m)); (void)v;
#endif
}
#endif
