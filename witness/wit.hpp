// Element types with exactly the operations that a container documents to need, and nothing else.
#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <list>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace wit {
#define WIT_EQ(T) bool operator==(const T& o) const { return v == o.v; } bool operator!=(const T& o) const { return v != o.v; } bool operator<(const T& o) const { return v < o.v; }
// movable only
struct Mv { int v; Mv() : v(0) {} explicit Mv(int i) : v(i) {} Mv(Mv&& o) noexcept : v(o.v) {} Mv& operator=(Mv&& o) noexcept { v = o.v; return *this; } Mv(const Mv&) = delete; Mv& operator=(const Mv&) = delete; ~Mv() {} WIT_EQ(Mv) };
// copyable, moves are copies and may throw
struct Cp { int v; Cp() : v(0) {} explicit Cp(int i) : v(i) {} Cp(const Cp& o) : v(o.v) {} Cp& operator=(const Cp& o) { v = o.v; return *this; } ~Cp() {} WIT_EQ(Cp) };
// everything, and a hostile comma
struct Hos { int v; Hos() : v(0) {} explicit Hos(int i) : v(i) {} Hos(const Hos& o) : v(o.v) {} Hos& operator=(const Hos& o) { v = o.v; return *this; } ~Hos() {} WIT_EQ(Hos) template<class T> void operator,(const T&) const = delete; };
// more strictly aligned than any pointer
struct alignas(64) Ali { int v; Ali() : v(0) {} explicit Ali(int i) : v(i) {} WIT_EQ(Ali) };
struct Hash { template<class T> std::size_t operator()(const T& t) const { return static_cast<std::size_t>(t.v); } };
// functors without default constructor
struct HashN { int s; explicit HashN(int i) : s(i) {} template<class T> std::size_t operator()(const T& t) const { return static_cast<std::size_t>(t.v + s); } };
struct EqN { int s; explicit EqN(int i) : s(i) {} template<class T> bool operator()(const T& a, const T& b) const { return a.v == b.v; } };
struct LessN { int s; explicit LessN(int i) : s(i) {} template<class T> bool operator()(const T& a, const T& b) const { return a.v < b.v; } };
struct Key { template<class T> std::uint64_t operator()(const T& t) const noexcept { return static_cast<std::uint64_t>(t.v); } };
// single pass iterator
template<class T> struct In {
	using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = const T&;
	const T* p; const T& operator*() const { return *p; } const T* operator->() const { return p; } In& operator++() { ++p; return *this; } In operator++(int) { In r = *this; ++p; return r; }
	bool operator==(const In& o) const { return p == o.p; } bool operator!=(const In& o) const { return p != o.p; }
};
// fancy allocator without default constructor
template<class T> struct AlX {
	using value_type = T; int id;
	explicit AlX(int i) : id(i) {} template<class U> AlX(const AlX<U>& o) noexcept : id(o.id) {}
	T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); } void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
	template<class U> bool operator==(const AlX<U>& o) const noexcept { return id == o.id; } template<class U> bool operator!=(const AlX<U>& o) const noexcept { return id != o.id; }
};
// detection of what must not compile
template<class, template<class...> class Op, class... A> struct can_ : std::false_type {};
template<template<class...> class Op, class... A> struct can_<std::void_t<Op<A...>>, Op, A...> : std::true_type {};
template<template<class...> class Op, class... A> constexpr bool can = can_<void, Op, A...>::value;
}
