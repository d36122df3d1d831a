// Common harness vocabulary. Every user-supplied type is opaque (declared only), so that in the
// LLVM IR each use of it by the library is a visible event.
#pragma once
#include <seq/bits.hpp>
#ifdef VF_KEEP_FUNCS
#undef SEQ_ALWAYS_INLINE
#define SEQ_ALWAYS_INLINE inline
#endif
#include <cstddef>
#include <cstdint>
#include <limits>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
#include <initializer_list>

#ifdef NXFUN
#define VF_NX noexcept // functors which never throw (visitors still may)
#else
#define VF_NX
#endif
extern "C" std::uint64_t vf_default_functor(int kind);
extern "C" std::size_t vf_hash(std::uint64_t seed, const void* key) VF_NX;
extern "C" bool vf_equal(std::uint64_t seed, const void* a, const void* b) VF_NX;
extern "C" bool vf_less(std::uint64_t seed, const void* a, const void* b) VF_NX;
extern "C" void* vf_allocate(std::uint64_t id, std::size_t n, std::size_t elt_size);
extern "C" std::uint64_t vf_select(std::uint64_t id) noexcept; // select_on_container_copy_construction
extern "C" void vf_deallocate(std::uint64_t id, void* p, std::size_t n, std::size_t elt_size) noexcept;

namespace vf {
// opaque element type: non trivially anything, not relocatable
template<int Tag, bool NoexceptMove>
struct BasicEl {
	std::uint64_t a, b;
#ifdef ELPAD
	std::uint64_t pad[ELPAD - 2];
#endif
	explicit BasicEl(int) ;
	BasicEl();
	BasicEl(const BasicEl&);
	BasicEl(BasicEl&&) noexcept(NoexceptMove);
	BasicEl& operator=(const BasicEl&);
	BasicEl& operator=(BasicEl&&) noexcept(NoexceptMove);
	~BasicEl() noexcept;
	bool operator==(const BasicEl&) const;
	bool operator!=(const BasicEl&) const;
	bool operator<(const BasicEl&) const;
};
using El = BasicEl<0, true>;   // nothrow move
using ElT = BasicEl<1, false>; // throwing move
using Map = BasicEl<2, true>;  // mapped type

struct Hash {
	std::uint64_t seed;
	template<class K> std::size_t operator()(const K&) const VF_NX;
	Hash() ; Hash(const Hash&) noexcept; Hash& operator=(const Hash&) noexcept;
};
struct Eq {
	std::uint64_t seed;
	template<class A, class B> bool operator()(const A&, const B&) const VF_NX;
	Eq() ; Eq(const Eq&) noexcept; Eq& operator=(const Eq&) noexcept;
};
struct Less {
	std::uint64_t seed;
	template<class A, class B> bool operator()(const A&, const B&) const VF_NX;
	Less() ; Less(const Less&) noexcept; Less& operator=(const Less&) noexcept;
};

// the same, accepting nothing but keys; their identity (seed) travels as plain data
template<class K> struct KHash {
	std::uint64_t seed;
	std::size_t operator()(const K& k) const VF_NX { return vf_hash(seed, &k); }
	KHash() : seed(vf_default_functor(0)) {}
};
template<class K> struct KEq {
	std::uint64_t seed;
	bool operator()(const K& a, const K& b) const VF_NX { return vf_equal(seed, &a, &b); }
	KEq() : seed(vf_default_functor(1)) {}
};
template<class K> struct KLess {
	std::uint64_t seed;
	bool operator()(const K& a, const K& b) const VF_NX { return vf_less(seed, &a, &b); }
	KLess() : seed(vf_default_functor(2)) {}
};

// opaque visitors
struct Vis { template<class T> bool operator()(T&) const; };
struct CVis { template<class T> bool operator()(const T&) const; };

// allocator with state; Prop: propagates on copy assignment (1), move assignment (2), swap (4)
template<class T, int Prop>
struct BasicAl {
	using value_type = T;
	template<class U> struct rebind { using other = BasicAl<U, Prop>; };
	using propagate_on_container_copy_assignment = std::integral_constant<bool, (Prop & 1) != 0>;
	using propagate_on_container_move_assignment = std::integral_constant<bool, (Prop & 2) != 0>;
	using propagate_on_container_swap = std::integral_constant<bool, (Prop & 4) != 0>;
	using is_always_equal = std::false_type;
	std::uint64_t id;
	BasicAl() noexcept : id(0) {}
	BasicAl(const BasicAl&) noexcept = default;
	BasicAl& operator=(const BasicAl&) noexcept = default;
	template<class U> BasicAl(const BasicAl<U, Prop>& o) noexcept : id(o.id) {}
	BasicAl select_on_container_copy_construction() const { BasicAl r(*this); r.id = vf_select(id); return r; }
	T* allocate(std::size_t n) { return static_cast<T*>(vf_allocate(id, n, sizeof(T))); }
	void deallocate(T* p, std::size_t n) noexcept { vf_deallocate(id, p, n, sizeof(T)); }
	template<class U> bool operator==(const BasicAl<U, Prop>& o) const noexcept { return id == o.id; }
	template<class U> bool operator!=(const BasicAl<U, Prop>& o) const noexcept { return id != o.id; }
};
template<class T> using Al = BasicAl<T, 7>;
template<class T> using AlN = BasicAl<T, 0>;
template<class T> using AlC = BasicAl<T, 1>;
template<class T> using AlM = BasicAl<T, 2>;
template<class T> using AlS = BasicAl<T, 4>;
}
