// Promises of the types themselves. GROUP 1: relocation; 2: exceptions; 3: iterators; 4: const and copies
#include "wit.hpp"
#include <array>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <unordered_map>
#include <seq/any.hpp>
#include <seq/concurrent_map.hpp>
#include <seq/devector.hpp>
#include <seq/flat_map.hpp>
#include <seq/ordered_map.hpp>
#include <seq/radix_hash_map.hpp>
#include <seq/radix_map.hpp>
#include <seq/sequence.hpp>
#include <seq/tiered_vector.hpp>
#include <seq/tiny_string.hpp>
#include <seq/type_traits.hpp>
using namespace seq;
namespace {
using S = std::string;
// designates itself
struct Self { Self* p; Self() : p(this) {} Self(const Self&) : p(this) {} Self& operator=(const Self&) { return *this; } };
struct SelfD { SelfD* p; SelfD() : p(this) {} SelfD(SelfD&&) noexcept : p(this) {} SelfD& operator=(SelfD&&) noexcept { return *this; } template<class T> void operator()(T*) const {} };
// only the destructor, or only one of the moves, is not trivial
struct Dt { int v; ~Dt() {} };
struct Mc { int v; Mc() = default; Mc(const Mc&) {} Mc& operator=(const Mc&) = default; };
struct Ma { int v; Ma() = default; Ma(const Ma&) = default; Ma& operator=(const Ma&) { return *this; } };
template<class T> struct AlSelf : wit::AlX<T> { AlSelf* p; AlSelf() : wit::AlX<T>(0), p(this) {} AlSelf(const AlSelf& o) noexcept : wit::AlX<T>(o), p(this) {} template<class U> AlSelf(const AlSelf<U>& o) noexcept : wit::AlX<T>(o), p(this) {} template<class U> struct rebind { using other = AlSelf<U>; }; };
struct MvT { MvT() {} MvT(MvT&&) {} MvT& operator=(MvT&&) { return *this; } bool operator<(const MvT&) const { return false; } }; // moves may throw
struct HashT { HashT() {} HashT(const HashT&) {} HashT& operator=(const HashT&) { return *this; } size_t operator()(int) const { return 0; } };

#if GROUP == 1
template<class T> constexpr bool R = is_relocatable<T>::value;
// what bitwise copies would break
static_assert(!R<Self> && !R<SelfD> && !R<Dt> && !R<Mc> && !R<Ma>, "user defined special members");
static_assert(!R<S> && !R<std::wstring> && !R<std::list<int>> && !R<std::map<int, int>> && !R<std::set<int>> && !R<std::unordered_map<int, int>> && !R<std::deque<int>> && !R<std::function<void()>>, "library types which designate themselves");
static_assert(!R<std::array<S, 2>> && !R<S[2]>, "arrays of them");
static_assert(!R<std::pair<S, int>> && !R<std::pair<int, S>> && !R<std::pair<Self, Self>> && !R<std::pair<std::pair<int, S>, int>>, "pairs");
static_assert(!R<std::tuple<S>> && !R<std::tuple<int, S>> && !R<std::tuple<S, int>> && !R<std::tuple<int, S, int>> && !R<std::tuple<int, int, std::tuple<char, S>>>, "tuples");
static_assert(!R<std::unique_ptr<int, SelfD>>, "deleters");
static_assert(!R<tiny_string<char, std::char_traits<char>, AlSelf<char>>> && !R<sequence<int, AlSelf<int>>> && !R<devector<int, AlSelf<int>>>, "allocators within containers");
static_assert(!R<AlSelf<int>> && !R<Self&> , "allocators");
static_assert(!hold_any<any_default_interface, 16, 8, false>::relocatable || !R<hold_any<any_default_interface, 16, 8, false>>, "any");
// what the library documents
static_assert(R<int> && R<double> && R<int*> && R<std::pair<int, char>> && R<std::tuple<>> && R<std::tuple<int, char>> && R<std::unique_ptr<int>> && R<std::unique_ptr<S>> && R<std::shared_ptr<S>> && R<std::allocator<int>>, "trivial and smart pointers");
static_assert(R<devector<int>> && R<devector<S>> && R<tstring> && R<sequence<int>>, "containers of seq");
#elif GROUP == 2
template<class C> void all()
{
	static_assert(std::is_nothrow_destructible_v<C>, "destruction does not throw");
	static_assert(std::is_nothrow_move_constructible_v<C>, "move construction does not throw: containers of containers depend on it");
	static_assert(std::is_nothrow_move_assignable_v<C>, "move assignment does not throw");
	static_assert(std::is_nothrow_swappable_v<C>, "swap does not throw");
}
template<class C> void member() { static_assert(noexcept(std::declval<C&>().swap(std::declval<C&>())), "swap does not throw"); }
template<class... C> void alls() { (all<C>(), ...); }
template<class... C> void members() { (member<C>(), ...); }
template<class T> void per()
{
	alls<devector<T>, tiered_vector<T>, sequence<T>, flat_set<T>, flat_multiset<T>, flat_map<T, S>, flat_map<S, T>, flat_multimap<T, S>, ordered_set<T>, ordered_map<T, S>, ordered_map<S, T>, radix_set<S>, radix_map<S, T>, radix_hash_set<T>, radix_hash_map<T, S>, radix_hash_map<S, T>, concurrent_set<T>, concurrent_map<T, S>, concurrent_map<S, T>>();
	members<devector<T>, tiered_vector<T>, sequence<T>, flat_set<T>, flat_multiset<T>, flat_map<T, S>, flat_multimap<T, S>, ordered_set<T>, ordered_map<T, S>, radix_set<S>, radix_map<S, T>, concurrent_set<T>, concurrent_map<T, S>>();
	// elements with moves that may throw: the containers move their storage
	alls<devector<MvT>, tiered_vector<MvT>, sequence<MvT>, flat_set<MvT>, flat_map<T, MvT>, ordered_map<T, MvT>, radix_map<S, MvT>, radix_hash_map<T, MvT>>();
}
template void per<int>();
template void per<S>();
static_assert(std::is_nothrow_move_constructible_v<r_any> && std::is_nothrow_move_assignable_v<r_any>, "relocatable any");
static_assert(std::is_nothrow_move_constructible_v<tstring> && std::is_nothrow_move_assignable_v<tstring> && std::is_nothrow_destructible_v<tstring>, "tiny_string");
#elif GROUP == 3
template<class I> using Cat = typename std::iterator_traits<I>::iterator_category;
template<class I> using Ref = typename std::iterator_traits<I>::reference;
template<class C, class Tag, bool Const> void iter()
{
	using I = typename C::iterator; using J = typename C::const_iterator; using V = typename C::value_type;
	static_assert(std::is_base_of_v<Tag, Cat<I>> && std::is_base_of_v<Tag, Cat<J>>, "iterator category");
	static_assert(std::is_same_v<Ref<J>, const V&>, "a const_iterator gives const elements");
	static_assert(std::is_same_v<Ref<I>, std::conditional_t<Const, const V&, V&>>, "keys of a set are const");
	static_assert(std::is_same_v<decltype(*std::declval<const C&>().begin()), const V&> && std::is_same_v<decltype(*std::declval<const C&>().cbegin()), const V&> && std::is_same_v<decltype(*std::declval<C&>().cbegin()), const V&>, "a const container gives const elements");
	static_assert(std::is_convertible_v<I, J>, "iterator to const_iterator");
	static_assert(std::is_nothrow_copy_constructible_v<I> && std::is_nothrow_copy_constructible_v<J>, "copies of iterators do not throw");
	static_assert(std::is_same_v<typename std::iterator_traits<I>::value_type, V>, "value type of iterators");
	static_assert(std::is_signed_v<typename std::iterator_traits<I>::difference_type>, "distances are signed");
}
template<class C> void sub() // element access
{
	using V = typename C::value_type;
	static_assert(std::is_same_v<decltype(std::declval<const C&>()[0]), const V&> && std::is_same_v<decltype(std::declval<const C&>().at(0)), const V&> && std::is_same_v<decltype(std::declval<const C&>().front()), const V&> && std::is_same_v<decltype(std::declval<const C&>().back()), const V&>, "element access of a const container gives const elements");
	static_assert(std::is_same_v<decltype(std::declval<C&>()[0]), V&> && std::is_same_v<decltype(std::declval<C&>().at(0)), V&> && std::is_same_v<decltype(std::declval<C&>().front()), V&> && std::is_same_v<decltype(std::declval<C&>().back()), V&>, "element access");
}
template<class C> void look()
{
	using K = typename C::key_type; using V = typename C::value_type;
	static_assert(std::is_same_v<decltype(*std::declval<const C&>().find(std::declval<const K&>())), const V&>, "lookup in a const container gives const elements");
}
template<class C> void mapped()
{
	using K = typename C::key_type; using M = typename C::mapped_type;
	static_assert(std::is_same_v<decltype(std::declval<const C&>().at(std::declval<const K&>())), const M&> && std::is_same_v<decltype(std::declval<C&>().at(std::declval<const K&>())), M&> && std::is_same_v<decltype(std::declval<C&>()[std::declval<const K&>()]), M&>, "mapped values");
}
using RA = std::random_access_iterator_tag; using BI = std::bidirectional_iterator_tag; using FW = std::forward_iterator_tag;
template<class T> void per()
{
	iter<devector<T>, RA, false>(); iter<tiered_vector<T>, RA, false>(); iter<sequence<T>, BI, false>();
	sub<devector<T>>(); sub<tiered_vector<T>>();
	iter<flat_set<T>, RA, true>(); iter<flat_multiset<T>, RA, true>(); iter<flat_map<T, S>, RA, false>(); iter<flat_multimap<T, S>, RA, false>();
	iter<ordered_set<T>, BI, true>(); iter<ordered_map<T, S>, BI, false>(); iter<radix_set<S>, BI, true>(); iter<radix_map<S, T>, BI, false>(); iter<radix_hash_set<T>, FW, true>(); iter<radix_hash_map<T, S>, FW, false>();
	look<flat_set<T>>(); look<flat_multiset<T>>(); look<flat_map<T, S>>(); look<flat_multimap<T, S>>(); look<ordered_set<T>>(); look<ordered_map<T, S>>(); look<radix_set<S>>(); look<radix_map<S, T>>(); look<radix_hash_set<T>>(); look<radix_hash_map<T, S>>();
	mapped<flat_map<T, S>>(); mapped<ordered_map<T, S>>(); mapped<radix_map<S, T>>(); mapped<radix_hash_map<T, S>>();
}
template void per<int>();
template void per<S>();
#elif GROUP == 4
// operations which modify are not available on const containers, nor through const views
template<class C> using Ins = decltype(std::declval<const C&>().insert(std::declval<const typename C::value_type&>()));
template<class C> using Er = decltype(std::declval<const C&>().erase(std::declval<const C&>().begin()));
template<class C> using ErK = decltype(std::declval<const C&>().erase(std::declval<const typename C::key_type&>()));
template<class C> using Cl = decltype(std::declval<const C&>().clear());
template<class C> using Sw = decltype(std::declval<const C&>().swap(std::declval<C&>()));
template<class C> using Rs = decltype(std::declval<const C&>().resize(1));
template<class C> using Pb = decltype(std::declval<const C&>().push_back(std::declval<const typename C::value_type&>()));
template<class C> using Set = decltype(*std::declval<const C&>().begin() = std::declval<const typename C::value_type&>());
template<class C> using SetC = decltype(*std::declval<C&>().cbegin() = std::declval<const typename C::value_type&>());
template<class C> using SetK = decltype(*std::declval<C&>().begin() = std::declval<const typename C::value_type&>());
template<class C> using Sub = decltype(std::declval<const C&>()[std::declval<const typename C::key_type&>()]);
using wit::can;
template<class C> void common() { static_assert(!can<Cl, C> && !can<Sw, C> && !can<Set, C> && !can<SetC, C>, "a const container is not modified"); }
template<class C> void seqs() { common<C>(); static_assert(!can<Rs, C> && !can<Pb, C>, "a const sequence is not modified"); }
template<class C> void assoc() { common<C>(); static_assert(!can<Ins, C> && !can<Er, C> && !can<ErK, C>, "a const container is not modified"); }
template<class C> void sets() { assoc<C>(); static_assert(!can<SetK, C>, "keys of a set are not modified"); }
template<class C> void maps() { assoc<C>(); static_assert(!can<Sub, C>, "operator[] inserts"); }
template<class T> void per()
{
	seqs<devector<T>>(); seqs<tiered_vector<T>>(); seqs<sequence<T>>();
	sets<flat_set<T>>(); sets<flat_multiset<T>>(); maps<flat_map<T, S>>(); assoc<flat_multimap<T, S>>(); sets<ordered_set<T>>(); maps<ordered_map<T, S>>(); sets<radix_set<S>>(); maps<radix_map<S, T>>(); sets<radix_hash_set<T>>(); maps<radix_hash_map<T, S>>();
	static_assert(!can<Ins, concurrent_set<T>> && !can<ErK, concurrent_set<T>> && !can<Cl, concurrent_set<T>> && !can<Ins, concurrent_map<T, S>> && !can<ErK, concurrent_map<T, S>> && !can<Cl, concurrent_map<T, S>>, "a const concurrent container is not modified");
}
template void per<int>();
template void per<S>();
// a lock is not copied, nor are the guards
template<class L> constexpr bool pinned = !std::is_copy_constructible_v<L> && !std::is_copy_assignable_v<L> && !std::is_move_assignable_v<L>;
static_assert(pinned<seq::spinlock> && pinned<seq::shared_spinner<>>, "locks are neither copied nor moved");
// transparent lookup only with transparent functors
struct KeyLike { bool operator==(int) const; };
template<class C, class K> using Find = decltype(std::declval<C&>().find(std::declval<const K&>()));
static_assert(!can<Find, ordered_set<int, std::hash<int>, std::equal_to<int>>, KeyLike> && !can<Find, flat_set<int, std::less<int>>, KeyLike>, "heterogeneous lookup asks for transparent functors");
#endif
}
