// Every member of every class template at once: explicit instantiation
#include "wit.hpp"
#if W == 1
#include <seq/devector.hpp>
template class seq::devector<int>; template class seq::devector<std::string>; template class seq::devector<wit::Cp>;
#elif W == 2
#include <seq/tiered_vector.hpp>
template class seq::tiered_vector<int>; template class seq::tiered_vector<std::string>; template class seq::tiered_vector<wit::Cp>;
#elif W == 3
#include <seq/sequence.hpp>
template class seq::sequence<int>; template class seq::sequence<std::string>; template class seq::sequence<wit::Cp>;
#elif W == 4
#include <seq/flat_map.hpp>
template class seq::flat_set<int>; template class seq::flat_set<std::string>; template class seq::flat_multiset<int>; template class seq::flat_multiset<std::string>;
template class seq::flat_map<int, std::string>; template class seq::flat_map<std::string, int>; template class seq::flat_multimap<int, std::string>; template class seq::flat_multimap<std::string, int>;
#elif W == 5
#include <seq/ordered_map.hpp>
template class seq::ordered_set<int>; template class seq::ordered_set<std::string>; template class seq::ordered_map<int, std::string>; template class seq::ordered_map<std::string, int>;
#elif W == 6
#include <seq/radix_map.hpp>
template class seq::radix_set<std::string>; template class seq::radix_map<std::string, int>;
#elif W == 7
#include <seq/radix_hash_map.hpp>
template class seq::radix_hash_set<int>; template class seq::radix_hash_set<std::string>; template class seq::radix_hash_map<int, std::string>; template class seq::radix_hash_map<std::string, int>;
#elif W == 8
#include <seq/concurrent_map.hpp>
template class seq::concurrent_set<int>; template class seq::concurrent_set<std::string>; template class seq::concurrent_map<int, std::string>; template class seq::concurrent_map<std::string, int>;
#elif W == 9
#include <seq/any.hpp>
template class seq::hold_any<>;
#elif W == 10
#include <seq/tiny_string.hpp>
template class seq::tiny_string<char>; template class seq::tiny_string<wchar_t>; template class seq::tiny_string<char, std::char_traits<char>, std::allocator<char>, 30>;
#endif
