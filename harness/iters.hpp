// Opaque iterators over elements: every operation is a visible call.
#pragma once
#include "vf.hpp"
#include <iterator>
namespace vf {
template<class T>
struct InIt {
	using iterator_category = std::input_iterator_tag;
	using value_type = T;
	using difference_type = std::ptrdiff_t;
	using pointer = const T*;
	using reference = const T&;
	std::uint64_t p;
	const T& operator*() const;
	const T* operator->() const;
	InIt& operator++();
	InIt operator++(int);
	bool operator==(const InIt&) const;
	bool operator!=(const InIt&) const;
};
template<class T>
struct RaIt {
	using iterator_category = std::random_access_iterator_tag;
	using value_type = T;
	using difference_type = std::ptrdiff_t;
	using pointer = const T*;
	using reference = const T&;
	std::uint64_t p;
	const T& operator*() const;
	const T* operator->() const;
	const T& operator[](difference_type) const;
	RaIt& operator++();
	RaIt operator++(int);
	RaIt& operator--();
	RaIt operator--(int);
	RaIt& operator+=(difference_type);
	RaIt& operator-=(difference_type);
	RaIt operator+(difference_type) const;
	RaIt operator-(difference_type) const;
	difference_type operator-(const RaIt&) const;
	bool operator==(const RaIt&) const;
	bool operator!=(const RaIt&) const;
	bool operator<(const RaIt&) const;
	bool operator>(const RaIt&) const;
	bool operator<=(const RaIt&) const;
	bool operator>=(const RaIt&) const;
};
}
