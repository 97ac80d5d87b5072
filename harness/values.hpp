// Value types stored in optionals, variants, tuples and arrays, with small totally ordered value sets.
#pragma once
#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#include <ptl/optional.hpp>
#include "common.hpp"
#include <tuple>

namespace mc {
//! aggregate
struct Pod {
	int a;
	signed char b;
	friend bool operator==(const Pod & l, const Pod & r) { return l.a == r.a && l.b == r.b; }
	friend bool operator!=(const Pod & l, const Pod & r) { return !(l == r); }
	friend bool operator<(const Pod & l, const Pod & r) { return l.a != r.a ? l.a < r.a : l.b < r.b; }
	friend bool operator>(const Pod & l, const Pod & r) { return r < l; }
	friend bool operator<=(const Pod & l, const Pod & r) { return !(r < l); }
	friend bool operator>=(const Pod & l, const Pod & r) { return !(l < r); }
};
//! tracked element that hides its address
struct Amp : Elem {
	using Elem::Elem;
	Amp() =default;
	Amp * operator&() { fail("life", "overloaded operator& used"); return nullptr; }
	const Amp * operator&() const { fail("life", "overloaded operator& used"); return nullptr; }
	friend void swap(Amp & a, Amp & b) noexcept { swap(static_cast<Elem &>(a), static_cast<Elem &>(b)); }
};
static_assert(std::is_standard_layout_v<Amp>);
//! tracked element that cannot be assigned
struct Fixed : Elem {
	using Elem::Elem;
	Fixed() =default;
	Fixed(const Fixed &) =default;
	Fixed(Fixed &&) =default;
	Fixed & operator=(const Fixed &) =delete;
	Fixed & operator=(Fixed &&) =delete;
	friend void swap(Fixed & a, Fixed & b) noexcept { swap(static_cast<Elem &>(a), static_cast<Elem &>(b)); }
};
static_assert(std::is_standard_layout_v<Fixed>);
//! equal objects differ in their bytes
struct Ordered {
	int v;
	int noise{++noises};
	static inline int noises{0};
	friend bool operator==(const Ordered & l, const Ordered & r) { return l.v == r.v; }
	friend bool operator!=(const Ordered & l, const Ordered & r) { return l.v != r.v; }
	friend bool operator<(const Ordered & l, const Ordered & r) { return l.v < r.v; }
	friend bool operator>(const Ordered & l, const Ordered & r) { return l.v > r.v; }
	friend bool operator<=(const Ordered & l, const Ordered & r) { return l.v <= r.v; }
	friend bool operator>=(const Ordered & l, const Ordered & r) { return l.v >= r.v; }
};

struct NoFaults { bool old{faults_on}; NoFaults() { faults_on = false; } ~NoFaults() { faults_on = old; } NoFaults(const NoFaults &) =delete; };
//! run harness code that creates library objects: allocations tracked, never failing
template<typename F>
decltype(auto) quietly(F && f) { NoFaults n; Scope s; return f(); }

// Val<T>: mk(i) for i in 0..2 in increasing order, get() is the inverse (other results: unspecified value)
// args(): constructor arguments whose result get() reports as args_value
template<typename T> struct Val;
template<typename E> struct ValElem {
	static constexpr bool tracked{true};
	static E mk(int i) { return quietly([&] { return E(i); }); }
	static int get(const E & e) { e.need("read"); return e.v; }
	static auto args() { return std::make_tuple(1, 2); }
	static constexpr int args_value{1002}, zero{0};
	static bool lives(const void * raw) { std::uint32_t m; std::memcpy(&m, static_cast<const char *>(raw) + offsetof(Elem, magic), sizeof m); const void * s; std::memcpy(&s, static_cast<const char *>(raw) + offsetof(Elem, self), sizeof s); return m == Elem::alive_magic && s == raw; }
};
template<> struct Val<Elem> : ValElem<Elem> {};
template<> struct Val<Amp> : ValElem<Amp> {};
template<> struct Val<Fixed> : ValElem<Fixed> {};
template<typename T> struct ValInt {
	static constexpr bool tracked{false};
	static T mk(int i) { return static_cast<T>(i); }
	static int get(const T & t) { return static_cast<int>(t); }
	static auto args() { return std::make_tuple(static_cast<T>(1)); }
	static constexpr int args_value{1}, zero{0};
};
template<> struct Val<int> : ValInt<int> {};
template<> struct Val<char> : ValInt<char> {};
template<> struct Val<unsigned char> : ValInt<unsigned char> {};
template<> struct Val<long long> : ValInt<long long> {};
template<> struct Val<double> : ValInt<double> {};
template<> struct Val<Ordered> {
	static constexpr bool tracked{false};
	static Ordered mk(int i) { return {i}; }
	static int get(const Ordered & t) { return t.v; }
	static auto args() { return std::make_tuple(2); }
	static constexpr int args_value{2}, zero{0};
};
template<> struct Val<Pod> {
	static constexpr bool tracked{false};
	static Pod mk(int i) { return {i / 2, static_cast<signed char>(i % 2)}; }
	static int get(const Pod & p) { return p.a * 2 + p.b; }
	static auto args() { return std::make_tuple(4, static_cast<signed char>(1)); }
	static constexpr int args_value{9}, zero{0};
};
template<> struct Val<ptl::string> {
	static constexpr bool tracked{false};
	static std::string text(int i) { return i == 0 ? std::string{} : i == 1 ? std::string("ab\0c", 4) : std::string(41, 'b') + "end"; }
	static ptl::string mk(int i) { return quietly([&] { return ptl::string{std::string_view{text(i)}}; }); }
	static int get(const ptl::string & s) { Paused p; for(int i{0}; i < 3; ++i) if(text(i) == std::string_view{s}) return i; return std::string_view{s} == "xy" ? 77 : -5; }
	static auto args() { return std::make_tuple(std::string_view{"xy"}); }
	static constexpr int args_value{77}, zero{0};
};
template<> struct Val<ptl::vector<Elem>> {
	using T = ptl::vector<Elem>;
	static constexpr bool tracked{false};
	static T mk(int i) { return quietly([&] { T t; for(int k{0}; k < i * 6; ++k) t.push_back(Elem{k}); return t; }); }
	static int get(const T & t) { for(std::size_t k{0}; k < t.size(); ++k) { t[k].need("read"); if(t[k].v != static_cast<int>(k)) return -5; } return t.size() == 3 ? 77 : t.size() % 6 ? -5 : static_cast<int>(t.size() / 6); }
	static auto args() { static const int a[]{0, 1, 2}; return std::make_tuple(static_cast<const int *>(a), static_cast<const int *>(a) + 3); }
	static constexpr int args_value{77}, zero{0};
};
template<> struct Val<ptl::optional<int>> {
	using T = ptl::optional<int>;
	static constexpr bool tracked{false};
	static T mk(int i) { return i ? T{i} : T{}; }
	static int get(const T & t) { return t ? *t : 0; }
	static auto args() { return std::make_tuple(std::in_place, 2); }
	static constexpr int args_value{2}, zero{0};
};

//! an owned instance with a known value; created and destroyed under tracking
template<typename T>
struct Made {
	Box<T> box;
	explicit Made(int i) { quietly([&] { ::new(box.raw()) T(Val<T>::mk(i)); }); box.assume_live(true); }
	T & operator*() { return *box; }
};
}
