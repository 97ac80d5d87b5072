// The library and every operation on const objects, as a module of its own: apart from the library's
// it has no writable data.
#include "reader.hpp"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <new>
#include <numeric>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <limits>
#include <optional>
#include <variant>
#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#include <ptl/array.hpp>
#include <ptl/bitset.hpp>
#include <ptl/optional.hpp>
#include <ptl/variant.hpp>
#include <ptl/tuple.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/function_ref.hpp>

// the only writable object of the harness here; not written after attach()
static const ReaderHost * host;
extern "C" {
void * __wrap_malloc(std::size_t n) { return host->alloc(n, 16, 1); }
void * __wrap_calloc(std::size_t a, std::size_t b) { const auto p{host->alloc(a * b, 16, 1)}; std::memset(p, 0, a * b); return p; }
void __wrap_free(void * p) { if(p) host->release(p, 1); }
void * __wrap_aligned_alloc(std::size_t al, std::size_t n) { return host->alloc(n, al, 1); }
}
void * operator new(std::size_t n) { return host->alloc(n, 16, 0); }
void * operator new[](std::size_t n) { return host->alloc(n, 16, 0); }
void operator delete(void * p) noexcept { if(p) host->release(p, 0); }
void operator delete[](void * p) noexcept { if(p) host->release(p, 0); }
void operator delete(void * p, std::size_t) noexcept { if(p) host->release(p, 0); }
void operator delete[](void * p, std::size_t) noexcept { if(p) host->release(p, 0); }
void * operator new(std::size_t n, std::align_val_t a) { return host->alloc(n, static_cast<std::size_t>(a), 2); }
void * operator new[](std::size_t n, std::align_val_t a) { return host->alloc(n, static_cast<std::size_t>(a), 2); }
void operator delete(void * p, std::align_val_t) noexcept { if(p) host->release(p, 2); }
void operator delete[](void * p, std::align_val_t) noexcept { if(p) host->release(p, 2); }
void operator delete(void * p, std::size_t, std::align_val_t) noexcept { if(p) host->release(p, 2); }
void operator delete[](void * p, std::size_t, std::align_val_t) noexcept { if(p) host->release(p, 2); }

struct Signal {};
namespace ptl { template<> inline constexpr bool enable_bitset_operator_bool<Signal>{true}; }

namespace {
using U = std::uint64_t;
struct Seen { // what an operation saw
	U h{1469598103934665603u};
	Seen & add(U v) { h = (h ^ v) * 1099511628211u; h ^= h >> 29; return *this; }
	Seen & operator()(std::string_view s) { add(s.size()); for(unsigned char c : s) add(c); return *this; }
	Seen & operator()(const ptl::string & s) { return (*this)(std::string_view{s.data(), s.size()}); }
	Seen & operator()(const char * s) { return (*this)(std::string_view{s}); }
	Seen & operator()(U v) { return add(v); }
	Seen & operator()(int v) { return add(static_cast<U>(v)); }
	Seen & operator()(unsigned v) { return add(v); }
	Seen & operator()(bool v) { return add(v); }
	Seen & operator()(char v) { return add(static_cast<unsigned char>(v)); }
	Seen & operator()(std::ptrdiff_t v) { return add(static_cast<U>(v)); }
	Seen & operator()(double v) { return add(static_cast<U>(static_cast<long long>(v * 1000))); }
	template<typename T> Seen & operator()(const ptl::vector<T> & v) { add(v.size()); for(std::size_t i{0}; i < v.size(); ++i) (*this)(v.data()[i]); return *this; }
	template<typename T> Seen & operator()(const ptl::optional<T> & v) { add(v.has_value()); if(v.has_value()) (*this)(*v); return *this; }
	template<std::size_t N, typename T> Seen & operator()(const ptl::bitset<N, T> & v) { for(std::size_t i{0}; i < N; ++i) add(v[i]); return *this; }
	template<typename T, std::size_t N> Seen & operator()(const ptl::array<T, N> & v) { for(std::size_t i{0}; i < N; ++i) (*this)(v[i]); return *this; }
	operator U() const { return h; }
};
#define SIX(a, b) .add((a) == (b)).add((a) != (b)).add((a) < (b)).add((a) > (b)).add((a) <= (b)).add((a) >= (b))
template<typename F> U caught(F f) { try { return f(); } catch(const std::exception & e) { return Seen{}(std::string_view{e.what()}); } }

template<typename D> struct Make { // table entries of a type described by D
	using T = typename D::T;
	static void init(void * p) { new(p) T; }
	static void destroy(void * p) { static_cast<T *>(p)->~T(); }
	static void copy(void * p, const void * q) { D::copy(*static_cast<T *>(p), *static_cast<const T *>(q)); }
	static U state(const void * p) { return D::state(*static_cast<const T *>(p)); }
	template<void F(T &)> static void mutate(void * p) { F(*static_cast<T *>(p)); }
	template<U F(const T &, const T &)> static U op(const void * a, const void * b) { return F(*static_cast<const T *>(a), *static_cast<const T *>(b)); }
};
#define OP(name, ...) { name, [](const void * pa, const void * pb) -> U { [[maybe_unused]] const T & a{*static_cast<const T *>(pa)}; [[maybe_unused]] const T & b{*static_cast<const T *>(pb)}; __VA_ARGS__ } },
#define DO(name, ...) { name, [](void * p) { [[maybe_unused]] T & s{*static_cast<T *>(p)}; __VA_ARGS__ } },
template<typename D> constexpr ReaderType type() {
	return {D::name, sizeof(typename D::T), alignof(typename D::T), Make<D>::init, Make<D>::destroy, Make<D>::copy, Make<D>::state, D::mutators, static_cast<int>(sizeof D::mutators / sizeof(ReaderMutator)), D::ops, static_cast<int>(sizeof D::ops / sizeof(ReaderOp))};
}
template<typename C> U walk(const C & c) {
	Seen s;
	for(auto i{c.begin()}; i != c.end(); ++i) s(*i);
	for(auto i{c.cbegin()}; i != c.cend(); i++) s(*i);
	for(auto i{c.rbegin()}; i != c.rend(); ++i) s(*i);
	for(auto i{c.crbegin()}; i != c.crend(); ++i) s(*i);
	for(auto & e : c) s(e);
	const auto n{c.end() - c.begin()};
	for(std::ptrdiff_t k{0}; k < n; ++k) s(c.begin()[k])(*(c.begin() + k))(*(c.end() - (n - k)));
	s SIX(c.begin(), c.end());
	return s;
}

struct String {
	using T = ptl::string;
	static constexpr char name[]{"string"};
	static void copy(T & s, const T & o) { s = o; }
	static U state(const T & s) { return Seen{}(s)(s.capacity()); }
	static constexpr ReaderMutator mutators[]{
		DO("assign 5", s = std::string_view{"hello"};) DO("assign 22", s.assign(22, 'x');) DO("assign 23", s.assign(23, 'y');) DO("append 30", s.append(std::string_view{"abcdefghijklmnopqrst\0vwxyz0123", 30});)
		DO("reserve 60", s.reserve(60);) DO("clear", s.clear();) DO("pop_back", if(!s.empty()) s.pop_back();) DO("shrink_to_fit", s.shrink_to_fit();) DO("insert", s.insert(s.begin(), 'q');) DO("erase half", s.erase(s.begin() + static_cast<std::ptrdiff_t>(s.size() / 2), s.end());)
	};
	static constexpr ReaderOp ops[]{
		OP("size, capacity, empty", return Seen{}(a.size())(a.capacity())(a.empty())(a.max_size());)
		OP("data", return Seen{}(std::string_view{a.data(), a.size()});)
		OP("c_str", return Seen{}(a.c_str());)
		OP("operator[]", Seen s; for(std::size_t i{0}; i < a.size(); ++i) s(a[i]); return s;)
		OP("at", Seen s; for(std::size_t i{0}; i < a.size(); ++i) s(a.at(i)); return s;)
		OP("at past the end", return caught([&] { return Seen{}(a.at(a.size())); });)
		OP("front, back", return a.empty() ? 0 : U{Seen{}(a.front())(a.back())};)
		OP("iteration", return walk(a);)
		OP("string_view", return Seen{}(std::string_view{a})(static_cast<std::string_view>(a));)
		OP("comparison", return Seen{} SIX(a, b) SIX(a, a);)
		OP("comparison with view", const std::string_view v{b}; return Seen{} SIX(a, v) SIX(v, a);)
		OP("comparison with C string", return Seen{} SIX(a, "hello") SIX("hello", a);)
		OP("hash", return std::hash<T>{}(a);)
		OP("output", std::ostringstream os; os << a; const auto r{os.str()}; return Seen{}(std::string_view{r});)
		OP("copy", T c{a}; return Seen{}(c)(c.capacity() >= a.size());)
		OP("copy from const rvalue", T c{std::move(a)}; return Seen{}(c);)
		OP("copy-assign from", T c{std::string_view{"0123456789012345678901234567890"}}; c = a; return Seen{}(c);)
		OP("append from", T c; c.append(a); c += a; c.append(a.begin(), a.end()); return Seen{}(c);)
		OP("insert from", T c{std::string_view{"ab"}}; c.insert(c.begin() + 1, a); c.insert(c.begin() + 1, a.begin(), a.end()); return Seen{}(c);)
		OP("replace from", T c{std::string_view{"abcd"}}; c.replace(c.begin() + 1, c.begin() + 3, a); c.assign(a); c.assign(a.begin(), a.end()); return Seen{}(c);)
		OP("operator+", return Seen{}(a + b)(a + 'x')('x' + a)(a + std::string_view{"yz"})(std::string_view{"yz"} + a);)
		OP("operator+ from const rvalue", return Seen{}(std::move(a) + std::move(b))(std::move(a) + 'x');)
		OP("substr", return Seen{}(a.substr(0))(a.substr(a.size() / 2))(a.substr(a.size() / 3, a.size() / 3))(std::move(a).substr(0));)
		OP("construct string from view of", T c{std::string_view{a}}; return Seen{}(c);)
		OP("string_ref to", const ptl::string_ref r{a}; return Seen{}(std::string_view{r}) SIX(r, a);)
	};
};
template<typename E> E value(int i);
template<> int value<int>(int i) { return i * 37; }
template<> unsigned char value<unsigned char>(int i) { return static_cast<unsigned char>(i * 5); }
template<> ptl::string value<ptl::string>(int i) { ptl::string s; s.resize(static_cast<std::size_t>(i % 3) * 15, static_cast<char>('a' + i)); return s; }
template<> ptl::optional<ptl::string> value<ptl::optional<ptl::string>>(int i) { ptl::optional<ptl::string> r; if(i % 2) r = value<ptl::string>(i); return r; }
template<> ptl::vector<int> value<ptl::vector<int>>(int i) { ptl::vector<int> v; for(int k{0}; k < i; ++k) v.push_back(k); return v; }

template<typename E> struct Vector {
	using T = ptl::vector<E>;
	static constexpr char name[]{"vector"};
	static void copy(T & s, const T & o) { s = o; }
	static U state(const T & s) { return Seen{}(s)(s.capacity()); }
	static constexpr ReaderMutator mutators[]{
		DO("push_back", s.push_back(value<E>(static_cast<int>(s.size())));) DO("push_back 2", s.push_back(value<E>(1)); s.push_back(value<E>(2));) DO("append 11", for(int i{0}; i < 11; ++i) s.push_back(value<E>(i % 3));)
		DO("reserve 30", s.reserve(30);) DO("clear", s.clear();) DO("pop_back", if(!s.empty()) s.pop_back();) DO("shrink_to_fit", s.shrink_to_fit();) DO("erase first", if(!s.empty()) s.erase(s.begin());)
	};
	static constexpr ReaderOp ops[]{
		OP("size, capacity, empty", return Seen{}(a.size())(a.capacity())(a.empty())(a.max_size());)
		OP("data", Seen s; for(std::size_t i{0}; i < a.size(); ++i) s(a.data()[i]); return s;)
		OP("operator[]", Seen s; for(std::size_t i{0}; i < a.size(); ++i) s(a[i]); return s;)
		OP("at", Seen s; for(std::size_t i{0}; i < a.size(); ++i) s(a.at(i)); return s;)
		OP("at past the end", return caught([&] { return Seen{}(a.at(a.size())); });)
		OP("front, back", return a.empty() ? 0 : U{Seen{}(a.front())(a.back())};)
		OP("iteration", return walk(a);)
		OP("comparison", return Seen{} SIX(a, b) SIX(a, a);)
		OP("copy", T c{a}; return Seen{}(c);)
		OP("copy from const rvalue", T c{std::move(a)}; return Seen{}(c);)
		OP("copy-assign from", T c; c.push_back(value<E>(1)); c = a; return Seen{}(c);)
		OP("insert from", T c; c.push_back(value<E>(1)); c.insert(c.begin(), a.begin(), a.end()); if(!a.empty()) { c.push_back(a.front()); c.insert(c.begin(), a.back()); c.insert(c.begin(), 2, a.back()); c.assign(2, a.front()); c.resize(5, a.front()); c.emplace_back(a.front()); c.emplace(c.begin(), a.front()); } return Seen{}(c);)
		OP("assign from", T c; c.assign(a.begin(), a.end()); T d{a.begin(), a.end()}; return Seen{}(c)(d);)
		OP("array_ref to", const ptl::array_ref<const E> r{a}; Seen s; for(auto & x : r) s(x); return s;)
	};
};
template<typename E, std::size_t N> struct Array {
	using T = ptl::array<E, N>;
	static constexpr char name[]{"array"};
	static void copy(T & s, const T & o) { s = o; }
	static U state(const T & s) { return Seen{}(s); }
	static constexpr ReaderMutator mutators[]{DO("set first", if(N) s.front() = value<E>(1);) DO("set last", if(N) s.back() = value<E>(2);) DO("fill", s.fill(value<E>(3));)};
	static constexpr ReaderOp ops[]{
		OP("size, empty", return Seen{}(a.size())(a.empty())(a.max_size());)
		OP("data", Seen s; for(std::size_t i{0}; i < a.size(); ++i) s(a.data()[i]); return s;)
		OP("operator[], at", Seen s; for(std::size_t i{0}; i < a.size(); ++i) s(a[i])(a.at(i)); return s;)
		OP("at past the end", return caught([&] { return Seen{}(a.at(a.size())); });)
		OP("front, back", if constexpr(N == 0) return 0; else return Seen{}(a.front())(a.back());)
		OP("get", if constexpr(N == 0) return 0; else { using std::get; return Seen{}(get<0>(a))(get<N - 1>(a))(get<0>(std::move(a))); })
		OP("iteration", return walk(a);)
		OP("comparison", return Seen{} SIX(a, b) SIX(a, a);)
		OP("copy", T c{a}; return Seen{}(c);)
		OP("copy-assign from", T c{}; c = a; return Seen{}(c);)
		OP("copy from const rvalue", T c{std::move(a)}; return Seen{}(c);)
		OP("array_ref to", const ptl::array_ref<const E> r{a}; Seen s; for(auto & x : r) s(x); return s;)
	};
};
template<std::size_t N> struct Bitset {
	using T = ptl::bitset<N, Signal>;
	static constexpr char name[]{"bitset"};
	static void copy(T & s, const T & o) { s = o; }
	static U state(const T & s) { return Seen{}(s); }
	static constexpr ReaderMutator mutators[]{DO("set", s.set();) DO("reset", s.reset();) DO("set first", if(N) s.set(0);) DO("set last", if(N) s.set(N - 1);) DO("flip middle", if(N) s.flip(N / 2);) DO("<<= 3", s <<= 3;) DO(">>= 9", s >>= 9;) DO("flip", s.flip();)};
	static constexpr ReaderOp ops[]{
		OP("size", return Seen{}(a.size())(a.empty())(a.max_size());)
		OP("operator[]", Seen s; for(std::size_t i{0}; i < N; ++i) s.add(a[i]); return s;)
		OP("test, at", Seen s; for(std::size_t i{0}; i < N; ++i) s.add(a.test(i)).add(a.at(i)); return s;)
		OP("test past the end", return caught([&] { return U{a.test(N)}; });)
		OP("all", return a.all();) OP("any", return a.any();) OP("none", return a.none();) OP("count", return a.count();)
		OP("operator bool", return a ? 1 : 2;)
		OP("comparison", return Seen{}.add(a == b).add(a != b).add(a == a);)
		OP("hash", return std::hash<T>{}(a);)
		OP("output", std::ostringstream os; os << a; const auto r{os.str()}; return Seen{}(std::string_view{r});)
		OP("copy", T c{a}; T d; d = a; return Seen{}(c)(d);)
		OP("operators", return Seen{}(a & b)(a | b)(a ^ b)(~a)(a << 3)(a >> 3);)
		OP("operators assigning from", T c; c |= a; c ^= b; c &= a; return Seen{}(c);)
	};
};
template<typename E> struct Optional {
	using T = ptl::optional<E>;
	static constexpr char name[]{"optional"};
	static void copy(T & s, const T & o) { s = o; }
	static U state(const T & s) { return Seen{}(s); }
	static constexpr ReaderMutator mutators[]{DO("= 1", s = value<E>(1);) DO("= 2", s = value<E>(2);) DO("= 3", s = value<E>(3);) DO("emplace", s.emplace(value<E>(5));) DO("reset", s.reset();) DO("= nullopt", s = std::nullopt;)};
	static constexpr ReaderOp ops[]{
		OP("has_value", return Seen{}(a.has_value())(static_cast<bool>(a));)
		OP("operator*", return a ? U{Seen{}(*a)(*std::move(a))} : 0;)
		OP("operator->", return a ? U{Seen{}(*a.operator->())} : 0;)
		OP("value", return caught([&] { return U{Seen{}(a.value())(std::move(a).value())}; });)
		OP("value_or", return Seen{}(a.value_or(value<E>(7)));)
		OP("comparison", return Seen{} SIX(a, b) SIX(a, a);)
		OP("comparison with nullopt", return Seen{} SIX(a, std::nullopt) SIX(std::nullopt, a);)
		OP("comparison with value", const auto v{value<E>(1)}; return Seen{} SIX(a, v) SIX(v, a);)
		OP("copy", T c{a}; return Seen{}(c);)
		OP("copy from const rvalue", T c{std::move(a)}; return Seen{}(c);)
		OP("copy-assign from", T c; c = a; T d{value<E>(1)}; d = a; return Seen{}(c)(d);)
		OP("assign value from", T c; if(a) { c = *a; c = *a; c.emplace(*a); } return Seen{}(c);)
		OP("optional_ref to", const ptl::optional_ref<const E> r{a}; return r ? U{Seen{}(*r)} : 0;)
	};
};
struct Variant {
	using T = ptl::variant<int, ptl::string, ptl::vector<int>, char>;
	static constexpr char name[]{"variant"};
	static void copy(T & s, const T & o) { s = o; }
	static U state(const T & s) { return s.visit([](const auto & x) { return U{Seen{}(x)}; }) * 4 + s.holds<int>() + 2 * s.holds<char>(); }
	static constexpr ReaderMutator mutators[]{DO("int", s = 3;) DO("int 0", s = 0;) DO("short string", s = value<ptl::string>(1);) DO("long string", s = value<ptl::string>(2);) DO("vector", s = value<ptl::vector<int>>(3);) DO("empty vector", s = ptl::vector<int>{};) DO("char", s = 'c';) DO("emplace", s.emplace<1>(value<ptl::string>(5));)};
	static constexpr ReaderOp ops[]{
		OP("holds", return Seen{}(a.holds<int>())(a.holds<ptl::string>())(a.holds<ptl::vector<int>>())(a.holds<char>());)
		OP("get_if", Seen s; if(const auto p{a.get_if<int>()}) s(*p); if(const auto p{a.get_if<ptl::string>()}) s(*p); if(const auto p{a.get_if<ptl::vector<int>>()}) s(*p); if(const auto p{a.get_if<char>()}) s(*p); return s;)
		OP("get int", return caught([&] { return U{Seen{}(a.get<int>())}; });)
		OP("get string", return caught([&] { return U{Seen{}(a.get<ptl::string>())(std::move(a).get<ptl::string>())}; });)
		OP("visit", return a.visit([](const auto & x) { return U{Seen{}(x)}; });)
		OP("visit const rvalue", return std::move(a).visit([](const auto && x) { return U{Seen{}(x)}; });)
		OP("visit overloads", return a.visit([](int i) { return static_cast<U>(i); }, [](const ptl::string & s) { return U{Seen{}(s)}; }, [](const ptl::vector<int> & v) { return U{v.size()}; }, [](char) { return U{1}; });)
		OP("comparison", return Seen{} SIX(a, b) SIX(a, a);)
		OP("copy", T c{a}; return state(c);)
		OP("copy from const rvalue", T c{std::move(a)}; return state(c);)
		OP("copy-assign from", T c; c = a; T d{value<ptl::string>(2)}; d = a; return state(c) * 3 + state(d);)
		OP("variant_ref to", Seen s; a.visit([&](const auto & x) { const ptl::variant_ref<const int, const ptl::string, const ptl::vector<int>, const char> r{x}; s(r.visit([](const auto & y) { return U{Seen{}(y)}; })); }); return s;)
	};
};
struct Product {
	struct T {
		ptl::tuple<char, ptl::string, int, ptl::vector<int>> t{'a', ptl::string{}, 0, ptl::vector<int>{}};
		ptl::tuple<> none;
		ptl::tuple<ptl::optional<int>> one{ptl::optional<int>{}};
	};
	static constexpr char name[]{"tuple"};
	static void copy(T & s, const T & o) { s = o; }
	static U state(const T & s) { return Seen{}(s.t.get<0>())(s.t.get<1>())(s.t.get<2>())(s.t.get<3>())(s.one.get<0>()); }
	static constexpr ReaderMutator mutators[]{DO("char", s.t.get<0>() = 'b';) DO("short", s.t.get<1>() = value<ptl::string>(1);) DO("long", s.t.get<1>() = value<ptl::string>(2);) DO("int", s.t.get<2>() = 9;) DO("vector", s.t.get<3>().push_back(4);) DO("optional", s.one.get<0>() = 4;)};
	static constexpr ReaderOp ops[]{
		OP("get", return Seen{}(a.t.get<0>())(a.t.get<1>())(a.t.get<2>())(a.t.get<3>())(a.one.get<0>());)
		OP("get const rvalue", return Seen{}(std::move(a.t).get<1>())(std::move(a.t).get<3>());)
		OP("bindings", auto & [p, q, r, s] = a.t; return Seen{}(p)(q)(r)(s);)
		OP("bindings to a copy", auto [p, q, r, s] = a.t; return Seen{}(p)(q)(r)(s);)
		OP("comparison", return Seen{} SIX(a.t, b.t) SIX(a.t, a.t) SIX(a.none, b.none) SIX(a.one, b.one);)
		OP("copy", auto c{a.t}; auto d{std::move(a.t)}; auto e{a.none}; auto f{a.one}; return Seen{}(c.get<1>())(d.get<3>())(c == a.t)(f == a.one)(e == a.none);)
		OP("copy-assign from", auto c{b.t}; c = a.t; return Seen{}(c.get<1>())(c == a.t);)
	};
};
struct StringRef {
	struct T { ptl::string target{std::string_view{"abc\0defghijklmnopqrstuvwxyz"}}; ptl::string_ref r{"literal"}; };
	static constexpr char name[]{"string_ref"};
	static void copy(T & s, const T & o) { s.target = o.target; }
	static U state(const T & s) { return Seen{}(std::string_view{s.r})(s.r.data() == s.target.data()); }
	static constexpr ReaderMutator mutators[]{DO("refer to string", s.r = ptl::string_ref{s.target};) DO("remove_prefix", if(!s.r.empty()) s.r.remove_prefix(1);) DO("remove_suffix", if(s.r.size() > 1) s.r.remove_suffix(2);) DO("empty", s.r = ptl::string_ref{"", 0};)};
	static constexpr ReaderOp ops[]{
		OP("size, data", return Seen{}(a.r.size())(a.r.empty())(std::string_view{a.r.data(), a.r.size()})(a.r.max_size());)
		OP("operator[], at", Seen s; for(std::size_t i{0}; i < a.r.size(); ++i) s(a.r[i])(a.r.at(i)); return s;)
		OP("at past the end", return caught([&] { return Seen{}(a.r.at(a.r.size())); });)
		OP("front, back", return a.r.empty() ? 0 : U{Seen{}(a.r.front())(a.r.back())};)
		OP("iteration", return walk(a.r);)
		OP("substr", return Seen{}(std::string_view{a.r.substr(0)})(std::string_view{a.r.substr(a.r.size() / 2, a.r.size() / 3)});)
		OP("comparison", return Seen{} SIX(a.r, b.r) SIX(a.r, a.r);)
		OP("hash", return std::hash<ptl::string_ref>{}(a.r);)
		OP("output", std::ostringstream os; os << a.r; const auto r{os.str()}; return Seen{}(std::string_view{r});)
		OP("copy", auto c{a.r}; auto d{b.r}; d = a.r; return Seen{}(std::string_view{c})(std::string_view{d});)
		OP("string from", ptl::string s{std::string_view{a.r}}; s = std::string_view{a.r}; return Seen{}(s);)
	};
};
struct ArrayRef {
	struct T { int target[5]{1, 2, 3, 4, 5}; ptl::vector<int> other; ptl::array_ref<int> r{target}; ptl::array_ref<const int> c{target}; T() { for(int i{0}; i < 12; ++i) other.push_back(i * i); } };
	static constexpr char name[]{"array_ref"};
	static void copy(T & s, const T & o) { s.other = o.other; }
	static U state(const T & s) { return Seen{}(static_cast<U>(s.r.size()))(static_cast<U>(s.c.size()))(s.r.data() - s.target < 10 && s.r.data() >= s.target ? s.r.data() - s.target : 99); }
	static constexpr ReaderMutator mutators[]{DO("refer to vector", s.r = ptl::array_ref<int>{s.other};) DO("refer to array", s.r = ptl::array_ref<int>{s.target};) DO("first", if(!s.r.empty()) s.r = s.r.first(s.r.size() - 1);) DO("subrange", if(!s.r.empty()) s.r = s.r.subrange(1);) DO("const", s.c = ptl::array_ref<const int>{s.other};)};
	static constexpr ReaderOp ops[]{
		OP("size, data", Seen s; for(std::size_t i{0}; i < static_cast<std::size_t>(a.r.size()); ++i) s(a.r.data()[i]); return s(a.r.empty());)
		OP("operator[], at", Seen s; for(std::size_t i{0}; i < static_cast<std::size_t>(a.r.size()); ++i) s(a.r[i])(a.r.at(i)); for(std::size_t i{0}; i < static_cast<std::size_t>(a.c.size()); ++i) s(a.c[i])(a.c.at(i)); return s;)
		OP("at past the end", return caught([&] { return Seen{}(a.r.at(a.r.size())); });)
		OP("front, back", return a.r.empty() ? 0 : U{Seen{}(a.r.front())(a.r.back())};)
		OP("iteration", return walk(a.r) * 3 + walk(a.c);)
		OP("first, last, subrange", Seen s; const auto n{a.r.size()}; for(auto & x : a.r.first(n / 2)) s(x); for(auto & x : a.r.last(n / 2)) s(x); for(auto & x : a.r.subrange(n / 2)) s(x); for(auto & x : a.r.subrange(n / 3, n / 3)) s(x); return s;)
		OP("copy", const auto c{a.r}; auto d{b.r}; d = a.r; const ptl::array_ref<const int> e{a.r}; return Seen{}(static_cast<U>(c.size()))(d.data() == a.r.data())(static_cast<U>(e.size()));)
	};
};
struct OptionalRef {
	struct T { ptl::string target{std::string_view{"some characters, not few"}}; ptl::optional<ptl::string> source; ptl::optional_ref<ptl::string> r; ptl::optional_ref<const ptl::string> c; };
	static constexpr char name[]{"optional_ref"};
	static void copy(T & s, const T & o) { s.source = o.source; s.target = o.target; }
	static U state(const T & s) { return Seen{}(s.r.has_value())(s.c.has_value())(s.r && &*s.r == &s.target); }
	static constexpr ReaderMutator mutators[]{DO("bind", s.r = ptl::optional_ref<ptl::string>{s.target};) DO("bind const", s.c = ptl::optional_ref<const ptl::string>{s.target};) DO("unbind", s.r = std::nullopt;) DO("bind to optional", s.source = value<ptl::string>(1); s.r = ptl::optional_ref<ptl::string>{s.source};)};
	static constexpr ReaderOp ops[]{
		OP("has_value", return Seen{}(a.r.has_value())(static_cast<bool>(a.r))(a.c.has_value());)
		OP("operator*", return a.r ? U{Seen{}(std::as_const(*a.r))} : 0;)
		OP("operator->", return a.c ? U{a.c->size()} : 0;)
		OP("value", return caught([&] { return U{Seen{}(std::as_const(a.r.value()))}; });)
		OP("value_or", return Seen{}(a.r.value_or(value<ptl::string>(7)))(a.c.value_or(value<ptl::string>(7)));)
		OP("copy", const auto c{a.r}; auto d{b.r}; d = a.r; const ptl::optional_ref<const ptl::string> e{a.c}; return Seen{}(c.has_value())(d.has_value())(e.has_value());)
		OP("refer to an optional", const ptl::optional_ref<const ptl::string> e{a.source}; return e ? U{e->size()} : 0;)
	};
};
struct VariantRef {
	struct T { ptl::string text{std::string_view{"some characters, not few"}}; int number{17}; ptl::variant_ref<int, ptl::string> r{number}; };
	static constexpr char name[]{"variant_ref"};
	static void copy(T & s, const T & o) { s.text = o.text; s.number = o.number; }
	static U state(const T & s) { return s.r.holds<int>(); }
	static constexpr ReaderMutator mutators[]{DO("bind string", s.r = ptl::variant_ref<int, ptl::string>{s.text};) DO("bind int", s.r = ptl::variant_ref<int, ptl::string>{s.number};)};
	static constexpr ReaderOp ops[]{
		OP("holds", return Seen{}(a.r.holds<int>())(a.r.holds<ptl::string>());)
		OP("get_if", Seen s; if(const auto p{a.r.get_if<int>()}) s(*p); if(const auto p{a.r.get_if<ptl::string>()}) s(std::as_const(*p)); return s;)
		OP("get", return caught([&] { return U{Seen{}(std::as_const(a.r.get<ptl::string>()))}; });)
		OP("visit", return a.r.visit([](const auto & x) { return U{Seen{}(x)}; });)
		OP("visit overloads", return a.r.visit([](const int & i) { return static_cast<U>(i); }, [](const ptl::string & s) { return U{s.size()}; });)
		OP("copy", const auto c{a.r}; auto d{b.r}; d = a.r; return Seen{}(c.holds<int>())(d.holds<int>());)
	};
};
int twice(int x) { return 2 * x; }
struct FunctionRef {
	struct Add { int n; int operator()(int x) const { return x + n; } };
	struct T { Add target{5}; ptl::string text{std::string_view{"some characters, not few"}}; ptl::function_ref<int(int)> r{twice}; };
	static constexpr char name[]{"function_ref"};
	static void copy(T & s, const T & o) { s.text = o.text; }
	static U state(const T & s) { return static_cast<U>(s.r(1)); }
	static constexpr ReaderMutator mutators[]{DO("bind functor", s.r = ptl::function_ref<int(int)>{s.target};) DO("bind function", s.r = ptl::function_ref<int(int)>{twice};)};
	static constexpr ReaderOp ops[]{
		OP("call", return Seen{}(a.r(1))(a.r(2));)
		OP("copy", const auto c{a.r}; auto d{b.r}; d = a.r; return Seen{}(c(1))(d(2));)
		OP("const functor", const ptl::function_ref<int(int)> f{a.target}; return static_cast<U>(f(3));)
		OP("by reference to const", const ptl::function_ref<U(const ptl::string &)> f{[](const ptl::string & s) -> U { return s.size(); }}; return f(a.text);)
	};
};
constexpr char vector_int[]{"vector<int>"}, vector_string[]{"vector<string>"}, vector_optional[]{"vector<optional<string>>"}, array_0[]{"array<int, 0>"}, array_3[]{"array<int, 3>"}, array_s[]{"array<string, 2>"}, optional_int[]{"optional<int>"}, optional_string[]{"optional<string>"}, optional_vector[]{"optional<vector<int>>"}, bits_0[]{"bitset<0>"}, bits_8[]{"bitset<8>"}, bits_37[]{"bitset<37>"}, bits_64[]{"bitset<64>"};
constexpr ReaderType named(ReaderType t, const char * n) { t.name = n; return t; }
constexpr ReaderType types[]{
	type<String>(), named(type<Vector<int>>(), vector_int), named(type<Vector<ptl::string>>(), vector_string), named(type<Vector<ptl::optional<ptl::string>>>(), vector_optional),
	named(type<Array<int, 0>>(), array_0), named(type<Array<int, 3>>(), array_3), named(type<Array<ptl::string, 2>>(), array_s),
	named(type<Bitset<0>>(), bits_0), named(type<Bitset<8>>(), bits_8), named(type<Bitset<37>>(), bits_37), named(type<Bitset<64>>(), bits_64),
	named(type<Optional<int>>(), optional_int), named(type<Optional<ptl::string>>(), optional_string), named(type<Optional<ptl::vector<int>>>(), optional_vector),
	type<Variant>(), type<Product>(), type<StringRef>(), type<ArrayRef>(), type<OptionalRef>(), type<VariantRef>(), type<FunctionRef>(),
};
const ReaderModule module{[](const ReaderHost * h) { host = h; }, types, static_cast<int>(sizeof types / sizeof *types)};
}
extern "C" const ReaderModule * reader_module() { return &module; }
