// C35: what the compiler's constant evaluator makes of a history of operations is what happens at run time.
// The evaluator is an abstract machine of its own: it rejects any undefined behaviour on the way (reads past
// the end, of uninitialised or inactive members, comparisons of unrelated pointers), which here fails to compile.
// Every history up to a bound is played once by the evaluator (the tables) and once at run time.
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/variant_ref.hpp>
#include "common.hpp"
#include <array>
#include <optional>
#include <string_view>

using mc::Chooser;
using mc::fmt;

struct Truth {};
namespace ptl { template<> inline constexpr bool enable_bitset_operator_bool<Truth>{true}; }

namespace {
using U = std::uint64_t;
#ifndef DEPTH
#define DEPTH 2
#define WHO ""
#endif
#if __cplusplus >= 202002L
constexpr bool full{true};  // algorithms are usable in constant expressions
#else
constexpr bool full{false};
#endif
struct Seen {
	U h{14695981039346656037u};
	constexpr Seen & operator()(U v) { h = (h ^ v) * 1099511628211u; h ^= h >> 29; return *this; }
	template<typename T> constexpr Seen & all(const T & range) { for(const auto & x : range) (*this)(static_cast<U>(x)); return *this; }
	//! forward and backward through the iterators of a range, and all their operations
	template<typename R> constexpr Seen & walk(R & r) {
		auto b{r.begin()};
		const auto e{r.end()};
		const auto n{e - b};
		(*this)(static_cast<U>(n));
		for(auto i{b}; i != e; ++i) (*this)(static_cast<U>(*i));
		for(auto i{b}; i < e; i++) (*this)(static_cast<U>(i[0]))(static_cast<U>(i - b));
		for(auto i{e}; i > b;) (*this)(static_cast<U>(*--i))(i >= b)(i <= e)(i == b);
		for(auto i{e}; i != b;) { i--; (*this)(static_cast<U>(*i.operator->())); }
		for(auto i{r.rbegin()}; i != r.rend(); ++i) (*this)(static_cast<U>(*i));
		for(auto i{r.crbegin()}; i != r.crend(); ++i) (*this)(static_cast<U>(*i));
		for(auto i{r.cbegin()}; i != r.cend(); ++i) (*this)(static_cast<U>(*i));
		for(decltype(e - b) k{0}; k < n; ++k) {
			auto i{b};
			i += k;
			auto j{e};
			j -= n - k;
			(*this)(i == j)(static_cast<U>(*(b + k)))(static_cast<U>(*(k + b)))(static_cast<U>(*(e - (n - k))));
		}
		return *this;
	}
	template<typename T> constexpr Seen & six(const T & a, const T & b) { return (*this)(a == b)(a != b)(a < b)(a > b)(a <= b)(a >= b); }
};

struct StringRef {
	static constexpr char name[]{"string_ref"};
	struct S { ptl::string_ref a, b{"abd"}; };
	static constexpr const char * names[]{"= \"\"", "= \"a\"", "= \"abc\"", "= \"a\\0b\"", "= chars above 127", "= range without terminator", "= view", "= _sr", "= other", "swap with other", "remove_prefix", "remove_suffix", "substr(1)", "substr(0, 1)", "substr(size)", "at", "to string_view"};
	static constexpr int K{sizeof names / sizeof *names};
	static constexpr char raw[]{'x', 'y', 'z'};
	static constexpr void apply(S & s, int op, Seen & seen) {
		using namespace ptl::literals;
		auto & a{s.a};
		switch(op) {
			case 0: a = ""; break;
			case 1: a = "a"; break;
			case 2: a = ptl::string_ref{"abc"}; break;
			case 3: a = {"a\0b", 3}; break;
			case 4: a = "\x80\xff"; break;
			case 5: a = {raw, 3}; break;
			case 6: a = std::string_view{"view"}; break;
			case 7: a = "lit\0eral"_sr; break;
			case 8: a = s.b; break;
			case 9: { const auto t{a}; a = s.b; s.b = t; break; }
			case 10: if(!a.empty()) a.remove_prefix(1); break;
			case 11: if(!a.empty()) a.remove_suffix(1); break;
			case 12: if(!a.empty()) a = a.substr(1); break;
			case 13: if(!a.empty()) a = a.substr(0, 1); break;
			case 14: a = a.substr(a.size()); break;
			case 15: for(U i{0}; i < a.size(); ++i) seen(static_cast<U>(a.at(i))); break;
			default: { const std::string_view v{a}; seen.all(v); }
		}
	}
	static constexpr void see(const S & s, Seen & seen) {
		const auto & a{s.a};
		seen(a.size())(a.empty())(a.max_size()).walk(a).six(a, s.b).six(s.b, a);
		for(U i{0}; i < a.size(); ++i) seen(static_cast<U>(a[i]))(static_cast<U>(a.data()[i]));
		if(!a.empty()) seen(static_cast<U>(a.front()))(static_cast<U>(a.back()));
	}
};
template<typename E> struct ArrayRef {
	static constexpr bool writes{!std::is_const_v<E>};
	static constexpr const char * name{writes ? "array_ref<int>" : "array_ref<const int>"};
	struct S { int one[4]{1, 2, 3, 4}; std::array<int, 2> two{5, 6}; ptl::array<int, 3> three{7, 8, 9}; ptl::array_ref<E> a; };
	static constexpr const char * names[]{"= array", "= std::array", "= ptl::array", "= two pointers", "= pointer, count", "= {}", "= subrange(1)", "= subrange(1, 1)", "= first(1)", "= last(1)", "= last(0)", "write []", "write at", "write front, back", "write *it", "write rbegin", "to const"};
	static constexpr int K{sizeof names / sizeof *names};
	static constexpr void apply(S & s, int op, Seen & seen) {
		auto & a{s.a};
		switch(op) {
			case 0: a = s.one; break;
			case 1: a = s.two; break;
			case 2: a = s.three; break;
			case 3: a = {s.one + 1, s.one + 4}; break;
			case 4: a = {s.one, 3}; break;
			case 5: a = {}; break;
			case 6: if(!a.empty()) a = a.subrange(1); break;
			case 7: if(a.size() > 1) a = a.subrange(1, 1); break;
			case 8: if(!a.empty()) a = a.first(1); break;
			case 9: if(!a.empty()) a = a.last(1); break;
			case 10: a = a.last(0); break;
			case 16: { const ptl::array_ref<const int> c{a}; seen(c.size()).walk(c); break; }
			default:
				if constexpr(writes) if(!a.empty()) {
					if(op == 11) a[a.size() - 1] += 10;
					else if(op == 12) a.at(0) += 20;
					else if(op == 13) { a.front() += 30; a.back() += 40; }
					else if(op == 14) for(auto & x : a) x += 50;
					else *a.rbegin() = 60;
				}
		}
	}
	static constexpr void see(S & s, Seen & seen) {
		auto & a{s.a};
		const auto & c{s.a};
		seen(a.size())(a.empty()).walk(a).walk(c).all(s.one).all(s.two).walk(std::as_const(s.three));
		for(U i{0}; i < a.size(); ++i) seen(static_cast<U>(a[i]))(static_cast<U>(c.at(i)))(static_cast<U>(a.data()[i]));
		if(!a.empty()) seen(static_cast<U>(a.front()))(static_cast<U>(c.back()));
	}
};
template<std::size_t N> struct Array {
	static constexpr const char * name{N == 1 ? "array<int, 1>" : N == 2 ? "array<int, 2>" : "array<int, 4>"};
	struct S { ptl::array<int, N> a{1}, b{1}; };
	static constexpr const char * names[]{"= list", "= other", "= other, moved", "write []", "write other []", "write at", "write front", "write back", "write *it", "write data", "write rbegin", "write it + n", "fill", "swap", "free swap", "to const iterator", "get"};
	static constexpr int K{sizeof names / sizeof *names};
	static constexpr void apply(S & s, int op, Seen & seen) {
		auto & a{s.a};
		switch(op) {
			case 0: if constexpr(N > 1) a = ptl::array<int, N>{3, 4}; else a = ptl::array<int, N>{3}; break;
			case 1: a = s.b; break;
			case 2: s.b = std::move(a); break;
			case 3: a[N - 1] += 10; break;
			case 4: s.b[0] -= 11; break;
			case 5: a.at(N / 2) += 20; break;
			case 6: a.front() += 30; break;
			case 7: a.back() += 40; break;
			case 8: for(auto & x : a) x += 50; break;
			case 9: a.data()[N - 1] = 60; break;
			case 10: *a.rbegin() = 70; break;
			case 11: *(a.begin() + (N - 1)) = -80; break;
			case 12: if constexpr(full) a.fill(90); break;
			case 13: if constexpr(full) a.swap(s.b); break;
			case 14: if constexpr(full) swap(a, s.b); break;
			case 15: { typename ptl::array<int, N>::const_iterator i{a.end()}; seen(i == std::as_const(a).end())(static_cast<U>(i - a.cbegin())); break; }
			default: seen(std::tuple_size<ptl::array<int, N>>::value);
		}
	}
	static constexpr void see(S & s, Seen & seen) {
		auto & a{s.a};
		const auto & c{s.a};
		seen(a.size())(a.empty())(a.max_size()).walk(a).walk(c).walk(s.b);
		for(U i{0}; i < N; ++i) seen(static_cast<U>(c[i]))(static_cast<U>(c.at(i)))(static_cast<U>(a.data()[i]));
		seen(static_cast<U>(c.front()))(static_cast<U>(c.back()))(c.data() == a.data());
		if constexpr(full) seen.six(c, std::as_const(s.b)).six(std::as_const(s.b), c);
	}
};
template<std::size_t N> struct Bits {
	static constexpr const char * name{N == 0 ? "bitset<0>" : N == 1 ? "bitset<1>" : N == 7 ? "bitset<7>" : N == 8 ? "bitset<8>" : N == 9 ? "bitset<9>" : "bitset<20>"};
	using B = ptl::bitset<N, Truth>;
	struct S { B a, b{static_cast<std::size_t>(0x5a5a5)}; };
	static constexpr const char * names[]{"= 0x..", "= all", "= other", "set first", "set last", "set middle false", "reset last", "flip first", "flip last", "[] = true", "[] = []", "[].flip, ~", "swap references", "<<= 1", ">>= 1", "<< middle", ">> last", /* C++20 */ "set", "reset", "flip", "&=", "|=", "^=", "& | ^ ~", "<<= all", ">>= all", "swap"};
	static constexpr int K{27};
	static constexpr void apply(S & s, int op, Seen & seen) {
		auto & a{s.a};
		switch(op) {
			case 0: a = B{static_cast<std::size_t>(0x3c96a7)}; break;
			case 1: a = B{static_cast<std::size_t>(-1)}; break;
			case 2: a = s.b; break;
			default: if constexpr(N != 0) switch(op) {
				case 3: a.set(0); break;
				case 4: a.set(N - 1); break;
				case 5: a.set(N / 2, false); break;
				case 6: a.reset(N - 1); break;
				case 7: a.flip(0); break;
				case 8: a.flip(N - 1); break;
				case 9: a[N / 2] = true; break;
				case 10: a[0] = a[N - 1]; break;
				case 11: { auto r{a[N - 1]}; r.flip(); seen(~r)(static_cast<bool>(r)); break; }
				case 12: { auto p{a[0]}, q{s.b.at(N - 1)}; swap(p, q); p.swap(q); swap(a[0], a[N - 1]); break; }
				case 13: if constexpr(N > 1) a <<= 1; break;
				case 14: if constexpr(N > 1) a >>= 1; break;
				case 15: if constexpr(N > 1) a = a << (N / 2); break;
				case 16: if constexpr(N > 1) a = a >> (N - 1); break;
				default: break;
			}
		}
		if constexpr(full) switch(op) {
			case 17: a.set(); break;
			case 18: a.reset(); break;
			case 19: a.flip(); break;
			case 20: a &= s.b; break;
			case 21: a |= s.b; break;
			case 22: a ^= s.b; break;
			case 23: s.b = (a & ~s.b) | (a ^ s.b); break;
			case 24: a <<= N; break;
			case 25: a >>= N + 1; break;
			case 26: swap(a, s.b); break;
			default: break;
		}
	}
	static constexpr void see(S & s, Seen & seen) {
		auto & a{s.a};
		const auto & c{s.a};
		seen(a.size())(a.empty())(a.max_size());
		for(U i{0}; i < N; ++i) seen(c[i])(c.test(i))(c.at(i))(static_cast<bool>(a[i]))(static_cast<bool>(a.at(i)))(s.b.test(i));
		using std::get;
		if constexpr(N > 8) seen(get<0>(c))(get<N - 1>(c))(get<8>(c));
		if constexpr(full) seen(c.all())(c.any())(c.none())(c.count())(static_cast<bool>(c))(c == s.b)(c != s.b);
	}
};
struct OptionalRef {
	static constexpr char name[]{"optional_ref<int>"};
	struct S { int x{1}, y{2}; std::optional<int> none, some{3}; ptl::optional_ref<int> a, b{y}; };
	static constexpr const char * names[]{"= x", "= y", "= nullopt", "= {}", "= std::optional without value", "= std::optional with value", "= other", "swap with other", "write *", "write value", "write through other", "write the target", "= pointer", "= null pointer", "to const"};
	static constexpr int K{sizeof names / sizeof *names};
	static constexpr void apply(S & s, int op, Seen & seen) {
		auto & a{s.a};
		switch(op) {
			case 0: a = s.x; break;
			case 1: a = s.y; break;
			case 2: a = std::nullopt; break;
			case 3: a = {}; break;
			case 4: a = s.none; break;
			case 5: a = s.some; break;
			case 6: a = s.b; break;
			case 7: { const auto t{a}; a = s.b; s.b = t; break; }
			case 8: if(a) *a += 10; break;
			case 9: if(a.has_value()) a.value() += 20; break;
			case 10: if(s.b) *s.b.operator->() += 30; break;
			case 11: s.x += 40; break;
			case 12: { int * p{&s.y}; a = p; break; }
			case 13: { int * p{nullptr}; a = p; break; }
			default: { const ptl::optional_ref<const int> c{a}; seen(c.has_value()); if(c) seen(static_cast<U>(*c))(c.operator->() == a.operator->()); }
		}
	}
	static constexpr void see(const S & s, Seen & seen) {
		seen(static_cast<bool>(s.a))(s.a.has_value())(static_cast<U>(s.a.value_or(77)))(static_cast<U>(s.b.value_or(short{78})))(static_cast<U>(s.x))(static_cast<U>(s.y))(static_cast<U>(*s.some));
		if(s.a) seen(static_cast<U>(*s.a))(static_cast<U>(s.a.value()))(&*s.a == &s.x)(&*s.a == &s.y);
	}
};

template<typename M, typename Ops> constexpr U play(const Ops & ops, int n) {
	typename M::S s;
	Seen seen;
	for(int i{0}; i < n; ++i) { M::apply(s, ops[i], seen); seen(static_cast<U>(i)); }
	M::see(s, seen);
	return seen.h;
}
template<typename M> constexpr int histories() {
	int all{0}, row{1};
	for(int d{0}; d <= DEPTH; ++d) { all += row; row *= M::K; }
	return all;
}
template<typename M> struct Table {
	U seen[histories<M>()]{};
	constexpr Table() {
		int at{0}, row{1};
		for(int d{0}; d <= DEPTH; ++d) {
			for(int c{0}; c < row; ++c) {
				int ops[DEPTH + 1]{};
				for(int i{d - 1}, v{c}; i >= 0; --i) { ops[i] = v % M::K; v /= M::K; }
				seen[at++] = play<M>(ops, d);
			}
			row *= M::K;
		}
	}
};
template<typename M> constexpr Table<M> table{};

template<typename M> struct World : mc::World {
	std::vector<int> ops;
	void step(Chooser & ch) override {
		const auto k{ch.choose(M::K + 1)};
		if(k == 0) { ch.label("nothing"); ops.clear(); ops.push_back(-1); }
		else {
			ch.label(M::names[k - 1]);
			ops.push_back(k - 1);
		}
		if(!ch.fresh()) return;
		int at{0}, row{1}, code{0};
		const auto n{k ? static_cast<int>(ops.size()) : 0};
		for(int d{0}; d < n; ++d) { at += row; row *= M::K; code = code * M::K + ops[d]; }
		std::array<volatile int, DEPTH + 1> now{};
		for(int i{0}; i < n; ++i) now[i] = ops[i];
		U have{};
		const auto o{mc::sut([&] { have = play<M>(now, n); })};
		REQUIRE_("consteval", o == mc::OK && have == table<M>.seen[at + code], "%s: the history ending in '%s' has another outcome at run time than in a constant expression", M::name, k ? M::names[k - 1] : "nothing");
	}
	std::string key() override {
		if(!ops.empty() && ops.back() < 0) return "";
		std::string r{"-"};
		for(const auto o : ops) r += static_cast<char>('0' + o);
		return r;
	}
};
template<typename M> mc::Model model() {
	mc::Model m;
	m.name = fmt("%s: histories of %d operations, constant evaluator of " WHO " and run time", M::name, M::K);
	m.make = [] { return new World<M>; };
	m.depth = DEPTH;
	return m;
}
}

mc::Plan plan(const std::string &, bool) {
	mc::Plan p;
	p.mask = {"consteval"};
	p.models = {model<StringRef>(), model<ArrayRef<int>>(), model<ArrayRef<const int>>(), model<Array<1>>(), model<Array<2>>(), model<Array<4>>(), model<OptionalRef>()};
	if constexpr(full) for(auto m : {model<Bits<0>>, model<Bits<1>>, model<Bits<7>>, model<Bits<8>>, model<Bits<9>>, model<Bits<20>>}) p.models.push_back(m());
	return p;
}
