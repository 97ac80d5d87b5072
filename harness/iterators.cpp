// iterators of every container and reference range against element positions
#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#include <ptl/array.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/array_ref.hpp>
#include "values.hpp"
#include <numeric>

using mc::Chooser;
using mc::Elem;
using mc::fmt;

namespace {
// ---------------------------------------------------------------- containers: make n elements, tell where they are
template<typename T> T element(int i) { return static_cast<T>(i * 3 + 1); }
template<typename T> int number(const T & t) { if constexpr(std::is_base_of_v<Elem, T>) { t.need("read"); return t.v; } else return static_cast<int>(t); }
template<typename T> const T * address(const T * p) { return p; }

struct StringInline { // unused capacity behind the text
	using C = ptl::string;
	C c;
	explicit StringInline(int n) { for(int i{0}; i < n; ++i) c.push_back(element<char>(i)); }
	const char * base() const { return c.data(); }
};
struct StringHeap {
	using C = ptl::string;
	C c;
	explicit StringHeap(int n) { c.reserve(60); for(int i{0}; i < n; ++i) c.push_back(element<char>(i)); }
	const char * base() const { return c.data(); }
};
template<typename T> struct Vector {
	using C = ptl::vector<T>;
	C c;
	explicit Vector(int n) { for(int i{0}; i < n; ++i) c.push_back(element<T>(i)); }
	const T * base() const { return c.data(); }
};
struct Odd { char a[3]; explicit operator int() const { return a[1]; } Odd(int i = 0) : a{9, static_cast<char>(i), 9} {} };
struct alignas(32) Wide { int v; char tail[40]; explicit operator int() const { return v; } Wide(int i = 0) : v{i} {} };
template<typename T, std::size_t N> struct Array {
	using C = ptl::array<T, N>;
	C c;
	explicit Array(int) { for(std::size_t i{0}; i < N; ++i) c.data()[i] = element<T>(static_cast<int>(i)); }
	const T * base() const { return c.data(); }
};
struct StringRef {
	using C = ptl::string_ref;
	std::string owner;
	C c;
	explicit StringRef(int n) { owner = "<<"; for(int i{0}; i < n; ++i) owner += element<char>(i); owner += ">>"; c = C{owner.data() + 2, static_cast<std::size_t>(n)}; }
	const char * base() const { return owner.data() + 2; }
};
template<typename T> struct ArrayRef {
	using C = ptl::array_ref<T>;
	std::vector<std::remove_const_t<T>> owner;
	C c;
	explicit ArrayRef(int n) { for(int i{-1}; i <= n; ++i) owner.push_back(element<std::remove_const_t<T>>(i)); c = C{owner.data() + 1, static_cast<std::size_t>(n)}; }
	const T * base() const { return owner.data() + 1; }
};

//! which pair of iterators
template<int K, typename C> auto first(C & c) {
	const C & k{c};
	(void)k;
	if constexpr(K == 0) return c.begin();
	else if constexpr(K == 1) return k.begin();
	else if constexpr(K == 2) return c.cbegin();
	else if constexpr(K == 3) return k.cbegin();
	else if constexpr(K == 4) return c.rbegin();
	else if constexpr(K == 5) return k.rbegin();
	else if constexpr(K == 6) return c.crbegin();
	else return k.crbegin();
}
template<int K, typename C> auto last(C & c) {
	const C & k{c};
	(void)k;
	if constexpr(K == 0) return c.end();
	else if constexpr(K == 1) return k.end();
	else if constexpr(K == 2) return c.cend();
	else if constexpr(K == 3) return k.cend();
	else if constexpr(K == 4) return c.rend();
	else if constexpr(K == 5) return k.rend();
	else if constexpr(K == 6) return c.crend();
	else return k.crend();
}
const char * const kinds[]{"begin", "begin of const", "cbegin", "cbegin of const", "rbegin", "rbegin of const", "crbegin", "crbegin of const"};

template<typename F, int K> struct World : mc::World {
	using C = typename F::C;
	using It = decltype(first<K>(std::declval<C &>()));
	using Const = std::conditional_t<(K < 4), typename C::const_iterator, typename C::const_reverse_iterator>;
	using Traits = std::iterator_traits<It>;
	static constexpr bool reverse{K >= 4}, writable{!std::is_const_v<std::remove_reference_t<typename Traits::reference>>};
	static_assert(std::is_base_of_v<std::random_access_iterator_tag, typename Traits::iterator_category>);
	static_assert(std::is_same_v<typename Traits::difference_type, std::ptrdiff_t>);
	static_assert(std::is_same_v<std::remove_const_t<std::remove_reference_t<typename Traits::reference>>, typename Traits::value_type>);
	static_assert(std::is_same_v<It, decltype(last<K>(std::declval<C &>()))>);
	static_assert(std::is_same_v<Const, decltype(first<(K < 4 ? 2 : 6)>(std::declval<C &>()))>);
	static_assert(std::is_convertible_v<It, Const>);

	std::vector<int> sizes;
	std::unique_ptr<F> f;
	std::ptrdiff_t n{0}, i{0}, j{0};
	It it{}, other{};
	explicit World(std::vector<int> sizes) : sizes{std::move(sizes)} { Elem::reset(); }
	std::string key() override { return fmt("%td %td %td", n, i, j); }

	auto where(std::ptrdiff_t k) const { return f->base() + (reverse ? n - 1 - k : k); }

	void check() {
		C & c{f->c};
		const It b{first<K>(c)}, e{last<K>(c)};
		REQUIRE_("iter", e - b == n && b + n == e && e - n == b, "end - begin is %td instead of %td", e - b, n);
		REQUIRE_("iter", it - b == i && e - it == n - i && b - it == -i, "distance to begin is %td instead of %td", it - b, i);
		REQUIRE_("iter", it - other == i - j && other - it == j - i, "difference %td instead of %td", it - other, i - j);
		const auto order{[&](const auto & x, const auto & y, const char * what) {
			REQUIRE_("iter", (x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "comparison of positions %td and %td (%s)", i, j, what);
		}};
		order(it, other, "same type");
		const Const ci{it}, cj{other};
		order(ci, cj, "both const");
		if constexpr(std::is_same_v<It, typename C::iterator>) { //mixed comparisons are part of the plain iterators
			order(it, cj, "iterator, const_iterator");
			order(ci, other, "const_iterator, iterator");
			REQUIRE_("iter", it - cj == i - j && ci - other == i - j, "mixed difference");
		}
		for(std::ptrdiff_t d{-i}; d < n - i; ++d) {
			REQUIRE_("iter", std::addressof(it[d]) == where(i + d), "[%td] at position %td", d, i);
			REQUIRE_("iter", std::addressof(*(it + d)) == where(i + d) && std::addressof(*(d + it)) == where(i + d) && std::addressof(*(it - -d)) == where(i + d), "+ %td at position %td", d, i);
			REQUIRE_("iter", std::addressof(ci[d]) == where(i + d), "const [%td] at position %td", d, i);
		}
		if(i < n) {
			REQUIRE_("iter", std::addressof(*it) == where(i), "* at position %td", i);
			REQUIRE_("iter", it.operator->() == where(i), "-> at position %td", i);
			REQUIRE_("iter", std::addressof(*ci) == where(i), "const * at position %td", i);
		}
		if constexpr(reverse) { if(i) REQUIRE_("iter", std::addressof(*it.base()) == f->base() + (n - i), "base at position %td", i); }
		REQUIRE_("iter", std::next(b, i) == it && std::prev(e, n - i) == it && std::distance(b, it) == i, "next, prev or distance");
		std::ptrdiff_t k{0};
		for(It x{b}; x != e; ++x, ++k) REQUIRE_("iter", k < n && std::addressof(*x) == where(k), "loop at %td", k);
		REQUIRE_("iter", k == n, "loop over %td of %td elements", k, n);
		for(It x{e}; x != b;) { --x; --k; REQUIRE_("iter", k >= 0 && std::addressof(*x) == where(k), "backward loop at %td", k); }
		for(std::ptrdiff_t q{0}; q < n; ++q) REQUIRE_("iter", number(f->base()[q]) == number(element<typename C::value_type>(static_cast<int>(q))), "element %td changed", q);
	}
	void step(Chooser & ch) override {
		if(!f) {
			ch.label("create");
			n = ch.pick(sizes);
			mc::sut([&] { f = std::make_unique<F>(static_cast<int>(n)); });
			NOTE("%td elements, %s", n, kinds[K]);
			it = first<K>(f->c);
			other = last<K>(f->c);
			i = 0;
			j = n;
			check();
			return;
		}
		static const char * const names[]{"++it", "it++", "--it", "it--", "it += d", "it -= d", "it + d", "d + it", "it - d", "copy", "exchange", "reset", "write", "reverse elements", "from begin", "from end"};
		const int op{ch.choose(16)};
		ch.label(names[op]);
		NOTE("  position %td, other %td of %td", i, j, n);
		const auto target{[&] { return static_cast<std::ptrdiff_t>(ch.choose(static_cast<int>(n) + 1)); }};
		switch(op) {
		case 0: if(i == n) return; { It & r{++it}; ++i; REQUIRE_("iter", &r == &it, "++ did not return the iterator"); } break;
		case 1: if(i == n) return; { const It r{it++}; REQUIRE_("iter", it - r == 1 && std::addressof(*r) == where(i), "it++ returned another position"); ++i; } break;
		case 2: if(i == 0) return; { It & r{--it}; --i; REQUIRE_("iter", &r == &it, "-- did not return the iterator"); } break;
		case 3: if(i == 0) return; { const It r{it--}; REQUIRE_("iter", r - it == 1, "it-- returned another position"); --i; } break;
		case 4: { const auto k{target()}; It & r{it += k - i}; i = k; REQUIRE_("iter", &r == &it, "+= did not return the iterator"); break; }
		case 5: { const auto k{target()}; It & r{it -= i - k}; i = k; REQUIRE_("iter", &r == &it, "-= did not return the iterator"); break; }
		case 6: { const auto k{target()}; const It r{it + (k - i)}; REQUIRE_("iter", r - it == k - i, "+ changed its operand"); it = r; i = k; break; }
		case 7: { const auto k{target()}; const It r{(k - i) + it}; it = r; i = k; break; }
		case 8: { const auto k{target()}; const It r{it - (i - k)}; REQUIRE_("iter", r - it == k - i, "- changed its operand"); it = r; i = k; break; }
		case 9: { const It r{it}; other = r; j = i; break; }
		case 10: { using std::swap; swap(it, other); std::swap(i, j); break; }
		case 11: { it = It{}; REQUIRE_("iter", it == It{}, "default constructed iterators differ"); it = other; i = j; break; }
		case 12:
			if constexpr(writable) {
				if(i == n) return;
				using T = typename C::value_type;
				const auto at{reverse ? n - 1 - i : i};
				*it = element<T>(100);
				for(std::ptrdiff_t q{0}; q < n; ++q) REQUIRE_("iter", number(f->base()[q]) == number(element<T>(q == at ? 100 : static_cast<int>(q))), "write at position %td reached element %td", i, q);
				it[0] = element<T>(101);
				REQUIRE_("iter", number(f->base()[at]) == number(element<T>(101)), "write by subscript");
				if constexpr(std::is_base_of_v<Elem, T>) { it->v = 5; REQUIRE_("iter", number(f->base()[at]) == 5, "write by ->"); }
				*it = element<T>(static_cast<int>(at));
			}
			break;
		case 13:
			if constexpr(writable) {
				using T = typename C::value_type;
				std::reverse(first<K>(f->c), last<K>(f->c));
				for(std::ptrdiff_t q{0}; q < n; ++q) REQUIRE_("iter", number(f->base()[q]) == number(element<T>(static_cast<int>(n - 1 - q))), "std::reverse: element %td", q);
				std::sort(first<K>(f->c), last<K>(f->c), [](const T & a, const T & b) { return reverse ? number(b) < number(a) : number(a) < number(b); });
			}
			break;
		case 14: it = first<K>(f->c); i = 0; break;
		case 15: it = last<K>(f->c); i = n; break;
		}
		check();
	}
};

template<typename F, int K>
void add_one(mc::Plan & r, const char * name, const std::vector<int> & sizes) {
	mc::Model m;
	m.name = fmt("%s of %s", kinds[K], name);
	m.make = [sizes] { return new World<F, K>{sizes}; };
	m.depth = 200;
	r.models.push_back(m);
}
template<typename F>
void add(mc::Plan & r, const char * name, const std::vector<int> & sizes) {
	add_one<F, 0>(r, name, sizes);
	add_one<F, 1>(r, name, sizes);
	add_one<F, 2>(r, name, sizes);
	add_one<F, 3>(r, name, sizes);
	add_one<F, 4>(r, name, sizes);
	add_one<F, 5>(r, name, sizes);
	add_one<F, 6>(r, name, sizes);
	add_one<F, 7>(r, name, sizes);
}
}

mc::Plan plan(const std::string &, bool thorough) {
	mc::Plan r;
	const std::vector<int> small{thorough ? std::vector<int>{0, 1, 2, 3, 4, 5, 8, 12, 20} : std::vector<int>{0, 1, 2, 5}};
#if PART == 0
	add<StringInline>(r, "string (inline)", thorough ? std::vector<int>{0, 1, 2, 5, 12, 21, 22} : std::vector<int>{0, 1, 5, 22});
	add<StringHeap>(r, "string (heap)", thorough ? std::vector<int>{0, 1, 2, 5, 12, 23, 30} : std::vector<int>{0, 1, 5});
	add<Vector<Elem>>(r, "vector<tracked>", small);
	add<Vector<Odd>>(r, "vector of 3 byte elements", small);
	add<Vector<Wide>>(r, "vector of over-aligned elements", small);
#else
	add<Array<Elem, 0>>(r, "array<tracked, 0>", {0});
	add<Array<char, 1>>(r, "array<char, 1>", {1});
	add<Array<Elem, 4>>(r, "array<tracked, 4>", {4});
	add<StringRef>(r, "string_ref", small);
	add<ArrayRef<Elem>>(r, "array_ref<tracked>", small);
	add<ArrayRef<const Odd>>(r, "array_ref to const 3 byte elements", small);
#endif
	r.mask = {"iter"};
	return r;
}
