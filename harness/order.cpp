// comparisons and hashes of strings and vectors: every pair of values, however each was produced
#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#include <ptl/array.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/string_ref.hpp>
#include "values.hpp"

using mc::Chooser;
using mc::Elem;
using mc::fmt;
using mc::Val;

namespace {
int sign(int x) { return x < 0 ? -1 : x > 0; }
template<typename A, typename B>
void six(const A & a, const B & b, int expect, const char * what) {
	bool r[6];
	const auto o{mc::sut([&] { r[0] = a == b; r[1] = a != b; r[2] = a < b; r[3] = a > b; r[4] = a <= b; r[5] = a >= b; })};
	REQUIRE_("order", o == mc::OK, "%s: comparison threw", what);
	REQUIRE_("order", r[0] == (expect == 0) && r[1] == (expect != 0) && r[2] == (expect < 0) && r[3] == (expect > 0) && r[4] == (expect <= 0) && r[5] == (expect >= 0),
		"%s: == %d != %d < %d > %d <= %d >= %d where the values compare %d", what, r[0], r[1], r[2], r[3], r[4], r[5], expect);
}

// ---------------------------------------------------------------- strings
std::vector<std::string> texts(bool thorough) {
	std::vector<std::string> r;
	const char a[]{'\0', 'a', 'b', '\x7f', '\x80', '\xff'};
	const int n{static_cast<int>(sizeof a)};
	r.emplace_back();
	for(int i{0}; i < n; ++i) r.emplace_back(1, a[i]);
	for(int i{0}; i < n; ++i) for(int j{0}; j < n; ++j) r.push_back(std::string{a[i], a[j]});
	if(thorough) for(int i{0}; i < n; ++i) for(int j{0}; j < n; ++j) for(int k{0}; k < n; ++k) r.push_back(std::string{a[i], a[j], a[k]});
	else r.insert(r.end(), {std::string("a\0b", 3), std::string("a\0\0", 3), std::string("\0\0\0", 3), "aab", "ab\xff"});
	//equal beginnings that end or differ around word and inline capacity limits
	for(std::size_t l : {7, 8, 9, 15, 16, 17, 21, 22, 23, 24, 25, 47, 48, 49, 60}) {
		r.emplace_back(l, 'a');
		for(std::size_t d : {std::size_t{0}, std::size_t{7}, std::size_t{8}, l - 2, l - 1}) if(d < l) { r.emplace_back(l, 'a'); r.back()[d] = d % 2 ? '\xff' : '\0'; if(d % 3 == 0) r.back()[d] = 'b'; }
	}
	for(std::size_t l : {255, 256, 257, 300}) { r.emplace_back(l, 'a'); r.emplace_back(l, 'a'); r.back().back() = 'b'; }
	std::sort(r.begin(), r.end());
	r.erase(std::unique(r.begin(), r.end()), r.end());
	return r;
}
constexpr int ways{6};
const char * const way_names[]{"direct", "after reserve", "shortened from longer", "moved in", "shrunk", "erased in front"};
void produce(ptl::string & s, const std::string & t, int way) {
	mc::sut([&] {
		const std::string_view v{t};
		switch(way) {
			case 0: s = v; break;
			case 1: s.reserve(320); s.append(v); break;
			case 2: s = std::string_view{"zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"}; s.clear(); for(auto c : v) s.push_back(c); break;
			case 3: { ptl::string x{v}; x.push_back('q'); x.pop_back(); s = std::move(x); break; }
			case 4: s.reserve(100); s.append(v); s.append(3, 'y'); s.erase(s.begin() + static_cast<std::ptrdiff_t>(v.size()), s.end()); s.shrink_to_fit(); break;
			case 5: s.append(v); s.insert(s.begin(), 5, 'x'); s.erase(s.begin(), s.begin() + 5); break;
		}
	});
}
struct Strings : mc::World {
	const std::vector<std::string> & all;
	int kind; // 0 string/string, 1 string/other types
	Strings(const std::vector<std::string> & all, int kind) : all{all}, kind{kind} {}
	std::string id;
	std::string key() override { return id; }
	void step(Chooser & ch) override {
		const auto lo{ch.choose((static_cast<int>(all.size()) + 31) / 32)}, hi{ch.choose(32)};
		const auto i{lo * 32 + hi};
		if(i >= static_cast<int>(all.size())) { ch.label("-"); return; }
		const auto & a{all[static_cast<std::size_t>(i)]};
		const auto wa{ch.choose(ways)};
		mc::Box<ptl::string> x, y;
		x.make();
		produce(*x, a, wa);
		NOTE("\"%s\" (%zu characters) %s", mc::js(a).c_str(), a.size(), way_names[wa]);
		ch.label(kind ? "mixed" : "string, string");
		id = fmt("%d %d", i, wa);
		std::size_t hx{0}, hy{0};
		mc::sut([&] { hx = std::hash<ptl::string>{}(*x); });
		//all partners in one execution; the partner's way of production is part of the choice
		const auto wb{kind ? 0 : ch.choose(ways)};
		id += fmt(" %d", wb);
		const auto image{[&] { std::string r(static_cast<const char *>(x.raw()), sizeof(ptl::string)); r.append(x->data(), x->size() + 1); return r; }};
		const auto before{image()};
		for(auto & b : all) {
			const auto expect{sign(a.compare(b))};
			if(!kind) {
				y.make();
				produce(*y, b, wb);
				six(*x, *y, expect, "string, string");
				six(*y, *x, -expect, "string, string (exchanged)");
				mc::sut([&] { hy = std::hash<ptl::string>{}(*y); });
				REQUIRE_("order", expect || hx == hy, "equal strings hash differently (\"%s\", %s and %s)", mc::js(a).c_str(), way_names[wa], way_names[wb]);
				y.kill();
			} else {
				const std::string_view v{b};
				six(*x, v, expect, "string, string_view");
				six(v, *x, -expect, "string_view, string");
				six(*x, b, expect, "string, std::string");
				six(b, *x, -expect, "std::string, string");
				//inside a larger buffer, not terminated
				const auto wide{"#" + b + "#"};
				const std::string_view w{wide.data() + 1, b.size()};
				six(*x, w, expect, "string, string_view into a buffer");
				six(w, *x, -expect, "string_view into a buffer, string");
				if(b.find('\0') == std::string::npos) {
					six(*x, b.c_str(), expect, "string, C string");
					six(b.c_str(), *x, -expect, "C string, string");
				}
				const ptl::string_ref r{b.data(), b.size()};
				six(*x, r, expect, "string, string_ref");
				six(r, *x, -expect, "string_ref, string");
				if(b.empty()) { six(*x, std::string_view{}, expect, "string, null view"); six(std::string_view{}, *x, -expect, "null view, string"); }
			}
		}
		REQUIRE_("order", image() == before, "comparing changed the string");
	}
};

// ---------------------------------------------------------------- vectors
template<typename T> std::vector<std::vector<int>> sequences(int alphabet, int longest) {
	std::vector<std::vector<int>> r{{}};
	for(std::size_t i{0}; i < r.size(); ++i) if(static_cast<int>(r[i].size()) < longest) for(int k{0}; k < alphabet; ++k) { auto v{r[i]}; v.push_back(k); r.push_back(v); }
	//around the first capacities
	for(int n : {9, 10, 11, 20, 21}) for(int d : {0, n - 1}) for(int k{0}; k < 2; ++k) { std::vector<int> v(static_cast<std::size_t>(n), 1); v[static_cast<std::size_t>(d)] = k; r.push_back(v); }
	std::sort(r.begin(), r.end());
	r.erase(std::unique(r.begin(), r.end()), r.end());
	return r;
}
template<typename T> struct Rank { static T mk(int i) { return Val<T>::mk(i); } };
template<> struct Rank<signed char> { static signed char mk(int i) { static const signed char v[]{-128, -1, 0, 127}; return v[i]; } };
template<> struct Rank<unsigned char> { static unsigned char mk(int i) { static const unsigned char v[]{0, 127, 128, 255}; return v[i]; } };
template<> struct Rank<int> { static int mk(int i) { static const int v[]{-2147483647 - 1, -1, 256, 2147483647}; return v[i]; } };
template<> struct Rank<unsigned long long> { static unsigned long long mk(int i) { static const unsigned long long v[]{0, 1, 1ull << 63, ~0ull}; return v[i]; } };
template<> struct Rank<float> { static float mk(int i) { static const float v[]{-1e30f, -0.5f, 0.25f, 1e30f}; return v[i]; } };
template<> struct Rank<bool> { static bool mk(int i) { return i > 0; } };
template<> struct Rank<ptl::vector<int>> { static ptl::vector<int> mk(int i) { return mc::quietly([&] { ptl::vector<int> v; if(i > 0) v.push_back(-5); if(i > 1) v.push_back(2); if(i > 2) v.push_back(3); return v; }); } };
template<> struct Rank<ptl::array<signed char, 2>> { static ptl::array<signed char, 2> mk(int i) { static const signed char v[][2]{{-1, 5}, {0, -7}, {0, 9}, {1, -9}}; ptl::array<signed char, 2> a{v[i][0], v[i][1]}; return a; } };
template<> struct Rank<ptl::optional<unsigned char>> { static ptl::optional<unsigned char> mk(int i) { ptl::optional<unsigned char> o; if(i == 1) o = static_cast<unsigned char>(0); if(i == 2) o = static_cast<unsigned char>(200); if(i == 3) o = static_cast<unsigned char>(201); return o; } };
template<> struct Rank<ptl::variant<int, signed char>> { using V = ptl::variant<int, signed char>; static V mk(int i) { if(i == 0) return V{-3}; if(i == 1) return V{9}; if(i == 2) return V{static_cast<signed char>(-4)}; return V{static_cast<signed char>(-3)}; } };
template<> struct Rank<ptl::tuple<int, signed char>> { using V = ptl::tuple<int, signed char>; static V mk(int i) { static const int a[]{-1, 0, 0, 7}; static const signed char b[]{9, -9, 1, -100}; return V{a[i], b[i]}; } };

template<typename T> struct Vectors : mc::World {
	std::vector<std::vector<int>> all;
	explicit Vectors(const std::vector<std::vector<int>> & all) : all{all} { Elem::reset(); }
	std::string id;
	std::string key() override { return id; }
	static void produce(ptl::vector<T> & v, const std::vector<int> & s, int way) {
		mc::sut([&] {
			if(way == 1) v.reserve(40);
			if(way == 2) { for(int i{0}; i < 3; ++i) v.push_back(Rank<T>::mk(1)); v.clear(); }
			for(auto i : s) v.push_back(Rank<T>::mk(i));
			if(way == 2) { v.insert(v.begin(), Rank<T>::mk(0)); v.erase(v.begin()); v.shrink_to_fit(); }
		});
	}
	void step(Chooser & ch) override {
		const auto lo{ch.choose((static_cast<int>(all.size()) + 31) / 32)}, hi{ch.choose(32)};
		const auto i{lo * 32 + hi};
		if(i >= static_cast<int>(all.size())) { ch.label("-"); return; }
		const auto wa{ch.choose(3)}, wb{ch.choose(3)};
		ch.label("vector, vector");
		id = fmt("%d %d %d", i, wa, wb);
		auto & a{all[static_cast<std::size_t>(i)]};
		mc::Box<ptl::vector<T>> x;
		x.make();
		produce(*x, a, wa);
		for(auto & b : all) {
			mc::Box<ptl::vector<T>> y;
			y.make();
			produce(*y, b, wb);
			const auto expect{a < b ? -1 : b < a ? 1 : 0};
			NOTE("sequence %d against a sequence of %zu elements, expected %d", i, b.size(), expect);
			six(*x, *y, expect, "vector, vector");
			six(*y, *x, -expect, "vector, vector (exchanged)");
		}
		six(*x, *x, 0, "vector, itself");
	}
};
template<typename T> mc::Model vectors(const char * name, bool thorough, int alphabet = 4) {
	static const auto all{sequences<T>(alphabet, thorough ? 4 : 3)};
	mc::Model m;
	m.name = fmt("vector<%s>", name);
	m.make = [] { return new Vectors<T>{all}; };
	return m;
}

// ---------------------------------------------------------------- fixed products of ranked values
template<typename T, std::size_t N> struct Arrays : mc::World {
	using A = ptl::array<T, N>;
	std::string id;
	std::string key() override { return id; }
	static constexpr int values{std::is_same_v<T, bool> ? 2 : 4};
	static int power() { int p{1}; for(std::size_t i{0}; i < N; ++i) p *= values; return p; }
	static std::vector<int> digits(int k) { std::vector<int> r; for(int p{power() / values}; p; p /= values) { r.push_back(k / p % values); } return r; }
	void step(Chooser & ch) override {
		const auto hi{ch.choose((power() + 15) / 16)}, i{hi * 16 + ch.choose(16)};
		if(i >= power()) { ch.label("-"); return; }
		ch.label("array, array");
		id = fmt("%d", i);
		mc::Box<A> x;
		const auto fill{[](mc::Box<A> & b, const std::vector<int> & d) { b.make(); for(std::size_t k{0}; k < N; ++k) mc::sut([&] { (*b)[k] = Rank<T>::mk(d[k]); }); }};
		const auto a{digits(i)};
		fill(x, a);
		for(int j{0}; j < power(); ++j) {
			mc::Box<A> y;
			const auto b{digits(j)};
			fill(y, b);
			six(*x, *y, a < b ? -1 : b < a ? 1 : 0, "array, array");
		}
	}
};
template<typename T, std::size_t N> mc::Model arrays(const char * name) {
	mc::Model m;
	m.name = fmt("array<%s, %zu>", name, N);
	m.make = [] { return new Arrays<T, N>; };
	return m;
}
//! tuple of three members of different types and sizes
template<typename A, typename B, typename C> struct Tuples : mc::World {
	using T = ptl::tuple<A, B, C>;
	std::string id;
	std::string key() override { return id; }
	static T mk(int k) { return T{Rank<A>::mk(k / 16 % 4), Rank<B>::mk(k / 4 % 4), Rank<C>::mk(k % 4)}; }
	void step(Chooser & ch) override {
		const auto i{ch.choose(64)};
		ch.label("tuple, tuple");
		id = fmt("%d", i);
		mc::Box<T> x;
		x.make_by([&] { return mk(i); });
		for(int j{0}; j < 64; ++j) {
			mc::Box<T> y;
			y.make_by([&] { return mk(j); });
			six(*x, *y, sign(i - j), "tuple, tuple");
		}
	}
};
template<typename A, typename B, typename C> mc::Model tuples(const char * name) {
	mc::Model m;
	m.name = fmt("tuple<%s>", name);
	m.make = [] { return new Tuples<A, B, C>; };
	return m;
}
//! optional of a ranked value: empty, then the values; against optionals, values and nullopt
template<typename V> struct Optionals : mc::World {
	using O = ptl::optional<V>;
	std::string id;
	std::string key() override { return id; }
	static void fill(mc::Box<O> & b, int k, int way) { // k == 0: empty
		b.make();
		mc::sut([&] {
			if(way) { *b = Rank<V>::mk(3); b->reset(); }
			if(k) *b = Rank<V>::mk(k - 1);
		});
	}
	void step(Chooser & ch) override {
		const auto i{ch.choose(5)}, j{ch.choose(5)}, wi{ch.choose(2)}, wj{ch.choose(2)};
		ch.label("optional, optional");
		id = fmt("%d %d %d %d", i, j, wi, wj);
		mc::Box<O> x, y;
		fill(x, i, wi);
		fill(y, j, wj);
		six(*x, *y, sign(i - j), "optional, optional");
		six(*x, std::nullopt, sign(i), "optional, nullopt");
		six(std::nullopt, *x, -sign(i), "nullopt, optional");
		if(j) {
			const V & v{**y};
			six(*x, v, sign(i - j), "optional, value");
			six(v, *x, sign(j - i), "value, optional");
		}
	}
};
template<typename V> mc::Model optionals(const char * name) {
	mc::Model m;
	m.name = fmt("optional<%s>", name);
	m.make = [] { return new Optionals<V>; };
	return m;
}
//! variant of three alternatives with ranked values
template<typename A, typename B, typename C> struct Variants : mc::World {
	using V = ptl::variant<A, B, C>;
	std::string id;
	std::string key() override { return id; }
	static void fill(mc::Box<V> & b, int k, int way) {
		b.make();
		mc::sut([&] {
			if(way) b->template emplace<2>(Rank<C>::mk(3));
			if(k < 4) b->template emplace<0>(Rank<A>::mk(k));
			else if(k < 8) b->template emplace<1>(Rank<B>::mk(k - 4));
			else b->template emplace<2>(Rank<C>::mk(k - 8));
		});
	}
	void step(Chooser & ch) override {
		const auto i{ch.choose(12)}, j{ch.choose(12)}, wi{ch.choose(2)}, wj{ch.choose(2)};
		ch.label("variant, variant");
		id = fmt("%d %d %d %d", i, j, wi, wj);
		mc::Box<V> x, y;
		fill(x, i, wi);
		fill(y, j, wj);
		six(*x, *y, sign(i - j), "variant, variant");
	}
};
template<typename A, typename B, typename C> mc::Model variants(const char * name) {
	mc::Model m;
	m.name = fmt("variant<%s>", name);
	m.make = [] { return new Variants<A, B, C>; };
	return m;
}
}

mc::Plan plan(const std::string &, bool thorough) {
	mc::Plan r;
	static const auto all{texts(thorough)};
	for(int k{0}; k < 2; ++k) {
		mc::Model m;
		m.name = k ? "strings against other string types" : "strings";
		m.make = [k] { return new Strings{all, k}; };
		r.models.push_back(m);
	}
	auto & m{r.models};
	m.push_back(vectors<Elem>("tracked", false));
	m.push_back(vectors<mc::Ordered>("ordered", thorough));
	m.push_back(vectors<int>("int", thorough));
	m.push_back(vectors<signed char>("signed char", thorough));
	m.push_back(vectors<unsigned char>("unsigned char", thorough));
	m.push_back(vectors<unsigned long long>("unsigned long long", thorough));
	m.push_back(vectors<float>("float", thorough));
	m.push_back(vectors<bool>("bool", thorough, 2));
	m.push_back(vectors<ptl::string>("string", false, 3));
	m.push_back(vectors<ptl::vector<int>>("vector<int>", false));
	m.push_back(vectors<ptl::array<signed char, 2>>("array<signed char, 2>", thorough));
	m.push_back(vectors<ptl::optional<unsigned char>>("optional<unsigned char>", thorough));
	m.push_back(vectors<ptl::variant<int, signed char>>("variant<int, signed char>", false));
	m.push_back(arrays<signed char, 3>("signed char"));
	m.push_back(arrays<unsigned char, 3>("unsigned char"));
	m.push_back(arrays<int, 2>("int"));
	m.push_back(arrays<int, 4>("int"));
	m.push_back(arrays<float, 3>("float"));
	m.push_back(arrays<bool, 4>("bool"));
	m.push_back(arrays<ptl::vector<int>, 2>("vector<int>"));
	m.push_back(tuples<int, unsigned char, signed char>("int, unsigned char, signed char"));
	m.push_back(tuples<signed char, float, unsigned long long>("signed char, float, unsigned long long"));
	m.push_back(tuples<float, ptl::vector<int>, int>("float, vector<int>, int"));
	m.push_back(optionals<int>("int"));
	m.push_back(optionals<signed char>("signed char"));
	m.push_back(optionals<unsigned char>("unsigned char"));
	m.push_back(optionals<float>("float"));
	m.push_back(optionals<ptl::vector<int>>("vector<int>"));
	m.push_back(optionals<ptl::optional<unsigned char>>("optional<unsigned char>"));
	m.push_back(variants<int, signed char, unsigned long long>("int, signed char, unsigned long long"));
	m.push_back(variants<ptl::vector<int>, float, unsigned char>("vector<int>, float, unsigned char"));
	r.mask = {"order"};
	return r;
}
