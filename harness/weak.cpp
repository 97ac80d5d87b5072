// comparisons of containers whose members are only weakly ordered (tied under <, yet different under ==):
// every pair of values, against the std:: counterparts
#include <ptl/vector.hpp>
#include <ptl/array.hpp>
#include <ptl/tuple.hpp>
#include <ptl/optional.hpp>
#include <ptl/variant.hpp>
#include "common.hpp"
#include <array>
#include <optional>
#include <tuple>
#include <variant>

using mc::Chooser;
using mc::fmt;

namespace {
//! ordered by key alone, equal only if the label agrees, too (as if ordered without regard to case)
struct Weak {
	signed char key;
	unsigned char label;
	friend bool operator==(const Weak & l, const Weak & r) { return l.key == r.key && l.label == r.label; }
	friend bool operator!=(const Weak & l, const Weak & r) { return !(l == r); }
	friend bool operator<(const Weak & l, const Weak & r) { return l.key < r.key; }
	friend bool operator>(const Weak & l, const Weak & r) { return r.key < l.key; }
	friend bool operator<=(const Weak & l, const Weak & r) { return !(r.key < l.key); }
	friend bool operator>=(const Weak & l, const Weak & r) { return !(l.key < r.key); }
};
constexpr int values{4};
Weak weak(int i) { return Weak{static_cast<signed char>(i / 2 - 1), static_cast<unsigned char>(i % 2)}; }

template<typename A> std::array<bool, 6> six(const A & a, const A & b) { return {a == b, a != b, a < b, a > b, a <= b, a >= b}; }
template<typename P, typename S> void same(const P & pa, const P & pb, const S & sa, const S & sb, const char * what, int i, int j) {
	std::array<bool, 6> have{};
	const auto o{mc::sut([&] { have = six(pa, pb); })};
	const auto want{six(sa, sb)};
	REQUIRE_("order", o == mc::OK && have == want, "%s %d, %d: == %d != %d < %d > %d <= %d >= %d, std:: has %d %d %d %d %d %d", what, i, j, have[0], have[1], have[2], have[3], have[4], have[5], want[0], want[1], want[2], want[3], want[4], want[5]);
}
template<typename D> struct World : mc::World {
	std::string id;
	std::string key() override { return id; }
	void step(Chooser & ch) override {
		const auto i{ch.choose(D::count)};
		ch.label(D::name);
		id = fmt("%d", i);
		for(int j{0}; j < D::count; ++j) {
			mc::Box<typename D::P> x, y;
			x.make_by([&] { return D::template make<typename D::P>(i); });
			y.make_by([&] { return D::template make<typename D::P>(j); });
			same(*x, *y, D::template make<typename D::S>(i), D::template make<typename D::S>(j), D::name, i, j);
		}
	}
};
template<std::size_t N> struct Array {
	using P = ptl::array<Weak, N>;
	using S = std::array<Weak, N>;
	static constexpr int count{N == 1 ? values : N == 2 ? values * values : values * values * values};
	static constexpr char name[]{"array"};
	template<typename T> static T make(int i) { T t{}; for(std::size_t k{0}; k < N; ++k, i /= values) t[N - 1 - k] = weak(i % values); return t; }
};
struct Vector {
	using P = ptl::vector<Weak>;
	using S = std::vector<Weak>;
	static constexpr int count{1 + values + values * values + values * values * values};
	static constexpr char name[]{"vector"};
	template<typename T> static T make(int i) {
		T t;
		std::size_t n{0};
		for(int c{1}; i >= c; c *= values) { i -= c; ++n; }
		for(std::size_t k{0}; k < n; ++k, i /= values) t.insert(t.begin(), weak(i % values));
		return t;
	}
};
struct Tuple1 {
	using P = ptl::tuple<Weak>;
	using S = std::tuple<Weak>;
	static constexpr int count{values};
	static constexpr char name[]{"tuple of one"};
	template<typename T> static T make(int i) { return T{weak(i)}; }
};
struct Tuple3 {
	using P = ptl::tuple<Weak, Weak, Weak>;
	using S = std::tuple<Weak, Weak, Weak>;
	static constexpr int count{values * values * values};
	static constexpr char name[]{"tuple of three"};
	template<typename T> static T make(int i) { return T{weak(i / 16), weak(i / 4 % 4), weak(i % 4)}; }
};
struct TupleMixed {
	using P = ptl::tuple<int, Weak, unsigned char, Weak>;
	using S = std::tuple<int, Weak, unsigned char, Weak>;
	static constexpr int count{2 * values * 2 * values};
	static constexpr char name[]{"tuple of four"};
	template<typename T> static T make(int i) { return T{i / 32, weak(i / 8 % 4), static_cast<unsigned char>(i / 4 % 2), weak(i % 4)}; }
};
struct Optional {
	using P = ptl::optional<Weak>;
	using S = std::optional<Weak>;
	static constexpr int count{1 + values};
	static constexpr char name[]{"optional"};
	template<typename T> static T make(int i) { return i ? T{weak(i - 1)} : T{}; }
};
struct Variant {
	using P = ptl::variant<Weak, int, unsigned char>;
	using S = std::variant<Weak, int, unsigned char>;
	static constexpr int count{values + 2 + 2};
	static constexpr char name[]{"variant"};
	template<typename T> static T make(int i) { if(i < values) return T{weak(i)}; if(i < values + 2) return T{i - values}; return T{static_cast<unsigned char>(i - values - 2)}; }
};
template<typename D> void add(mc::Plan & r) {
	mc::Model m;
	m.name = fmt("%s of weakly ordered members (%d values)", D::name, D::count);
	m.make = [] { return new World<D>; };
	r.models.push_back(m);
}
}
mc::Plan plan(const std::string & p, bool) {
	mc::Plan r;
	r.mask = {"order"};
	if(p != "C20") { add<Array<1>>(r); add<Array<2>>(r); add<Array<3>>(r); }
	if(p != "C19") { add<Tuple1>(r); add<Tuple3>(r); add<TupleMixed>(r); }
	if(p == "C28") { add<Vector>(r); add<Optional>(r); add<Variant>(r); }
	return r;
}
