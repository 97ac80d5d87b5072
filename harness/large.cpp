// Sizes around the limits of blocks, of 8 and 16 bit integers, for the types whose other models stay small:
// every size of the lists x every operation x every position near those limits.
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/vector.hpp>
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/optional.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include "values.hpp"
#include <numeric>
#include <sstream>

using mc::Chooser;
using mc::Elem;
using mc::fmt;

namespace {
std::vector<std::size_t> near(std::size_t n, bool end = false) { // positions worth distinguishing
	std::vector<std::size_t> r;
	for(auto b : {std::size_t{0}, std::size_t{8}, std::size_t{16}, std::size_t{32}, std::size_t{64}, std::size_t{128}, std::size_t{256}, std::size_t{512}, std::size_t{32768}, std::size_t{65536}, n / 2, n})
		for(auto d : {-1, 0, 1}) if(const auto p{b + static_cast<std::size_t>(d)}; p < n || (end && p == n)) r.push_back(p);
	std::sort(r.begin(), r.end());
	r.erase(std::unique(r.begin(), r.end()), r.end());
	return r;
}
std::size_t at(Chooser & ch, std::size_t n, bool end = false) { const auto p{near(n, end)}; return ch.pick(p); }
int value(std::size_t i) { return static_cast<int>((i + i / 250 * 3) % 100 + 1); }

struct Once : mc::World {
	bool done{false};
	std::string key() override { return done ? std::string{} : std::string{"start"}; }
	virtual void run(Chooser & ch) =0;
	void step(Chooser & ch) override { if(done) return; done = true; Elem::reset(); run(ch); }
};

template<typename T> T make(int i) { if constexpr(std::is_same_v<T, ptl::string>) return ptl::string{std::string_view{std::to_string(1000 + i)}}; else return static_cast<T>(i); }
template<> Elem make<Elem>(int i) { return Elem(i); }
using std::get; // makes get<I>(x) a template name in C++17; the functions are found by argument-dependent lookup
template<typename T> int num(const T & t) { if constexpr(std::is_same_v<T, Elem>) { t.need("read"); return t.v; } else if constexpr(std::is_same_v<T, ptl::string>) return t.empty() ? 0 : std::atoi(t.c_str()) - 1000; else return static_cast<int>(t); }

template<typename X, typename Y>
void order(const X & x, const Y & y, int sign, const char * what) {
	REQUIRE_("order", (x == y) == (sign == 0) && (x != y) == (sign != 0) && (x < y) == (sign < 0) && (x > y) == (sign > 0) && (x <= y) == (sign <= 0) && (x >= y) == (sign >= 0), "%s: ==%d !=%d <%d >%d <=%d >=%d but the expected order is %d", what, x == y, x != y, x < y, x > y, x <= y, x >= y, sign);
	REQUIRE_("order", (y == x) == (sign == 0) && (y != x) == (sign != 0) && (y < x) == (sign > 0) && (y > x) == (sign < 0) && (y <= x) == (sign >= 0) && (y >= x) == (sign <= 0), "%s, reversed", what);
}

// ---------------------------------------------------------------- arrays
template<typename T, std::size_t N>
struct Arrays : Once {
	using A = ptl::array<T, N>;
	static T & as_lvalue(T && t) { return t; }
	template<std::size_t... I> static bool gets(A & a, std::index_sequence<I...>) {
		const A & c{a};
		return ((std::addressof(get<I>(a)) == a.data() + I && std::addressof(get<I>(c)) == a.data() + I && &as_lvalue(get<I>(std::move(a))) == a.data() + I) && ...);
	}
	template<std::size_t... I> static A from(std::index_sequence<I...>) { return A(make<T>(value(I))...); }
	static void fill(A & a) { for(std::size_t i{0}; i < N; ++i) a.data()[i] = make<T>(value(i)); }
	static void same(const A & a, const std::vector<int> & r, const char * who) {
		for(std::size_t i{0}; i < N; ++i) REQUIRE_("content", num(a.data()[i]) == r[i], "%s: element %zu is %d instead of %d", who, i, num(a.data()[i]), r[i]);
	}
	void run(Chooser & ch) override {
		std::vector<int> ref(N), zero(N, get0());
		for(std::size_t i{0}; i < N; ++i) ref[i] = value(i);
		mc::Box<A> x, y;
		x.make();
		same(*x, zero, "default");
		A & a{*x};
		fill(a);
		static const char * const names[]{"copy", "move", "copy-assign", "move-assign", "swap", "fill", "compare", "write", "iterate", "self", "values"};
		const int op{ch.choose(11)};
		ch.label(names[op]);
		switch(op) {
		case 0: y.make(static_cast<const A &>(a)); same(*y, ref, "copy"); break;
		case 1: y.make(std::move(a)); same(*y, ref, "moved-to"); fill(a); break;
		case 2: y.make(); *y = static_cast<const A &>(a); same(*y, ref, "assigned"); break;
		case 3: y.make(); *y = std::move(a); same(*y, ref, "move-assigned"); fill(a); break;
		case 4: {
			y.make();
			const auto i{at(ch, N)};
			y->data()[i] = make<T>(77);
			auto other{zero};
			other[i] = 77;
			if(ch.flip()) swap(a, *y); else a.swap(*y);
			same(a, other, "swapped");
			same(*y, ref, "swapped other");
			ref = other;
			break;
		}
		case 5: { const auto i{at(ch, N)}; a.fill(a[i]); ref.assign(N, ref[i]); break; }
		case 6: {
			const auto i{at(ch, N)};
			const int d{ch.choose(3) - 1};
			y.make(static_cast<const A &>(a));
			(*y)[i] = make<T>(ref[i] - d);
			if(ch.flip() && i + 1 < N) { (*y)[N - 1] = make<T>(ref[N - 1] + d * 5); if(d == 0) (*y)[N - 1] = make<T>(ref[N - 1]); }
			order(a, static_cast<const A &>(*y), d, "arrays");
			break;
		}
		case 7: {
			const auto i{at(ch, N)};
			switch(ch.choose(5)) {
			case 0: a[i] = make<T>(101); break;
			case 1: a.at(i) = make<T>(101); break;
			case 2: *(a.begin() + static_cast<std::ptrdiff_t>(i)) = make<T>(101); break;
			case 3: a.rbegin()[static_cast<std::ptrdiff_t>(N - 1 - i)] = make<T>(101); break;
			default: a.end()[-static_cast<std::ptrdiff_t>(N - i)] = make<T>(101); break;
			}
			ref[i] = 101;
			break;
		}
		case 8: {
			const A & c{a};
			std::size_t k{0};
			for(auto & e : c) { REQUIRE_("iter", std::addressof(e) == c.data() + k, "iteration step %zu", k); ++k; }
			REQUIRE_("iter", k == N && c.size() == N && c.end() - c.begin() == static_cast<std::ptrdiff_t>(N) && c.rend() - c.rbegin() == static_cast<std::ptrdiff_t>(N), "iteration over %zu of %zu elements", k, N);
			for(auto it{c.rbegin()}; it != c.rend(); ++it) { --k; REQUIRE_("iter", std::addressof(*it) == c.data() + k, "reverse iteration at %zu", k); }
			for(auto i : near(N)) REQUIRE_("access", std::addressof(c.at(i)) == c.data() + i && std::addressof(c[i]) == c.data() + i, "access to element %zu", i);
			for(auto i : {N, N + 1, N + 255, N + 256, N + 65536}) REQUIRE_("access", mc::sut([&] { (void)c.at(i); }) == mc::RANGE, "at(%zu) of %zu elements", i, N);
			REQUIRE_("access", gets(a, std::make_index_sequence<N>{}), "get<I>");
			break;
		}
		case 9: { A & alias{a}; if(ch.flip()) a = alias; else a.swap(alias); break; }
		default: { y.kill(); mc::quietly([&] { ::new(y.raw()) A(from(std::make_index_sequence<N>{})); }); y.assume_live(true); same(*y, ref, "constructed from values"); break; }
		}
		same(a, ref, "array");
		if constexpr(std::is_same_v<T, Elem>) REQUIRE_("life", Elem::live == static_cast<long>(N * (1 + static_cast<std::size_t>(y.alive()))), "%ld elements alive", Elem::live);
	}
	static int get0() { if constexpr(std::is_same_v<T, Elem>) return Elem().v; else return 0; }
};

// ---------------------------------------------------------------- views
const std::size_t lengths[]{127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537};
struct Chars : Once {
	void run(Chooser & ch) override {
		const auto n{ch.pick(lengths)};
		std::string text(n, 'x');
		for(std::size_t i{0}; i < n; ++i) text[i] = static_cast<char>(value(i) + 20);
		const ptl::string_ref r{text.data(), text.size()};
		static const char * const names[]{"substr", "remove", "compare", "hash", "access"};
		const int op{ch.choose(5)};
		ch.label(names[op]);
		NOTE("%zu characters", n);
		const auto is{[&](const ptl::string_ref & s, std::size_t from, std::size_t to, const char * what) {
			REQUIRE_("content", s.data() == text.data() + from && s.size() == to - from, "%s: [%td, +%zu) instead of [%zu, %zu)", what, s.data() - text.data(), s.size(), from, to);
		}};
		is(r, 0, n, "string_ref");
		is(ptl::string_ref{std::string_view{text}}, 0, n, "from string_view");
		is(ptl::string_ref{text.c_str()}, 0, n, "from pointer");
		switch(op) {
		case 0: {
			const auto o{at(ch, n, true)};
			is(r.substr(o), o, n, "substr(o)");
			for(auto k : near(n - o, true)) is(r.substr(o, k), o, o + k, "substr(o, n)");
			break;
		}
		case 1: {
			const auto o{at(ch, n, true)};
			for(auto k : near(n - o, true)) { auto s{r}; s.remove_prefix(o); s.remove_suffix(k); is(s, o, n - k, "remove_prefix, remove_suffix"); }
			break;
		}
		case 2: {
			const auto i{at(ch, n)};
			auto other{text};
			const int d{ch.choose(3)};
			int sign{0};
			if(d == 0) { other[i] = static_cast<char>(text[i] + 1); sign = -1; }
			else if(d == 1) { other.resize(i); sign = 1; }
			const ptl::string_ref s{other.data(), other.size()};
			order(r, s, sign, "string_refs");
			const ptl::string a{std::string_view{text}}, b{std::string_view{other}};
			order(a, b, sign, "strings");
			order(a, std::string_view{other}, sign, "string, string_view");
			order(a, other.c_str(), sign, "string, pointer");
			break;
		}
		case 3: {
			const auto other{text};
			const ptl::string_ref s{other.data(), other.size()};
			const ptl::string a{std::string_view{text}};
			ptl::string b{std::string_view{text}.substr(0, n / 2)};
			b += std::string_view{text}.substr(n / 2);
			REQUIRE_("hash", std::hash<ptl::string_ref>{}(r) == std::hash<ptl::string_ref>{}(s), "equal string_refs hash differently");
			REQUIRE_("hash", std::hash<ptl::string>{}(a) == std::hash<ptl::string>{}(b), "equal strings hash differently");
			break;
		}
		default:
			for(auto i : near(n)) REQUIRE_("access", &r[i] == text.data() + i && &r.at(i) == text.data() + i && &*(r.begin() + static_cast<std::ptrdiff_t>(i)) == text.data() + i && &r.rbegin()[static_cast<std::ptrdiff_t>(n - 1 - i)] == text.data() + i, "character %zu", i);
			for(auto i : {n, n + 1, n + 256, n + 65536}) REQUIRE_("access", mc::sut([&] { (void)r.at(i); }) == mc::RANGE, "at(%zu) of %zu", i, n);
			REQUIRE_("iter", r.end() - r.begin() == static_cast<std::ptrdiff_t>(n), "distance");
			break;
		}
	}
};
template<typename T>
struct Elements : Once {
	void run(Chooser & ch) override {
		const auto n{ch.pick(lengths)};
		std::vector<T> v(n);
		for(std::size_t i{0}; i < n; ++i) v[i] = static_cast<T>(value(i));
		using A = ptl::array_ref<T>;
		const A r{v.data(), v.size()};
		static const char * const names[]{"first", "last", "subrange", "access"};
		const int op{ch.choose(4)};
		ch.label(names[op]);
		NOTE("%zu elements", n);
		const auto is{[&](const A & s, std::size_t from, std::size_t to, const char * what) {
			REQUIRE_("content", s.data() == v.data() + from && s.size() == to - from, "%s: [%td, +%zu) instead of [%zu, %zu)", what, s.data() - v.data(), s.size(), from, to);
		}};
		is(r, 0, n, "array_ref");
		is(A{v}, 0, n, "from vector");
		is(A{v.data(), v.data() + n}, 0, n, "from pointers");
		if(op == 3) {
			for(auto i : near(n)) { r[i] = T{123}; REQUIRE_("access", &r.at(i) == v.data() + i && v[i] == T{123} && &*(r.begin() + static_cast<std::ptrdiff_t>(i)) == v.data() + i, "element %zu", i); }
			for(auto i : {n, n + 1, n + 256, n + 65536}) REQUIRE_("access", mc::sut([&] { (void)r.at(i); }) == mc::RANGE, "at(%zu) of %zu", i, n);
			return;
		}
		const auto k{at(ch, n, true)};
		if(op == 0) is(r.first(k), 0, k, "first");
		else if(op == 1) is(r.last(k), n - k, n, "last");
		else { is(r.subrange(k), k, n, "subrange(o)"); for(auto c : near(n - k, true)) is(r.subrange(k, c), k, k + c, "subrange(o, n)"); }
	}
};

// ---------------------------------------------------------------- vectors
template<typename T>
struct Vectors : Once {
	void run(Chooser & ch) override {
		const std::size_t few[]{127, 128, 129, 255, 256, 257, 1000};
		const auto n{ch.pick(few)};
		ch.label("compare");
		ptl::vector<T> a, b;
		mc::quietly([&] { for(std::size_t i{0}; i < n; ++i) a.push_back(make<T>(value(i))); b = a; });
		const auto i{at(ch, n)};
		const int d{ch.choose(3)};
		if(d == 0) mc::quietly([&] { b[i] = make<T>(value(i) + 1); });
		else if(d == 1) mc::quietly([&] { b.resize(i); });
		if(d == 0 && ch.flip() && i + 1 < n) mc::quietly([&] { b.resize(i + 1); });
		NOTE("%zu elements, position %zu", n, i);
		order(static_cast<const ptl::vector<T> &>(a), static_cast<const ptl::vector<T> &>(b), d == 0 ? -1 : d == 1 ? 1 : 0, "vectors");
		mc::quietly([&] { a = ptl::vector<T>{}; b = ptl::vector<T>{}; });
	}
};

// ---------------------------------------------------------------- bitsets
template<std::size_t N>
struct Bits : Once {
	using B = ptl::bitset<N>;
	using R = std::vector<bool>;
	static void same(const B & b, const R & r, const char * what) {
		std::size_t n{0};
		for(std::size_t i{0}; i < N; ++i) n += r[i];
		if(N < 2000) for(std::size_t i{0}; i < N; ++i) REQUIRE_("bits", b[i] == r[i], "%s: bit %zu of %zu", what, i, N);
		else {
			for(auto i : near(N)) REQUIRE_("bits", b[i] == r[i], "%s: bit %zu of %zu", what, i, N);
			for(std::size_t i{0}; i < N; i += 101) REQUIRE_("bits", b[i] == r[i], "%s: bit %zu of %zu", what, i, N);
		}
		REQUIRE_("bits", b.count() == n && b.any() == (n != 0) && b.none() == (n == 0) && b.all() == (n == N) && b.size() == N, "%s: count %zu instead of %zu", what, b.count(), n);
	}
	void run(Chooser & ch) override {
		mc::Box<B> box, other;
		box.make();
		other.make();
		B & b{*box};
		R r(N), q(N);
		static const char * const patterns[]{"none", "all", "every third", "top", "high half"};
		const int pattern{ch.choose(5)};
		for(std::size_t i{0}; i < N; ++i) {
			r[i] = pattern == 0 ? false : pattern == 1 ? true : pattern == 2 ? i % 3 == 0 : pattern == 3 ? i == N - 1 : i >= N / 2;
			q[i] = i % 5 == 1 || i == N - 1;
			if(r[i]) b.set(i);
			if(q[i]) other->set(i);
		}
		static const char * const names[]{"set", "reset", "flip", "<<=", ">>=", "&", "|", "^", "~", "set()", "reset()", "flip()", "swap", "copy", "==", "reference", "checked", "text", "hash", "value"};
		const int op{ch.choose(20)};
		ch.label(names[op]);
		NOTE("%zu bits, %s", N, patterns[pattern]);
		switch(op) {
		case 0: { const auto i{at(ch, N)}; const bool v{ch.flip()}; b.set(i, v); r[i] = v; break; }
		case 1: { const auto i{at(ch, N)}; b.reset(i); r[i] = false; break; }
		case 2: { const auto i{at(ch, N)}; b.flip(i); r[i] = !r[i]; break; }
		case 3: case 4: {
			const std::size_t s{ch.flip() ? N + static_cast<std::size_t>(ch.choose(3)) * 1000 : at(ch, N)};
			R t(N);
			for(std::size_t i{0}; i < N; ++i) if(op == 3 ? i >= s : s < N && i < N - s) t[i] = op == 3 ? r[i - s] : r[i + s];
			NOTE("  by %zu", s);
			same(op == 3 ? b << s : b >> s, t, "shifted");
			if(op == 3) b <<= s; else b >>= s;
			r = t;
			break;
		}
		case 5: case 6: case 7: {
			R t(N);
			for(std::size_t i{0}; i < N; ++i) t[i] = op == 5 ? r[i] && q[i] : op == 6 ? r[i] || q[i] : r[i] != q[i];
			same(op == 5 ? b & *other : op == 6 ? b | *other : b ^ *other, t, "combined");
			if(op == 5) b &= *other; else if(op == 6) b |= *other; else b ^= *other;
			r = t;
			break;
		}
		case 8: { R t(r); t.flip(); same(~b, t, "~"); break; }
		case 9: b.set(); r.assign(N, true); break;
		case 10: b.reset(); r.assign(N, false); break;
		case 11: b.flip(); r.flip(); break;
		case 12: if(ch.flip()) b.swap(*other); else swap(b, *other); std::swap(r, q); same(*other, q, "other"); break;
		case 13: { B c{b}; const auto i{at(ch, N)}; c.flip(i); same(b, r, "original"); b = c; r[i] = !r[i]; break; }
		case 14: { B c{b}; REQUIRE_("bits", c == b && !(c != b), "copies differ"); const auto i{at(ch, N)}; c.flip(i); REQUIRE_("bits", !(c == b) && c != b, "difference in bit %zu not seen", i); break; }
		case 15: { const auto i{at(ch, N)}, j{at(ch, N)}; switch(ch.choose(4)) { case 0: b[i] = b[j]; r[i] = static_cast<bool>(r[j]); break; case 1: b[i].flip(); r[i] = !r[i]; break; case 2: b.at(i) = true; r[i] = true; break; default: { auto x{b[i]}; auto y{(*other)[j]}; swap(x, y); const bool t{r[i]}; r[i] = static_cast<bool>(q[j]); q[j] = t; same(*other, q, "other"); break; } } break; }
		case 16:
			for(auto i : {N, N + 1, N + 7, N + 256, N + 65536, static_cast<std::size_t>(-1)}) {
				const B & c{b};
				REQUIRE_("checked", mc::sut([&] { (void)c.test(i); }) == mc::RANGE && mc::sut([&] { b.set(i); }) == mc::RANGE && mc::sut([&] { b.reset(i); }) == mc::RANGE && mc::sut([&] { b.flip(i); }) == mc::RANGE && mc::sut([&] { (void)b.at(i); }) == mc::RANGE && mc::sut([&] { (void)c.at(i); }) == mc::RANGE, "checked access with %zu of %zu bits", i, N);
			}
			for(auto i : near(N)) REQUIRE_("checked", b.test(i) == r[i], "test(%zu)", i);
			break;
		case 17: {
			std::string digits;
			for(std::size_t i{N}; i--;) digits += r[i] ? '1' : '0';
			std::ostringstream os;
			os << b;
			REQUIRE_("stream", os.str() == digits, "written text of %zu digits differs", os.str().size());
			std::istringstream is{digits + "1x"};
			is >> *other;
			REQUIRE_("stream", is.good() && is.get() == '1', "reading %zu digits", N);
			same(*other, r, "read back");
			break;
		}
		case 18: { B c; for(std::size_t i{N}; i--;) c[i] = r[i]; REQUIRE_("hash", std::hash<B>{}(b) == std::hash<B>{}(c), "equal bitsets hash differently"); break; }
		default: { const auto v{static_cast<unsigned long long>(0x8123456789ABCDEFull)}; b = B{v}; for(std::size_t i{0}; i < N; ++i) r[i] = i < 64 && (v >> i & 1); break; }
		}
		same(b, r, "bitset");
	}
};

// ---------------------------------------------------------------- tuples of many members
template<typename> struct Tuples;
template<std::size_t... I>
struct Tuples<std::index_sequence<I...>> : Once {
	static constexpr std::size_t N{sizeof...(I)};
	template<std::size_t K> using Member = std::conditional_t<K % 4 == 0, Elem, std::conditional_t<K % 4 == 1, char, std::conditional_t<K % 4 == 2, ptl::string, int>>>;
	using T = ptl::tuple<Member<I>...>;
	template<std::size_t K> static void put(T & t, int v) { t.template get<K>() = make<Member<K>>(v); }
	static void put(T & t, std::size_t i, int v) { mc::quietly([&] { ((I == i ? put<I>(t, v) : void()), ...); }); }
	static void same(const T & t, const std::vector<int> & r, const char * who) {
		const int have[]{num(t.template get<I>())...};
		for(std::size_t i{0}; i < N; ++i) REQUIRE_("content", have[i] == r[i], "%s: member %zu is %d instead of %d", who, i, have[i], r[i]);
	}
	void run(Chooser & ch) override {
		mc::Box<T> x, y;
		mc::quietly([&] { ::new(x.raw()) T(make<Member<I>>(value(I))...); ::new(y.raw()) T(make<Member<I>>(static_cast<int>(I) + 50)...); });
		x.assume_live(true);
		y.assume_live(true);
		std::vector<int> r, q;
		for(std::size_t i{0}; i < N; ++i) { r.push_back(value(i)); q.push_back(static_cast<int>(i) + 50); }
		same(*x, r, "tuple");
		static const char * const names[]{"swap", "copy", "compare", "write", "copy-assign", "move-assign"};
		const int op{ch.choose(6)};
		ch.label(names[op]);
		T & a{*x};
		switch(op) {
		case 0: if(ch.flip()) a.swap(*y); else swap(a, *y); std::swap(r, q); same(*y, q, "other"); break;
		case 1: { y.kill(); y.make(static_cast<const T &>(a)); same(*y, r, "copy"); break; }
		case 2: {
			const auto i{static_cast<std::size_t>(ch.choose(static_cast<int>(N)))};
			const int d{ch.choose(3) - 1};
			*y = static_cast<const T &>(a);
			put(*y, i, r[i] - d);
			if(d && i + 1 < N && ch.flip()) put(*y, i + 1, r[i + 1] + d);
			order(static_cast<const T &>(a), static_cast<const T &>(*y), d, "tuples");
			break;
		}
		case 3: { const auto i{static_cast<std::size_t>(ch.choose(static_cast<int>(N)))}; put(a, i, 99); r[i] = 99; break; }
		case 4: *y = static_cast<const T &>(a); same(*y, r, "assigned"); break;
		default: *y = std::move(a); same(*y, r, "move-assigned"); for(std::size_t i{0}; i < N; ++i) put(a, i, r[i]); break;
		}
		same(a, r, "tuple");
	}
};

template<typename W> void add(mc::Plan & p, std::string name) {
	mc::Model m;
	m.name = name;
	m.make = [] { return new W; };
	m.depth = 1;
	p.models.push_back(m);
}
}

mc::Plan plan(const std::string & prop, bool thorough) {
	(void)thorough;
	mc::Plan p;
#if PART == 0
	if(prop == "C11" || prop == "C12" || prop == "C13" || prop == "C28" || prop == "C30") {
		add<Bits<127>>(p, "bitset<127>");
		add<Bits<255>>(p, "bitset<255>");
		add<Bits<256>>(p, "bitset<256>");
		add<Bits<257>>(p, "bitset<257>");
		add<Bits<1000>>(p, "bitset<1000>");
		if(thorough) add<Bits<65541>>(p, "bitset<65541>");
	}
	p.mask = {"bits", "checked", "stream", "hash"};
	if(prop == "C28") p.mask = {"hash"};
	if(prop == "C30") p.mask = {"checked"};
#else
	const bool arrays{prop == "C19" || prop == "C28" || prop == "C33" || prop == "C29" || prop == "C30"};
	if(arrays) {
		add<Arrays<Elem, 33>>(p, "array<tracked, 33>");
		add<Arrays<Elem, 129>>(p, "array<tracked, 129>");
		add<Arrays<unsigned char, 255>>(p, "array<unsigned char, 255>");
		add<Arrays<signed char, 256>>(p, "array<signed char, 256>");
		add<Arrays<int, 257>>(p, "array<int, 257>");
		add<Arrays<ptl::string, 65>>(p, "array<string, 65>");
	}
	if(prop == "C20" || prop == "C28" || prop == "C33") {
		add<Tuples<std::make_index_sequence<9>>>(p, "tuple of 9 members");
		add<Tuples<std::make_index_sequence<17>>>(p, "tuple of 17 members");
	}
	if(prop == "C21" || prop == "C28" || prop == "C29" || prop == "C30") add<Chars>(p, "long string_refs and strings");
	if(prop == "C22" || prop == "C29" || prop == "C30") { add<Elements<unsigned char>>(p, "long array_ref<unsigned char>"); add<Elements<long long>>(p, "long array_ref<long long>"); }
	if(prop == "C28") {
		add<Vectors<unsigned char>>(p, "long vector<unsigned char>");
		add<Vectors<int>>(p, "long vector<int>");
		add<Vectors<ptl::string>>(p, "long vector<string>");
		add<Vectors<Elem>>(p, "long vector<tracked>");
	}
	if(prop == "C19") p.mask = {"content", "access", "iter", "order", "life"};
	else if(prop == "C20") p.mask = {"content", "order", "life"};
	else if(prop == "C21" || prop == "C22") p.mask = {"content", "access", "iter", "order", "hash"};
	else if(prop == "C28") p.mask = {"order", "hash"};
	else if(prop == "C29") p.mask = {"iter"};
	else if(prop == "C30") p.mask = {"access"};
	else p.mask = {"content", "life"};
#endif
	return p;
}
