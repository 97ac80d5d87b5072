// kinds of element types: what a container does must not depend on traits of its elements that the interface does
// not mention. Every kind is stored in every container and taken through all short histories of whole-object operations.
// PART selects the container (0 and 3 vector, 1 array and tuple, 2 optional and variant)
#include <ptl/vector.hpp>
#include <ptl/array.hpp>
#include <ptl/tuple.hpp>
#include <ptl/optional.hpp>
#include <ptl/variant.hpp>
#include <ptl/string.hpp>
#include "values.hpp"
#include <cmath>
#include <initializer_list>
#include <memory>
#include <string>
#include <vector>

#ifndef PART
#define PART 0
#endif

using mc::Chooser;
using mc::fmt;

namespace {
constexpr int bad{-5};
long live{0}; // objects of the kinds that count themselves

//! destroyed trivially, yet bound to its address
struct Anchor {
	int v;
	const Anchor * self;
	Anchor() noexcept : v{0}, self{this} {}
	explicit Anchor(int v) noexcept : v{v}, self{this} {}
	Anchor(const Anchor & o) noexcept : v{o.self == &o ? o.v : bad}, self{this} {}
	Anchor & operator=(const Anchor & o) noexcept { v = self == this && o.self == &o ? o.v : bad; return *this; }
	int get() const { return self == this ? v : bad; }
};
//! assigned trivially, yet neither constructed nor destroyed so
struct Counter {
	int v;
	explicit Counter(int v = 0) noexcept : v{v} { ++live; }
	Counter(const Counter & o) noexcept : v{o.v} { ++live; }
	Counter & operator=(const Counter &) =default;
	~Counter() { --live; }
	int get() const { return v; }
};
//! copied trivially, yet assigned by its own operator: the number of assignments it survived is part of an object, not of its value
struct Assigned {
	int v;
	unsigned mark;
	explicit Assigned(int v = 0) noexcept : v{v}, mark{0xAB} {}
	Assigned(const Assigned &) =default;
	Assigned & operator=(const Assigned & o) noexcept { v = mark == 0xAB ? o.v : bad; return *this; } // requires a constructed target
	int get() const { return mark == 0xAB ? v : bad; }
};
//! neither its address nor the comma operator may be used
struct Shy {
	int v;
	explicit Shy(int v = 0) noexcept : v{v} {}
	Shy(const Shy &) =default;
	Shy & operator=(const Shy &) =default;
	~Shy() {}
	void operator&() const =delete;
	template<typename T> friend void operator,(const Shy &, T &&) =delete;
	template<typename T> friend void operator,(T &&, const Shy &) =delete;
	int get() const { return v; }
};
//! constructible from a list of itself
struct Listy {
	int v;
	explicit Listy(int v = 0) noexcept : v{v} {}
	Listy(std::initializer_list<Listy> l) : v{l.size() == 0 ? 0 : -static_cast<int>(l.size()) - 100} {}
	Listy(const Listy &) =default;
	Listy(Listy &&) =default;
	Listy & operator=(const Listy &) =default;
	Listy & operator=(Listy &&) =default;
	int get() const { return v; }
};
//! constructible from anything
struct Greedy {
	int v;
	Greedy() noexcept : v{0} {}
	Greedy(std::in_place_t, int v) noexcept : v{v} {}
	Greedy(const Greedy &) =default;
	Greedy(Greedy &&) =default;
	Greedy & operator=(const Greedy &) =default;
	Greedy & operator=(Greedy &&) =default;
	template<typename U> Greedy(const U &) noexcept : v{-100} {}
	int get() const { return v; }
};
//! aggregate without any operators
struct Bare { int v; };
//! aggregate with a default member initializer
struct Preset { int v{2}; unsigned char tail[3]{7, 8, 9}; };
struct Big {
	int v;
	unsigned char tail[1021];
	explicit Big(int i = 0) noexcept : v{i} { for(std::size_t k{0}; k < sizeof tail; ++k) tail[k] = static_cast<unsigned char>(k * 7 + static_cast<unsigned>(i)); }
	int get() const { for(std::size_t k{0}; k < sizeof tail; ++k) if(tail[k] != static_cast<unsigned char>(k * 7 + static_cast<unsigned>(v))) return bad; return v; }
};
struct alignas(64) Aligned {
	int v;
	explicit Aligned(int v = 0) noexcept : v{v} {}
	int get() const { return reinterpret_cast<std::uintptr_t>(this) % 64 ? bad : v; }
};
//! an empty class whose objects count nevertheless
struct Nothing {
	Nothing() noexcept { ++live; }
	Nothing(const Nothing &) noexcept { ++live; }
	Nothing & operator=(const Nothing &) noexcept { return *this; }
	~Nothing() { --live; }
};
//! moved from: reads differently than it did, copied from: does not
struct Husk {
	int v;
	explicit Husk(int v = 0) noexcept : v{v} {}
	Husk(const Husk &) =default;
	Husk(Husk && o) noexcept : v{o.v} { o.v = -300; }
	Husk & operator=(const Husk &) =default;
	Husk & operator=(Husk && o) noexcept { const auto t{o.v}; o.v = -300; v = t; return *this; }
	int get() const { return v; }
};
//! derived from a base that holds the state
struct Base { int v; const void * self; };
struct Derived : Base {
	explicit Derived(int v = 0) noexcept : Base{v, this} {}
	Derived(const Derived & o) noexcept : Base{o.v, this} {}
	Derived & operator=(const Derived & o) noexcept { v = o.v; return *this; }
	int get() const { return self == this ? v : bad; }
};
//! swapped by its own function only
struct Swapped {
	int v;
	const Swapped * self;
	explicit Swapped(int v = 0) noexcept : v{v}, self{this} {}
	Swapped(const Swapped & o) noexcept : v{o.v}, self{this} {}
	Swapped & operator=(const Swapped & o) noexcept { v = o.v; return *this; }
	friend void swap(Swapped & l, Swapped & r) noexcept { std::swap(l.v, r.v); }
	int get() const { return self == this ? v : bad; }
};
enum class Enum : unsigned char { a, b, c = 255 };
int fa() { return 1; }
int fb() { return 2; }
struct Members { int x, y; int f() const { return x; } int g() const { return y; } };

//! mk(i), i in 0..2, get() its inverse, zero: what a value-initialized one reads as
template<typename T> struct Kind {
	static T mk(int i) { return T(i); }
	static int get(const T & t) { return t.get(); }
	static constexpr int zero{0};
};
template<> struct Kind<Greedy> : Kind<Anchor> {
	static Greedy mk(int i) { return {std::in_place, i}; }
	static int get(const Greedy & t) { return t.get(); }
};
template<> struct Kind<Bare> { static Bare mk(int i) { return {i}; } static int get(const Bare & t) { return t.v; } static constexpr int zero{0}; };
template<> struct Kind<Preset> { static Preset mk(int i) { return {i, {7, 8, 9}}; } static int get(const Preset & t) { return t.tail[0] == 7 && t.tail[1] == 8 && t.tail[2] == 9 ? t.v : bad; } static constexpr int zero{2}; };
template<> struct Kind<Nothing> { static Nothing mk(int) { return {}; } static int get(const Nothing &) { return 0; } static constexpr int zero{0}; };
template<> struct Kind<int> { static int mk(int i) { return i == 2 ? -1 : i; } static int get(const int & t) { return t == -1 ? 2 : t; } static constexpr int zero{0}; };
template<> struct Kind<bool> { static bool mk(int i) { return i == 1; } static int get(const bool & t) { unsigned char c; std::memcpy(&c, &t, 1); return c; } static constexpr int zero{0}; };
template<> struct Kind<double> {
	static double mk(int i) { return i == 0 ? 0.0 : i == 1 ? -0.0 : std::numeric_limits<double>::quiet_NaN(); }
	static int get(const double & t) { return t != t ? 2 : t != 0 ? bad : std::signbit(t); }
	static constexpr int zero{0};
};
template<> struct Kind<long double> {
	static long double mk(int i) { return i == 0 ? 0.0L : i == 1 ? -1e4000L : 3e-4900L; }
	static int get(const long double & t) { return t == 0 ? 0 : t == -1e4000L ? 1 : t == 3e-4900L ? 2 : bad; }
	static constexpr int zero{0};
};
template<> struct Kind<char16_t> { static char16_t mk(int i) { return static_cast<char16_t>(i * 0x7001); } static int get(const char16_t & t) { return t % 0x7001 ? bad : t / 0x7001; } static constexpr int zero{0}; };
template<> struct Kind<Enum> { static Enum mk(int i) { return i == 0 ? Enum::a : i == 1 ? Enum::b : Enum::c; } static int get(const Enum & t) { return t == Enum::a ? 0 : t == Enum::b ? 1 : t == Enum::c ? 2 : bad; } static constexpr int zero{0}; };
template<typename P> struct Three {
	static P mk(int i) { return i == 0 ? nullptr : i == 1 ? P{Kind<P>::first} : P{Kind<P>::second}; }
	static int get(const P & t) { return t == nullptr ? 0 : t == Kind<P>::first ? 1 : t == Kind<P>::second ? 2 : bad; }
	static constexpr int zero{0};
};
const char text[]{"abc"};
template<> struct Kind<const char *> : Three<const char *> { static constexpr const char * first{text}, * second{text + 3}; };
template<> struct Kind<int(*)()> : Three<int(*)()> { static constexpr int(*first)(){&fa}; static constexpr int(*second)(){&fb}; };
template<> struct Kind<int Members::*> : Three<int Members::*> { static constexpr int Members::* first{&Members::x}; static constexpr int Members::* second{&Members::y}; };
template<> struct Kind<int(Members::*)() const> : Three<int(Members::*)() const> { static constexpr int(Members::* first)() const{&Members::f}; static constexpr int(Members::* second)() const{&Members::g}; };
template<typename S> struct Strings {
	static const char * of(int i) { return i == 0 ? "" : i == 1 ? "inline" : "not stored inside the object itself at all"; }
	static S mk(int i) { return S(of(i)); }
	static int get(const S & t) { for(int i{0}; i < 3; ++i) if(std::string_view(t) == of(i)) return i; return bad; }
	static constexpr int zero{0};
};
template<> struct Kind<std::string> : Strings<std::string> {};
template<> struct Kind<ptl::string> : Strings<ptl::string> {};
template<> struct Kind<std::string_view> : Strings<std::string_view> {};
template<typename V> struct Lists {
	static V mk(int i) { V r; for(int k{0}; k < i * 2; ++k) r.insert(r.end(), k + i); return r; }
	static int get(const V & t) { int n{0}; for(const auto & e : t) { (void)e; ++n; } if(n % 2 || n > 4) return bad; int k{0}; for(const auto & e : t) if(e != k++ + n / 2) return bad; return n / 2; }
	static constexpr int zero{0};
};
template<> struct Kind<std::vector<int>> : Lists<std::vector<int>> {};
template<> struct Kind<ptl::vector<int>> : Lists<ptl::vector<int>> {};
template<> struct Kind<std::shared_ptr<int>> {
	static std::shared_ptr<int> mk(int i) { return i ? std::make_shared<int>(i) : nullptr; }
	static int get(const std::shared_ptr<int> & t) { return t ? *t : 0; }
	static constexpr int zero{0};
};
template<> struct Kind<ptl::optional<ptl::string>> {
	static ptl::optional<ptl::string> mk(int i) { return i ? ptl::optional<ptl::string>{Kind<ptl::string>::mk(i)} : ptl::optional<ptl::string>{}; }
	static int get(const ptl::optional<ptl::string> & t) { return t ? Kind<ptl::string>::get(*t) : 0; }
	static constexpr int zero{0};
};
template<> struct Kind<ptl::variant<int, ptl::string>> {
	using T = ptl::variant<int, ptl::string>;
	static T mk(int i) { return i == 1 ? T{9} : T{Kind<ptl::string>::mk(i)}; }
	static int get(const T & t) { if(const auto p{t.get_if<int>()}) return *p == 9 ? 1 : *p == 0 ? 3 : bad; return Kind<ptl::string>::get(t.get<ptl::string>()); }
	static constexpr int zero{3};
};
template<> struct Kind<ptl::array<ptl::string, 2>> {
	static ptl::array<ptl::string, 2> mk(int i) { return {Kind<ptl::string>::mk(i), Kind<ptl::string>::mk(i ? 3 - i : 0)}; }
	static int get(const ptl::array<ptl::string, 2> & t) { const auto a{Kind<ptl::string>::get(t[0])}, b{Kind<ptl::string>::get(t[1])}; return b == (a ? 3 - a : 0) ? a : bad; }
	static constexpr int zero{0};
};

template<typename T> int read(const T & t) { mc::Paused p; return Kind<T>::get(t); }
template<typename T> constexpr bool counts{std::is_same_v<T, Counter> || std::is_same_v<T, Nothing>};
template<typename T> T mk(int i) { mc::NoFaults f; mc::Scope s; return Kind<T>::mk(i); }
template<typename T> int val(int i) { return std::is_same_v<T, Nothing> ? 0 : std::is_same_v<T, bool> ? i == 1 : i; }

template<typename F> mc::Outcome run(F f) { return mc::sut([&] { f(); }); }

template<typename T> const char * name() {
#define N(...) if constexpr(std::is_same_v<T, __VA_ARGS__>) return #__VA_ARGS__;
	N(Anchor) N(Counter) N(Assigned) N(Shy) N(Listy) N(Greedy) N(Bare) N(Preset) N(Big) N(Aligned) N(Nothing) N(Husk) N(Derived) N(Swapped) N(int) N(bool) N(double) N(long double) N(char16_t) N(Enum) N(const char *) N(int(*)()) N(int Members::*) N(int(Members::*)() const)
	N(std::string) N(std::string_view) N(std::vector<int>) N(std::shared_ptr<int>) N(ptl::string) N(ptl::vector<int>) N(ptl::optional<ptl::string>) N(ptl::variant<int, ptl::string>) N(ptl::array<ptl::string, 2>)
#undef N
	return "?";
}

int values{3};
//! two objects; every step performs one operation on the first (with the second as a source or target)
template<typename D> struct World : mc::World {
	using C = typename D::C;
	using T = typename D::T;
	using R = std::vector<int>;
	mc::Box<C> x[2];
	R r[2];
	bool first{true};
	World() { live = 0; }
	void init() {
		for(int k{0}; k < 2; ++k) {
			const auto o{run([&] { ::new(x[k].raw()) C(D::initial()); x[k].assume_live(true); })};
			REQUIRE_("content", o == mc::OK, "initial object: %s", mc::outcome_name(o));
			r[k] = D::initial_ref();
		}
		verify("construction");
	}
	std::string key() override {
		std::string s;
		for(int k{0}; k < 2; ++k) { for(auto i : r[k]) s += static_cast<char>('a' + i % 26); s += D::extra(*x[k]); s += '|'; }
		return s;
	}
	void verify(const char * what) {
		std::size_t n{0};
		for(int k{0}; k < 2; ++k) {
			REQUIRE_("content", D::shape(*x[k], r[k]), "%s: object %d has the wrong shape (expected %zu elements)", what, k, r[k].size());
			for(std::size_t i{0}; i < r[k].size(); ++i) {
				if(D::foreign(r[k], i)) continue;
				const auto have{read<T>(D::at(*x[k], i))};
				REQUIRE_("content", r[k][i] == -1 || have == r[k][i], "%s: element %zu of object %d reads %d, expected %d (%d: broken)", what, i, k, have, r[k][i], bad);
			}
			n += D::elements(r[k]);
		}
		if(counts<T>) REQUIRE_("content", live == static_cast<long>(n), "%s: %ld elements are alive, expected %zu", what, live, n);
	}
	void step(Chooser & ch) override {
		if(first) { first = false; init(); }
		auto & c{*x[0]};
		auto & d{*x[1]};
		const char * what{D::op(ch, c, r[0])};
		if(!what) {
			switch(ch.choose(7)) {
				case 0: {
					what = "copy construction";
					ch.label(what);
					x[1].kill();
					const auto form{ch.choose(2)};
					const auto o{run([&] { if(form) ::new(x[1].raw()) C(static_cast<const C &>(c)); else ::new(x[1].raw()) C(c); x[1].assume_live(true); })};
					REQUIRE_("content", o == mc::OK, "%s: %s", what, mc::outcome_name(o));
					r[1] = r[0];
					break;
				}
				case 1: {
					what = "move construction";
					ch.label(what);
					x[1].kill();
					const auto o{run([&] { ::new(x[1].raw()) C(std::move(c)); x[1].assume_live(true); })};
					REQUIRE_("content", o == mc::OK, "%s: %s", what, mc::outcome_name(o));
					r[1] = r[0];
					//the source holds something valid: replaced at once
					x[0].kill();
					const auto q{run([&] { ::new(x[0].raw()) C(D::initial()); x[0].assume_live(true); })};
					REQUIRE_("content", q == mc::OK, "construction: %s", mc::outcome_name(q));
					r[0] = D::initial_ref();
					break;
				}
				case 2: {
					what = "copy assignment";
					ch.label(what);
					const auto o{run([&] { c = static_cast<const C &>(d); })};
					REQUIRE_("content", o == mc::OK, "%s: %s", what, mc::outcome_name(o));
					r[0] = r[1];
					break;
				}
				case 3: {
					what = "move assignment";
					ch.label(what);
					const auto o{run([&] { c = std::move(d); })};
					REQUIRE_("content", o == mc::OK, "%s: %s", what, mc::outcome_name(o));
					r[0] = r[1];
					x[1].kill();
					const auto q{run([&] { ::new(x[1].raw()) C(D::initial()); x[1].assume_live(true); })};
					REQUIRE_("content", q == mc::OK, "construction: %s", mc::outcome_name(q));
					r[1] = D::initial_ref();
					break;
				}
				case 4: {
					what = "swap";
					ch.label(what);
					const auto form{ch.choose(2)};
					const auto o{run([&] { if(form) c.swap(d); else swap(c, d); })};
					REQUIRE_("content", o == mc::OK, "%s: %s", what, mc::outcome_name(o));
					std::swap(r[0], r[1]);
					break;
				}
				case 5: {
					what = "self copy assignment";
					ch.label(what);
					const auto o{run([&] { c = static_cast<const C &>(c); })};
					REQUIRE_("content", o == mc::OK, "%s: %s", what, mc::outcome_name(o));
					break;
				}
				default: {
					what = "self swap";
					ch.label(what);
					const auto o{run([&] { c.swap(c); })};
					REQUIRE_("content", o == mc::OK, "%s: %s", what, mc::outcome_name(o));
					break;
				}
			}
		}
		verify(what);
	}
};

#define DO(...) do { const auto outcome{run([&] { __VA_ARGS__; })}; REQUIRE_("content", outcome == mc::OK, "%s: %s", what, mc::outcome_name(outcome)); } while(0)


#if PART == 0 || PART == 3
template<typename E> struct Object {
	using T = E;
	using C = ptl::vector<E>;
	static constexpr char container[]{"vector"};
	static C initial() { return C{}; }
	static std::vector<int> initial_ref() { return {}; }
	static bool shape(const C & c, const std::vector<int> & r) { return c.size() == r.size() && c.capacity() >= r.size(); }
	static bool foreign(const std::vector<int> &, std::size_t) { return false; }
	static const E & at(const C & c, std::size_t i) { return c[i]; }
	static std::size_t elements(const std::vector<int> & r) { return r.size(); }
	static std::string extra(const C & c) { return fmt("%zu", c.capacity()); }
	static const char * op(Chooser & ch, C & c, std::vector<int> & r) {
		const auto which{ch.choose(23)};
		if(which == 0) return nullptr;
		static const char * const names[]{"", "push_back(const &)", "push_back(&&)", "emplace_back()", "emplace_back(const &)", "pop_back", "clear", "shrink_to_fit", "reserve", "resize(n)", "resize(n, value)", "assign(n, value)", "assign(range)", "assign({…})", "insert(pos, const &)", "insert(pos, &&)", "insert(pos, n, value)", "insert(pos, range)", "insert(pos, {…})", "emplace(pos)", "emplace(pos, const &)", "erase(pos)", "erase(range)"};
		const auto what{names[which]};
		ch.label(what);
		const auto n{r.size()};
		std::size_t pos{0}, count{1};
		if(which >= 14 && which <= 20) pos = ch.pick(mc::uniq({0, n / 2, n}, n));
		if(which == 21) { if(!n) throw mc::Skip{}; pos = ch.pick(mc::uniq({0, n / 2, n - 1}, n - 1)); }
		if(which == 22) { pos = ch.pick(mc::uniq({0, n / 2, n}, n)); count = ch.pick(mc::uniq({0, 1, n - pos}, n - pos)); }
		if(which == 5 && !n) throw mc::Skip{};
		if(which == 8) count = ch.pick(std::vector<std::size_t>{1, 7});
		if(which == 9 || which == 10) count = ch.pick(mc::uniq({0, n / 2, n, n + 1, n + 3}, 5));
		if(which == 11 || which == 16) count = ch.pick(std::vector<std::size_t>{0, 1, 3});
		const auto uses{which == 1 || which == 2 || which == 4 || (which >= 10 && which <= 18) || which == 20};
		const auto v{uses ? ch.choose(values) : 1};
		const auto has_two{which == 12 || which == 13 || which == 17 || which == 18};
		if(n + (which >= 14 && which <= 20 ? has_two ? 2 : count : 1) > 6) throw mc::Skip{};
		const auto va{val<T>(v)}, vb{val<T>(2 - v)}, zero{Kind<T>::zero};
		const auto q{r.begin() + static_cast<std::ptrdiff_t>(pos)};
		T x[2]{mk<T>(v), mk<T>(2 - v)};
		const T & a{x[0]};
		const auto two{[&]() -> const T * { return std::addressof(x[0]); }};
		const auto p{[&] { return c.cbegin() + static_cast<std::ptrdiff_t>(pos); }};
		switch(which) {
			case 1: DO(c.push_back(a)); r.push_back(va); break;
			case 2: DO(c.push_back(std::move(x[0]))); r.push_back(va); break;
			case 3: DO(c.emplace_back()); r.push_back(zero); break;
			case 4: DO(c.emplace_back(a)); r.push_back(va); break;
			case 5: DO(c.pop_back()); r.pop_back(); break;
			case 6: DO(c.clear()); r.clear(); break;
			case 7: DO(c.shrink_to_fit()); break;
			case 8: DO(c.reserve(count)); break;
			case 9: DO(c.resize(count)); r.resize(count, zero); break;
			case 10: DO(c.resize(count, a)); r.resize(count, va); break;
			case 11: DO(c.assign(count, a)); r.assign(count, va); break;
			case 12: DO(c.assign(two(), two() + 2)); r = {va, vb}; break;
			case 13: DO(c.assign({a, static_cast<const T &>(x[1])})); r = {va, vb}; break;
			case 14: DO(c.insert(p(), a)); r.insert(q, va); break;
			case 15: DO(c.insert(p(), std::move(x[0]))); r.insert(q, va); break;
			case 16: DO(c.insert(p(), count, a)); r.insert(q, count, va); break;
			case 17: DO(c.insert(p(), two(), two() + 2)); r.insert(q, {va, vb}); break;
			case 18: DO(c.insert(p(), {a, static_cast<const T &>(x[1])})); r.insert(q, {va, vb}); break;
			case 19: DO(c.emplace(p())); r.insert(q, zero); break;
			case 20: DO(c.emplace(p(), a)); r.insert(q, va); break;
			case 21: DO(c.erase(p())); r.erase(q); break;
			default: DO(c.erase(p(), p() + static_cast<std::ptrdiff_t>(count))); r.erase(q, q + static_cast<std::ptrdiff_t>(count)); break;
		}
		return what;
	}
};
template<typename E> using One = Object<E>;
#elif PART == 1
template<typename E> struct One {
	using T = E;
	using C = ptl::array<E, 3>;
	static constexpr char container[]{"array"};
	static C initial() { return C{Kind<T>::mk(1), Kind<T>::mk(2), Kind<T>::mk(0)}; }
	static std::vector<int> initial_ref() { return {val<T>(1), val<T>(2), val<T>(0)}; }
	static bool shape(const C & c, const std::vector<int> & r) { return c.size() == r.size(); }
	static bool foreign(const std::vector<int> &, std::size_t) { return false; }
	static const E & at(const C & c, std::size_t i) { return c[i]; }
	static std::size_t elements(const std::vector<int> & r) { return r.size(); }
	static std::string extra(const C &) { return {}; }
	static const char * op(Chooser & ch, C & c, std::vector<int> & r) {
		const auto which{ch.choose(4)};
		if(which == 0) return nullptr;
		static const char * const names[]{"", "fill", "a[i] = value", "replacement by a default array"};
		const auto what{names[which]};
		ch.label(what);
		const auto v{which < 3 ? ch.choose(values) : 0};
		const T a(mk<T>(v));
		if(which == 1) { DO(c.fill(a)); r.assign(3, val<T>(v)); }
		else if(which == 2) { const auto i{ch.choose(3)}; DO(c[static_cast<std::size_t>(i)] = a); r[static_cast<std::size_t>(i)] = val<T>(v); }
		else { DO(c = C{}); r.assign(3, Kind<T>::zero); }
		return what;
	}
};
template<typename E> struct Two {
	using T = E;
	using C = ptl::tuple<E, char, E>;
	static constexpr char container[]{"tuple"};
	static C initial() { return C{Kind<T>::mk(1), 'x', Kind<T>::mk(2)}; }
	static std::vector<int> initial_ref() { return {val<T>(1), val<T>(2)}; }
	static bool shape(const C & c, const std::vector<int> &) { return c.template get<1>() == 'x'; }
	static bool foreign(const std::vector<int> &, std::size_t) { return false; }
	static const E & at(const C & c, std::size_t i) { if(i == 0) return c.template get<0>(); return c.template get<2>(); }
	static std::size_t elements(const std::vector<int> & r) { return r.size(); }
	static std::string extra(const C &) { return {}; }
	static const char * op(Chooser & ch, C & c, std::vector<int> & r) {
		const auto which{ch.choose(5)};
		if(which == 0) return nullptr;
		static const char * const names[]{"", "get<0>() = value", "get<2>() = value", "assignment of tuple{const &, char, const &}", "assignment of tuple{&&, char, &&}"};
		const auto what{names[which]};
		ch.label(what);
		const auto v{ch.choose(values)};
		T a(mk<T>(v)), b(mk<T>(2 - v));
		const T & ca{a}, & cb{b};
		if(which == 1) { DO(c.template get<0>() = ca); r[0] = val<T>(v); }
		else if(which == 2) { DO(c.template get<2>() = ca); r[1] = val<T>(v); }
		else if(which == 3) { DO(c = C(ca, 'x', cb)); r = {val<T>(v), val<T>(2 - v)}; }
		else { DO(c = C(std::move(a), 'x', std::move(b))); r = {val<T>(v), val<T>(2 - v)}; }
		return what;
	}
};
#else
//reference: {} or {value}
template<typename E> struct One {
	using T = E;
	using C = ptl::optional<E>;
	static constexpr char container[]{"optional"};
	static C initial() { return C{}; }
	static std::vector<int> initial_ref() { return {}; }
	static bool shape(const C & c, const std::vector<int> & r) { return static_cast<bool>(c) == !r.empty(); }
	static bool foreign(const std::vector<int> &, std::size_t) { return false; }
	static const E & at(const C & c, std::size_t) { return *c; }
	static std::size_t elements(const std::vector<int> & r) { return r.size(); }
	static std::string extra(const C &) { return {}; }
	static const char * op(Chooser & ch, C & c, std::vector<int> & r) {
		const auto which{ch.choose(11)};
		if(which == 0) return nullptr;
		static const char * const names[]{"", "= const &", "= &&", "emplace()", "emplace(const &)", "reset", "= nullopt", "= optional{const &}", "= optional{in_place}", "value_or", "swap with optional{&&}"};
		const auto what{names[which]};
		ch.label(what);
		const auto v{which == 3 || which == 5 || which == 6 || which == 8 ? 1 : ch.choose(values)};
		T x(mk<T>(v));
		const T & a{x};
		const auto va{val<T>(v)};
		//a list of one element is not a copy: emplace passes its arguments in braces
		constexpr auto braces{std::is_same_v<T, Listy>};
		switch(which) {
			case 1: DO(c = a); r = {va}; break;
			case 2: DO(c = std::move(x)); r = {va}; break;
			case 3: DO(c.emplace()); r = {Kind<T>::zero}; break;
			case 4: if(braces) throw mc::Skip{}; DO(c.emplace(a)); r = {va}; break;
			case 5: DO(c.reset()); r.clear(); break;
			case 6: DO(c = std::nullopt); r.clear(); break;
			case 7: DO(c = C(a)); r = {va}; break;
			case 8: DO(c = C(std::in_place)); r = {Kind<T>::zero}; break;
			case 9: {
				const auto want{r.empty() ? va : r[0]};
				int have{bad};
				DO(const auto y = static_cast<const C &>(c).value_or(a); have = read<T>(y));
				REQUIRE_("content", have == want || want == -1, "value_or returned %d, expected %d", have, want);
				break;
			}
			default: { mc::Box<C> o; DO(::new(o.raw()) C(std::move(x)); o.assume_live(true); c.swap(*o)); r = {va}; break; }
		}
		return what;
	}
};
struct Other { long long i; signed char c[1200]; friend bool operator==(const Other & l, const Other & r) { return l.i == r.i; } };
//reference: {value} or {value, alternative} for the alternatives int (1) and Other (2)
template<typename E> struct Two {
	using T = E;
	using Int = std::conditional_t<std::is_same_v<E, int>, long, int>;
	using C = ptl::variant<E, Int, Other>;
	static constexpr char container[]{"variant"};
	static C initial() { return C(Int{7}); }
	static std::vector<int> initial_ref() { return {7, 1}; }
	static bool shape(const C & c, const std::vector<int> & r) {
		if(r.size() == 1) return c.template holds<E>() && c.template get_if<E>() && !c.template get_if<Int>() && !c.template get_if<Other>();
		if(r[1] == 1) return c.template holds<Int>() && c.template get<Int>() == r[0];
		return c.template holds<Other>() && c.template get<Other>().i == r[0] && c.template get<Other>().c[1199] == 5;
	}
	static bool foreign(const std::vector<int> & r, std::size_t) { return r.size() == 2; }
	static const E & at(const C & c, std::size_t) { return c.template get<E>(); }
	static std::size_t elements(const std::vector<int> & r) { return r.size() == 1; }
	static std::string extra(const C &) { return {}; }
	static const char * op(Chooser & ch, C & c, std::vector<int> & r) {
		const auto which{ch.choose(11)};
		if(which == 0) return nullptr;
		static const char * const names[]{"", "= const &", "= &&", "emplace<T>()", "emplace<T>(const &)", "emplace<0>(&&)", "= int", "= Other", "= variant{const &}", "= variant{in_place_type}", "swap with variant{&&}"};
		const auto what{names[which]};
		ch.label(what);
		const auto v{which == 3 || which == 6 || which == 7 || which == 9 ? 1 : ch.choose(values)};
		T x(mk<T>(v));
		const T & a{x};
		const auto va{val<T>(v)};
		Other o{4, {}};
		o.c[1199] = 5;
		switch(which) {
			case 1: DO(c = a); r = {va}; break;
			case 2: DO(c = std::move(x)); r = {va}; break;
			case 3: DO(c.template emplace<E>()); r = {Kind<T>::zero}; break;
			case 4: DO(c.template emplace<E>(a)); r = {va}; break;
			case 5: DO(c.template emplace<0>(std::move(x))); r = {va}; break;
			case 6: DO(c = Int{9}); r = {9, 1}; break;
			case 7: DO(c = o); r = {4, 2}; break;
			case 8: DO(c = C(a)); r = {va}; break;
			case 9: DO(c = C(std::in_place_type<E>)); r = {Kind<T>::zero}; break;
			default: { mc::Box<C> b; DO(::new(b.raw()) C(std::move(x)); b.assume_live(true); c.swap(*b)); r = {va}; break; }
		}
		return what;
	}
};
#endif
template<typename D> void add(mc::Plan & r, int depth) {
	mc::Model m;
	m.name = fmt("%s of %s", D::container, name<typename D::T>());
	m.make = [] { return new World<D>; };
	m.depth = depth;
	m.dedupe = true;
	r.models.push_back(m);
}
template<template<typename> class D> void all(mc::Plan & r, int depth) {
	add<D<Anchor>>(r, depth); add<D<Counter>>(r, depth); add<D<Assigned>>(r, depth); add<D<Shy>>(r, depth); add<D<Listy>>(r, depth); add<D<Greedy>>(r, depth);
	add<D<Bare>>(r, depth); add<D<Preset>>(r, depth); add<D<Nothing>>(r, depth); add<D<Husk>>(r, depth); add<D<Derived>>(r, depth); add<D<Swapped>>(r, depth);
	add<D<Big>>(r, depth);
}
template<template<typename> class D> void rest(mc::Plan & r, int depth) {
	add<D<int>>(r, depth); add<D<bool>>(r, depth); add<D<double>>(r, depth); add<D<char16_t>>(r, depth); add<D<Enum>>(r, depth);
	add<D<const char *>>(r, depth); add<D<int(*)()>>(r, depth); add<D<int Members::*>>(r, depth); add<D<int(Members::*)() const>>(r, depth);
	add<D<std::string>>(r, depth); add<D<std::string_view>>(r, depth); add<D<std::vector<int>>>(r, depth); add<D<std::shared_ptr<int>>>(r, depth);
	add<D<ptl::string>>(r, depth); add<D<ptl::vector<int>>>(r, depth); add<D<ptl::optional<ptl::string>>>(r, depth); add<D<ptl::variant<int, ptl::string>>>(r, depth); add<D<ptl::array<ptl::string, 2>>>(r, depth);
}
}
mc::Plan plan(const std::string & p, bool thorough) {
	mc::Plan r;
	r.mask = {"content"};
	values = 3;
	(void)p;
#if PART == 0
	all<One>(r, thorough ? 4 : 3);
#elif PART == 3
	rest<One>(r, thorough ? 4 : 3);
	add<One<Aligned>>(r, thorough ? 4 : 3);
	add<One<long double>>(r, thorough ? 4 : 3);
#elif PART == 1
	if(p == "C19") { all<One>(r, thorough ? 5 : 3); rest<One>(r, thorough ? 5 : 3); add<One<Aligned>>(r, 3); add<One<long double>>(r, 3); }
	else { all<Two>(r, thorough ? 5 : 3); rest<Two>(r, thorough ? 5 : 3); }
#else
	if(p == "C14") { all<One>(r, thorough ? 6 : 4); rest<One>(r, thorough ? 6 : 4); }
	else { all<Two>(r, thorough ? 6 : 4); rest<Two>(r, thorough ? 6 : 4); }
#endif
	return r;
}
