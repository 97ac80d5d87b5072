// Sizes, counts and positions that do not fit in 31 or 32 bits.
// PART 0: views of address space that is reserved, but hardly ever touched; PART 1: strings and vectors of that size.
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/vector.hpp>
#include <ptl/array_ref.hpp>
#include "values.hpp"
#include <sys/mman.h>
#include <map>
#include <fstream>

#ifndef PART
#define PART 0
#endif

using mc::Chooser;
using mc::fmt;

namespace {
constexpr std::size_t G2{std::size_t{1} << 31}, G4{std::size_t{1} << 32};

#if PART == 0
//! zeros, except for one page around each limit
template<typename T, int I = 0> T * space() {
	static T * const p{[] {
		const auto r{::mmap(nullptr, (G4 + 4096) * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)};
		if(r == MAP_FAILED) { std::perror("huge: mmap"); _exit(4); }
		const auto t{static_cast<T *>(r)};
		for(const auto b : {std::size_t{0}, G2, G4}) for(std::size_t i{b ? b - 20 : 0}; i < b + 20; ++i) t[i] = static_cast<T>(i % 97 + 1);
		return t;
	}()};
	return p;
}
const std::vector<std::size_t> sizes{0, 3, G2 - 1, G2, G2 + 1, G2 + 7, G4 - 1, G4, G4 + 1, G4 + 7};
std::vector<std::size_t> upto(std::size_t n) { std::vector<std::size_t> r; for(auto s : sizes) if(s <= n) r.push_back(s); if(r.back() != n) r.push_back(n); return r; }

struct Once : mc::World {
	bool done{false};
	std::string key() override { return done ? std::string{} : std::string{"start"}; }
	virtual void run(Chooser & ch) =0;
	void step(Chooser & ch) override { if(done) return; done = true; run(ch); }
};
template<typename R, typename T> void view(const R & r, const T * p, std::size_t n, const char * what) {
	REQUIRE_("content", r.data() == p && r.size() == n && r.empty() == (n == 0), "%s: data %zd elements off, size %zu instead of %zu", what, r.data() - p, r.size(), n);
}
template<typename It, typename T> void walk(It b, It e, const T * p, std::size_t n, std::size_t i, const char * what) { // an iterator at position i, reached by every kind of arithmetic
	const auto d{static_cast<std::ptrdiff_t>(i)}, m{static_cast<std::ptrdiff_t>(n)};
	REQUIRE_("iter", e - b == m && b - e == -m, "%s: the range has %td elements instead of %td", what, e - b, m);
	auto x{b}, y{e};
	x += d;
	y -= m - d;
	REQUIRE_("iter", x == y && x == b + d && x == d + b && x == e - (m - d) && x - b == d && e - x == m - d && b - x == -d, "%s: arithmetic with %td", what, d);
	REQUIRE_("iter", (b < x) == (d > 0) && (x <= b) == (d == 0) && (x < e) == (d < m) && (x >= e) == (d == m) && !(x > e), "%s: order of positions %td and %td", what, d, m);
	if(i < n) REQUIRE_("iter", std::addressof(*x) == p + i && std::addressof(b[d]) == p + i && std::addressof(e[d - m]) == p + i, "%s: position %td refers to another element", what, d);
}
template<typename It, typename T> void back(It rb, It re, const T * p, std::size_t n, std::size_t i, const char * what) {
	const auto d{static_cast<std::ptrdiff_t>(i)};
	REQUIRE_("iter", re - rb == static_cast<std::ptrdiff_t>(n) && (rb + d) - rb == d, "%s: reversed range of %td elements", what, re - rb);
	if(i < n) REQUIRE_("iter", std::addressof(rb[d]) == p + (n - 1 - i), "%s: reversed position %td", what, d);
}
template<typename F> void ok(const char * what, F f) { const auto o{mc::sut(f)}; REQUIRE_("content", o == mc::OK, "%s: %s", what, mc::outcome_name(o)); }

template<typename T> struct Refs : Once {
	void run(Chooser & ch) override {
		const auto p{space<T>()};
		const auto n{ch.pick(sizes)};
		const auto k{ch.pick(upto(n))};
		ok("array_ref", [&] {
			using A = ptl::array_ref<T>;
			const A a(p, n);
			view(a, p, n, "array_ref(pointer, count)");
			view(A(p, p + n), p, n, "array_ref(first, last)");
			struct Range { T * d; std::size_t s; T * data() const { return d; } std::size_t size() const { return s; } } range{p, n};
			view(A(range), p, n, "array_ref(range)");
			view(ptl::array_ref<const T>(a), p, n, "array_ref<const>(array_ref)");
			view(a.first(k), p, k, "first");
			view(a.last(k), p + (n - k), k, "last");
			view(a.subrange(k), p + k, n - k, "subrange(offset)");
			view(a.subrange(n - k, k), p + (n - k), k, "subrange(offset, count)");
			view(a.subrange(k, n - k), p + k, n - k, "subrange(offset, count)");
			A b(a);
			walk(b.begin(), b.end(), p, n, k, "array_ref iterator");
			walk(a.begin(), a.end(), p, n, k, "array_ref const_iterator");
			back(b.rbegin(), b.rend(), p, n, k, "array_ref reverse_iterator");
			if(n) REQUIRE_("content", &a.front() == p && &a.back() == p + (n - 1), "front or back");
			if(k < n) REQUIRE_("content", &a[k] == p + k, "[]");
			const auto o{mc::sut([&] { (void)a.at(k); })};
			REQUIRE_("checked", o == (k < n ? mc::OK : mc::RANGE) && (k >= n || &a.at(k) == p + k), "at(%zu) of %zu: %s", k, n, mc::outcome_name(o));
			for(const auto i : {n + G2, n + G4, n | G4, k + G4 * 3}) if(i >= n) {
				const auto q{mc::sut([&] { (void)a.at(i); })};
				REQUIRE_("checked", q == mc::RANGE, "at(%zu) of %zu: %s", i, n, mc::outcome_name(q));
			}
		});
	}
};
bool compare{false};
struct Texts : Once {
	void run(Chooser & ch) override {
		const auto p{space<char>()};
		const auto n{ch.pick(sizes)};
		const auto k{ch.pick(upto(n))};
		ok("string_ref", [&] {
			using S = ptl::string_ref;
			const S a(p, n);
			view(a, p, n, "string_ref(pointer, size)");
			view(S(std::string_view(p, n)), p, n, "string_ref(string_view)");
			const std::string_view sv = a;
			REQUIRE_("content", sv.data() == p && sv.size() == n, "conversion to string_view");
			view(a.substr(k), p + k, n - k, "substr(offset)");
			view(a.substr(n - k, k), p + (n - k), k, "substr(offset, count)");
			view(a.substr(k, n - k), p + k, n - k, "substr(offset, count)");
			S b(a), c(a);
			b.remove_prefix(k);
			view(b, p + k, n - k, "remove_prefix");
			c.remove_suffix(k);
			view(c, p, n - k, "remove_suffix");
			walk(a.begin(), a.end(), p, n, k, "string_ref iterator");
			back(a.rbegin(), a.rend(), p, n, k, "string_ref reverse_iterator");
			if(n) REQUIRE_("content", &a.front() == p && &a.back() == p + (n - 1), "front or back");
			if(k < n) REQUIRE_("content", &a[k] == p + k, "[]");
			const auto o{mc::sut([&] { (void)a.at(k); })};
			REQUIRE_("checked", o == (k < n ? mc::OK : mc::RANGE), "at(%zu) of %zu: %s", k, n, mc::outcome_name(o));
			for(const auto i : {n + G2, n + G4, n | G4, k + G4 * 3}) if(i >= n) {
				const auto q{mc::sut([&] { (void)a.at(i); })};
				REQUIRE_("checked", q == mc::RANGE, "at(%zu) of %zu: %s", i, n, mc::outcome_name(q));
			}
		});
		//texts that differ in size by 2^31, 2^32, …, and texts of that size that differ in a late character
		if(!compare || n < G2 || k < G2) return;
		if(n != k) ok("comparison", [&] {
			const ptl::string_ref a(p, n), b(p, k), d(p, 3), e(p, 3 + (n - k));
			const auto s{n > k ? 1 : -1};
			REQUIRE_("order", (a == b) == false && a != b && (a < b) == (s < 0) && (a > b) == (s > 0) && (a <= b) == (s < 0) && (a >= b) == (s > 0), "comparison of %zu with %zu characters", n, k);
			REQUIRE_("order", d < a && a > d && !(d == a) && d != a && !(a < d) && d <= a && !(d >= a), "comparison of 3 with %zu characters", n);
			REQUIRE_("order", d < e && !(d == e) && !(e <= d), "comparison of 3 with %zu characters", e.size());
		});
		else if(n == G4 + 7) ok("comparison", [&] {
			const auto q{space<char, 1>()};
			for(const auto i : {std::size_t{1}, G2 + 1, G4 + 3}) {
				const ptl::string_ref a(p, n), b(q, n);
				++q[i];
				REQUIRE_("order", !(a == b) && a < b && !(b < a), "comparison of %zu characters that differ at %zu", n, i);
				--q[i];
			}
			REQUIRE_("order", ptl::string_ref(p, n) == ptl::string_ref(q, n), "comparison of %zu equal characters", n);
		});
	}
};
template<typename W> void add(mc::Plan & r, std::string name) {
	mc::Model m;
	m.name = std::move(name);
	m.make = [] { return new W; };
	m.depth = 1;
	r.models.push_back(m);
}
#else
constexpr unsigned char fill{'z'};
//! the reference of a sequence of fill characters with some exceptions
struct Marks {
	std::size_t n{0};
	std::map<std::size_t, unsigned char> at;
	void set(std::size_t i, unsigned char c) { if(c == fill) at.erase(i); else at[i] = c; }
	void insert(std::size_t pos, const std::string & s) {
		std::map<std::size_t, unsigned char> t;
		for(const auto & [i, c] : at) t[i < pos ? i : i + s.size()] = c;
		at = std::move(t);
		n += s.size();
		for(std::size_t i{0}; i < s.size(); ++i) set(pos + i, static_cast<unsigned char>(s[i]));
	}
	void erase(std::size_t from, std::size_t to) {
		std::map<std::size_t, unsigned char> t;
		for(const auto & [i, c] : at) if(i < from) t[i] = c; else if(i >= to) t[i - (to - from)] = c;
		at = std::move(t);
		n -= to - from;
	}
	void resize(std::size_t m) { if(m < n) erase(m, n); n = m; }
};
template<typename C> struct Huge : mc::World {
	using T = typename C::value_type;
	mc::Box<C> box;
	Marks r;
	bool done{false};
	std::string key() override { return done ? std::string{} : std::string{"start"}; }
	void all(const char * what, bool thoroughly = true) {
		const C & c{*box};
		REQUIRE_("content", c.size() == r.n, "%s: size %zu instead of %zu", what, c.size(), r.n);
		REQUIRE_("content", static_cast<std::size_t>(c.end() - c.begin()) == r.n, "%s: the iterators are %td apart", what, c.end() - c.begin());
		for(const auto & [i, x] : r.at) REQUIRE_("content", static_cast<unsigned char>(c[i]) == x && static_cast<unsigned char>(c.begin()[static_cast<std::ptrdiff_t>(i)]) == x, "%s: element %zu is %d instead of %d", what, i, c[i], x);
		if(thoroughly) {
			const auto p{c.data()};
			std::size_t from{0};
			const auto filled{[&](std::size_t to) { // [from, to) consists of the fill value
				REQUIRE_("content", from == to || (static_cast<unsigned char>(p[from]) == fill && std::memcmp(p + from, p + from + 1, to - from - 1) == 0), "%s: some element in [%zu, %zu) does not have the fill value", what, from, to);
			}};
			for(const auto & m : r.at) { filled(m.first); from = m.first + 1; }
			filled(r.n);
		}
		if constexpr(std::is_same_v<C, ptl::string>) REQUIRE_("content", c.data()[c.size()] == '\0', "%s: no terminator", what);
		if(r.n) REQUIRE_("content", static_cast<unsigned char>(c.back()) == (r.at.count(r.n - 1) ? r.at[r.n - 1] : fill), "%s: back", what);
		const auto o{mc::sut([&] { (void)c.at(r.n); })};
		REQUIRE_("content", o == mc::RANGE, "%s: at(size()): %s", what, mc::outcome_name(o));
	}
	template<typename F> bool op(const char * what, F f, bool thoroughly = true) {
		NOTE("%s", what);
		const auto o{mc::sut(f)};
		if(o == mc::BAD_ALLOC) { NOTE("not enough memory"); return false; }
		REQUIRE_("content", o == mc::OK, "%s: %s", what, mc::outcome_name(o));
		all(what, thoroughly);
		return true;
	}
	void step(Chooser & ch) override {
		if(done) return;
		done = true;
		ch.label("huge");
		if(ch.choose(2)) throw mc::Skip{}; // a single scenario, executed once
		if(std::ifstream in{"/proc/meminfo"}; in) {
			std::string k;
			std::size_t kb;
			while(in >> k >> kb) {
				if(k == "MemAvailable:" && kb < (std::size_t{20} << 20)) { NOTE("not enough memory"); return; }
				in.ignore(100, '\n');
			}
		}
		box.make();
		C & c{*box};
		const auto at{[&](std::size_t i) { return c.cbegin() + static_cast<std::ptrdiff_t>(i); }};
		const auto n{G4 + 10};
		const auto f{static_cast<T>(fill)};
		if(!op("reserve", [&] { c.reserve(n + 100); })) return;
		REQUIRE_("content", c.capacity() >= n + 100, "capacity %zu after reserve(%zu)", c.capacity(), n + 100);
		r.resize(n);
		if(!op("resize", [&] { c.resize(n, f); })) return;
		for(const auto i : {std::size_t{5}, G2, G4 - 1, G4, G4 + 9}) { c[i] = static_cast<T>('a' + i % 23); r.set(i, static_cast<unsigned char>('a' + i % 23)); }
		all("assignment by index");
		const char three[]{'A', 'B', 'C'};
		r.insert(G4 + 2, "ABC");
		op("insert of a range behind 2^32", [&] { const auto i{c.insert(at(G4 + 2), three, three + 3)}; REQUIRE_("content", static_cast<std::size_t>(i - c.begin()) == G4 + 2, "insert returned position %td", i - c.begin()); });
		r.insert(G4 - 3, "QQQQQ");
		op("insert of a count before 2^32", [&] { const auto i{c.insert(at(G4 - 3), 5, static_cast<T>('Q'))}; REQUIRE_("content", static_cast<std::size_t>(i - c.begin()) == G4 - 3, "insert returned position %td", i - c.begin()); }, false);
		r.insert(r.n, "!");
		op("push_back", [&] { c.push_back(static_cast<T>('!')); }, false);
		r.erase(G4 + 4, G4 + 5);
		op("erase of one element", [&] { const auto i{c.erase(at(G4 + 4))}; REQUIRE_("content", static_cast<std::size_t>(i - c.begin()) == G4 + 4, "erase returned position %td", i - c.begin()); }, false);
		r.erase(G4 - 4, G4 + 1);
		op("erase of a range across 2^32", [&] { const auto i{c.erase(at(G4 - 4), at(G4 + 1))}; REQUIRE_("content", static_cast<std::size_t>(i - c.begin()) == G4 - 4, "erase returned position %td", i - c.begin()); });
		r.erase(r.n - 1, r.n);
		op("pop_back", [&] { c.pop_back(); }, false);
		r.resize(G4 + 1);
		op("resize to 2^32 + 1", [&] { c.resize(G4 + 1); }, false);
		{
			mc::Box<C> o;
			o.make();
			op("swap with an empty one", [&] { c.swap(*o); c.swap(*o); }, false);
			ok_move(o, c);
		}
		r.insert(r.n, "x");
		op("emplace at the end", [&] { if constexpr(std::is_same_v<C, ptl::string>) c.append("x"); else c.emplace_back(static_cast<T>('x')); });
		const auto cap{c.capacity()};
		r.erase(3, r.n - 9);
		op("erase of more than 2^32 elements", [&] { c.erase(at(3), at(r.n + (G4 + 2 - 12) - 9)); });
		REQUIRE_("content", c.capacity() == cap, "erase changed the capacity");
		r.resize(0);
		r.resize(G4 + 3);
		op("assign of a count", [&] { c.assign(G4 + 3, f); });
		r.resize(7);
		op("resize to 7", [&] { c.resize(7); });
		op("shrink_to_fit", [&] { c.shrink_to_fit(); });
	}
	void ok_move(mc::Box<C> & o, C & c) {
		mc::sut([&] { *o = std::move(c); c = std::move(*o); });
		all("move assignment there and back", false);
	}
};
#endif
}
mc::Plan plan(const std::string & p, bool) {
	mc::Plan r;
	mc::hooks::size_limit = std::size_t{1} << 33;
#if PART == 0
	if(p == "C21") { add<Texts>(r, "huge string_refs"); r.mask = {"content"}; }
	else if(p == "C22") { add<Refs<char>>(r, "huge array_refs of char"); add<Refs<int>>(r, "huge array_refs of int"); add<Refs<long long>>(r, "huge array_refs of long long"); r.mask = {"content"}; }
	else { add<Texts>(r, "huge string_refs"); add<Refs<char>>(r, "huge array_refs of char"); add<Refs<int>>(r, "huge array_refs of int"); r.mask = {p == "C29" ? "iter" : p == "C30" ? "checked" : "order"}; compare = p == "C28"; }
#else
	mc::Model m;
	m.depth = 1;
	if(p == "C01") { m.name = "a string of 2^32 characters"; m.make = [] { return new Huge<ptl::string>; }; }
	else { m.name = "a vector of 2^32 bytes"; m.make = [] { return new Huge<ptl::vector<unsigned char>>; }; }
	r.models.push_back(m);
	r.mask = {"content"};
#endif
	return r;
}
