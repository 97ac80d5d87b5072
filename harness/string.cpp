// ptl::string in lock-step with std::string.
#include <ptl/string.hpp>
#include "common.hpp"
#include "layout.hpp"
#include "output.hpp"
#include <sstream>

using mc::Chooser;
using mc::Outcome;
using S = ptl::string;
using R = std::string;
using mc::fmt;

namespace {
std::size_t max_size_explored{60};
bool all_positions{false};
bool huge_counts{false};   // C10
bool few_sources{false};
bool big{false};           // sizes around the limits of 8 and 16 bit integers
const std::size_t big_sizes[]{0, 22, 23, 127, 128, 255, 256, 257, 65535, 65536};

std::size_t lim(std::size_t base, std::size_t cap) { // no expansion beyond these
	return std::min(base, cap);
}

std::string show(const char * p, std::size_t n) {
	std::string r;
	for(std::size_t i{0}; i < n; ++i) { const unsigned char c{static_cast<unsigned char>(p[i])}; r += (c > 32 && c < 127 && c != '\\') ? std::string(1, static_cast<char>(c)) : fmt("\\x%02x", c); }
	return r;
}

struct Guard { // expected capacity behaviour of one operation
	bool in_place{false};  // resulting size fits: nothing may be allocated or relocated
	const char * data{nullptr};
	std::size_t cap{0}, size{0};
	std::uint64_t allocs{0};
};

struct Single : mc::World {
	mc::Box<S> box;
	R ref;
	int salt{0};

	S & s() { return *box; }

	Single() { box.make(); }

	// -------------------------------------------------------------- oracles on one object
	static void check(const S & s, const R & ref, const void * obj, const char * who) {
		REQUIRE_("content", s.size() == ref.size(), "%s: size %zu, expected %zu", who, s.size(), ref.size());
		REQUIRE_("content", s.empty() == ref.empty(), "%s: empty()", who);
		const auto d{s.data()};
		const auto cap{s.capacity()};
		REQUIRE_("bounds", cap >= s.size(), "%s: capacity %zu below size %zu", who, cap, s.size());
		//memory: inside the object or one whole live allocation
		const auto o{static_cast<const char *>(obj)};
		if(d >= o && d < o + sizeof(S)) {
			REQUIRE_("bounds", d + cap + 1 <= o + sizeof(S), "%s: inline characters exceed the object", who);
		} else {
			const auto a{mc::ledger.find(d)};
			REQUIRE_("bounds", a != nullptr, "%s: characters are not in memory obtained by the library", who);
			if(a) REQUIRE_("bounds", d + cap + 1 <= static_cast<const char *>(a->ptr) + a->size, "%s: capacity %zu but the allocation has %zu bytes", who, cap, a->size);
		}
		REQUIRE_("term", s.c_str() == d && d[s.size()] == 0, "%s: not terminated at size() = %zu", who, s.size());
		if(s.size() == ref.size() && std::memcmp(d, ref.data(), ref.size()) != 0)
			mc::fail("content", fmt("%s: is \"%s\", expected \"%s\"", who, show(d, s.size()).c_str(), show(ref.data(), ref.size()).c_str()));
		layout::string(obj, sizeof(S), alignof(S), d, cap, ref.data(), ref.size(), who);
		const std::string_view v{s};
		REQUIRE_("content", v == std::string_view{ref}, "%s: string_view conversion", who);
		if(!ref.empty() && s.size() == ref.size()) {
			REQUIRE_("content", &s.front() == d && &s.back() == d + s.size() - 1, "%s: front/back", who);
			REQUIRE_("content", &s[s.size() / 2] == d + s.size() / 2, "%s: subscript", who);
		}
		REQUIRE_("content", s.end() - s.begin() == static_cast<std::ptrdiff_t>(s.size()), "%s: iterator distance", who);
		if(s.size()) REQUIRE_("content", &*s.begin() == d, "%s: begin()", who);
	}
	static bool on_heap(const S & s, const void * obj) {
		const auto o{static_cast<const char *>(obj)};
		const auto d{s.data()};
		return !(d >= o && d < o + sizeof(S));
	}
	void check_all(const S * other = nullptr, const R * oref = nullptr, const char * other_name = "other") {
		check(s(), ref, box.raw(), "string");
		std::size_t owned{on_heap(s(), box.raw()) ? 1u : 0u};
		if(other) {
			check(*other, *oref, other, other_name);
			owned += on_heap(*other, other);
		}
		REQUIRE_("leak", mc::ledger.n == owned, "%zu live allocations, %zu owned by strings", mc::ledger.n, owned);
	}

	// -------------------------------------------------------------- argument domains
	void relabel() { // distinct characters everywhere, in the system and in the reference
		++salt;
		for(std::size_t i{0}; i < ref.size(); ++i) s().data()[i] = ref[i] = mc::lab(i, salt);
	}
	std::vector<std::size_t> positions() const {
		const auto n{ref.size()};
		std::vector<std::size_t> r;
		if(big) { r = {0, 1, 128, 256, n}; return mc::uniq(r, n); }
		if(all_positions && n <= 26) for(std::size_t i{0}; i <= n; ++i) r.push_back(i);
		else if(all_positions) r = {0, 1, 2, n / 4, n / 2, n - n / 4, n - 2, n - 1, n, 22, 23};
		else r = {0, 1, n / 2, n ? n - 1 : 0, n};
		return mc::uniq(r, n);
	}
	std::size_t pos(Chooser & ch) const { const auto p{positions()}; return ch.pick(p); }
	//! counts around every limit, for adding to a string of `base` characters
	std::vector<std::size_t> counts(std::size_t base) {
		if(big) {
			std::vector<std::size_t> t{0, 1};
			for(auto b : big_sizes) if(b >= base) t.push_back(b - base);
			return mc::uniq(t, 70000);
		}
		std::vector<std::size_t> r{0, 1, 2, 3, 7};
		const auto cap{s().capacity()};
		for(auto b : {std::size_t{21}, std::size_t{22}, std::size_t{23}, std::size_t{24}, std::size_t{47}, std::size_t{48}, std::size_t{49}, std::size_t{72}, std::size_t{73}, cap, cap + 1})
			if(b >= base) r.push_back(b - base);
		if(all_positions) for(std::size_t i{0}; i < 30; ++i) r.push_back(i);
		return mc::uniq(r, base < max_size_explored ? max_size_explored - base : 1);
	}
	std::size_t count(Chooser & ch, std::size_t base) { const auto c{counts(base)}; return ch.pick(c); }
	static std::size_t huge(Chooser & ch, std::size_t size) {
		const auto m{S::max_size()};
		const std::size_t top{static_cast<std::size_t>(-1)};
		const std::size_t a[]{top, top - 1, top - size, top - size + 1, top - 23, top - 24, top - 25, top - 48, top - size - 24, top / 2, top / 2 + 1, top / 2 - 1, m, m + 1, m - 1, m - size, m - size + 1, top / 2 - 24, top / 4 * 3, std::size_t{1} << 62, std::size_t{1} << 40};
		std::vector<std::size_t> r;
		for(auto k : a) if(k >= std::size_t{1} << 40) r.push_back(k);
		return ch.pick(r);
	}

	// -------------------------------------------------------------- sources
	enum Source { VIEW, PTRS, CSTR, INPUT, FORWARD, BIDI, RANDOM, UCHARS, ILIST, COUNT, SELF_VIEW, SELF_IT, SELF_REV, SELF_INPUT, SELF_COUNT, LIST, SOURCES };
	static const char * source_name(int k) {
		static const char * n[]{"string_view", "pointer pair", "C string", "input iterators", "forward iterators", "bidirectional iterators", "random-access iterators", "unsigned char iterators", "initializer_list", "count x char", "view of itself", "own iterators", "own reverse iterators", "input iterators over itself", "count x own char", "std::list"};
		return n[k];
	}
	//! call f(args...) with the chosen source's arguments and return the characters it denotes;
	//! f is called inside sut()
	template<typename F>
	Outcome with_source(Chooser & ch, int kind, std::size_t base, R & text, F f, bool & single) {
		single = false;
		const auto make_text{[&](std::size_t n) { text.clear(); for(std::size_t i{0}; i < n; ++i) text += mc::lab(i, salt + 40); }};
		const auto fill{[&](auto & src) { for(std::size_t i{0}; i < src.n; ++i) src.data[i] = static_cast<std::decay_t<decltype(*src.data)>>(text[i]); }};
		switch(kind) {
		case VIEW: {
			make_text(count(ch, base));
			mc::Src<char> src{text.size()};
			fill(src);
			NOTE("  source: string_view of %zu", text.size());
			return mc::sut([&] { f(std::string_view{src.data, src.n}); });
		}
		case PTRS: {
			make_text(count(ch, base));
			mc::Src<char> src{text.size()};
			fill(src);
			NOTE("  source: char * pair of %zu", text.size());
			return mc::sut([&] { f(static_cast<const char *>(src.data), static_cast<const char *>(src.data + src.n)); });
		}
		case CSTR: {
			make_text(count(ch, base));
			for(auto & c : text) if(!c) c = 'z';
			mc::Src<char> src{text.size() + 1};
			for(std::size_t i{0}; i < text.size(); ++i) src.data[i] = text[i];
			src.data[text.size()] = 0;
			NOTE("  source: C string of %zu", text.size());
			return mc::sut([&] { f(static_cast<const char *>(src.data)); });
		}
		case INPUT: {
			make_text(count(ch, base));
			mc::Src<char> src{text.size()};
			fill(src);
			single = true;
			NOTE("  source: input iterators, %zu elements", text.size());
			const auto o{mc::sut([&] { f(mc::src_begin<std::input_iterator_tag>(src), mc::src_end<std::input_iterator_tag>(src)); })};
			if(o == mc::OK) mc::single_pass_done(src);
			return o;
		}
		case FORWARD: {
			make_text(count(ch, base));
			mc::Src<char> src{text.size()};
			fill(src);
			NOTE("  source: forward iterators, %zu elements", text.size());
			return mc::sut([&] { f(mc::src_begin<std::forward_iterator_tag>(src), mc::src_end<std::forward_iterator_tag>(src)); });
		}
		case BIDI: {
			make_text(count(ch, base));
			mc::Src<char> src{text.size()};
			fill(src);
			NOTE("  source: bidirectional iterators, %zu elements", text.size());
			return mc::sut([&] { f(mc::src_begin<std::bidirectional_iterator_tag>(src), mc::src_end<std::bidirectional_iterator_tag>(src)); });
		}
		case RANDOM: {
			make_text(count(ch, base));
			mc::Src<char> src{text.size()};
			fill(src);
			NOTE("  source: random-access iterators, %zu elements", text.size());
			return mc::sut([&] { f(mc::src_begin<std::random_access_iterator_tag>(src), mc::src_end<std::random_access_iterator_tag>(src)); });
		}
		case UCHARS: {
			make_text(count(ch, base));
			mc::Src<unsigned char> src{text.size()};
			fill(src);
			NOTE("  source: unsigned char pointers, %zu elements", text.size());
			return mc::sut([&] { f(static_cast<const unsigned char *>(src.data), static_cast<const unsigned char *>(src.data + src.n)); });
		}
		case LIST: {
			make_text(count(ch, base));
			std::list<char> src{text.begin(), text.end()};
			NOTE("  source: std::list iterators, %zu elements", text.size());
			return mc::sut([&] { f(src.begin(), src.end()); });
		}
		case ILIST: {
			const std::size_t sizes[]{0, 1, 2, 3, 5, 22, 23, 27};
			std::vector<std::size_t> ok;
			for(auto n : sizes) if(base + n <= max_size_explored || n <= 1) ok.push_back(n);
			const auto n{ch.pick(ok)};
			make_text(n);
			NOTE("  source: initializer_list of %zu", n);
			#define L(i) mc::lab(i, salt + 40)
			#define L5(i) L(i), L(i + 1), L(i + 2), L(i + 3), L(i + 4)
			switch(n) {
			case 0: return mc::sut([&] { f(std::initializer_list<char>{}); });
			case 1: return mc::sut([&] { f(std::initializer_list<char>{L(0)}); });
			case 2: return mc::sut([&] { f(std::initializer_list<char>{L(0), L(1)}); });
			case 3: return mc::sut([&] { f(std::initializer_list<char>{L(0), L(1), L(2)}); });
			case 5: return mc::sut([&] { f(std::initializer_list<char>{L5(0)}); });
			case 22: return mc::sut([&] { f(std::initializer_list<char>{L5(0), L5(5), L5(10), L5(15), L(20), L(21)}); });
			case 23: return mc::sut([&] { f(std::initializer_list<char>{L5(0), L5(5), L5(10), L5(15), L(20), L(21), L(22)}); });
			default: return mc::sut([&] { f(std::initializer_list<char>{L5(0), L5(5), L5(10), L5(15), L5(20), L(25), L(26)}); });
			}
			#undef L5
			#undef L
		}
		case COUNT: {
			const auto n{count(ch, base)};
			const char c{n % 3 == 2 ? '\0' : n % 3 == 1 ? static_cast<char>(-3) : 'q'};
			text.assign(n, c);
			NOTE("  source: %zu x char", n);
			return mc::sut([&] { f(n, c); });
		}
		case SELF_COUNT: {
			const auto n{count(ch, base)};
			const char c{ref.empty() ? 'e' : ref[ref.size() / 2]};
			text.assign(n, c);
			NOTE("  source: %zu x own char", n);
			if(ref.empty()) return mc::sut([&] { f(n, 'e'); });
			return mc::sut([&] { f(n, s()[ref.size() / 2]); });
		}
		default: { // own range [i, j)
			const auto p{positions()};
			const auto i{ch.choose(static_cast<int>(p.size()))};
			const auto j{i + ch.choose(static_cast<int>(p.size()) - i)};
			const auto a{p[static_cast<std::size_t>(i)]}, b{p[static_cast<std::size_t>(j)]};
			text = ref.substr(a, b - a);
			NOTE("  source: %s [%zu, %zu)", source_name(kind), a, b);
			if(kind == SELF_VIEW) return mc::sut([&] { f(std::string_view{s().data() + a, b - a}); });
			if(kind == SELF_IT) {
				if(ch.flip()) return mc::sut([&] { f(s().cbegin() + static_cast<std::ptrdiff_t>(a), s().cbegin() + static_cast<std::ptrdiff_t>(b)); });
				return mc::sut([&] { f(s().begin() + static_cast<std::ptrdiff_t>(a), s().begin() + static_cast<std::ptrdiff_t>(b)); });
			}
			if(kind == SELF_REV) {
				std::reverse(text.begin(), text.end());
				const auto n{static_cast<std::ptrdiff_t>(ref.size())};
				return mc::sut([&] { f(s().rbegin() + (n - static_cast<std::ptrdiff_t>(b)), s().rbegin() + (n - static_cast<std::ptrdiff_t>(a))); });
			}
			struct Raw { // plain single-pass iterator over the string itself
				using iterator_category = std::input_iterator_tag;
				using value_type = char;
				using difference_type = std::ptrdiff_t;
				using pointer = const char *;
				using reference = const char &;
				const char * p;
				reference operator*() const { return *p; }
				Raw & operator++() { ++p; return *this; }
				Raw operator++(int) { auto t{*this}; ++p; return t; }
				bool operator==(const Raw & o) const { return p == o.p; }
				bool operator!=(const Raw & o) const { return p != o.p; }
			};
			return mc::sut([&] { f(Raw{s().data() + a}, Raw{s().data() + b}); });
		}
		}
	}
	int source(Chooser & ch) {
		if(few_sources) { const int few[]{VIEW, INPUT, FORWARD, ILIST, COUNT, SELF_VIEW}; return few[ch.choose(6)]; }
		return ch.choose(SOURCES);
	}

	// -------------------------------------------------------------- one operation
	Guard g;
	void before() {
		g = {};
		g.data = s().data();
		g.cap = s().capacity();
		g.size = s().size();
		g.allocs = mc::ledger.allocs;
	}
	//! C03: the result fits the capacity, so nothing may be allocated, moved or re-dimensioned
	void must_stay(const char * op) {
		REQUIRE_("stay", mc::ledger.allocs == g.allocs, "%s allocated although the result (%zu) fits the capacity (%zu)", op, ref.size(), g.cap);
		REQUIRE_("stay", s().data() == g.data, "%s relocated the characters although the result (%zu) fits the capacity (%zu)", op, ref.size(), g.cap);
		REQUIRE_("stay", s().capacity() == g.cap, "%s changed the capacity from %zu to %zu", op, g.cap, s().capacity());
	}
	//! returns true when the operation took effect
	bool settle(Outcome o, const char * op) {
		if(o == mc::OK) return true;
		if(mc::fault_count == 0) mc::fail("content", fmt("%s threw %s", op, mc::outcome_name(o)));
		//C04: as if nothing had happened
		check_failed(op);
		return false;
	}
	void check_failed(const char * op) {
		const auto d{s().data()};
		REQUIRE_("atomic", s().size() == ref.size(), "failed %s changed the size from %zu to %zu", op, ref.size(), s().size());
		if(s().size() == ref.size()) {
			REQUIRE_("atomic", std::memcmp(d, ref.data(), ref.size()) == 0, "failed %s changed the content to \"%s\" (was \"%s\")", op, show(d, ref.size()).c_str(), show(ref.data(), ref.size()).c_str());
			REQUIRE_("atomic", d[ref.size()] == 0, "failed %s left the string without terminator", op);
		}
		REQUIRE_("atomic", mc::ledger.n == (on_heap(s(), box.raw()) ? 1u : 0u), "failed %s leaked: %zu live allocations", op, mc::ledger.n);
	}

	enum Op { CTOR, ASSIGN, ASSIGN_OP, APPEND, APPEND_OP, INSERT, REPLACE, ERASE1, ERASE2, PUSH, POP, RESIZE, RESERVE, SHRINK, CLEAR, SUBSTR, SUBSTR_MOVE, PLUS, COPY, MOVE_CTOR, MOVE_ASSIGN, COPY_ASSIGN, SWAP, APPEND_STR, LITERAL, WRITE, OUTPUT, OPS };

	void step(Chooser & ch) override {
		if(huge_counts && ch.choose(2) == 1) { impossible(ch); return; }
		relabel();
		const auto op{ch.choose(OPS)};
		mc::arm(1);
		before();
		const auto n{ref.size()};
		const auto at{[&](std::size_t p) { return s().cbegin() + static_cast<std::ptrdiff_t>(p); }};
		bool single{false};
		R text;
		switch(op) {
		case CTOR: {
			ch.label("construct");
			const auto kind{source(ch)};
			if(kind == SELF_VIEW || kind == SELF_IT || kind == SELF_REV || kind == SELF_INPUT) {
				// a new string from a range of the current one
				mc::Box<S> b;
				const auto o{with_source(ch, kind, 0, text, [&](auto... a) { ::new(b.raw()) S(a...); b.assume_live(true); }, single)};
				if(settle(o, "construction")) check_all(&*b, &text, "new string");
				break;
			}
			box.kill();
			const auto old{ref};
			ref.clear();
			const auto o{with_source(ch, kind, 0, text, [&](auto... a) { ::new(box.raw()) S(a...); box.assume_live(true); }, single)};
			if(o == mc::OK) ref = text;
			else {
				if(mc::fault_count == 0) mc::fail("content", fmt("construction threw %s", mc::outcome_name(o)));
				REQUIRE_("atomic", mc::ledger.n == 0, "failed construction leaked %zu allocations", mc::ledger.n);
				mc::ledger.n = 0;
				mc::arm(0);
				box.make();
			}
			break;
		}
		case ASSIGN: {
			ch.label("assign");
			const auto kind{source(ch)};
			const auto o{with_source(ch, kind, 0, text, [&](auto... a) { s().assign(a...); }, single)};
			if(settle(o, "assign")) ref = text;
			break;
		}
		case ASSIGN_OP: {
			ch.label("operator=");
			const int kinds[]{VIEW, CSTR, ILIST, SELF_VIEW};
			const auto kind{ch.pick(kinds)};
			S * ret{nullptr};
			const auto o{with_source(ch, kind, 0, text, [&](auto... a) {
				if constexpr(sizeof...(a) == 1) if constexpr((!std::is_same_v<decltype(a), char> && ...)) ret = &((s() = ... = a));
			}, single)};
			if(settle(o, "operator=")) { ref = text; REQUIRE_("ret", ret == &s(), "operator= returned something else"); }
			break;
		}
		case APPEND: {
			ch.label("append");
			const auto kind{source(ch)};
			const auto o{with_source(ch, kind, n, text, [&](auto... a) { s().append(a...); }, single)};
			if(settle(o, "append")) {
				ref += text;
				if(ref.size() <= g.cap && !single && kind != SELF_INPUT) must_stay("append");
			}
			break;
		}
		case APPEND_OP: {
			ch.label("operator+=");
			const auto k{ch.choose(5)};
			S * ret{nullptr};
			Outcome o;
			if(k == 0) {
				const char c{mc::lab(ch.choose(2) ? 3 : 1)};
				text = R(1, c);
				o = mc::sut([&] { ret = &(s() += c); });
			} else {
				const int kinds[]{VIEW, CSTR, ILIST, SELF_VIEW};
				o = with_source(ch, kinds[k - 1], n, text, [&](auto... a) {
					if constexpr(sizeof...(a) == 1) if constexpr((!std::is_same_v<decltype(a), char> && ...)) ret = &((s() += ... += a));
				}, single);
			}
			if(settle(o, "operator+=")) {
				ref += text;
				REQUIRE_("ret", ret == &s(), "operator+= returned something else");
				if(ref.size() <= g.cap) must_stay("operator+=");
			}
			break;
		}
		case INSERT: {
			ch.label("insert");
			const auto p{pos(ch)};
			NOTE("  at %zu of %zu", p, n);
			std::ptrdiff_t ret{-1};
			Outcome o;
			int kind{COUNT};
			if(ch.flip()) {
				const char c{mc::lab(p, 77)};
				text = R(1, c);
				o = mc::sut([&] { auto it{s().insert(at(p), c)}; ret = it - s().begin(); });
			} else {
				kind = source(ch);
				o = with_source(ch, kind, n, text, [&](auto... a) { auto it{s().insert(at(p), a...)}; ret = it - s().begin(); }, single);
			}
			if(settle(o, "insert")) {
				ref.insert(p, text);
				REQUIRE_("ret", ret == static_cast<std::ptrdiff_t>(p), "insert at %zu returned position %td", p, ret);
				if(ref.size() <= g.cap && !single && kind != SELF_INPUT) must_stay("insert");
			}
			break;
		}
		case REPLACE: {
			ch.label("replace");
			const auto ps{positions()};
			const auto i{ch.choose(static_cast<int>(ps.size()))};
			const auto j{i + ch.choose(static_cast<int>(ps.size()) - i)};
			const auto a{ps[static_cast<std::size_t>(i)]}, b{ps[static_cast<std::size_t>(j)]};
			NOTE("  [%zu, %zu) of %zu", a, b, n);
			const auto kind{source(ch)};
			S * ret{nullptr};
			const auto o{with_source(ch, kind, n - (b - a), text, [&](auto... x) { ret = &s().replace(at(a), at(b), x...); }, single)};
			if(settle(o, "replace")) {
				ref.replace(a, b - a, text);
				REQUIRE_("ret", ret == &s(), "replace returned something else");
			}
			break;
		}
		case ERASE1: case ERASE2: {
			ch.label("erase");
			const auto ps{positions()};
			std::size_t a, b;
			std::ptrdiff_t ret{-1};
			Outcome o;
			if(op == ERASE1) {
				if(!n) break;
				a = pos(ch);
				if(a == n) break;
				b = a + 1;
				NOTE("  at %zu of %zu", a, n);
				o = mc::sut([&] { auto it{s().erase(at(a))}; ret = it - s().begin(); });
			} else {
				const auto i{ch.choose(static_cast<int>(ps.size()))};
				const auto j{i + ch.choose(static_cast<int>(ps.size()) - i)};
				a = ps[static_cast<std::size_t>(i)];
				b = ps[static_cast<std::size_t>(j)];
				NOTE("  [%zu, %zu) of %zu", a, b, n);
				o = mc::sut([&] { auto it{s().erase(at(a), at(b))}; ret = it - s().begin(); });
			}
			if(settle(o, "erase")) {
				ref.erase(a, b - a);
				REQUIRE_("ret", ret == static_cast<std::ptrdiff_t>(a), "erase at %zu returned position %td", a, ret);
				must_stay("erase");
			}
			break;
		}
		case PUSH: {
			ch.label("push_back");
			if(n >= max_size_explored) break;
			const char c{ch.flip() ? '\0' : mc::lab(n, 55)};
			char * ret{nullptr};
			const auto o{mc::sut([&] { ret = &s().push_back(c); })};
			if(settle(o, "push_back")) {
				ref.push_back(c);
				REQUIRE_("ret", ret == s().data() + n, "push_back returned a reference to something else");
				if(n < g.cap) must_stay("push_back");
			}
			break;
		}
		case POP:
			ch.label("pop_back");
			if(!n) break;
			if(settle(mc::sut([&] { s().pop_back(); }), "pop_back")) { ref.pop_back(); must_stay("pop_back"); }
			break;
		case RESIZE: {
			ch.label("resize");
			std::size_t k;
			{
				std::vector<std::size_t> c;
				for(std::size_t i{0}; i <= max_size_explored; ++i) c.push_back(i);
				k = ch.pick(c);
			}
			const auto fill{ch.choose(3)};
			NOTE("  from %zu to %zu (%s)", n, k, fill == 0 ? "default" : fill == 1 ? "char" : "own char");
			const char f{fill == 0 ? '\0' : fill == 1 || !n ? 'R' : ref[n - 1]};
			const auto o{fill == 0 ? mc::sut([&] { s().resize(k); }) : fill == 1 || !n ? mc::sut([&] { s().resize(k, 'R'); }) : mc::sut([&] { s().resize(k, s().back()); })};
			if(settle(o, "resize")) { ref.resize(k, f); if(k <= g.cap) must_stay("resize"); }
			break;
		}
		case RESERVE: {
			ch.label("reserve");
			const std::size_t a[]{0, 1, 21, 22, 23, 24, 47, 48, 49, 71, 72, 73, 96, 97, 120};
			std::vector<std::size_t> c(std::begin(a), std::end(a));
			c.push_back(n);
			c.push_back(g.cap);
			c.push_back(g.cap + 1);
			c = mc::uniq(c, max_size_explored + 24);
			const auto k{ch.pick(c)};
			NOTE("  %zu (capacity %zu)", k, g.cap);
			if(settle(mc::sut([&] { s().reserve(k); }), "reserve")) {
				REQUIRE_("cap", s().capacity() >= k, "capacity %zu after reserve(%zu)", s().capacity(), k);
				REQUIRE_("cap", s().capacity() >= g.cap, "reserve(%zu) lowered the capacity from %zu to %zu", k, g.cap, s().capacity());
				if(k <= g.cap) must_stay("reserve");
			}
			break;
		}
		case SHRINK:
			ch.label("shrink_to_fit");
			if(settle(mc::sut([&] { s().shrink_to_fit(); }), "shrink_to_fit"))
				REQUIRE_("cap", s().capacity() <= g.cap, "shrink_to_fit raised the capacity from %zu to %zu", g.cap, s().capacity());
			break;
		case CLEAR:
			ch.label("clear");
			if(settle(mc::sut([&] { s().clear(); }), "clear")) { ref.clear(); must_stay("clear"); }
			break;
		case SUBSTR: case SUBSTR_MOVE: {
			ch.label(op == SUBSTR ? "substr const &" : "substr &&");
			const auto ps{positions()};
			const auto i{ch.choose(static_cast<int>(ps.size()))};
			const auto a{ps[static_cast<std::size_t>(i)]};
			const bool two{ch.flip()};
			auto b{n};
			if(two) b = ps[static_cast<std::size_t>(i + ch.choose(static_cast<int>(ps.size()) - i))];
			NOTE("  [%zu, %zu) of %zu", a, b, n);
			mc::Box<S> r;
			Outcome o;
			if(op == SUBSTR) {
				const S & c{s()};
				o = two ? r.make_by([&] { return c.substr(a, b - a); }) : r.make_by([&] { return c.substr(a); });
			} else o = two ? r.make_by([&] { return std::move(s()).substr(a, b - a); }) : r.make_by([&] { return std::move(s()).substr(a); });
			if(settle(o, "substr")) {
				const R expected{ref.substr(a, b - a)};
				if(op == SUBSTR) check_all(&*r, &expected, "substr");
				else {
					//moved-from but valid: take what it is as the new abstract value
					check(*r, expected, r.raw(), "substr");
					ref.assign(s().data(), s().size());
					check_all(&*r, &expected, "substr");
				}
			}
			break;
		}
		case PLUS: {
			ch.label("operator+");
			const auto k{ch.choose(6)};
			const auto m{k < 2 ? 1 : count(ch, n)};
			R t;
			for(std::size_t i{0}; i < m; ++i) t += mc::lab(i, salt + 40);
			mc::Src<char> src{m};
			std::memcpy(src.data, t.data(), m);
			mc::Box<S> r;
			Outcome o;
			R expected;
			const S & c{s()};
			switch(k) {
			case 0: o = r.make_by([&] { return c + t[0]; }); expected = ref + t; break;
			case 1: o = r.make_by([&] { return t[0] + c; }); expected = t + ref; break;
			case 2: o = r.make_by([&] { return c + std::string_view{src.data, m}; }); expected = ref + t; break;
			case 3: o = r.make_by([&] { return std::string_view{src.data, m} + c; }); expected = t + ref; break;
			case 4: o = r.make_by([&] { return c + c; }); expected = ref + ref; break;
			default: {
				mc::Box<S> other;
				const int left{mc::fault_budget};
				mc::fault_budget = 0;
				other.make(std::string_view{src.data, m});
				mc::fault_budget = left;
				const bool rev{ch.flip()};
				o = rev ? r.make_by([&] { return *other + c; }) : r.make_by([&] { return c + *other; });
				expected = rev ? t + ref : ref + t;
			}
			}
			NOTE("  variant %d, other operand %zu characters", k, m);
			if(settle(o, "operator+")) check_all(&*r, &expected, "sum");
			break;
		}
		case COPY: {
			ch.label("copy construction");
			mc::Box<S> r;
			const S & c{s()};
			if(settle(r.make(c), "copy construction")) {
				check_all(&*r, &ref, "copy");
				if(n) { //independence
					r->data()[0] = static_cast<char>(ref[0] + 1);
					REQUIRE_("content", s().data()[0] == ref[0], "writing to the copy changed the original");
				}
			}
			break;
		}
		case LITERAL: {
			ch.label("literal");
			using namespace ptl::literals;
			mc::Box<S> r;
			R e;
			Outcome o;
			switch(ch.choose(5)) {
			case 0: o = r.make_by([] { return ""_s; }); break;
			case 1: o = r.make_by([] { return "a\0b"_s; }); e = R("a\0b", 3); break;
			case 2: o = r.make_by([] { return "0123456789012345678901"_s; }); e = "0123456789012345678901"; break;
			case 3: o = r.make_by([] { return "\0\0\0"_s; }); e = R("\0\0\0", 3); break;
			default: o = r.make_by([] { return "01234567890123456789\0abc"_s; }); e = R("01234567890123456789\0abc", 24); break;
			}
			if(settle(o, "literal")) check_all(&*r, &e, "literal");
			break;
		}
		case WRITE: { // mutable element access writes exactly that element
			ch.label("write");
			if(!n) break;
			const auto p{pos(ch)};
			if(p == n) break;
			const char c{static_cast<char>(ref[p] + 1)};
			switch(ch.choose(7)) {
			case 0: s()[p] = c; break;
			case 1: s().at(p) = c; break;
			case 2: *(s().begin() + static_cast<std::ptrdiff_t>(p)) = c; break;
			case 3: s().data()[p] = c; break;
			case 4: *(s().rbegin() + static_cast<std::ptrdiff_t>(n - 1 - p)) = c; break;
			case 5: if(p == 0) s().front() = c; else s()[p] = c; break;
			default: if(p == n - 1) s().back() = c; else s()[p] = c; break;
			}
			ref[p] = c;
			must_stay("write");
			break;
		}
		case OUTPUT:
			ch.label("output");
			mc::same_output("content", static_cast<const S &>(s()), ref, n);
			must_stay("output");
			break;
		default: two_objects(ch, op); break;
		}
		if(box.alive()) check_all();
	}

	void two_objects(Chooser & ch, int op) {
		static const char * names[]{"move construction", "move assignment", "copy assignment", "swap", "append(string)"};
		ch.label(names[op - MOVE_CTOR]);
		const auto name{names[op - MOVE_CTOR]};
		//the other string: every kind of shape
		const std::size_t sizes[]{0, 1, 5, 21, 22, 23, 24, 47, 48, 49};
		mc::Box<S> other;
		R oref;
		bool self{false};
		if(op != MOVE_CTOR) {
			const auto k{ch.choose(11)};
			if(k == 10) self = true;
			else {
				const std::size_t extra[]{0, 30, 70};
				const auto e{extra[ch.choose(3)]};
				for(std::size_t i{0}; i < sizes[k]; ++i) oref += mc::lab(i, salt + 90);
				const int left{mc::fault_budget};
				mc::fault_budget = 0;
				other.make();
				mc::sut([&] { if(e) other->reserve(e); other->append(std::string_view{oref}); });
				mc::fault_budget = left;
				NOTE("  other: %zu characters, capacity %zu", oref.size(), other->capacity());
			}
			if(self) NOTE("  with itself");
		}
		const auto allocs{mc::ledger.allocs};
		const auto mine{s().data()};
		const bool mine_heap{on_heap(s(), box.raw())};
		const auto theirs{other.alive() ? other->data() : nullptr};
		const bool theirs_heap{other.alive() && on_heap(*other, other.raw())};
		S & o{self ? s() : *other};
		Outcome out{mc::OK};
		switch(op) {
		case MOVE_CTOR: {
			out = other.make(std::move(s()));
			if(!settle(out, name)) return;
			oref = ref;
			check(*other, oref, other.raw(), "move target");
			REQUIRE_("move", mc::ledger.allocs == allocs, "move construction allocated");
			if(mine_heap && oref.size() > 22) REQUIRE_("move", other->data() == mine, "move construction of a long string copied the characters");
			ref.assign(s().data(), s().size()); //valid, unspecified
			check_all(&*other, &oref);
			//reusable
			if(ch.flip()) { mc::arm(0); mc::sut([&] { s().assign(std::string_view{"reused after move, long enough for the heap"}); }); ref = "reused after move, long enough for the heap"; }
			check_all(&*other, &oref);
			return;
		}
		case MOVE_ASSIGN: {
			S * ret{nullptr};
			out = mc::sut([&] { ret = &(s() = std::move(o)); });
			if(!settle(out, name)) return;
			REQUIRE_("ret", ret == &s(), "move assignment returned something else");
			REQUIRE_("move", mc::ledger.allocs == allocs, "move assignment allocated");
			if(self) { ref.assign(s().data(), s().size()); check_all(); return; }
			ref = oref;
			check(s(), ref, box.raw(), "move target");
			if(theirs_heap && ref.size() > 22) REQUIRE_("move", s().data() == theirs, "move assignment of a long string copied the characters");
			oref.assign(o.data(), o.size());
			check_all(&o, &oref);
			if(ch.flip()) { mc::arm(0); mc::sut([&] { o.assign(std::string_view{"reused after move, long enough for the heap"}); }); oref = "reused after move, long enough for the heap"; }
			check_all(&o, &oref);
			return;
		}
		case COPY_ASSIGN: {
			S * ret{nullptr};
			const S & c{o};
			out = mc::sut([&] { ret = &(s() = c); });
			if(mc::fault_count && out != mc::OK) { if(!self) { REQUIRE_("atomic", R(o.data(), o.size()) == oref, "failed assignment changed its source"); } check_two(o, oref, self, name); return; }
			if(!settle(out, name)) return;
			REQUIRE_("ret", ret == &s(), "assignment returned something else");
			if(!self) ref = oref;
			if(self) check_all(); else check_all(&o, &oref);
			if(!self && !ref.empty()) { o.data()[0] = static_cast<char>(oref[0] + 1); REQUIRE_("content", s().data()[0] == ref[0], "assignment shares characters with its source"); }
			return;
		}
		case SWAP: {
			const auto k{ch.choose(2)};
			out = k == 0 ? mc::sut([&] { s().swap(o); }) : mc::sut([&] { using std::swap; swap(s(), o); });
			if(!settle(out, name)) return;
			REQUIRE_("move", mc::ledger.allocs == allocs, "swap allocated");
			if(self) { check_all(); return; }
			std::swap(ref, oref);
			check_all(&o, &oref);
			if(mine_heap && oref.size() > 22) REQUIRE_("move", o.data() == mine, "swap copied a long string");
			if(theirs_heap && ref.size() > 22) REQUIRE_("move", s().data() == theirs, "swap copied a long string");
			return;
		}
		default: { // append another ptl::string (+= and append)
			if((self ? ref.size() * 2 : ref.size() + oref.size()) > max_size_explored + 22) return;
			const S & c{o};
			S * ret{&s()};
			const auto k{ch.choose(4)};
			std::size_t p{0};
			if(k == 0) out = mc::sut([&] { ret = &(s() += c); });
			else if(k == 1) out = mc::sut([&] { s().append(c); });
			else if(k == 2) { p = pos(ch); out = mc::sut([&] { s().insert(s().begin() + static_cast<std::ptrdiff_t>(p), c); }); }
			else out = mc::sut([&] { s().append(c.begin(), c.end()); });
			if(out != mc::OK && mc::fault_count) { check_two(o, oref, self, name); return; }
			if(!settle(out, name)) return;
			REQUIRE_("ret", ret == &s(), "+= returned something else");
			const R t{self ? ref : oref};
			if(k == 2) ref.insert(p, t); else ref += t;
			if(ref.size() <= g.cap && !self) {
				REQUIRE_("stay", mc::ledger.allocs == allocs && s().data() == g.data && s().capacity() == g.cap, "append of a string relocated although the result (%zu) fits the capacity (%zu)", ref.size(), g.cap);
			}
			if(self) check_all(); else check_all(&o, &oref);
		}
		}
	}
	void check_two(S & o, const R & oref, bool self, const char * op) {
		REQUIRE_("atomic", R(s().data(), s().size()) == ref && s().data()[s().size()] == 0, "failed %s changed the string", op);
		if(!self) REQUIRE_("atomic", R(o.data(), o.size()) == oref, "failed %s changed its source", op);
		REQUIRE_("atomic", mc::ledger.n == (on_heap(s(), box.raw()) ? 1u : 0u) + (!self && on_heap(o, &o) ? 1u : 0u), "failed %s leaked", op);
	}

	// -------------------------------------------------------------- C10
	void impossible(Chooser & ch) {
		relabel();
		mc::arm(0);
		const auto op{ch.choose(14)};
		const auto k{huge(ch, ref.size())};
		const bool range{op >= 9};
		if(range && k > static_cast<std::size_t>(PTRDIFF_MAX)) { ch.label("-"); return; }
		const char x{'x'};
		const mc::Far<char> first{&x, 0}, last{&x, static_cast<std::ptrdiff_t>(k)};
		mc::Far<char>::budget = 1 << 20;
		const auto n{ref.size()};
		const auto cap{s().capacity()};
		const auto at{[&](std::size_t p) { return s().cbegin() + static_cast<std::ptrdiff_t>(p); }};
		Outcome o{mc::OK};
		const char * name{""};
		switch(op) {
		case 0: name = "reserve"; o = mc::sut([&] { s().reserve(k); }); break;
		case 1: name = "resize"; o = mc::sut([&] { s().resize(k); }); break;
		case 2: name = "resize(n, ch)"; o = mc::sut([&] { s().resize(k, 'x'); }); break;
		case 3: name = "assign(n, ch)"; o = mc::sut([&] { s().assign(k, 'x'); }); break;
		case 4: name = "append(n, ch)"; o = mc::sut([&] { s().append(k, 'x'); }); break;
		case 5: { name = "insert(n, ch)"; const auto p{pos(ch)}; o = mc::sut([&] { s().insert(at(p), k, 'x'); }); break; }
		case 6: {
			name = "replace(n, ch)";
			const auto ps{positions()};
			const auto i{ch.choose(static_cast<int>(ps.size()))};
			const auto j{i + ch.choose(static_cast<int>(ps.size()) - i)};
			o = mc::sut([&] { s().replace(at(ps[static_cast<std::size_t>(i)]), at(ps[static_cast<std::size_t>(j)]), k, 'x'); });
			break;
		}
		case 7: { name = "string(n, ch)"; mc::Box<S> b; o = b.make(k, 'x'); break; }
		case 9: name = "assign(first, last)"; o = mc::sut([&] { s().assign(first, last); }); break;
		case 10: name = "append(first, last)"; o = mc::sut([&] { s().append(first, last); }); break;
		case 11: { name = "insert(first, last)"; const auto p{pos(ch)}; o = mc::sut([&] { s().insert(at(p), first, last); }); break; }
		case 12: {
			name = "replace(first, last)";
			const auto ps{positions()};
			const auto i{ch.choose(static_cast<int>(ps.size()))};
			const auto j{i + ch.choose(static_cast<int>(ps.size()) - i)};
			o = mc::sut([&] { s().replace(at(ps[static_cast<std::size_t>(i)]), at(ps[static_cast<std::size_t>(j)]), first, last); });
			break;
		}
		case 13: { name = "string(first, last)"; mc::Box<S> b; o = b.make(first, last); break; }
		default: { name = "operator= string(n, ch)"; o = mc::sut([&] { s() = S(k, 'x'); }); break; }
		}
		ch.label(name);
		NOTE("  %zu (0x%zx), from size %zu", k, k, n);
		if(k <= cap && (op == 0)) return; //cannot happen with these counts
		REQUIRE_("limit", o == mc::LENGTH || o == mc::BAD_ALLOC, "%s with %zu: %s instead of length_error", name, k, mc::outcome_name(o));
		//definitely beyond max_size: length_error or bad_alloc; the object is as before
		REQUIRE_("limit", s().size() == n && R(s().data(), s().size()) == ref && s().data()[n] == 0, "rejected %s changed the string", name);
		REQUIRE_("limit", s().capacity() == cap, "rejected %s changed the capacity", name);
		REQUIRE_("limit", mc::ledger.n == (on_heap(s(), box.raw()) ? 1u : 0u), "rejected %s leaked", name);
	}

	std::string key() override {
		if(big) {
			if(std::find(std::begin(big_sizes), std::end(big_sizes), ref.size()) == std::end(big_sizes)) return {};
			return fmt("%zu/%zu/%d", s().size(), s().capacity(), on_heap(s(), box.raw()));
		}
		if(ref.size() > max_size_explored || s().capacity() > max_size_explored + 72) return {};
		return fmt("%zu/%zu/%d", s().size(), s().capacity(), on_heap(s(), box.raw()));
	}
};

// ---------------------------------------------------------------- two strings, every history (no merging of states)
struct Pair : mc::World {
	mc::Box<S> a, b;
	R ra, rb;
	Pair() { a.make(); b.make(); }
	void check_all() {
		Single::check(*a, ra, a.raw(), "a");
		Single::check(*b, rb, b.raw(), "b");
		const auto owned{(Single::on_heap(*a, a.raw()) ? 1u : 0u) + (Single::on_heap(*b, b.raw()) ? 1u : 0u)};
		REQUIRE_("leak", mc::ledger.n == owned, "%zu live allocations, %u owned", mc::ledger.n, owned);
	}
	void step(Chooser & ch) override {
		mc::arm(1);
		const auto op{ch.choose(22)};
		static const char * names[]{"a=3", "a=22", "a=23", "a=48", "a+=1", "a+=23", "a.erase front", "a.clear", "a.shrink", "a.reserve(49)", "a=b", "a=move(b)", "swap(a,b)", "b=a", "b=move(a)", "a+=b", "a.insert(1,b)", "a.pop_back", "a.resize(+1)", "a.replace(0,1,b)", "b.push_back", "a=substr&&"};
		ch.label(names[op]);
		NOTE("  %s", names[op]);
		const auto fill{[](std::size_t n, int s) { R r; for(std::size_t i{0}; i < n; ++i) r += mc::lab(i, s); return r; }};
		const R oa{ra}, ob{rb};
		Outcome o{mc::OK};
		const auto set{[&](std::size_t n) { const auto t{fill(n, static_cast<int>(n))}; o = mc::sut([&] { a->assign(std::string_view{t}); }); ra = t; }};
		switch(op) {
		case 0: set(3); break;
		case 1: set(22); break;
		case 2: set(23); break;
		case 3: set(48); break;
		case 4: o = mc::sut([&] { *a += 'p'; }); ra += 'p'; break;
		case 5: { const auto t{fill(23, 5)}; o = mc::sut([&] { *a += std::string_view{t}; }); ra += t; break; }
		case 6: if(!ra.empty()) { o = mc::sut([&] { a->erase(a->begin()); }); ra.erase(0, 1); } break;
		case 7: o = mc::sut([&] { a->clear(); }); ra.clear(); break;
		case 8: o = mc::sut([&] { a->shrink_to_fit(); }); break;
		case 9: o = mc::sut([&] { a->reserve(49); }); break;
		case 10: o = mc::sut([&] { const S & c{*b}; *a = c; }); ra = rb; break;
		case 11: o = mc::sut([&] { *a = std::move(*b); }); ra = rb; rb.assign(b->data(), b->size()); break;
		case 12: o = mc::sut([&] { swap(*a, *b); }); std::swap(ra, rb); break;
		case 13: o = mc::sut([&] { const S & c{*a}; *b = c; }); rb = ra; break;
		case 14: o = mc::sut([&] { *b = std::move(*a); }); rb = ra; ra.assign(a->data(), a->size()); break;
		case 15: o = mc::sut([&] { *a += *b; }); ra += rb; break;
		case 16: { const auto p{ra.empty() ? 0u : 1u}; o = mc::sut([&] { a->insert(a->begin() + p, std::string_view{*b}); }); ra.insert(p, rb); break; }
		case 17: if(!ra.empty()) { o = mc::sut([&] { a->pop_back(); }); ra.pop_back(); } break;
		case 18: o = mc::sut([&] { a->resize(ra.size() + 1); }); ra.resize(ra.size() + 1); break;
		case 19: { const auto e{ra.empty() ? 0u : 1u}; o = mc::sut([&] { a->replace(a->begin(), a->begin() + e, std::string_view{*b}); }); ra.replace(0, e, rb); break; }
		case 20: o = mc::sut([&] { b->push_back('q'); }); rb += 'q'; break;
		default: { const auto e{ra.empty() ? 0u : 1u}; o = mc::sut([&] { *a = std::move(*a).substr(e); }); ra = ra.substr(e); break; }
		}
		if(o != mc::OK) {
			if(!mc::fault_count) mc::fail("content", fmt("%s threw %s", names[op], mc::outcome_name(o)));
			ra = oa;
			rb = ob;
			REQUIRE_("atomic", R(a->data(), a->size()) == ra && a->data()[ra.size()] == 0, "failed %s changed a", names[op]);
			REQUIRE_("atomic", R(b->data(), b->size()) == rb && b->data()[rb.size()] == 0, "failed %s changed b", names[op]);
		}
		check_all();
	}
	std::string key() override {
		if(ra.size() > 120 || rb.size() > 120) return {};
		return fmt("%zu/%zu/%d %zu/%zu/%d ", a->size(), a->capacity(), Single::on_heap(*a, a.raw()), b->size(), b->capacity(), Single::on_heap(*b, b.raw())) + ra + "|" + rb;
	}
};

mc::Model single(const char * name, int depth, bool faults = false) {
	mc::Model m;
	m.name = name;
	const bool b{std::strstr(name, "large") != nullptr};
	m.make = [b] { big = b; return new Single; };
	m.depth = depth;
	m.faults = faults;
	return m;
}
mc::Model pair(const char * name, int depth, bool faults = false, bool dedupe = false) {
	mc::Model m;
	m.name = name;
	m.make = [] { return new Pair; };
	m.depth = depth;
	m.dedupe = dedupe;
	m.faults = faults;
	return m;
}
}

mc::Plan plan(const std::string & p, bool thorough) {
	max_size_explored = thorough ? 99 : p == "C04" ? 52 : 75;
	all_positions = thorough;
	mc::Plan r;
	const auto large{single("large strings x every operation", 2)};
	if(p == "C01") {
		r.models = {pair("two strings, all histories", thorough ? 5 : 4), large, single("string x every operation", 12)};
		r.mask = {"content", "ret"};
	} else if(p == "C02") {
		r.models = {pair("two strings, all histories", thorough ? 5 : 4), pair("two strings, all states", thorough ? 7 : 5, false, true), large, single("string x every operation", 12)};
		r.mask = {"bounds", "term", "leak", "mem"};
	} else if(p == "C03") {
		r.models = {large, single("string x every operation", 12)};
		r.mask = {"stay", "cap", "move"};
	} else if(p == "C04") {
		few_sources = !thorough;
		r.models = {pair("two strings x fault points, all histories", thorough ? 4 : 3, true), single("string x every operation x every fault point", 12, true)};
		r.mask = {"atomic", "leak", "mem", "term", "bounds"};
	} else if(p == "C10") {
		huge_counts = true;
		few_sources = true;
		r.models = {single("string x impossible counts", 12)};
		r.mask = {"limit", "mem"};
	} else if(p == "C26") {
		few_sources = !thorough;
		r.models = {pair("two strings, all histories", thorough ? 5 : 3), large, single("string x every operation", 12)};
		r.mask = {"layout"};
	} else if(p == "C32") {
		r.models = {single("string x every source range", 12)};
		r.mask = {"iter", "content"};
	} else if(p == "C33") {
		r.models = {pair("two strings, all histories", thorough ? 5 : 4), large, single("string x copy/move/swap", 12)};
		r.mask = {"content", "ret", "leak", "mem"};
	}
	return r;
}
