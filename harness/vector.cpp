// ptl::vector in lock-step with a std::vector of labels, over several element types.
#include <ptl/vector.hpp>
#include <ptl/string.hpp>
#include "common.hpp"
#include "layout.hpp"

using mc::Chooser;
using mc::Elem;
using mc::fmt;
using mc::Outcome;
using R = std::vector<int>;

namespace {
struct alignas(64) Wide : Elem { // over-aligned element
	using Elem::Elem;
	Wide() =default;
	friend void swap(Wide & a, Wide & b) noexcept { swap(static_cast<Elem &>(a), static_cast<Elem &>(b)); }
};
static_assert(std::is_standard_layout_v<Wide> && sizeof(Wide) == 64);
struct Byte { // trivial, size 1
	unsigned char c;
	friend bool operator==(Byte a, Byte b) { return a.c == b.c; }
};

std::size_t max_size_explored{24};
bool all_positions{false}, few_sources{false}, huge_counts{false};
bool big{false}; // sizes around the limits of block sizes and of 8 and 16 bit integers
std::vector<std::size_t> big_sizes;
std::size_t limit() { return big ? big_sizes.back() + 1 : max_size_explored; }

template<typename T> struct Tr;
template<typename E>
struct TrElem {
	static constexpr bool tracked{true};
	static E make(int i) { return E(i); }
	static int get(const E & e) { e.need("read"); return e.v; }
	static void set(E & e, int i) { e.need("write"); e.v = i; }
	static std::size_t heap(const E &) { return 0; }
};
template<> struct Tr<Elem> : TrElem<Elem> {};
template<> struct Tr<Wide> : TrElem<Wide> {};
template<> struct Tr<int> {
	static constexpr bool tracked{false};
	static int make(int i) { return i; }
	static int get(int e) { return e; }
	static void set(int & e, int i) { e = i; }
	static std::size_t heap(int) { return 0; }
};
template<> struct Tr<Byte> {
	static constexpr bool tracked{false};
	static Byte make(int i) { return {static_cast<unsigned char>(i)}; }
	static int get(Byte e) { return e.c; }
	static void set(Byte & e, int i) { e = make(i); }
	static std::size_t heap(Byte) { return 0; }
};
template<> struct Tr<ptl::string> {
	static constexpr bool tracked{false};
	static std::string text(int i) { return i == 0 ? std::string{} : std::to_string(i) + (i % 2 ? std::string(30, '.') : std::string{"."}); }
	static ptl::string make(int i) { return ptl::string{std::string_view{text(i)}}; }
	static int get(const ptl::string & s) { const auto i{std::atoi(s.c_str())}; return text(i) == std::string_view{s} ? i : -1; }
	static void set(ptl::string & s, int i) { mc::Scope x; const auto f{mc::faults_on}; mc::faults_on = false; s = std::string_view{text(i)}; mc::faults_on = f; }
	static std::size_t heap(const ptl::string & s) { const auto d{s.data()}; const auto o{reinterpret_cast<const char *>(&s)}; return !(d >= o && d < o + sizeof s) && mc::ledger.find(d); } // buffers that came with a moved source are not counted
};
template<typename T> int norm(int label) { // labels fit every element type
	return label;
}

//! a source range of live elements in its own memory block; their allocations belong to the harness
template<typename T>
struct Elems : mc::Src<T> {
	explicit Elems(const R & labels) : mc::Src<T>{labels.size()} {
		mc::Paused p;
		for(std::size_t i{0}; i < this->n; ++i) ::new(static_cast<void *>(this->data + i)) T(Tr<T>::make(labels[i]));
	}
	~Elems() {
		mc::Paused p;
		std::destroy_n(this->data, this->n);
	}
};

std::vector<int> copyable; // labels that may be copied in the current operation (C09)
std::size_t copy_budget{0}; // how often the current operation may copy an element: once for each element it is given, and once more for count forms
bool copy_filter(int v) { return std::find(copyable.begin(), copyable.end(), v) != copyable.end(); }

template<typename T>
struct VW : mc::World {
	using V = ptl::vector<T>;
	mc::Box<V> box;
	R ref;
	int salt{0};

	V & v() { return *box; }
	VW() { Elem::reset(); box.make(); }
	~VW() override { box.kill(); if(Tr<T>::tracked) REQUIRE_("life", Elem::live == 0, "%ld elements alive after the vector's destruction", Elem::live); Elem::reset(); }

	static int label(std::size_t i, int salt) { if(big) return 1 + static_cast<int>((i + i / 240 * 7 + static_cast<std::size_t>(salt % 3) * 60) % 240); return norm<T>(static_cast<int>(i) + 1 + salt % 3 * 60); }

	static std::size_t owned(const V & x) {
		std::size_t r{mc::ledger.find(x.data()) ? 1u : 0u};
		for(std::size_t i{0}; i < x.size(); ++i) r += Tr<T>::heap(x[i]);
		return r;
	}
	static void check(const V & x, const R & ref, const char * who) {
		REQUIRE_("content", x.size() == ref.size(), "%s: size %zu, expected %zu", who, x.size(), ref.size());
		REQUIRE_("content", x.empty() == ref.empty(), "%s: empty()", who);
		REQUIRE_("cap", x.capacity() >= x.size(), "%s: capacity %zu below size %zu", who, x.capacity(), x.size());
		const auto d{x.data()};
		if(x.capacity()) {
			const auto a{mc::ledger.find(d)};
			REQUIRE_("bounds", a != nullptr, "%s: elements are not in memory obtained by the library", who);
			if(a) REQUIRE_("bounds", reinterpret_cast<const char *>(d + x.capacity()) <= static_cast<const char *>(a->ptr) + a->size, "%s: capacity %zu but the allocation has %zu bytes", who, x.capacity(), a->size);
			REQUIRE_("align", reinterpret_cast<std::uintptr_t>(d) % alignof(T) == 0, "%s: elements are misaligned", who);
		}
		layout::vector(&x, sizeof(V), alignof(V), d, x.capacity(), ref.size(), who);
		if(x.size() != ref.size()) return;
		for(std::size_t i{0}; i < ref.size(); ++i) REQUIRE_("content", Tr<T>::get(d[i]) == ref[i], "%s: element %zu is %d, expected %d", who, i, Tr<T>::get(d[i]), ref[i]);
		if(!ref.empty()) {
			REQUIRE_("content", &x.front() == d && &x.back() == d + x.size() - 1 && &x[x.size() / 2] == d + x.size() / 2, "%s: front/back/subscript", who);
			REQUIRE_("content", &*x.begin() == d, "%s: begin()", who);
		}
		REQUIRE_("content", x.end() - x.begin() == static_cast<std::ptrdiff_t>(x.size()), "%s: iterator distance", who);
	}
	//! after an operation, sources gone
	void check_all(const V * other = nullptr, const R * oref = nullptr, const char * name = "other") {
		check(v(), ref, "vector");
		auto o{owned(v())};
		auto live{ref.size()};
		if(other) { check(*other, *oref, name); o += owned(*other); live += oref->size(); }
		REQUIRE_("leak", mc::ledger.n == o, "%zu live allocations, %zu owned", mc::ledger.n, o);
		if constexpr(Tr<T>::tracked) REQUIRE_("life", Elem::live == static_cast<long>(live + ext), "%ld live elements, expected %zu", Elem::live, live + ext);
	}
	std::size_t ext{0}; // live elements belonging to a source

	void relabel() {
		++salt;
		for(std::size_t i{0}; i < ref.size(); ++i) { ref[i] = label(i, salt); Tr<T>::set(v()[i], ref[i]); }
	}
	std::vector<std::size_t> positions() const {
		const auto n{ref.size()};
		std::vector<std::size_t> r;
		if(big) { r = {0, 1, 64, n / 2 + 1, n ? n - 1 : 0, n}; return mc::uniq(r, n); }
		if(all_positions && n <= 14) for(std::size_t i{0}; i <= n; ++i) r.push_back(i);
		else if(all_positions) r = {0, 1, 2, 3, n / 2, n - 3, n - 2, n - 1, n};
		else r = {0, 1, n / 2, n ? n - 1 : 0, n};
		return mc::uniq(r, n);
	}
	std::size_t pos(Chooser & ch) const { const auto p{positions()}; return ch.pick(p); }
	std::vector<std::size_t> counts(std::size_t base) {
		const auto cap{v().capacity()};
		if(big) {
			std::vector<std::size_t> t{0, 1, 63};
			for(auto b : big_sizes) if(b >= base) t.push_back(b - base);
			if(cap >= base) { t.push_back(cap - base); t.push_back(cap - base + 1); }
			return mc::uniq(t, limit());
		}
		std::vector<std::size_t> r{0, 1, 2, 3};
		for(auto b : {std::size_t{9}, std::size_t{10}, std::size_t{11}, cap - 1, cap, cap + 1, cap + 2})
			if(b >= base) r.push_back(b - base);
		if(all_positions) for(std::size_t i{0}; i < 24; ++i) r.push_back(i);
		return mc::uniq(r, base < max_size_explored ? max_size_explored - base : 1);
	}
	std::size_t count(Chooser & ch, std::size_t base) { const auto c{counts(base)}; return ch.pick(c); }
	R fresh(std::size_t n, int s = 200) const { R r; for(std::size_t i{0}; i < n; ++i) r.push_back(norm<T>(s + static_cast<int>(i) % 45)); return r; }

	// -------------------------------------------------------------- sources
	enum Source { PTRS, INPUT, FORWARD, RANDOM, ILIST, COUNT, SELF_PTR, SELF_IT, SELF_REV, SELF_INPUT, SELF_COUNT, BIDI, LIST, INTS, MOVED, SOURCES };
	int source(Chooser & ch) {
		if(few_sources) { const int few[]{INPUT, FORWARD, ILIST, COUNT, SELF_PTR, MOVED}; return few[ch.choose(6)]; }
		return ch.choose(SOURCES);
	}
	template<typename F>
	Outcome with_source(Chooser & ch, int kind, std::size_t base, R & text, F f, bool & single) {
		single = false;
		const auto ready{[&] { copyable = text; copy_budget = text.size(); }};
		switch(kind) {
		case PTRS: { text = fresh(count(ch, base)); Elems<T> e{text}; ready(); NOTE("  source: pointers, %zu elements", text.size()); return after(e, mc::sut([&] { f(static_cast<const T *>(e.data), static_cast<const T *>(e.data + e.n)); })); }
		case INPUT: { text = fresh(count(ch, base)); Elems<T> e{text}; ready(); single = true; NOTE("  source: input iterators, %zu elements", text.size());
			const auto o{after(e, mc::sut([&] { f(mc::src_begin<std::input_iterator_tag>(e), mc::src_end<std::input_iterator_tag>(e)); }))};
			if(o == mc::OK) mc::single_pass_done(e);
			return o; }
		case FORWARD: { text = fresh(count(ch, base)); Elems<T> e{text}; ready(); NOTE("  source: forward iterators, %zu elements", text.size()); return after(e, mc::sut([&] { f(mc::src_begin<std::forward_iterator_tag>(e), mc::src_end<std::forward_iterator_tag>(e)); })); }
		case BIDI: { text = fresh(count(ch, base)); Elems<T> e{text}; ready(); NOTE("  source: bidirectional iterators, %zu elements", text.size()); return after(e, mc::sut([&] { f(mc::src_begin<std::bidirectional_iterator_tag>(e), mc::src_end<std::bidirectional_iterator_tag>(e)); })); }
		case RANDOM: { text = fresh(count(ch, base)); Elems<T> e{text}; ready(); NOTE("  source: random-access iterators, %zu elements", text.size()); return after(e, mc::sut([&] { f(mc::src_begin<std::random_access_iterator_tag>(e), mc::src_end<std::random_access_iterator_tag>(e)); })); }
		case LIST: { text = fresh(count(ch, base)); std::list<T> e; for(auto x : text) e.push_back(Tr<T>::make(x)); ready(); NOTE("  source: std::list, %zu elements", text.size()); return mc::sut([&] { f(e.begin(), e.end()); }); }
		case INTS: {
			text = fresh(count(ch, base));
			ready();
			if constexpr(std::is_constructible_v<T, const int &>) {
				mc::Src<int> e{text.size()};
				std::copy(text.begin(), text.end(), e.data);
				NOTE("  source: pointers to int (converted), %zu elements", text.size());
				return mc::sut([&] { f(static_cast<const int *>(e.data), static_cast<const int *>(e.data + e.n)); });
			} else { Elems<T> e{text}; return after(e, mc::sut([&] { f(e.data, e.data + e.n); })); }
		}
		case MOVED: { // nothing may be copied
			text = fresh(count(ch, base));
			Elems<T> e{text};
			copyable.clear();
			NOTE("  source: move iterators, %zu elements", text.size());
			return mc::sut([&] { f(std::make_move_iterator(e.data), std::make_move_iterator(e.data + e.n)); });
		}
		case ILIST: {
			const std::size_t sizes[]{0, 1, 2, 5, 10, 11};
			std::vector<std::size_t> ok;
			for(auto n : sizes) if(base + n <= limit() || n <= 1) ok.push_back(n);
			const auto n{ch.pick(ok)};
			text = fresh(n);
			ready();
			NOTE("  source: initializer_list of %zu", n);
			#define M(i) Tr<T>::make(text[i])
			const auto g{[&](std::initializer_list<T> il) { return mc::sut([&] { f(il); }); }};
			switch(n) {
			case 0: return g({});
			case 1: return g({M(0)});
			case 2: return g({M(0), M(1)});
			case 5: return g({M(0), M(1), M(2), M(3), M(4)});
			case 10: return g({M(0), M(1), M(2), M(3), M(4), M(5), M(6), M(7), M(8), M(9)});
			default: return g({M(0), M(1), M(2), M(3), M(4), M(5), M(6), M(7), M(8), M(9), M(10)});
			}
			#undef M
		}
		case COUNT: {
			const auto n{count(ch, base)};
			text.assign(n, norm<T>(231));
			copyable = {norm<T>(231)};
			copy_budget = n + 1;
			Elems<T> e{R{231}};
			NOTE("  source: %zu x value", n);
			return after(e, mc::sut([&] { f(n, static_cast<const T &>(e.data[0])); }), R{norm<T>(231)});
		}
		case SELF_COUNT: {
			const auto n{count(ch, base)};
			if(ref.empty()) { text.clear(); copyable.clear(); return mc::sut([&] { f(std::initializer_list<T>{}); }); }
			const auto i{ch.flip() ? ref.size() - 1 : ref.size() / 2};
			text.assign(n, ref[i]);
			copyable = {ref[i]};
			copy_budget = n + 1;
			NOTE("  source: %zu x own element %zu", n, i);
			return mc::sut([&] { f(n, static_cast<const T &>(v()[i])); });
		}
		default: {
			const auto p{positions()};
			const auto i{ch.choose(static_cast<int>(p.size()))};
			const auto j{i + ch.choose(static_cast<int>(p.size()) - i)};
			const auto a{p[static_cast<std::size_t>(i)]}, b{p[static_cast<std::size_t>(j)]};
			text.assign(ref.begin() + static_cast<std::ptrdiff_t>(a), ref.begin() + static_cast<std::ptrdiff_t>(b));
			ready();
			NOTE("  source: own elements [%zu, %zu), kind %d", a, b, kind);
			if(kind == SELF_PTR) return mc::sut([&] { const auto d{static_cast<const T *>(v().data())}; f(d + a, d + b); });
			if(kind == SELF_IT) {
				if(ch.flip()) return mc::sut([&] { f(v().cbegin() + static_cast<std::ptrdiff_t>(a), v().cbegin() + static_cast<std::ptrdiff_t>(b)); });
				return mc::sut([&] { f(v().begin() + static_cast<std::ptrdiff_t>(a), v().begin() + static_cast<std::ptrdiff_t>(b)); });
			}
			if(kind == SELF_REV) {
				std::reverse(text.begin(), text.end());
				const auto n{static_cast<std::ptrdiff_t>(ref.size())};
				return mc::sut([&] { f(v().rbegin() + (n - static_cast<std::ptrdiff_t>(b)), v().rbegin() + (n - static_cast<std::ptrdiff_t>(a))); });
			}
			struct Raw {
				using iterator_category = std::input_iterator_tag;
				using value_type = T;
				using difference_type = std::ptrdiff_t;
				using pointer = const T *;
				using reference = const T &;
				const T * p;
				reference operator*() const { return *p; }
				Raw & operator++() { ++p; return *this; }
				Raw operator++(int) { auto t{*this}; ++p; return t; }
				bool operator==(const Raw & o) const { return p == o.p; }
				bool operator!=(const Raw & o) const { return p != o.p; }
			};
			return mc::sut([&] { const auto d{static_cast<const T *>(v().data())}; f(Raw{d + a}, Raw{d + b}); });
		}
		}
	}
	//! a copied-from source is unchanged
	Outcome after(Elems<T> & e, Outcome o, const R & labels = {}) {
		for(std::size_t i{0}; i < labels.size(); ++i) REQUIRE_("content", Tr<T>::get(e.data[i]) == labels[i], "the source was modified");
		return o;
	}

	// -------------------------------------------------------------- guards
	const T * g_data{nullptr};
	std::size_t g_cap{0};
	std::uint64_t g_allocs{0};
	void before() {
		g_data = v().data();
		g_cap = v().capacity();
		g_allocs = mc::ledger.allocs;
		Elem::copies = 0;
		Elem::copy_ok = &copy_filter;
		copyable.clear();
		copy_budget = 1;
	}
	void must_stay(const char * op) {
		if constexpr(!std::is_same_v<T, ptl::string>) REQUIRE_("stay", mc::ledger.allocs == g_allocs, "%s allocated although the result (%zu) fits the capacity (%zu)", op, ref.size(), g_cap);
		REQUIRE_("stay", v().data() == g_data && v().capacity() == g_cap, "%s relocated the elements although the result (%zu) fits the capacity (%zu)", op, ref.size(), g_cap);
	}
	void count_copies(const char * op) {
		if constexpr(Tr<T>::tracked) REQUIRE_("copies", Elem::copies <= copy_budget, "%s made %llu copies of elements, not more than %zu are called for", op, static_cast<unsigned long long>(Elem::copies), copy_budget);
	}
	bool settle(Outcome o, const char * op) {
		Elem::copy_ok = nullptr;
		if(o == mc::OK) { count_copies(op); return true; }
		if(mc::fault_count == 0) mc::fail("content", fmt("%s threw %s", op, mc::outcome_name(o)));
		check_failed(op);
		return false;
	}
	void check_failed(const char * op, const V * other = nullptr, const R * oref = nullptr) {
		REQUIRE_("atomic", v().size() == ref.size(), "failed %s changed the size from %zu to %zu", op, ref.size(), v().size());
		if(v().size() == ref.size()) for(std::size_t i{0}; i < ref.size(); ++i) REQUIRE_("atomic", Tr<T>::get(v()[i]) == ref[i], "failed %s changed element %zu from %d to %d", op, i, ref[i], Tr<T>::get(v()[i]));
		auto o{owned(v())};
		auto live{ref.size()};
		if(other) {
			REQUIRE_("atomic", other->size() == oref->size(), "failed %s changed the other vector's size", op);
			for(std::size_t i{0}; i < oref->size() && i < other->size(); ++i) REQUIRE_("atomic", Tr<T>::get((*other)[i]) == (*oref)[i], "failed %s changed the other vector", op);
			o += owned(*other);
			live += oref->size();
		}
		REQUIRE_("atomic", mc::ledger.n == o, "failed %s leaked: %zu live allocations, %zu owned", op, mc::ledger.n, o);
		if constexpr(Tr<T>::tracked) REQUIRE_("atomic", Elem::live == static_cast<long>(live), "failed %s leaked elements: %ld alive, expected %zu", op, Elem::live, live);
	}

	enum Op { CTOR, ASSIGN, ASSIGN_IL, INSERT, INSERT1, PUSH, ERASE1, ERASE2, POP, RESIZE, RESERVE, SHRINK, CLEAR, COPY, WRITE, CTOR_N, MOVE_CTOR, MOVE_ASSIGN, COPY_ASSIGN, SWAP, OPS };

	//! insert/emplace of a single element; f(kind) style shared by push_back/emplace_back/insert/emplace
	void one(Chooser & ch, bool back) {
		const auto n{ref.size()};
		const auto p{back ? n : pos(ch)};
		if(n >= limit()) return;
		const auto k{ch.choose(6)};
		static const char * names[]{"const &", "own element const &", "&&", "emplace()", "emplace(value)", "emplace(own element const &)"};
		ch.label(back ? "push_back/emplace_back" : "insert/emplace");
		NOTE("  %s at %zu of %zu", names[k], p, n);
		if((k == 1 || k == 5) && !n) return;
		std::size_t own{0};
		if(k == 1 || k == 5) { const std::vector<std::size_t> c{mc::uniq({0, p ? p - 1 : 0, p < n ? p : n - 1, n - 1}, n - 1)}; own = ch.pick(c); NOTE("  own element %zu", own); }
		const auto fresh_label{norm<T>(222)};
		int expected{fresh_label};
		T * back_ref{nullptr};
		std::ptrdiff_t ret{-1};
		Outcome o;
		{
			Elems<T> e{R{222}};
			const auto at{v().cbegin() + static_cast<std::ptrdiff_t>(p)};
			const auto call{[&](auto && f_back, auto && f_pos) {
				if(back) o = mc::sut([&] { back_ref = &f_back(); });
				else o = mc::sut([&] { auto it{f_pos()}; ret = it - v().begin(); });
			}};
			const T & c{e.data[0]};
			switch(k) {
			case 0: copyable = {fresh_label}; call([&]() -> T & { return v().push_back(c); }, [&] { return v().insert(at, c); }); REQUIRE_("content", Tr<T>::get(c) == fresh_label, "the inserted object was modified"); break;
			case 1: copyable = {ref[own]}; expected = ref[own]; call([&]() -> T & { return v().push_back(static_cast<const T &>(v()[own])); }, [&] { return v().insert(at, static_cast<const T &>(v()[own])); }); break;
			case 2: call([&]() -> T & { return v().push_back(std::move(e.data[0])); }, [&] { return v().insert(at, std::move(e.data[0])); }); break;
			case 3: expected = std::is_same_v<T, ptl::string> ? 0 : 0; call([&]() -> T & { return v().emplace_back(); }, [&] { return v().emplace(at); }); break;
			case 4:
				if constexpr(std::is_constructible_v<T, int, int> && !std::is_same_v<T, ptl::string>) { expected = 2002; call([&]() -> T & { return v().emplace_back(2, 2); }, [&] { return v().emplace(at, 2, 2); }); }
				else if constexpr(std::is_same_v<T, ptl::string>) { expected = 4; call([&]() -> T & { return v().emplace_back("4."); }, [&] { return v().emplace(at, "4."); }); }
				else if constexpr(std::is_same_v<T, Byte>) { expected = 4; call([&]() -> T & { return v().emplace_back(static_cast<unsigned char>(4)); }, [&] { return v().emplace(at, static_cast<unsigned char>(4)); }); }
				else { expected = 4; call([&]() -> T & { return v().emplace_back(4); }, [&] { return v().emplace(at, 4); }); }
				break;
			default: copyable = {ref[own]}; expected = ref[own]; call([&]() -> T & { return v().emplace_back(static_cast<const T &>(v()[own])); }, [&] { return v().emplace(at, static_cast<const T &>(v()[own])); }); break;
			}
			Elem::copy_ok = nullptr;
		}
		if(!settle(o, back ? "push_back" : "insert")) return;
		ref.insert(ref.begin() + static_cast<std::ptrdiff_t>(p), expected);
		if(back) REQUIRE_("ret", back_ref == v().data() + n, "push_back/emplace_back returned a reference to something else");
		else REQUIRE_("ret", ret == static_cast<std::ptrdiff_t>(p), "insertion at %zu returned position %td", p, ret);
		if(ref.size() <= g_cap) must_stay("insertion");
	}

	void step(Chooser & ch) override {
		if(huge_counts && ch.choose(2) == 1) { impossible(ch); return; }
		relabel();
		const auto op{ch.choose(OPS)};
		mc::arm(1);
		before();
		const auto n{ref.size()};
		const auto at{[&](std::size_t p) { return v().cbegin() + static_cast<std::ptrdiff_t>(p); }};
		bool single{false};
		R text;
		switch(op) {
		case CTOR: {
			ch.label("construct");
			const auto kind{source(ch)};
			const bool own{kind == SELF_PTR || kind == SELF_IT || kind == SELF_REV || kind == SELF_INPUT || kind == SELF_COUNT};
			if(own) {
				mc::Box<V> b;
				const auto o{with_source(ch, kind, 0, text, [&](auto... a) { ::new(b.raw()) V(a...); b.assume_live(true); }, single)};
				if(settle(o, "construction")) check_all(&*b, &text, "new vector");
				break;
			}
			box.kill();
			ref.clear();
			const auto o{with_source(ch, kind, 0, text, [&](auto... a) { ::new(box.raw()) V(a...); box.assume_live(true); }, single)};
			Elem::copy_ok = nullptr;
			if(o == mc::OK) { count_copies("construction"); ref = text; }
			else {
				if(mc::fault_count == 0) mc::fail("content", fmt("construction threw %s", mc::outcome_name(o)));
				REQUIRE_("atomic", mc::ledger.n == 0, "failed construction leaked %zu allocations", mc::ledger.n);
				if constexpr(Tr<T>::tracked) REQUIRE_("atomic", Elem::live == 0, "failed construction leaked %ld elements", Elem::live);
				mc::ledger.n = 0;
				mc::arm(0);
				box.make();
			}
			break;
		}
		case CTOR_N: {
			ch.label("construct(count)");
			box.kill();
			ref.clear();
			const auto k{ch.choose(14)};
			const auto o{box.make(static_cast<std::size_t>(k))};
			Elem::copy_ok = nullptr;
			if(o == mc::OK) ref.assign(static_cast<std::size_t>(k), zero());
			else {
				if(mc::fault_count == 0) mc::fail("content", fmt("construction threw %s", mc::outcome_name(o)));
				REQUIRE_("atomic", mc::ledger.n == 0, "failed construction leaked %zu allocations", mc::ledger.n);
				if constexpr(Tr<T>::tracked) REQUIRE_("atomic", Elem::live == 0, "failed construction leaked %ld elements", Elem::live);
				mc::ledger.n = 0;
				mc::arm(0);
				box.make();
			}
			break;
		}
		case ASSIGN: {
			ch.label("assign");
			const auto kind{source(ch)};
			const auto o{with_source(ch, kind, 0, text, [&](auto... a) { v().assign(a...); }, single)};
			if(settle(o, "assign")) ref = text;
			break;
		}
		case ASSIGN_IL: {
			ch.label("operator= initializer_list");
			V * ret{nullptr};
			const auto o{with_source(ch, ILIST, 0, text, [&](auto... a) { if constexpr(sizeof...(a) == 1) ret = &((v() = ... = a)); }, single)};
			if(settle(o, "operator=")) { ref = text; REQUIRE_("ret", ret == &v(), "operator= returned something else"); }
			break;
		}
		case INSERT: {
			ch.label("insert range/count");
			const auto p{pos(ch)};
			NOTE("  at %zu of %zu", p, n);
			const auto kind{source(ch)};
			std::ptrdiff_t ret{-1};
			const auto o{with_source(ch, kind, n, text, [&](auto... a) { auto it{v().insert(at(p), a...)}; ret = it - v().begin(); }, single)};
			if(settle(o, "insert")) {
				ref.insert(ref.begin() + static_cast<std::ptrdiff_t>(p), text.begin(), text.end());
				REQUIRE_("ret", ret == static_cast<std::ptrdiff_t>(p), "insert at %zu returned position %td", p, ret);
				if(ref.size() <= g_cap && !single && kind != SELF_INPUT) must_stay("insert");
			}
			break;
		}
		case INSERT1: one(ch, false); break;
		case PUSH: one(ch, true); break;
		case ERASE1: case ERASE2: {
			ch.label("erase");
			const auto ps{positions()};
			std::size_t a, b;
			std::ptrdiff_t ret{-1};
			Outcome o;
			if(op == ERASE1) {
				if(!n) break;
				a = pos(ch);
				if(a == n) break;
				b = a + 1;
				NOTE("  at %zu of %zu", a, n);
				o = mc::sut([&] { auto it{v().erase(at(a))}; ret = it - v().begin(); });
			} else {
				const auto i{ch.choose(static_cast<int>(ps.size()))};
				const auto j{i + ch.choose(static_cast<int>(ps.size()) - i)};
				a = ps[static_cast<std::size_t>(i)];
				b = ps[static_cast<std::size_t>(j)];
				NOTE("  [%zu, %zu) of %zu", a, b, n);
				o = mc::sut([&] { auto it{v().erase(at(a), at(b))}; ret = it - v().begin(); });
			}
			if(settle(o, "erase")) {
				ref.erase(ref.begin() + static_cast<std::ptrdiff_t>(a), ref.begin() + static_cast<std::ptrdiff_t>(b));
				REQUIRE_("ret", ret == static_cast<std::ptrdiff_t>(a), "erase at %zu returned position %td", a, ret);
				must_stay("erase");
			}
			break;
		}
		case POP:
			ch.label("pop_back");
			if(!n) break;
			if(settle(mc::sut([&] { v().pop_back(); }), "pop_back")) { ref.pop_back(); must_stay("pop_back"); }
			break;
		case RESIZE: {
			ch.label("resize");
			std::vector<std::size_t> c;
			if(big) { c = big_sizes; c.push_back(n + 1); if(n) c.push_back(n - 1); c = mc::uniq(c, limit()); }
			else for(std::size_t i{0}; i <= max_size_explored; ++i) c.push_back(i);
			const auto k{ch.pick(c)};
			const auto fill{ch.choose(3)};
			NOTE("  from %zu to %zu (%s)", n, k, fill == 0 ? "default" : fill == 1 ? "value" : "own element");
			Outcome o;
			int f{zero()};
			if(fill == 0) o = mc::sut([&] { v().resize(k); });
			else if(fill == 1 || !n) { Elems<T> e{R{222}}; f = norm<T>(222); copyable = {f}; copy_budget = k > n ? k - n + 1 : 1; o = mc::sut([&] { v().resize(k, static_cast<const T &>(e.data[0])); }); }
			else { f = ref[n - 1]; copyable = {f}; copy_budget = k > n ? k - n + 1 : 1; o = mc::sut([&] { v().resize(k, static_cast<const T &>(v().back())); }); }
			if(settle(o, "resize")) { ref.resize(k, f); if(k <= g_cap) must_stay("resize"); }
			break;
		}
		case RESERVE: {
			ch.label("reserve");
			std::vector<std::size_t> c{0, 1, 9, 10, 11, 20, 21, 33, n, g_cap, g_cap + 1};
			if(big) c.insert(c.end(), big_sizes.begin(), big_sizes.end());
			c = mc::uniq(c, limit() + 12);
			const auto k{ch.pick(c)};
			NOTE("  %zu (capacity %zu)", k, g_cap);
			if(settle(mc::sut([&] { v().reserve(k); }), "reserve")) {
				REQUIRE_("cap", v().capacity() >= k, "capacity %zu after reserve(%zu)", v().capacity(), k);
				REQUIRE_("cap", v().capacity() >= g_cap, "reserve(%zu) lowered the capacity from %zu to %zu", k, g_cap, v().capacity());
				if(k <= g_cap) must_stay("reserve");
			}
			break;
		}
		case SHRINK:
			ch.label("shrink_to_fit");
			if(settle(mc::sut([&] { v().shrink_to_fit(); }), "shrink_to_fit"))
				REQUIRE_("cap", v().capacity() <= g_cap, "shrink_to_fit raised the capacity from %zu to %zu", g_cap, v().capacity());
			break;
		case CLEAR:
			ch.label("clear");
			if(settle(mc::sut([&] { v().clear(); }), "clear")) { ref.clear(); must_stay("clear"); }
			break;
		case COPY: {
			ch.label("copy construction");
			mc::Box<V> r;
			const V & c{v()};
			copyable = ref;
			copy_budget = n;
			if(settle(r.make(c), "copy construction")) {
				check_all(&*r, &ref, "copy");
				if(n) { Tr<T>::set((*r)[0], norm<T>(239)); REQUIRE_("content", Tr<T>::get(v()[0]) == ref[0], "writing to the copy changed the original"); }
			}
			break;
		}
		case WRITE: {
			ch.label("write");
			if(!n) break;
			const auto p{pos(ch)};
			if(p == n) break;
			const auto x{norm<T>(240)};
			switch(ch.choose(7)) {
			case 0: Tr<T>::set(v()[p], x); break;
			case 1: Tr<T>::set(v().at(p), x); break;
			case 2: Tr<T>::set(*(v().begin() + static_cast<std::ptrdiff_t>(p)), x); break;
			case 3: Tr<T>::set(v().data()[p], x); break;
			case 4: Tr<T>::set(*(v().rbegin() + static_cast<std::ptrdiff_t>(n - 1 - p)), x); break;
			case 5: Tr<T>::set(p == 0 ? v().front() : v()[p], x); break;
			default: Tr<T>::set(p == n - 1 ? v().back() : v()[p], x); break;
			}
			ref[p] = x;
			must_stay("write");
			break;
		}
		default: two(ch, op); break;
		}
		Elem::copy_ok = nullptr;
		if(box.alive()) check_all();
	}
	static int zero() { if constexpr(std::is_same_v<T, Byte>) return 0; else return 0; }

	void two(Chooser & ch, int op) {
		static const char * names[]{"move construction", "move assignment", "copy assignment", "swap"};
		const auto name{names[op - MOVE_CTOR]};
		ch.label(name);
		const std::size_t sizes[]{0, 1, 5, 9, 10, 11, 20, 21};
		mc::Box<V> other;
		R oref;
		bool self{false};
		if(op != MOVE_CTOR) {
			const auto k{ch.choose(9)};
			if(k == 8) { self = true; NOTE("  with itself"); }
			else {
				const std::size_t extra[]{0, 15, 40};
				const auto e{extra[ch.choose(3)]};
				for(std::size_t i{0}; i < sizes[k]; ++i) oref.push_back(norm<T>(200 + static_cast<int>(i)));
				const int left{mc::fault_budget};
				mc::fault_budget = 0;
				{
					Elem::copy_ok = nullptr;
					Elems<T> src{oref};
					other.make();
					mc::sut([&] { if(e) other->reserve(e); other->assign(static_cast<const T *>(src.data), static_cast<const T *>(src.data + src.n)); });
					Elem::copy_ok = &copy_filter;
					Elem::copies = 0;
				}
				mc::fault_budget = left;
				NOTE("  other: %zu elements, capacity %zu", oref.size(), other->capacity());
			}
		}
		const auto allocs{mc::ledger.allocs};
		const auto mine{static_cast<const T *>(v().data())};
		const auto theirs{other.alive() ? static_cast<const T *>(other->data()) : nullptr};
		V & o{self ? v() : *other};
		Outcome out{mc::OK};
		const auto reuse{[&](V & x, R & r) { mc::arm(0); Elem::copy_ok = nullptr; { Elems<T> e{R{236, 237}}; mc::sut([&] { x.assign(static_cast<const T *>(e.data), static_cast<const T *>(e.data + 2)); }); } r = {norm<T>(236), norm<T>(237)}; }};
		switch(op) {
		case MOVE_CTOR:
			out = other.make(std::move(v()));
			if(!settle(out, name)) return;
			oref = ref;
			check(*other, oref, "move target");
			REQUIRE_("move", mc::ledger.allocs == allocs, "move construction allocated");
			if(!oref.empty()) REQUIRE_("move", other->data() == mine, "move construction relocated the elements");
			ref.clear();
			for(std::size_t i{0}; i < v().size(); ++i) ref.push_back(Tr<T>::get(v()[i]));
			check_all(&*other, &oref);
			if(ch.flip()) reuse(v(), ref);
			check_all(&*other, &oref);
			return;
		case MOVE_ASSIGN: {
			V * ret{nullptr};
			out = mc::sut([&] { ret = &(v() = std::move(o)); });
			if(!settle(out, name)) return;
			REQUIRE_("ret", ret == &v(), "move assignment returned something else");
			REQUIRE_("move", mc::ledger.allocs == allocs, "move assignment allocated");
			if(self) { ref.clear(); for(std::size_t i{0}; i < v().size(); ++i) ref.push_back(Tr<T>::get(v()[i])); check_all(); return; }
			ref = oref;
			check(v(), ref, "move target");
			if(!ref.empty()) REQUIRE_("move", v().data() == theirs, "move assignment relocated the elements");
			oref.clear();
			for(std::size_t i{0}; i < o.size(); ++i) oref.push_back(Tr<T>::get(o[i]));
			check_all(&o, &oref);
			if(ch.flip()) reuse(o, oref);
			check_all(&o, &oref);
			return;
		}
		case COPY_ASSIGN: {
			V * ret{nullptr};
			const V & c{o};
			copyable = self ? ref : oref;
			copy_budget = copyable.size();
			out = mc::sut([&] { ret = &(v() = c); });
			Elem::copy_ok = nullptr;
			if(out != mc::OK && mc::fault_count) { check_failed(name, self ? nullptr : &o, &oref); return; }
			if(!settle(out, name)) return;
			REQUIRE_("ret", ret == &v(), "assignment returned something else");
			if(!self) ref = oref;
			if(self) check_all(); else check_all(&o, &oref);
			if(!self && !ref.empty()) { Tr<T>::set(o[0], norm<T>(239)); REQUIRE_("content", Tr<T>::get(v()[0]) == ref[0], "assignment shares elements with its source"); }
			return;
		}
		default: {
			const auto k{ch.choose(2)};
			out = k == 0 ? mc::sut([&] { v().swap(o); }) : mc::sut([&] { using std::swap; swap(v(), o); });
			if(!settle(out, name)) return;
			REQUIRE_("move", mc::ledger.allocs == allocs, "swap allocated");
			if(self) { check_all(); return; }
			std::swap(ref, oref);
			check_all(&o, &oref);
			if(!oref.empty()) REQUIRE_("move", o.data() == mine, "swap relocated elements");
			if(!ref.empty()) REQUIRE_("move", v().data() == theirs, "swap relocated elements");
		}
		}
	}

	// -------------------------------------------------------------- C10
	void impossible(Chooser & ch) {
		relabel();
		mc::arm(0);
		Elem::copy_ok = nullptr;
		const auto n{ref.size()};
		const auto cap{v().capacity()};
		const auto op{ch.choose(11)};
		const auto m{V::max_size()};
		const std::size_t top{static_cast<std::size_t>(-1)}, s{sizeof(T)};
		std::vector<std::size_t> ks;
		for(auto k : {top, top - 1, top - n, top - n + 1, top - n - n, top / 2, top / 2 + 1, top / 2 - n, m, m + 1, m - 1, m - n, m - n + 1, m / 2 + 1, top / s, top / s + 1, top / s + 2, top / s + 1 - n, top / s + 11, std::size_t{1} << 62, std::size_t{1} << 63, std::size_t{1} << 40, cap - n - 1, top - cap, (top - n) / s + 1})
			if(k >= std::size_t{1} << 40) ks.push_back(k);
		std::sort(ks.begin(), ks.end());
		ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
		const auto k{ch.pick(ks)};
		Outcome o{mc::OK};
		const char * name{""};
		{
			Elems<T> e{R{222}};
			const T & c{e.data[0]};
			if(op >= 8 && k > static_cast<std::size_t>(PTRDIFF_MAX)) { ch.label("-"); return; }
			const mc::Far<T> first{&c, 0}, last{&c, static_cast<std::ptrdiff_t>(k)};
			mc::Far<T>::budget = 1 << 20;
			switch(op) {
			case 0: name = "reserve"; o = mc::sut([&] { v().reserve(k); }); break;
			case 1: name = "resize"; o = mc::sut([&] { v().resize(k); }); break;
			case 2: name = "resize(n, value)"; o = mc::sut([&] { v().resize(k, c); }); break;
			case 3: name = "assign(n, value)"; o = mc::sut([&] { v().assign(k, c); }); break;
			case 4: case 5: { name = "insert(n, value)"; const auto p{pos(ch)}; if(op == 4) o = mc::sut([&] { v().insert(v().cbegin() + static_cast<std::ptrdiff_t>(p), k, c); }); else if(n) o = mc::sut([&] { v().insert(v().cbegin() + static_cast<std::ptrdiff_t>(p), k, v()[n - 1]); }); else o = mc::LENGTH; break; }
			case 8: name = "assign(first, last)"; o = mc::sut([&] { v().assign(first, last); }); break;
			case 9: { name = "insert(first, last)"; const auto p{pos(ch)}; o = mc::sut([&] { v().insert(v().cbegin() + static_cast<std::ptrdiff_t>(p), first, last); }); break; }
			case 10: { name = "vector(first, last)"; mc::Box<V> b; o = b.make(first, last); break; }
			case 6: { name = "vector(n)"; mc::Box<V> b; o = b.make(k); break; }
			default: { name = "vector(n, value)"; mc::Box<V> b; o = b.make(k, c); break; }
			}
		}
		ch.label(name);
		NOTE("  %zu (0x%zx), from size %zu", k, k, n);
		REQUIRE_("limit", o == mc::LENGTH || o == mc::BAD_ALLOC, "%s with %zu: %s instead of length_error", name, k, mc::outcome_name(o));
		REQUIRE_("limit", v().size() == n && v().capacity() == cap, "rejected %s changed the vector", name);
		for(std::size_t i{0}; i < n && i < v().size(); ++i) REQUIRE_("limit", Tr<T>::get(v()[i]) == ref[i], "rejected %s changed element %zu", name, i);
		REQUIRE_("limit", mc::ledger.n == owned(v()), "rejected %s leaked", name);
		if constexpr(Tr<T>::tracked) REQUIRE_("limit", Elem::live == static_cast<long>(n), "rejected %s left %ld elements alive instead of %zu", name, Elem::live, n);
	}

	std::string key() override {
		if(big) {
			if(std::find(big_sizes.begin(), big_sizes.end(), ref.size()) == big_sizes.end()) return {};
			return fmt("%zu/%zu", v().size(), v().capacity());
		}
		if(ref.size() > max_size_explored || v().capacity() > max_size_explored * 2 + 14) return {};
		return fmt("%zu/%zu", v().size(), v().capacity());
	}
};

// ---------------------------------------------------------------- two vectors, every history
struct Pair : mc::World {
	using V = ptl::vector<Elem>;
	mc::Box<V> a, b;
	R ra, rb;
	int next{1};
	Pair() { Elem::reset(); a.make(); b.make(); }
	~Pair() override { a.kill(); b.kill(); REQUIRE_("life", Elem::live == 0, "%ld elements alive after both vectors' destruction", Elem::live); Elem::reset(); }
	void check_all() {
		VW<Elem>::check(*a, ra, "a");
		VW<Elem>::check(*b, rb, "b");
		const auto o{VW<Elem>::owned(*a) + VW<Elem>::owned(*b)};
		REQUIRE_("leak", mc::ledger.n == o, "%zu live allocations, %zu owned", mc::ledger.n, o);
		REQUIRE_("life", Elem::live == static_cast<long>(ra.size() + rb.size()), "%ld live elements, expected %zu", Elem::live, ra.size() + rb.size());
	}
	void step(Chooser & ch) override {
		mc::arm(1);
		static const char * names[]{"a.push_back", "a.assign(10)", "a.assign(3)", "a.insert front 9", "a.erase front", "a.erase all but last", "a.clear", "a.shrink", "a.reserve(25)", "a=b", "a=move(b)", "swap", "b=a", "b=move(a)", "a.insert(1, b)", "a.insert(end, own)", "a.pop_back", "a.resize(+1)", "a.resize(2)", "b.push_back", "a.push_back(own front)", "a.assign(own tail)"};
		const auto op{ch.choose(static_cast<int>(sizeof names / sizeof *names))};
		ch.label(names[op]);
		NOTE("  %s", names[op]);
		const R oa{ra}, ob{rb};
		Outcome o{mc::OK};
		const auto labels{[&](std::size_t n) { R r; for(std::size_t i{0}; i < n; ++i) r.push_back(next++); return r; }};
		const auto read{[](const V & v) { R r; for(auto & e : v) { e.need("read"); r.push_back(e.v); } return r; }};
		switch(op) {
		case 0: { const auto l{next++}; o = mc::sut([&] { a->push_back(Elem(l)); }); ra.push_back(l); break; }
		case 1: case 2: { const auto l{labels(op == 1 ? 10 : 3)}; Elems<Elem> e{l}; o = mc::sut([&] { a->assign(static_cast<const Elem *>(e.data), static_cast<const Elem *>(e.data + e.n)); }); ra = l; break; }
		case 3: { const auto l{labels(9)}; Elems<Elem> e{l}; o = mc::sut([&] { a->insert(a->begin(), static_cast<const Elem *>(e.data), static_cast<const Elem *>(e.data + e.n)); }); ra.insert(ra.begin(), l.begin(), l.end()); break; }
		case 4: if(!ra.empty()) { o = mc::sut([&] { a->erase(a->begin()); }); ra.erase(ra.begin()); } break;
		case 5: if(!ra.empty()) { o = mc::sut([&] { a->erase(a->begin(), a->end() - 1); }); ra.erase(ra.begin(), ra.end() - 1); } break;
		case 6: o = mc::sut([&] { a->clear(); }); ra.clear(); break;
		case 7: o = mc::sut([&] { a->shrink_to_fit(); }); break;
		case 8: o = mc::sut([&] { a->reserve(25); }); break;
		case 9: o = mc::sut([&] { const V & c{*b}; *a = c; }); ra = rb; break;
		case 10: o = mc::sut([&] { *a = std::move(*b); }); ra = rb; rb = read(*b); break;
		case 11: o = mc::sut([&] { swap(*a, *b); }); std::swap(ra, rb); break;
		case 12: o = mc::sut([&] { const V & c{*a}; *b = c; }); rb = ra; break;
		case 13: o = mc::sut([&] { *b = std::move(*a); }); rb = ra; ra = read(*a); break;
		case 14: { const auto p{ra.empty() ? 0 : 1}; o = mc::sut([&] { a->insert(a->begin() + p, b->begin(), b->end()); }); ra.insert(ra.begin() + p, rb.begin(), rb.end()); break; }
		case 15: { o = mc::sut([&] { a->insert(a->end(), a->begin(), a->end()); }); const R t{ra}; ra.insert(ra.end(), t.begin(), t.end()); break; }
		case 16: if(!ra.empty()) { o = mc::sut([&] { a->pop_back(); }); ra.pop_back(); } break;
		case 17: o = mc::sut([&] { a->resize(ra.size() + 1); }); ra.push_back(0); break;
		case 18: o = mc::sut([&] { a->resize(2); }); ra.resize(2); break;
		case 19: { const auto l{next++}; o = mc::sut([&] { b->push_back(Elem(l)); }); rb.push_back(l); break; }
		case 20: if(!ra.empty()) { o = mc::sut([&] { a->push_back(static_cast<const Elem &>(a->front())); }); ra.push_back(ra.front()); } break;
		default: if(!ra.empty()) { o = mc::sut([&] { a->assign(a->begin() + 1, a->end()); }); ra.erase(ra.begin()); } break;
		}
		if(o != mc::OK) {
			if(!mc::fault_count) mc::fail("content", fmt("%s threw %s", names[op], mc::outcome_name(o)));
			ra = oa;
			rb = ob;
			REQUIRE_("atomic", read(*a) == ra && read(*b) == rb, "failed %s changed a vector", names[op]);
			REQUIRE_("atomic", Elem::live == static_cast<long>(ra.size() + rb.size()), "failed %s leaked elements", names[op]);
		}
		check_all();
	}
	std::string key() override {
		if(ra.size() > 60 || rb.size() > 60) return {};
		std::string k{fmt("%zu/%zu %zu/%zu ", a->size(), a->capacity(), b->size(), b->capacity())};
		return k;
	}
};

// ---------------------------------------------------------------- amortised growth (C07)
template<typename T>
struct Growth : mc::World {
	using V = ptl::vector<T>;
	std::size_t limit;
	explicit Growth(std::size_t l) : limit{l} { Elem::reset(); }
	void step(Chooser & ch) override {
		mc::Box<V> v;
		v.make();
		const std::size_t pre[]{0, 1, 10, 11, 100};
		const auto start{pre[ch.choose(5)]};
		const auto how{ch.choose(6)};
		static const char * names[]{"push_back(const &)", "push_back(&&)", "emplace_back", "insert(end, value)", "insert(end, 1, value)", "resize(+1)"};
		ch.label(names[how]);
		mc::sut([&] { if(start) v->reserve(start); });
		const auto a0{mc::ledger.allocs};
		Elems<T> e{R{2}};
		const T & c{e.data[0]};
		//resize(n + 1) is not an append operation promised to be amortised: only the single-element appends are
		if(how == 5) return;
		for(std::size_t i{0}; i < limit; ++i) {
			const auto o{mc::sut([&] {
				switch(how) {
				case 0: v->push_back(c); break;
				case 1: v->push_back(T(c)); break;
				case 2: v->emplace_back(); break;
				case 3: v->insert(v->end(), c); break;
				default: v->insert(v->end(), 1, c); break;
				}
			})};
			REQUIRE_("content", o == mc::OK && v->size() == i + 1, "append %zu failed", i);
			const auto n{mc::ledger.allocs - a0};
			const auto bound{static_cast<std::uint64_t>(4 * std::log2(static_cast<double>(i + 1)) + 10)};
			REQUIRE_("amortised", n <= bound, "%llu allocations for %zu appends (%s), more than 4 log2(n) + 10 = %llu", static_cast<unsigned long long>(n), i + 1, names[how], static_cast<unsigned long long>(bound));
		}
		NOTE("  %zu appends: %llu allocations, capacity %zu", limit, static_cast<unsigned long long>(mc::ledger.allocs - a0), v->capacity());
	}
	std::string key() override { return {}; }
};

template<typename T>
mc::Model vw(const char * name, int depth = 14, bool faults = false) {
	mc::Model m;
	m.name = name;
	const bool b{std::strstr(name, "large") != nullptr};
	m.make = [b] { big = b; return new VW<T>; };
	m.depth = depth;
	m.faults = faults;
	return m;
}
mc::Model pair(const char * name, int depth, bool faults = false, bool dedupe = false) {
	mc::Model m;
	m.name = name;
	m.make = [] { return new Pair; };
	m.depth = depth;
	m.dedupe = dedupe;
	m.faults = faults;
	return m;
}
template<typename T>
mc::Model growth(const char * name, std::size_t limit) {
	mc::Model m;
	m.name = name;
	m.make = [limit] { return new Growth<T>{limit}; };
	m.depth = 1;
	return m;
}
}

// This file is compiled several times, once per element type, to keep the build short.
#ifndef PART
#define PART 0
#endif
mc::Plan plan(const std::string & p, bool thorough) {
	max_size_explored = thorough ? 34 : 22;
	all_positions = thorough;
	if(p == "C08") {
		few_sources = !thorough;
		max_size_explored = thorough ? 24 : 13;
	} else if(p == "C10") huge_counts = few_sources = true;
	mc::Plan r;
	const bool faulty{p == "C08"};
	if(p == "C05") r.mask = {"content", "ret"};
	if(p == "C06") r.mask = {"life", "leak", "mem", "bounds"};
	if(p == "C07") r.mask = {"stay", "cap", "move", "align", "amortised"};
	if(p == "C08") r.mask = {"atomic", "leak", "mem", "life", "bounds"};
	if(p == "C09") r.mask = {"copies"};
	if(p == "C10") r.mask = {"limit", "mem"};
	if(p == "C26") { r.mask = {"layout"}; few_sources = !thorough; }
	if(p == "C32") r.mask = {"iter", "content"};
	if(p == "C33") r.mask = {"content", "ret", "leak", "mem", "life"};
#if PART == 0
	const auto hist{pair("two vectors, all histories", thorough ? 5 : 4)};
	if(p == "C05" || p == "C06" || p == "C26" || p == "C33") r.models.push_back(hist);
	if(p == "C06") r.models.push_back(pair("two vectors, all states", thorough ? 7 : 5, false, true));
	if(p == "C08") r.models.push_back(pair("two vectors x fault points, all histories", thorough ? 4 : 3, true));
	if(p == "C07") r.models.push_back(growth<Elem>("amortised growth of vector<tracked>", 4000));
	big_sizes = {0, 63, 64, 65, 127, 128, 129, 255, 256, 257};
	const bool large{p == "C05" || p == "C06" || p == "C07" || p == "C09" || p == "C26" || p == "C33"};
	if(large) r.models.push_back(vw<Elem>("large vectors of tracked x every operation", 2));
	r.models.push_back(vw<Elem>("vector<tracked> x every operation", 14, faulty));
#elif PART == 1
	if(p == "C07") r.models = {growth<int>("amortised growth of vector<int>", 20000), growth<Byte>("amortised growth of vector<byte>", 20000)};
	big_sizes = thorough ? std::vector<std::size_t>{0, 64, 127, 128, 255, 256, 257, 1024, 65535, 65536} : std::vector<std::size_t>{0, 255, 256, 65536};
	if(p == "C05" || p == "C07" || p == "C33") r.models.push_back(vw<int>("large vectors of int x every operation", 2));
	r.models.push_back(vw<int>("vector<int> x every operation", 14, faulty));
	if(p != "C07") r.models.push_back(vw<Byte>("vector<byte> x every operation", 14, faulty));
#elif PART == 2
	if(p == "C07") r.models.push_back(growth<Wide>("amortised growth of vector<over-aligned>", 4000));
	big_sizes = {0, 63, 64, 65, 127, 128, 129};
	if(p == "C07" || p == "C09") r.models.push_back(vw<Wide>("large vectors of over-aligned x every operation", 2));
	r.models.push_back(vw<Wide>("vector<over-aligned> x every operation", 14, faulty));
#else
	r.models.push_back(vw<ptl::string>("vector<ptl::string> x every operation", 14, faulty));
#endif
	return r;
}
