// Objects whose bytes were written by "another module" according to the frozen layout, under the
// operations of the library; and objects of the library taken apart by that module.
#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#include <ptl/array.hpp>
#include <ptl/bitset.hpp>
#include <ptl/optional.hpp>
#include <ptl/variant.hpp>
#include <ptl/tuple.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/function_ref.hpp>
#include "values.hpp"
#include "layout.hpp"
#include <sstream>

using mc::Chooser;
using mc::Elem;
using mc::fmt;
using layout::word;

namespace {
// ---------------------------------------------------------------- two foreign modules with their own heaps
struct Foreign { void * p; std::size_t bytes; int module; std::size_t cap; const Elem * elems; };
std::vector<Foreign> * heap{nullptr};
void * foreign_alloc(std::size_t bytes, int module, std::size_t cap) {
	mc::Paused q;
	const auto p{__real_aligned_alloc(64, bytes ? (bytes + 63) / 64 * 64 : 64)};
	std::memset(p, 0xEE, bytes);
	heap->push_back({p, bytes, module, cap, nullptr});
	return p;
}
void foreign_free(void * p, int module) noexcept {
	mc::Paused q;
	for(auto & f : *heap) if(f.p == p) {
		REQUIRE_("layout", f.module == module, "a buffer of module %d was released by module %d", f.module, module);
		if(f.elems) { //elements must be destroyed before their memory goes
			for(std::size_t i{0}; i < f.cap; ++i) REQUIRE_("layout", !mc::Val<Elem>::lives(f.elems + i), "a foreign buffer was released with element %zu still alive", i);
		}
		__real_free(p);
		f = heap->back();
		heap->pop_back();
		return;
	}
	mc::fail("layout", fmt("module %d was asked to release memory it does not own", module));
}
template<typename T, int M> void dealloc(T * p) noexcept { foreign_free(p, M); }
template<typename T> using Release = void (*)(T *) noexcept;
template<typename T> Release<T> release_of(int m) { return m == 1 ? Release<T>{dealloc<T, 1>} : Release<T>{dealloc<T, 2>}; }
const Foreign * find(const void * p) { for(auto & f : *heap) if(f.p == p) return &f; return nullptr; }

struct Heap { // one per world
	std::vector<Foreign> mine;
	Heap() { heap = &mine; }
	~Heap() { for(auto & f : mine) __real_free(f.p); }
	void done() { REQUIRE_("layout", mine.empty(), "%zu foreign buffer(s) never released", mine.size()); }
};

enum Op { FOREIGN, TAKE, ASSIGN, APPEND, APPEND_ONE, INSERT, ERASE, RESIZE, RESERVE, SHRINK, CLEAR, POP, COPY, MOVE, SWAP, C_COPY, C_MOVE, SELF_APPEND, COMPARE, WRITE, OPS };
const char * const names[]{"replaced by a foreign object", "taken apart by the foreign module", "assign", "append", "push_back", "insert", "erase", "resize", "reserve", "shrink_to_fit", "clear", "pop_back", "a = b", "a = move(b)", "swap(a, b)", "copy constructed", "move constructed", "append itself", "compare", "write through accessors"};

// ---------------------------------------------------------------- string
struct StringWorld : mc::World {
	using S = ptl::string;
	Heap h;
	mc::Box<S> box[2];
	std::string ref[2];
	int salt{0};
	bool small;
	bool done{false};
	explicit StringWorld(bool small) : small{small} { for(auto & b : box) b.make(); }
	~StringWorld() override { for(auto & b : box) b.kill(); h.done(); }
	int module(int k) const { const auto d{word(box[k].raw(), 0)}; return d == 0 ? 0 : d == reinterpret_cast<layout::u64>(release_of<char>(1)) ? 1 : d == reinterpret_cast<layout::u64>(release_of<char>(2)) ? 2 : 3; }
	std::string key() override { if(done) return ""; std::string r; for(int k{0}; k < 2; ++k) r += fmt("%d:%zu/%zu ", module(k), ref[k].size(), box[k]->capacity()); return r; }
	std::string text(std::size_t n) { ++salt; std::string r; for(std::size_t i{0}; i < n; ++i) r += mc::lab(i, salt); return r; }
	void check(int k, const char * who) {
		const auto & s{*box[k]};
		const auto raw{box[k].raw()};
		REQUIRE_("layout", s.size() == ref[k].size() && s.empty() == ref[k].empty(), "%s: size %zu, expected %zu", who, s.size(), ref[k].size());
		REQUIRE_("layout", std::string_view{s} == ref[k] && s.c_str()[s.size()] == 0, "%s: wrong characters", who);
		layout::string(raw, sizeof(S), alignof(S), s.data(), s.capacity(), ref[k].data(), ref[k].size(), who);
		const auto m{module(k)};
		if(m == 0) return;
		const auto p{reinterpret_cast<const void *>(word(raw, 8))};
		const auto f{find(p)};
		if(m == 3) {
			const auto a{mc::ledger.find(p)};
			REQUIRE_("layout", !f && a && a->ptr == p && a->size >= word(raw, 16) + 1, "%s: own release function with memory that is not its own", who);
		} else REQUIRE_("layout", f && f->module == m && f->cap == word(raw, 16), "%s: release function of module %d with memory or capacity that does not belong to it", who, m);
	}
	std::size_t size(Chooser & ch) {
		static const std::size_t few[]{0, 5, 22, 23, 49}, many[]{0, 1, 5, 21, 22, 23, 24, 47, 48, 49, 127, 128, 200};
		return small ? ch.pick(few) : ch.pick(many);
	}
	//! what another module does to get rid of a string
	void take(int k) {
		const auto raw{box[k].raw()};
		std::string seen;
		if(word(raw, 0) == 0) seen.assign(static_cast<const char *>(raw) + 9, layout::byte(raw, 8));
		else seen.assign(reinterpret_cast<const char *>(word(raw, 8)), word(raw, 24));
		REQUIRE_("layout", seen == ref[k], "the foreign module reads other characters");
		if(word(raw, 0)) {
			const auto n{mc::ledger.n}, m{heap->size()};
			Release<char> d;
			std::memcpy(&d, raw, 8);
			mc::sut([&] { d(reinterpret_cast<char *>(word(raw, 8))); });
			REQUIRE_("layout", mc::ledger.n + heap->size() + 1 == n + m, "the release function did not release exactly the buffer");
		}
		std::memset(raw, 0, 32);
		ref[k].clear();
	}
	void give(int k, int module, const std::string & t, std::size_t slack) {
		const auto raw{static_cast<char *>(box[k].raw())};
		std::memset(raw, 0xEE, 32);
		if(module == 0) {
			std::memset(raw, 0, 8);
			raw[8] = static_cast<char>(t.size());
			std::memcpy(raw + 9, t.data(), t.size());
			raw[9 + t.size()] = 0;
		} else {
			const auto cap{t.size() + slack};
			const auto p{static_cast<char *>(foreign_alloc(cap + 1, module, cap))};
			std::memcpy(p, t.data(), t.size());
			p[t.size()] = 0;
			const auto d{release_of<char>(module)};
			std::memcpy(raw, &d, 8);
			std::memcpy(raw + 8, &p, 8);
			std::memcpy(raw + 16, &cap, 8);
			const std::size_t n{t.size()};
			std::memcpy(raw + 24, &n, 8);
		}
		ref[k] = t;
	}
	void step(Chooser & ch) override {
		const auto op{ch.choose(OPS)}, k{ch.choose(2)};
		ch.label(names[op]);
		auto & s{*box[k]};
		auto & o{*box[1 - k]};
		auto & r{ref[k]};
		auto & ro{ref[1 - k]};
		mc::Outcome out{mc::OK};
		done = op == COMPARE;
		switch(op) {
			case FOREIGN: {
				const auto m{ch.choose(3)};
				const auto n{size(ch)};
				if(m == 0 && n > 22) { done = true; return; }
				static const std::size_t slacks[]{0, 1, 30};
				const auto slack{m ? ch.pick(slacks) : 0};
				take(k);
				give(k, m, text(n), slack);
				break;
			}
			case TAKE: take(k); break;
			case ASSIGN: { const auto t{text(size(ch))}; out = mc::sut([&] { s = std::string_view{t}; }); r = t; break; }
			case APPEND: { const auto t{text(size(ch))}; out = mc::sut([&] { s += std::string_view{t}; }); r += t; break; }
			case APPEND_ONE: out = mc::sut([&] { s.push_back('\x81'); }); r.push_back('\x81'); break;
			case INSERT: { const auto t{text(size(ch))}; const auto at{r.size() / 2}; out = mc::sut([&] { s.insert(s.begin() + static_cast<std::ptrdiff_t>(at), std::string_view{t}); }); r.insert(at, t); break; }
			case ERASE: { const auto at{r.size() / 3}, n{(r.size() + 1) / 2}; const auto e{std::min(r.size(), at + n)}; out = mc::sut([&] { s.erase(s.begin() + static_cast<std::ptrdiff_t>(at), s.begin() + static_cast<std::ptrdiff_t>(e)); }); r.erase(at, e - at); break; }
			case RESIZE: { const auto n{size(ch)}; out = mc::sut([&] { s.resize(n, 'z'); }); r.resize(n, 'z'); break; }
			case RESERVE: { const auto n{size(ch)}; out = mc::sut([&] { s.reserve(n); }); REQUIRE_("layout", s.capacity() >= n, "capacity after reserve"); break; }
			case SHRINK: out = mc::sut([&] { s.shrink_to_fit(); }); break;
			case CLEAR: out = mc::sut([&] { s.clear(); }); r.clear(); break;
			case POP: if(r.empty()) { done = true; return; } out = mc::sut([&] { s.pop_back(); }); r.pop_back(); break;
			case COPY: out = mc::sut([&] { s = static_cast<const S &>(o); }); r = ro; break;
			case MOVE: out = mc::sut([&] { s = std::move(o); }); r = ro; ro.assign(std::string_view{o}); break;
			case SWAP: out = mc::sut([&] { s.swap(o); }); r.swap(ro); break;
			case C_COPY: box[k].kill(); out = box[k].make(static_cast<const S &>(o)); r = ro; break;
			case C_MOVE: box[k].kill(); out = box[k].make(std::move(o)); r = ro; ro.assign(std::string_view{o}); break;
			case SELF_APPEND: if(r.size() > 100) { done = true; return; } out = mc::sut([&] { s += s; }); r += std::string{r}; break;
			case COMPARE: {
				bool eq{false}, lt{false};
				std::size_t ha{0}, hb{0};
				std::string shown;
				out = mc::sut([&] { eq = s == o; lt = s < o; ha = std::hash<S>{}(s); hb = std::hash<S>{}(o); });
				{ std::ostringstream os; os << s; shown = os.str(); }
				REQUIRE_("layout", eq == (r == ro) && lt == (r < ro) && (!eq || ha == hb) && shown == r, "comparison, hash or output");
				break;
			}
			case WRITE:
				if(r.empty()) { done = true; return; }
				s.front() = 'F'; r.front() = 'F';
				s[r.size() / 2] = 'M'; r[r.size() / 2] = 'M';
				s.back() = 'B'; r.back() = 'B';
				break;
		}
		REQUIRE_("layout", out == mc::OK, "%s threw %s", names[op], mc::outcome_name(out));
		check(k, "string");
		check(1 - k, "other string");
		if(r.size() > 260 || ro.size() > 260) done = true;
	}
};

// ---------------------------------------------------------------- vector
struct alignas(64) Wide { int v; Wide(int i = 0) : v{i} {} };
template<typename T> struct VectorWorld : mc::World {
	using V = ptl::vector<T>;
	using R = std::vector<int>;
	Heap h;
	mc::Box<V> box[2];
	R ref[2];
	int salt{0};
	bool small, done{false};
	explicit VectorWorld(bool small) : small{small} { Elem::reset(); for(auto & b : box) b.make(); }
	~VectorWorld() override { for(auto & b : box) b.kill(); h.done(); REQUIRE_("layout", Elem::live == 0, "%ld elements still alive", Elem::live); }
	static constexpr bool tracked{std::is_same_v<T, Elem>};
	static int number(const T & t) { if constexpr(tracked) { t.need("read"); return t.v; } else if constexpr(std::is_same_v<T, Wide>) return t.v; else return static_cast<int>(t); }
	int module(int k) const { const auto d{word(box[k].raw(), 0)}; return d == 0 ? 0 : d == reinterpret_cast<layout::u64>(release_of<T>(1)) ? 1 : d == reinterpret_cast<layout::u64>(release_of<T>(2)) ? 2 : 3; }
	std::string key() override { if(done) return ""; std::string r; for(int k{0}; k < 2; ++k) r += fmt("%d:%zu/%zu ", module(k), ref[k].size(), box[k]->capacity()); return r; }
	std::vector<T> values(const R & r) { mc::NoFaults nf; std::vector<T> v; v.reserve(r.size()); for(auto i : r) v.emplace_back(static_cast<T>(i)); return v; }
	R numbers(std::size_t n) { ++salt; R r; for(std::size_t i{0}; i < n; ++i) r.push_back((static_cast<int>(i) * 3 + salt) & 127); return r; }
	void check(int k, const char * who) {
		const auto & v{*box[k]};
		const auto raw{box[k].raw()};
		REQUIRE_("layout", v.size() == ref[k].size() && v.empty() == ref[k].empty(), "%s: size %zu, expected %zu", who, v.size(), ref[k].size());
		layout::vector(raw, sizeof(V), alignof(V), v.data(), v.capacity(), ref[k].size(), who);
		REQUIRE_("layout", v.capacity() >= v.size(), "%s: capacity", who);
		const auto p{reinterpret_cast<const T *>(word(raw, 8))};
		for(std::size_t i{0}; i < ref[k].size(); ++i) REQUIRE_("layout", number(p[i]) == ref[k][i], "%s: element %zu is %d, expected %d", who, i, number(p[i]), ref[k][i]);
		REQUIRE_("layout", reinterpret_cast<std::uintptr_t>(p) % alignof(T) == 0, "%s: misaligned", who);
		const auto m{module(k)};
		if(m == 0) return;
		const auto f{find(p)};
		if(m == 3) {
			const auto a{mc::ledger.find(p)};
			REQUIRE_("layout", !f && a && a->ptr == p && a->size >= word(raw, 16) * sizeof(T), "%s: own release function with memory that is not its own", who);
		} else REQUIRE_("layout", f && f->module == m && f->cap == word(raw, 16), "%s: release function of module %d with memory or capacity that does not belong to it", who, m);
	}
	std::size_t size(Chooser & ch) {
		static const std::size_t few[]{0, 3, 10, 11}, many[]{0, 1, 2, 3, 9, 10, 11, 20, 21, 33};
		return small ? ch.pick(few) : ch.pick(many);
	}
	void take(int k) {
		const auto raw{box[k].raw()};
		if(word(raw, 0)) {
			const auto p{reinterpret_cast<T *>(word(raw, 8))};
			{ mc::Scope s; std::destroy_n(p, word(raw, 24)); }
			const auto n{mc::ledger.n}, m{heap->size()};
			Release<T> d;
			std::memcpy(&d, raw, 8);
			mc::sut([&] { d(p); });
			REQUIRE_("layout", mc::ledger.n + heap->size() + 1 == n + m, "the release function did not release exactly the buffer");
		}
		std::memset(raw, 0, 32);
		ref[k].clear();
	}
	void give(int k, int module, const R & t, std::size_t slack) {
		const auto raw{static_cast<char *>(box[k].raw())};
		std::memset(raw, 0, 32);
		ref[k] = t;
		if(module == 0) return;
		const auto cap{t.size() + slack};
		const auto p{static_cast<T *>(foreign_alloc(cap * sizeof(T), module, cap))};
		if constexpr(tracked) heap->back().elems = p;
		for(std::size_t i{0}; i < t.size(); ++i) ::new(static_cast<void *>(p + i)) T(static_cast<T>(t[i]));
		const auto d{release_of<T>(module)};
		const std::size_t n{t.size()};
		std::memcpy(raw, &d, 8);
		std::memcpy(raw + 8, &p, 8);
		std::memcpy(raw + 16, &cap, 8);
		std::memcpy(raw + 24, &n, 8);
	}
	void step(Chooser & ch) override {
		const auto op{ch.choose(OPS)}, k{ch.choose(2)};
		ch.label(names[op]);
		auto & v{*box[k]};
		auto & o{*box[1 - k]};
		auto & r{ref[k]};
		auto & ro{ref[1 - k]};
		const auto it{[&](std::size_t i) { return v.begin() + static_cast<std::ptrdiff_t>(i); }};
		const auto renumber{[&](int q) { ref[q].clear(); for(auto & x : *box[q]) ref[q].push_back(number(x)); }};
		mc::Outcome out{mc::OK};
		done = op == COMPARE;
		switch(op) {
			case FOREIGN: {
				const auto m{ch.choose(3)};
				if(m == 0) { take(k); break; }
				const auto n{size(ch)};
				static const std::size_t slacks[]{0, 1, 12};
				const auto slack{ch.pick(slacks)};
				if(n + slack == 0) { done = true; return; }
				take(k);
				give(k, m, numbers(n), slack);
				break;
			}
			case TAKE: take(k); break;
			case ASSIGN: { const auto t{numbers(size(ch))}; const auto x{values(t)}; out = mc::sut([&] { v.assign(x.begin(), x.end()); }); r = t; break; }
			case APPEND: case INSERT: { const auto t{numbers(size(ch))}; const auto x{values(t)}; const auto at{op == APPEND ? r.size() : r.size() / 2}; out = mc::sut([&] { v.insert(it(at), x.begin(), x.end()); }); r.insert(r.begin() + static_cast<std::ptrdiff_t>(at), t.begin(), t.end()); break; }
			case APPEND_ONE: { const T x(static_cast<T>(77)); out = mc::sut([&] { v.push_back(x); }); r.push_back(77); break; }
			case ERASE: { const auto at{r.size() / 3}, n{(r.size() + 1) / 2}; const auto e{std::min(r.size(), at + n)}; out = mc::sut([&] { v.erase(it(at), it(e)); }); r.erase(r.begin() + static_cast<std::ptrdiff_t>(at), r.begin() + static_cast<std::ptrdiff_t>(e)); break; }
			case RESIZE: { const auto n{size(ch)}; const T x(static_cast<T>(5)); out = mc::sut([&] { v.resize(n, x); }); r.resize(n, 5); break; }
			case RESERVE: { const auto n{size(ch)}; out = mc::sut([&] { v.reserve(n); }); REQUIRE_("layout", v.capacity() >= n, "capacity after reserve"); break; }
			case SHRINK: out = mc::sut([&] { v.shrink_to_fit(); }); break;
			case CLEAR: out = mc::sut([&] { v.clear(); }); r.clear(); break;
			case POP: if(r.empty()) { done = true; return; } out = mc::sut([&] { v.pop_back(); }); r.pop_back(); break;
			case COPY: out = mc::sut([&] { v = static_cast<const V &>(o); }); r = ro; break;
			case MOVE: out = mc::sut([&] { v = std::move(o); }); r = ro; renumber(1 - k); break;
			case SWAP: out = mc::sut([&] { v.swap(o); }); r.swap(ro); break;
			case C_COPY: box[k].kill(); out = box[k].make(static_cast<const V &>(o)); r = ro; break;
			case C_MOVE: box[k].kill(); out = box[k].make(std::move(o)); r = ro; renumber(1 - k); break;
			case SELF_APPEND: if(r.empty()) { done = true; return; } out = mc::sut([&] { v.push_back(v.front()); }); r.push_back(r.front()); break;
			case COMPARE: {
				bool eq{false}, lt{false};
				out = mc::sut([&] { if constexpr(!std::is_same_v<T, Wide>) { eq = v == o; lt = v < o; } else { eq = r == ro; lt = r < ro; } });
				REQUIRE_("layout", eq == (r == ro) && lt == (r < ro), "comparison");
				break;
			}
			case WRITE:
				if(r.empty()) { done = true; return; }
				v.front() = static_cast<T>(1); r.front() = 1;
				v[r.size() / 2] = static_cast<T>(2); r[r.size() / 2] = 2;
				v.back() = static_cast<T>(3); r.back() = 3;
				break;
		}
		REQUIRE_("layout", out == mc::OK, "%s threw %s", names[op], mc::outcome_name(out));
		check(k, "vector");
		check(1 - k, "other vector");
		if(tracked) REQUIRE_("layout", Elem::live == static_cast<long>(r.size() + ro.size()), "%ld elements alive, expected %zu", Elem::live, r.size() + ro.size());
		if(r.size() > 60 || ro.size() > 60) done = true;
	}
};

// ---------------------------------------------------------------- types without memory of their own
//! every value written as bytes and read through the interface, stored through the interface and read as bytes,
//! then handed through each transferring operation together with a value of the other origin
template<typename T> void put(std::string & s, const T & v) { s.append(reinterpret_cast<const char *>(&v), sizeof v); }

struct Opt { // optional<int>
	using O = ptl::optional<int>;
	static constexpr int count{4};
	static constexpr const char * name{"optional<int>"};
	static O make(int i) { O o; if(i) o = i * 1000003; return o; }
	static void encode(int i, unsigned char * raw) { const int v{i * 1000003}; if(i) std::memcpy(raw, &v, 4); raw[4] = i ? 1 : 0; }
	static bool same(const void * raw, int i) { int v; std::memcpy(&v, raw, 4); return layout::byte(raw, 4) == (i ? 1 : 0) && (!i || v == i * 1000003); }
	static bool reads(O & o, int i) { const O & c{o}; return static_cast<bool>(c) == (i > 0) && c.value_or(-1) == (i ? i * 1000003 : -1) && (!i || (*c == i * 1000003 && c.value() == i * 1000003 && *o.operator->() == i * 1000003)) && (c == std::nullopt) == (i == 0); }
	static constexpr std::size_t size{5};
};
struct OptNested { // optional<optional<short>>
	using O = ptl::optional<ptl::optional<short>>;
	static constexpr int count{4};
	static constexpr const char * name{"optional<optional<short>>"};
	static O make(int i) { O o; if(i == 1) o.emplace(); if(i > 1) o = ptl::optional<short>{static_cast<short>(i * 300)}; return o; }
	static void encode(int i, unsigned char * raw) { const short v{static_cast<short>(i * 300)}; if(i > 1) std::memcpy(raw, &v, 2); raw[2] = i > 1; raw[3] = i > 0; }
	static bool same(const void * raw, int i) { short v; std::memcpy(&v, raw, 2); return layout::byte(raw, 3) == (i > 0) && (!i || layout::byte(raw, 2) == (i > 1)) && (i < 2 || v == i * 300); }
	static bool reads(O & o, int i) { return static_cast<bool>(o) == (i > 0) && (!i || static_cast<bool>(*o) == (i > 1)) && (i < 2 || **o == i * 300); }
	static constexpr std::size_t size{4};
};
struct Var { // variant<short, long long, char, optional<int>>
	using O = ptl::variant<short, long long, char, ptl::optional<int>>;
	static constexpr int count{6};
	static constexpr const char * name{"variant<short, long long, char, optional<int>>"};
	static O make(int i) {
		switch(i) {
			case 0: return O{static_cast<short>(-2)};
			case 1: return O{0x0102030405060708ll};
			case 2: return O{'x'};
			case 3: return O{ptl::optional<int>{}};
			case 4: return O{ptl::optional<int>{-9}};
		}
		return O{static_cast<short>(7)};
	}
	static void encode(int i, unsigned char * raw) {
		const short s{static_cast<short>(i ? 7 : -2)};
		const long long l{0x0102030405060708ll};
		const int n{-9};
		if(i == 0 || i == 5) { std::memcpy(raw, &s, 2); raw[8] = 0; }
		if(i == 1) { std::memcpy(raw, &l, 8); raw[8] = 1; }
		if(i == 2) { raw[0] = 'x'; raw[8] = 2; }
		if(i == 3) { raw[4] = 0; raw[8] = 3; }
		if(i == 4) { std::memcpy(raw, &n, 4); raw[4] = 1; raw[8] = 3; }
	}
	static bool same(const void * raw, int i) {
		unsigned char want[9];
		std::memcpy(want, raw, 9);
		encode(i, want);
		return std::memcmp(want, raw, 9) == 0;
	}
	static bool reads(O & o, int i) {
		const O & c{o};
		switch(i) {
			case 0: return c.holds<short>() && c.get<short>() == -2 && *o.get_if<short>() == -2;
			case 1: return c.holds<long long>() && c.get<long long>() == 0x0102030405060708ll;
			case 2: return c.holds<char>() && c.get<char>() == 'x' && c.visit([](auto x) { return sizeof x; }) == 1;
			case 3: return c.holds<ptl::optional<int>>() && !c.get<ptl::optional<int>>();
			case 4: return c.holds<ptl::optional<int>>() && *c.get<ptl::optional<int>>() == -9;
		}
		return c.get<short>() == 7 && !c.holds<char>() && !c.get_if<char>() && !c.get_if<long long>();
	}
	static constexpr std::size_t size{9};
};
struct Tup { // tuple<char, long long, short, optional<char>>
	using O = ptl::tuple<char, long long, short, ptl::optional<char>>;
	static constexpr int count{3};
	static constexpr const char * name{"tuple<char, long long, short, optional<char>>"};
	static O make(int i) { return O{static_cast<char>('a' + i), static_cast<long long>(i) * 0x0102030405060708ll - 1, static_cast<short>(-i * 257), i ? ptl::optional<char>{'q'} : ptl::optional<char>{}}; }
	static void encode(int i, unsigned char * raw) {
		const char c{static_cast<char>('a' + i)};
		const long long l{static_cast<long long>(i) * 0x0102030405060708ll - 1};
		const short s{static_cast<short>(-i * 257)};
		if(i) raw[0] = 'q';
		raw[1] = i ? 1 : 0;
		std::memcpy(raw + 2, &s, 2);
		std::memcpy(raw + 4, &l, 8);
		raw[12] = static_cast<unsigned char>(c);
	}
	static bool same(const void * raw, int i) { unsigned char want[13]; std::memcpy(want, raw, 13); encode(i, want); return std::memcmp(want, raw, 13) == 0; }
	static bool reads(O & o, int i) {
		const O & t{o};
		const auto & [a, b, c, d]{t};
		const auto want{make(i)};
		return t.get<0>() == 'a' + i && t.get<1>() == static_cast<long long>(i) * 0x0102030405060708ll - 1 && t.get<2>() == -i * 257 && static_cast<bool>(t.get<3>()) == (i > 0)
			&& a == t.get<0>() && b == t.get<1>() && c == t.get<2>() && d == t.get<3>() && o == want;
	}
	static constexpr std::size_t size{13};
};
struct Arr { // array<int, 3>
	using O = ptl::array<int, 3>;
	static constexpr int count{3};
	static constexpr const char * name{"array<int, 3>"};
	static O make(int i) { return O{i * 1000003, -i, i * 7}; }
	static void encode(int i, unsigned char * raw) { const int v[]{i * 1000003, -i, i * 7}; std::memcpy(raw, v, 12); }
	static bool same(const void * raw, int i) { unsigned char w[12]; encode(i, w); return std::memcmp(w, raw, 12) == 0; }
	static bool reads(O & o, int i) { const O & c{o}; return c[0] == i * 1000003 && c.at(1) == -i && *(c.end() - 1) == i * 7 && c.size() == 3 && o.front() == c[0] && o.back() == c[2]; }
	static constexpr std::size_t size{12};
};
template<std::size_t N> struct Bits { // value i: bits of a pattern
	using O = ptl::bitset<N>;
	static constexpr int count{N < 9 ? (N < 4 ? 1 << N : 20) : 20};
	static constexpr const char * name{N == 3 ? "bitset<3>" : N == 8 ? "bitset<8>" : N == 9 ? "bitset<9>" : N == 33 ? "bitset<33>" : "bitset<64>"};
	static constexpr std::size_t size{(N + 7) / 8};
	static bool bit(int i, std::size_t k) {
		if(N < 4) return i >> k & 1;
		constexpr std::size_t at[]{0, 1, 6 % N, 7 % N, 8 % N, N / 2, N - 2, N - 1};
		if(i < 8) return at[i] == k; // one bit
		if(i < 16) return at[i - 8] != k && k % 5 != 1; // most bits
		return i == 16 ? false : i == 17 ? true : (k + static_cast<std::size_t>(i)) % 2;
	}
	static O make(int i) { O o; for(std::size_t k{0}; k < N; ++k) o.set(k, bit(i, k)); return o; }
	static void encode(int i, unsigned char * raw) { std::memset(raw, 0, size); for(std::size_t k{0}; k < N; ++k) raw[k / 8] = static_cast<unsigned char>(raw[k / 8] | (bit(i, k) << (k % 8))); }
	static bool same(const void * raw, int i) { unsigned char w[size]; encode(i, w); return std::memcmp(w, raw, size) == 0; }
	static bool reads(O & o, int i) {
		std::size_t n{0};
		std::string digits;
		for(std::size_t k{0}; k < N; ++k) { if(o[k] != bit(i, k) || o.test(k) != bit(i, k)) return false; n += bit(i, k); digits.insert(digits.begin(), bit(i, k) ? '1' : '0'); }
		std::ostringstream os;
		os << o;
		const auto want{make(i)};
		return o.count() == n && o.any() == (n > 0) && o.all() == (n == N) && o == want && os.str() == digits && std::hash<O>{}(o) == std::hash<O>{}(want);
	}
};
int pool_ints[8]{10, 11, 12, 13, 14, 15, 16, 17};
const char pool_chars[]{"0123456789abcdef"};
struct SRef {
	using O = ptl::string_ref;
	static constexpr int count{4};
	static constexpr const char * name{"string_ref"};
	static O make(int i) { return O{pool_chars + i, static_cast<std::size_t>(i * 3)}; }
	static void encode(int i, unsigned char * raw) { const char * p[]{pool_chars + i, pool_chars + i * 4}; std::memcpy(raw, p, 16); }
	static bool same(const void * raw, int i) { unsigned char w[16]; encode(i, w); return std::memcmp(w, raw, 16) == 0; }
	static bool reads(O & o, int i) { return o.data() == pool_chars + i && o.size() == static_cast<std::size_t>(i) * 3 && std::string_view{o} == std::string_view{pool_chars + i, static_cast<std::size_t>(i) * 3} && o.empty() == (i == 0) && o.end() - o.begin() == i * 3; }
	static constexpr std::size_t size{16};
};
struct ARef {
	using O = ptl::array_ref<int>;
	static constexpr int count{4};
	static constexpr const char * name{"array_ref<int>"};
	static O make(int i) { return O{pool_ints + i, static_cast<std::size_t>(i)}; }
	static void encode(int i, unsigned char * raw) { int * p[]{pool_ints + i, pool_ints + 2 * i}; std::memcpy(raw, p, 16); }
	static bool same(const void * raw, int i) { unsigned char w[16]; encode(i, w); return std::memcmp(w, raw, 16) == 0; }
	static bool reads(O & o, int i) { return o.data() == pool_ints + i && o.size() == static_cast<std::size_t>(i) && o.empty() == (i == 0) && o.end() - o.begin() == i && (!i || (&o[0] == pool_ints + i && &o.back() == pool_ints + 2 * i - 1)); }
	static constexpr std::size_t size{16};
};
struct ORef {
	using O = ptl::optional_ref<int>;
	static constexpr int count{4};
	static constexpr const char * name{"optional_ref<int>"};
	static O make(int i) { return i ? O{pool_ints[i]} : O{}; }
	static void encode(int i, unsigned char * raw) { int * p{i ? pool_ints + i : nullptr}; std::memcpy(raw, &p, 8); }
	static bool same(const void * raw, int i) { unsigned char w[8]; encode(i, w); return std::memcmp(w, raw, 8) == 0; }
	static bool reads(O & o, int i) { return static_cast<bool>(o) == (i > 0) && (!i || (&*o == pool_ints + i && &o.value() == pool_ints + i && o.operator->() == pool_ints + i)); }
	static constexpr std::size_t size{8};
};
double pool_double{2.5};
const char pool_char{'c'};
struct VRef {
	using O = ptl::variant_ref<int, double, const char>;
	static constexpr int count{4};
	static constexpr const char * name{"variant_ref<int, double, const char>"};
	static O make(int i) { if(i == 0) return O{pool_double}; if(i == 1) return O{pool_char}; return O{pool_ints[i]}; }
	static void encode(int i, unsigned char * raw) { const void * p{i == 0 ? static_cast<const void *>(&pool_double) : i == 1 ? static_cast<const void *>(&pool_char) : pool_ints + i}; const std::uint64_t k{i == 0 ? 1u : i == 1 ? 2u : 0u}; std::memcpy(raw, &p, 8); std::memcpy(raw + 8, &k, 8); }
	static bool same(const void * raw, int i) { unsigned char w[16]; encode(i, w); return std::memcmp(w, raw, 16) == 0; }
	static bool reads(O & o, int i) {
		const void * seen{nullptr};
		o.visit([&](auto & x) { seen = &x; });
		if(i == 0) return seen == &pool_double && &o.get<double>() == &pool_double && o.holds<double>() && !o.holds<int>();
		if(i == 1) return seen == &pool_char && &o.get<const char>() == &pool_char && o.holds<const char>();
		return seen == pool_ints + i && &o.get<int>() == pool_ints + i && o.get_if<int>() == pool_ints + i && !o.get_if<double>();
	}
	static constexpr std::size_t size{16};
};

template<typename L> struct SmallWorld : mc::World {
	using O = typename L::O;
	mc::Box<O> box[2];
	int value[2]{0, 0};
	bool foreign[2]{false, false};
	SmallWorld() { for(auto & b : box) b.make_by([] { return L::make(0); }); }
	std::string key() override { return fmt("%d%c %d%c", value[0], foreign[0] ? 'f' : 'n', value[1], foreign[1] ? 'f' : 'n'); }
	void step(Chooser & ch) override {
		static const char * const n[]{"written as bytes", "stored", "assigned", "a = b", "a = move(b)", "swap(a, b)", "copy constructed", "move constructed", "copied as bytes"};
		const auto op{ch.choose(9)}, k{ch.choose(2)};
		ch.label(n[op]);
		auto & o{*box[k]};
		auto & p{*box[1 - k]};
		const auto v{op < 3 ? ch.choose((L::count + 15) / 16) * 16 + ch.choose(std::min(16, L::count)) : 0};
		if(v >= L::count) return;
		switch(op) {
			case 0: { const auto raw{static_cast<unsigned char *>(box[k].raw())}; box[k].kill(); std::memset(raw, 0xEE, L::size); L::encode(v, raw); box[k].assume_live(true); value[k] = v; foreign[k] = true; break; }
			case 1: box[k].kill(); box[k].make_by([&] { return L::make(v); }); value[k] = v; foreign[k] = false; break;
			case 2: mc::sut([&] { o = L::make(v); }); value[k] = v; foreign[k] = false; break;
			case 3: mc::sut([&] { o = static_cast<const O &>(p); }); value[k] = value[1 - k]; break;
			case 4: mc::sut([&] { o = std::move(p); }); value[k] = value[1 - k]; if(!L::reads(p, value[1 - k])) { box[1 - k].kill(); box[1 - k].make_by([] { return L::make(0); }); value[1 - k] = 0; } break;
			case 5: mc::sut([&] { using std::swap; swap(o, p); }); std::swap(value[0], value[1]); break;
			case 6: box[k].kill(); box[k].make(static_cast<const O &>(p)); value[k] = value[1 - k]; break;
			case 7: box[k].kill(); box[k].make(std::move(p)); value[k] = value[1 - k]; if(!L::reads(p, value[1 - k])) { box[1 - k].kill(); box[1 - k].make_by([] { return L::make(0); }); value[1 - k] = 0; } break;
			case 8: box[k].kill(); std::memcpy(box[k].raw(), box[1 - k].raw(), L::size); box[k].assume_live(true); value[k] = value[1 - k]; break;
		}
		REQUIRE_("layout", sizeof(O) == L::size, "size is %zu instead of %zu", sizeof(O), L::size);
		for(int q{0}; q < 2; ++q) {
			REQUIRE_("layout", L::same(box[q].raw(), value[q]), "object %d: the bytes are not those of value %d", q, value[q]);
			bool good{false};
			const auto out{mc::sut([&] { good = L::reads(*box[q], value[q]); })};
			REQUIRE_("layout", good && out == mc::OK, "object %d: does not read as value %d", q, value[q]);
		}
	}
};

// ---------------------------------------------------------------- nested owners: strings inside optional, variant and tuple
//! encode/decode goes through the string's own layout, at the prescribed offset
struct NestedWorld : mc::World {
	Heap h;
	using O = ptl::optional<ptl::string>;
	using V = ptl::variant<char, ptl::string>;
	using T = ptl::tuple<ptl::string, char, ptl::string>;
	mc::Box<O> o;
	mc::Box<V> v;
	mc::Box<T> t;
	std::string ro, rv, rt[2];
	bool eo{false}, ev{false};
	NestedWorld() { o.make(); v.make_by([] { return V{'c'}; }); t.make_by([] { return T{ptl::string{}, 'x', ptl::string{}}; }); }
	~NestedWorld() override { o.kill(); v.kill(); t.kill(); h.done(); }
	bool done{false};
	std::string key() override { return done ? "" : fmt("%d%zu %d%zu %zu %zu ", eo, ro.size(), ev, rv.size(), rt[0].size(), rt[1].size()) + fmt("%d%d%d%d", owner(o.raw(), 0) * eo, owner(v.raw(), 0) * ev, owner(t.raw(), 0), owner(t.raw(), 33)); }
	static int owner(const void * p, std::size_t at) { const auto d{word(p, at)}; return d == 0 ? 0 : d == reinterpret_cast<layout::u64>(release_of<char>(1)) ? 1 : 3; }
	static void encode(void * raw, const std::string & s, bool inline_) {
		auto p{static_cast<char *>(raw)};
		std::memset(p, 0xEE, 32);
		if(inline_) { std::memset(p, 0, 8); p[8] = static_cast<char>(s.size()); std::memcpy(p + 9, s.data(), s.size()); p[9 + s.size()] = 0; return; }
		const std::size_t cap{s.size() + 3}, n{s.size()};
		const auto b{static_cast<char *>(foreign_alloc(cap + 1, 1, cap))};
		std::memcpy(b, s.data(), n);
		b[n] = 0;
		const auto d{release_of<char>(1)};
		std::memcpy(p, &d, 8);
		std::memcpy(p + 8, &b, 8);
		std::memcpy(p + 16, &cap, 8);
		std::memcpy(p + 24, &n, 8);
	}
	static std::string decode(const void * raw, std::size_t at) {
		const auto p{static_cast<const char *>(raw) + at};
		return word(p, 0) ? std::string(reinterpret_cast<const char *>(word(p, 8)), word(p, 24)) : std::string(p + 9, static_cast<unsigned char>(p[8]));
	}
	void step(Chooser & ch) override {
		static const char * const n[]{"optional written as bytes", "optional assigned", "optional reset", "optional moved through", "variant written as bytes", "variant assigned", "variant emplace char", "variant moved through", "tuple written as bytes", "tuple member assigned", "tuple copied", "string moved out of the optional"};
		const auto op{ch.choose(12)};
		ch.label(n[op]);
		static const std::string texts[]{"", "inline text", std::string(22, 'i'), std::string(23, 'h'), std::string(60, 'H')};
		const auto pick{[&](std::string & s, bool & in) { const auto k{ch.choose(7)}; s = texts[k < 5 ? k : k - 5 + 1]; in = k < 3; }};
		std::string s, s2;
		bool in{false}, in2{false};
		switch(op) {
			case 0: pick(s, in); o.kill(); encode(o.raw(), s, in); static_cast<char *>(o.raw())[32] = 1; o.assume_live(true); eo = true; ro = s; break;
			case 1: pick(s, in); mc::sut([&] { *o = ptl::string{std::string_view{s}}; }); eo = true; ro = s; break;
			case 2: mc::sut([&] { o->reset(); }); eo = false; ro.clear(); break;
			case 3: mc::sut([&] { O x{std::move(*o)}; O y{x}; y.swap(x); *o = std::move(y); }); break;
			case 4: pick(s, in); v.kill(); encode(v.raw(), s, in); static_cast<char *>(v.raw())[32] = 1; v.assume_live(true); ev = true; rv = s; break;
			case 5: pick(s, in); mc::sut([&] { *v = ptl::string{std::string_view{s}}; }); ev = true; rv = s; break;
			case 6: mc::sut([&] { v->emplace<char>('c'); }); ev = false; rv.clear(); break;
			case 7: mc::sut([&] { V x{std::move(*v)}; V y{x}; y.swap(x); *v = std::move(y); }); break;
			case 8: pick(s, in); pick(s2, in2); t.kill(); encode(static_cast<char *>(t.raw()) + 33, s, in); encode(t.raw(), s2, in2); static_cast<char *>(t.raw())[32] = 'x'; t.assume_live(true); rt[0] = s; rt[1] = s2; break;
			case 9: pick(s, in); mc::sut([&] { t->get<2>() = std::string_view{s}; t->get<0>().append(std::string_view{"+"}); }); rt[1] = s; rt[0] += "+"; break;
			case 10: mc::sut([&] { T x{*t}; T y{std::move(*t)}; y.swap(x); *t = y; }); break;
			case 11: if(!eo) { done = true; return; } mc::sut([&] { ptl::string x{std::move(**o)}; t->get<0>() = std::move(x); }); rt[0] = ro; ro = std::string{std::string_view{**o}}; break;
		}
		if(rt[0].size() > 70) done = true;
		REQUIRE_("layout", sizeof(O) == 33 && sizeof(V) == 33 && sizeof(T) == 65, "sizes %zu %zu %zu", sizeof(O), sizeof(V), sizeof(T));
		REQUIRE_("layout", layout::byte(o.raw(), 32) == eo && static_cast<bool>(*o) == eo, "flag of the optional");
		REQUIRE_("layout", layout::byte(v.raw(), 32) == ev && v->holds<ptl::string>() == ev, "index of the variant");
		if(eo) REQUIRE_("layout", decode(o.raw(), 0) == ro && std::string_view{**o} == ro, "string in the optional");
		if(ev) REQUIRE_("layout", decode(v.raw(), 0) == rv && std::string_view{v->get<ptl::string>()} == rv, "string in the variant");
		else REQUIRE_("layout", layout::byte(v.raw(), 0) == 'c' && v->get<char>() == 'c', "char in the variant");
		REQUIRE_("layout", decode(t.raw(), 33) == rt[0] && std::string_view{t->get<0>()} == rt[0], "first member of the tuple");
		REQUIRE_("layout", decode(t.raw(), 0) == rt[1] && std::string_view{t->get<2>()} == rt[1], "last member of the tuple");
		REQUIRE_("layout", layout::byte(t.raw(), 32) == 'x' && t->get<1>() == 'x', "middle member of the tuple");
	}
};

// ---------------------------------------------------------------- function_ref: {target, dispatch}; dispatch(const storage *, args...)
int times_two(int x) { return x * 2; }
struct Adder { int by; int operator()(int x) const { return x + by; } };
Adder adders[2]{{100}, {200}};
struct FunctionWorld : mc::World {
	using F = ptl::function_ref<int(int) const>;
	using Dispatch = int (*)(const void *, int);
	static int foreign_dispatch(const void * storage, int x) { return static_cast<const Adder *>(*static_cast<void * const *>(storage))->by * 10 + x; }
	mc::Box<F> box[2];
	int kind[2]{0, 0}; // 0, 1: adders 2: function 3, 4: foreign with adders
	FunctionWorld() { for(auto & b : box) b.make(adders[0]); }
	std::string key() override { return fmt("%d %d", kind[0], kind[1]); }
	void step(Chooser & ch) override {
		static const char * const n[]{"bound", "written as bytes", "a = b", "copy constructed", "swap(a, b)"};
		const auto op{ch.choose(5)}, k{ch.choose(2)};
		ch.label(n[op]);
		switch(op) {
			case 0: { const auto t{ch.choose(3)}; box[k].kill(); if(t < 2) box[k].make(adders[t]); else box[k].make(times_two); kind[k] = t; break; }
			case 1: { const auto t{ch.choose(2)}; void * p{adders + t}; const Dispatch d{foreign_dispatch}; box[k].kill(); std::memcpy(box[k].raw(), &p, 8); std::memcpy(static_cast<char *>(box[k].raw()) + 8, &d, 8); box[k].assume_live(true); kind[k] = 3 + t; break; }
			case 2: mc::sut([&] { *box[k] = *box[1 - k]; }); kind[k] = kind[1 - k]; break;
			case 3: box[k].kill(); box[k].make(static_cast<const F &>(*box[1 - k])); kind[k] = kind[1 - k]; break;
			case 4: mc::sut([&] { std::swap(*box[0], *box[1]); }); std::swap(kind[0], kind[1]); break;
		}
		REQUIRE_("layout", sizeof(F) == 16 && alignof(F) == 8, "function_ref has %zu bytes", sizeof(F));
		for(int q{0}; q < 2; ++q) {
			const auto want{[&](int x) { return kind[q] < 2 ? x + adders[kind[q]].by : kind[q] == 2 ? x * 2 : adders[kind[q] - 3].by * 10 + x; }};
			int got{0};
			const auto & f{*box[q]};
			const auto o{mc::sut([&] { got = f(7); })};
			REQUIRE_("layout", o == mc::OK && got == want(7), "call yields %d instead of %d", got, want(7));
			void * target;
			Dispatch d;
			std::memcpy(&target, box[q].raw(), 8);
			std::memcpy(&d, static_cast<char *>(box[q].raw()) + 8, 8);
			REQUIRE_("layout", kind[q] == 2 ? target == reinterpret_cast<void *>(times_two) : target == adders + kind[q] % 3, "the stored target is not the function object");
			mc::sut([&] { got = d(&target, 9); });
			REQUIRE_("layout", got == want(9), "the dispatch function called by another module yields %d instead of %d", got, want(9));
		}
	}
};

template<typename W, typename... A> mc::Model model(const char * name, int depth, A... a) {
	mc::Model m;
	m.name = name;
	m.make = [a...] { return new W{a...}; };
	m.depth = depth;
	return m;
}
template<typename L> mc::Model small() {
	auto m{model<SmallWorld<L>>(L::name, 40)};
	m.name = fmt("foreign %s", L::name);
	return m;
}
}

mc::Plan plan(const std::string &, bool thorough) {
	mc::Plan r;
	auto & m{r.models};
	m.push_back(model<StringWorld>("foreign strings", thorough ? 4 : 3, true));
	m.push_back(model<StringWorld>("foreign strings, more sizes", 2, false));
	m.push_back(model<VectorWorld<Elem>>("foreign vector<tracked>", thorough ? 4 : 3, true));
	m.push_back(model<VectorWorld<Elem>>("foreign vector<tracked>, more sizes", 2, false));
	m.push_back(model<VectorWorld<int>>("foreign vector<int>", thorough ? 4 : 3, true));
	m.push_back(model<VectorWorld<unsigned char>>("foreign vector<byte>", thorough ? 4 : 2, true));
	m.push_back(model<VectorWorld<Wide>>("foreign vector<over-aligned>", thorough ? 4 : 3, true));
	m.push_back(small<Opt>());
	m.push_back(small<OptNested>());
	m.push_back(small<Var>());
	m.push_back(small<Tup>());
	m.push_back(small<Arr>());
	m.push_back(small<Bits<3>>());
	m.push_back(small<Bits<8>>());
	m.push_back(small<Bits<9>>());
	m.push_back(small<Bits<33>>());
	m.push_back(small<Bits<64>>());
	m.push_back(small<SRef>());
	m.push_back(small<ARef>());
	m.push_back(small<ORef>());
	m.push_back(small<VRef>());
	m.push_back(model<NestedWorld>("foreign strings inside optional, variant, tuple", thorough ? 4 : 3));
	m.push_back(model<FunctionWorld>("foreign function_ref", 20));
	r.mask = {"layout"};
	return r;
}
