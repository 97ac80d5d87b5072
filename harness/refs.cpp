// string_ref and array_ref against sub-ranges of a buffer
#include <ptl/string_ref.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/array.hpp>
#include "values.hpp"
#include "output.hpp"
#include <set>
#include <array>
#include <iomanip>

using mc::Chooser;
using mc::Elem;
using mc::Val;
using mc::fmt;
using ptl::literals::operator""_sr;

namespace {
// ---------------------------------------------------------------- string_ref
using S = ptl::string_ref;
constexpr char literal[]{"a\0b\377c\0d"}; // 7 characters and the terminator

enum SOp { FROM_POINTER, FROM_POINTER_LENGTH, FROM_VIEW, FROM_STD_STRING, FROM_STRING, FROM_LITERAL, FROM_UDL, FROM_NOTHING, FROM_NULL_0,
	PREFIX, SUFFIX, SUBSTR, SUBSTR_COUNT, COPY, MOVE, ASSIGN, ASSIGN_SELF, ASSIGN_LITERAL, ROUND_TRIP, PREFIX_OF_CONST, S_AT_BAD, S_OPS };
const char * const snames[]{"string_ref{ptr}", "string_ref{ptr, n}", "string_ref{string_view}", "string_ref{std::string}", "string_ref{ptl::string}", "string_ref{\"..\"}", "\"..\"_sr", "string_ref{}", "string_ref{nullptr, 0}",
	"remove_prefix", "remove_suffix", "substr(o)", "substr(o, n)", "copy", "move", "assign", "self-assign", "assign literal", "string_view and back", "remove_prefix of a copy", "at out of range"};

struct StringRefWorld : mc::World {
	int n;
	std::string text; // the source
	ptl::string owner;
	char * buffer;   // exactly n characters and a terminator
	mc::Box<S> ref;
	const char * base{nullptr}; // what the positions below refer to
	std::size_t from{0}, to{0};
	explicit StringRefWorld(int n, int content) : n{n}, buffer{static_cast<char *>(__real_malloc(static_cast<std::size_t>(n) + 1))} {
		static const std::string contents[]{std::string("a\0a\377ba\0ab\377aa", 12), std::string("\377\376\1\177\200a\0bcdef", 12), std::string("aaaaaaaaaaaa", 12)};
		text = contents[content].substr(0, static_cast<std::size_t>(n));
		std::memcpy(buffer, text.data(), text.size());
		buffer[n] = '\0';
		owner = std::string_view{text};
		ref.make();
	}
	~StringRefWorld() override { __real_free(buffer); }
	std::string key() override { return fmt("%s %zu..%zu", base == buffer ? "buffer" : base == literal ? "literal" : base == nullptr ? "null" : base == text.data() ? "std" : "ptl", from, to); }
	std::size_t size() const { return to - from; }

	void check() {
		const S & r{*ref};
		const std::string_view expect{base ? base + from : nullptr, size()};
		REQUIRE_("content", r.data() == expect.data(), "refers to offset %td instead of %zu", r.data() - base, from);
		REQUIRE_("content", r.size() == size() && r.empty() == (size() == 0) && std::size(r) == size(), "size %zu instead of %zu", r.size(), size());
		{
			const char * f[2];
			std::memcpy(f, ref.raw(), sizeof f);
			REQUIRE_("layout", sizeof(S) == 16 && alignof(S) == 8 && f[0] == expect.data() && f[1] == expect.data() + size(), "the stored pointers delimit [%td, %td)", f[0] - base, f[1] - base);
		}
		const std::string_view view{r};
		REQUIRE_("content", view.data() == expect.data() && view.size() == size(), "string_view of %zu characters", view.size());
		for(std::size_t i{0}; i < size(); ++i) {
			REQUIRE_("access", &r[i] == expect.data() + i && &r.at(i) == expect.data() + i, "access to character %zu", i);
			const auto d{static_cast<std::ptrdiff_t>(i)};
			REQUIRE_("iter", &*(r.begin() + d) == expect.data() + i && &r.cbegin()[d] == expect.data() + i && &*(r.rend() - 1 - d) == expect.data() + i && &r.crbegin()[static_cast<std::ptrdiff_t>(size()) - 1 - d] == expect.data() + i, "iteration misses character %zu", i);
		}
		if(size()) REQUIRE_("access", &r.front() == expect.data() && &r.back() == expect.data() + size() - 1, "front or back");
		REQUIRE_("iter", r.end() - r.begin() == static_cast<std::ptrdiff_t>(size()) && r.cend() - r.cbegin() == r.end() - r.begin() && r.rend() - r.rbegin() == r.end() - r.begin() && r.crend() - r.crbegin() == r.end() - r.begin(), "iterator distance");
		std::string seen;
		for(char c : r) seen += c;
		REQUIRE_("iter", seen == expect, "range-for");
		REQUIRE_("hash", std::hash<S>{}(r) == std::hash<std::string_view>{}(expect), "hash differs from the hash of the characters");
		{
			static std::set<std::string> written; //once for each text and position
			if(written.insert(fmt("%zu %zu ", from, size()) + text).second) mc::same_output("content", static_cast<const S &>(r), expect, expect.size());
		}
		//against every other sub-range, here and in a copy elsewhere
		const std::string copy{text};
		for(std::size_t f{0}; f <= text.size(); ++f)
			for(std::size_t t{f}; t <= text.size(); ++t)
				for(const char * where : {static_cast<const char *>(buffer), copy.data()}) {
					const S o{where + f, t - f};
					const std::string_view e{where + f, t - f};
					const bool eq{expect == e}, lt{expect < e}, gt{expect > e};
					REQUIRE_("order", (r == o) == eq && (r != o) == !eq && (r < o) == lt && (r > o) == gt && (r <= o) == !gt && (r >= o) == !lt, "comparison with [%zu, %zu)", f, t);
					REQUIRE_("order", (o == r) == eq && (o != r) == !eq && (o < r) == gt && (o > r) == lt && (o <= r) == !lt && (o >= r) == !gt, "reversed comparison with [%zu, %zu)", f, t);
				}
		const ptl::string p{std::string_view{text}};
		const std::string_view e{text};
		REQUIRE_("order", (r == p) == (expect == e) && (r < p) == (expect < e) && (p < r) == (e < expect) && (p != r) == (e != expect) && (r >= p) == (expect >= e) && (p <= r) == (e <= expect), "comparison with a string");
		const std::string_view l{"a"};
		REQUIRE_("order", (r == "a") == (expect == l) && (r < "a") == (expect < l) && ("a" < r) == (l < expect) && (r != "a") == (expect != l) && ("a" >= r) == (l >= expect) && (r > "a") == (expect > l), "comparison with a literal");
		REQUIRE_("content", std::string_view(buffer, text.size()) == text, "the source was modified");
	}
	void step(Chooser & ch) override {
		const int op{ch.choose(S_OPS)};
		ch.label(snames[op]);
		NOTE("  [%zu, %zu)", from, to);
		const int len{static_cast<int>(size())};
		switch(op) {
		case FROM_POINTER: {
			const auto f{static_cast<std::size_t>(ch.choose(n + 1))};
			ref.kill();
			ref.make(static_cast<const char *>(buffer) + f);
			base = buffer; from = f; to = f + std::strlen(buffer + f);
			break;
		}
		case FROM_POINTER_LENGTH: {
			from = static_cast<std::size_t>(ch.choose(n + 1));
			to = from + static_cast<std::size_t>(ch.choose(n + 1 - static_cast<int>(from)));
			base = buffer;
			ref.kill();
			ref.make(static_cast<const char *>(buffer) + from, to - from);
			break;
		}
		case FROM_VIEW: {
			from = static_cast<std::size_t>(ch.choose(n + 1));
			to = from + static_cast<std::size_t>(ch.choose(n + 1 - static_cast<int>(from)));
			base = buffer;
			ref.kill();
			const std::string_view v{buffer + from, to - from};
			if(ch.flip()) ref.make(v);
			else ref.make_by([&]() -> S { return v; });
			break;
		}
		case FROM_STD_STRING: ref.kill(); ref.make(text); base = text.data(); from = 0; to = text.size(); break;
		case FROM_STRING: ref.kill(); ref.make(owner); base = n ? owner.data() : ref->data(); from = 0; to = text.size(); break;
		case FROM_LITERAL: ref.kill(); ref.make(literal); base = literal; from = 0; to = 1; break;
		case FROM_UDL: {
			ref.kill();
			ref.make_by([] { return "a\0b\377c"_sr; });
			static const char same[]{"a\0b\377c"};
			REQUIRE_("content", ref->size() == 5 && std::memcmp(ref->data(), same, 5) == 0 && ref->data()[5] == '\0', "literal of 5 characters denotes %zu", ref->size());
			base = ref->data(); from = 0; to = 5;
			//continue with an equivalent reference, so that states of different string literals stay comparable
			ref.kill();
			ref.make(literal, std::size_t{7});
			base = literal; from = 0; to = 7;
			break;
		}
		case FROM_NOTHING: ref.kill(); ref.make(); base = nullptr; from = to = 0; break;
		case FROM_NULL_0: ref.kill(); ref.make(static_cast<const char *>(nullptr), std::size_t{0}); base = nullptr; from = to = 0; break;
		case PREFIX: { const auto k{static_cast<std::size_t>(ch.choose(len + 1))}; mc::sut([&] { ref->remove_prefix(k); }); from += k; break; }
		case SUFFIX: { const auto k{static_cast<std::size_t>(ch.choose(len + 1))}; mc::sut([&] { ref->remove_suffix(k); }); to -= k; break; }
		case SUBSTR: case SUBSTR_COUNT: {
			const auto o{static_cast<std::size_t>(ch.choose(len + 1))};
			const auto c{op == SUBSTR ? size() - o : static_cast<std::size_t>(ch.choose(len + 1 - static_cast<int>(o)))};
			NOTE("  substr(%zu, %zu)", o, c);
			const auto self{*ref};
			const S sub{op == SUBSTR ? ref->substr(o) : ref->substr(o, c)};
			REQUIRE_("content", ref->data() == self.data() && ref->size() == self.size(), "substr changed the reference");
			ref.kill();
			ref.make(sub);
			from += o;
			to = from + c;
			break;
		}
		case COPY: { mc::Box<S> c; c.make(*ref); ref.kill(); ref.make(*c); break; }
		case MOVE: { mc::Box<S> c; c.make(std::move(*ref)); ref.kill(); ref.make(std::move(*c)); break; }
		case ASSIGN: {
			const auto f{static_cast<std::size_t>(ch.choose(n + 1))};
			const auto t{f + static_cast<std::size_t>(ch.choose(n + 1 - static_cast<int>(f)))};
			const S o{static_cast<const char *>(buffer) + f, t - f};
			S * r{nullptr};
			mc::sut([&] { r = &(*ref = o); });
			REQUIRE_("content", r == &*ref, "assignment did not return the target");
			REQUIRE_("content", o.data() == buffer + f && o.size() == t - f, "assignment changed its source");
			base = buffer; from = f; to = t;
			break;
		}
		case ASSIGN_SELF: { S & alias{*ref}; *ref = alias; break; }
		case ASSIGN_LITERAL: *ref = literal; base = literal; from = 0; to = 1; break;
		case ROUND_TRIP: { const std::string_view v{*ref}; *ref = v; break; }
		case PREFIX_OF_CONST: { S c{*ref}; if(len) c.remove_prefix(1); if(len) c.remove_suffix(c.size()); break; }
		case S_AT_BAD: {
			const std::size_t bad[]{size(), size() + 1, static_cast<std::size_t>(-1), static_cast<std::size_t>(-1) - from, std::size_t{1} << 63, std::size_t{1} << 32};
			const auto i{ch.pick(bad)};
			const auto o{mc::sut([&] { (void)ref->at(i); })};
			REQUIRE_("access", o == mc::RANGE, "at(%zu) of %zu characters did not throw out_of_range", i, size());
			break;
		}
		}
		check();
	}
};

// ---------------------------------------------------------------- array_ref
enum AOp { A_PTRS, A_PTR_COUNT, A_NOTHING, A_CARRAY, A_STD_ARRAY, A_ARRAY, A_STD_VECTOR, A_VECTOR, A_REF, A_INIT_LIST,
	A_FIRST, A_LAST, A_SUB, A_SUB_COUNT, A_COPYC, A_MOVEC, A_ASSIGN, A_ASSIGN_SELF, A_DEDUCE, WR_INDEX, WR_AT, WR_FRONT, WR_BACK, WR_DATA, WR_ITER, WR_RITER, A_AT_BAD, A_OPS };
const char * const anames[]{"array_ref{p, q}", "array_ref{p, n}", "array_ref{}", "array_ref{T[n]}", "array_ref{std::array}", "array_ref{array}", "array_ref{std::vector}", "array_ref{vector}", "array_ref{array_ref}", "array_ref{initializer_list}",
	"first(n)", "last(n)", "subrange(o)", "subrange(o, n)", "copy", "move", "assign", "self-assign", "deduced", "r[i] =", "r.at(i) =", "front() =", "back() =", "data()[i] =", "*(begin() + i) =", "*(rbegin() + i) =", "at out of range"};

template<typename Type, bool ConstSource> struct ArrayRefWorld : mc::World {
	using T = std::remove_const_t<Type>;
	using R = ptl::array_ref<Type>;
	static constexpr bool writable{!std::is_const_v<Type>};
	template<typename C> using Source = std::conditional_t<ConstSource, const C, C>;
	static constexpr int n{5};
	//the sources all live here, with equal content
	T carray[n]{Val<T>::mk(0), Val<T>::mk(1), Val<T>::mk(2), Val<T>::mk(0), Val<T>::mk(1)};
	std::array<T, n> sarray{Val<T>::mk(0), Val<T>::mk(1), Val<T>::mk(2), Val<T>::mk(0), Val<T>::mk(1)};
	ptl::array<T, n> parray{Val<T>::mk(0), Val<T>::mk(1), Val<T>::mk(2), Val<T>::mk(0), Val<T>::mk(1)};
	std::vector<T> svector{carray, carray + n};
	mc::Box<ptl::vector<T>> pvector;
	mc::Box<ptl::vector<T>> empty_vector;
	mc::Box<R> ref;
	std::vector<int> content; // of the source referred to
	T * base{nullptr};
	std::size_t from{0}, to{0};
	static int life() { Elem::reset(); return 0; }
	int reset_life{life()};
	ArrayRefWorld() {
		pvector.make(static_cast<const T *>(carray), static_cast<const T *>(carray) + n);
		empty_vector.make();
		ref.make();
	}
	std::size_t size() const { return to - from; }
	std::string key() override {
		std::string r{fmt("%s %zu..%zu", base == nullptr ? "null" : base == carray ? "[]" : base == sarray.data() ? "std::array" : base == parray.data() ? "array" : base == svector.data() ? "std::vector" : base == pvector->data() ? "vector" : "empty", from, to)};
		for(auto c : content) r += fmt(" %d", c);
		return r;
	}
	void refer(T * b, std::size_t f, std::size_t t) {
		base = b; from = f; to = t;
		content.clear();
		if(b && b != empty_vector->data()) for(int i{0}; i < n; ++i) content.push_back(Val<T>::get(b[i]));
	}
	template<typename C>
	void from_range(C & c, bool rvalue) {
		Source<C> & s{c};
		ref.kill();
		if constexpr(!writable && !std::is_array_v<C>) {
			if(rvalue) { ref.make(std::move(s)); return; }
		}
		(void)rvalue;
		ref.make(s);
	}
	void check() {
		R & r{*ref};
		const R & c{r};
		T * const e{base ? base + from : nullptr};
		REQUIRE_("content", c.data() == e, "refers to offset %td instead of %zu", c.data() - base, from);
		REQUIRE_("content", c.size() == size() && c.empty() == (size() == 0), "size %zu instead of %zu", c.size(), size());
		for(std::size_t i{0}; i < size(); ++i) {
			const auto d{static_cast<std::ptrdiff_t>(i)};
			REQUIRE_("access", std::addressof(c[i]) == e + i && std::addressof(c.at(i)) == e + i, "access to element %zu", i);
			REQUIRE_("iter", std::addressof(*(r.begin() + d)) == e + i && std::addressof(c.begin()[d]) == e + i && std::addressof(c.cbegin()[d]) == e + i && std::addressof(*(r.rend() - 1 - d)) == e + i && std::addressof(c.crbegin()[static_cast<std::ptrdiff_t>(size()) - 1 - d]) == e + i && std::addressof(*(c.rend() - 1 - d)) == e + i, "iteration misses element %zu", i);
		}
		if(size()) REQUIRE_("access", std::addressof(c.front()) == e && std::addressof(c.back()) == e + size() - 1, "front or back");
		{
			T * f[2];
			std::memcpy(f, ref.raw(), sizeof f);
			REQUIRE_("layout", sizeof(R) == 16 && alignof(R) == 8 && f[0] == e && f[1] == e + size(), "the stored pointers delimit [%td, %td)", f[0] - base, f[1] - base);
		}
		const auto n_{static_cast<std::ptrdiff_t>(size())};
		REQUIRE_("iter", r.end() - r.begin() == n_ && c.end() - c.begin() == n_ && c.cend() - c.cbegin() == n_ && r.rend() - r.rbegin() == n_ && c.crend() - c.crbegin() == n_ && c.rend() - c.rbegin() == n_, "iterator distance");
		std::size_t k{0};
		for(auto & x : c) { REQUIRE_("iter", std::addressof(x) == e + k, "range-for at element %zu", k); ++k; }
		REQUIRE_("iter", k == size(), "range-for over %zu elements", k);
		if(base && base != empty_vector->data()) for(std::size_t i{0}; i < n; ++i) REQUIRE_("content", Val<T>::get(base[i]) == content[i], "element %zu of the source is %d instead of %d", i, Val<T>::get(base[i]), content[i]);
	}
	void step(Chooser & ch) override {
		const int op{ch.choose(A_OPS)};
		ch.label(anames[op]);
		NOTE("  [%zu, %zu)", from, to);
		const int len{static_cast<int>(size())};
		const bool write{op >= WR_INDEX && op <= WR_RITER};
		if(write && (!writable || !size())) return;
		std::size_t i{0};
		int v{0};
		if(write) { i = op == WR_FRONT ? 0 : op == WR_BACK ? size() - 1 : static_cast<std::size_t>(ch.choose(len)); v = ch.choose(3); NOTE("  element %zu = %d", i, v); }
		const auto rvalue_ok{!writable};
		const auto live{Elem::live};
		const auto counts{Elem::copies + Elem::moves};
		switch(op) {
		case A_PTRS: case A_PTR_COUNT: {
			const auto f{static_cast<std::size_t>(ch.choose(n + 1))};
			const auto t{f + static_cast<std::size_t>(ch.choose(n + 1 - static_cast<int>(f)))};
			ref.kill();
			if(op == A_PTRS) ref.make(static_cast<Type *>(carray + f), static_cast<Type *>(carray + t));
			else ref.make(static_cast<Type *>(carray + f), t - f);
			refer(carray, f, t);
			break;
		}
		case A_NOTHING: ref.kill(); ref.make(); refer(nullptr, 0, 0); break;
		case A_CARRAY: if constexpr(!ConstSource || !writable) { from_range(carray, false); refer(carray, 0, n); } break;
		case A_STD_ARRAY: if constexpr(!ConstSource || !writable) { from_range(sarray, rvalue_ok && ch.flip()); refer(sarray.data(), 0, n); } break;
		case A_ARRAY: if constexpr(!ConstSource || !writable) { from_range(parray, rvalue_ok && ch.flip()); refer(parray.data(), 0, n); } break;
		case A_STD_VECTOR: if constexpr(!ConstSource || !writable) { from_range(svector, rvalue_ok && ch.flip()); refer(svector.data(), 0, n); } break;
		case A_VECTOR: if constexpr(!ConstSource || !writable) {
			if(ch.flip()) { from_range(*empty_vector, false); refer(empty_vector->data(), 0, 0); if(!base) content.clear(); }
			else { from_range(*pvector, false); refer(pvector->data(), 0, n); }
			break;
		}
		break;
		case A_REF: {
			const auto f{static_cast<std::size_t>(ch.choose(n + 1))};
			ptl::array_ref<Source<T>> o{carray + f, carray + n};
			if constexpr(!ConstSource || !writable) {
				ref.kill();
				switch(ch.choose(3)) {
				case 0: ref.make(o); break;
				case 1: ref.make(static_cast<const ptl::array_ref<Source<T>> &>(o)); break;
				case 2: ref.make(std::move(o)); break;
				}
				refer(carray, f, n);
			}
			break;
		}
		case A_INIT_LIST:
			if constexpr(!writable) {
				const auto f{[&](std::initializer_list<T> l) { //while the list lives
					ref.kill();
					ref.make(l);
					REQUIRE_("content", ref->data() == l.begin() && ref->size() == l.size(), "reference to an initializer_list of %zu elements has %zu", l.size(), ref->size());
				}};
				switch(ch.choose(3)) {
				case 0: f({}); break;
				case 1: f({carray[1]}); break;
				case 2: f({carray[1], carray[0], carray[2]}); break;
				}
				ref.kill();
				ref.make();
				refer(nullptr, 0, 0);
			}
			break;
		case A_FIRST: { const auto k{static_cast<std::size_t>(ch.choose(len + 1))}; const R s{ref->first(k)}; ref.kill(); ref.make(s); to = from + k; break; }
		case A_LAST: { const auto k{static_cast<std::size_t>(ch.choose(len + 1))}; const R s{ref->last(k)}; ref.kill(); ref.make(s); from = to - k; break; }
		case A_SUB: { const auto k{static_cast<std::size_t>(ch.choose(len + 1))}; const R s{ref->subrange(k)}; ref.kill(); ref.make(s); from += k; break; }
		case A_SUB_COUNT: {
			const auto k{static_cast<std::size_t>(ch.choose(len + 1))};
			const auto c{static_cast<std::size_t>(ch.choose(len + 1 - static_cast<int>(k)))};
			const auto d{ref->data()};
			const auto z{ref->size()};
			const R s{ref->subrange(k, c)};
			REQUIRE_("content", ref->data() == d && ref->size() == z, "subrange changed the reference");
			ref.kill();
			ref.make(s);
			from += k;
			to = from + c;
			break;
		}
		case A_COPYC: { mc::Box<R> c; if(ch.flip()) c.make(*ref); else c.make(static_cast<const R &>(*ref)); ref.kill(); ref.make(*c); break; }
		case A_MOVEC: { mc::Box<R> c; c.make(std::move(*ref)); ref.kill(); ref.make(std::move(*c)); break; }
		case A_ASSIGN: {
			const auto f{static_cast<std::size_t>(ch.choose(n + 1))};
			const R o{static_cast<Type *>(carray + f), static_cast<Type *>(carray + n)};
			mc::sut([&] { *ref = o; });
			REQUIRE_("content", o.data() == carray + f && o.size() == n - f, "assignment changed its source");
			refer(carray, f, n);
			break;
		}
		case A_ASSIGN_SELF: { R & alias{*ref}; *ref = alias; break; }
		case A_DEDUCE: {
			Source<T[n]> & a0{carray};
			Source<std::array<T, n>> & a1{sarray};
			Source<std::vector<T>> & a2{svector};
			Source<ptl::vector<T>> & a3{*pvector};
			Source<ptl::array<T, n>> & a4{parray};
			ptl::array_ref r0{a0};
			ptl::array_ref r1{a1};
			ptl::array_ref r2{a2};
			ptl::array_ref r3{a3};
			ptl::array_ref r4{a4};
			using E = ptl::array_ref<Source<T>>;
			static_assert(std::is_same_v<decltype(r0), E> && std::is_same_v<decltype(r1), E> && std::is_same_v<decltype(r2), E> && std::is_same_v<decltype(r3), E> && std::is_same_v<decltype(r4), E>);
			REQUIRE_("content", r0.data() == carray && r1.data() == sarray.data() && r2.data() == svector.data() && r3.data() == pvector->data() && r4.data() == parray.data(), "deduced reference refers elsewhere");
			REQUIRE_("content", r0.size() == n && r1.size() == n && r2.size() == n && r3.size() == n && r4.size() == n, "deduced reference of a different size");
			break;
		}
		case A_AT_BAD: {
			const std::size_t bad[]{size(), size() + 1, static_cast<std::size_t>(-1), static_cast<std::size_t>(-1) - from, std::size_t{1} << 63, static_cast<std::size_t>(-1) / sizeof(T) + (sizeof(T) > 1)};
			const auto k{ch.pick(bad)};
			const auto o{mc::sut([&] { (void)ref->at(k); })};
			REQUIRE_("access", k < size() || o == mc::RANGE, "at(%zu) of %zu elements did not throw out_of_range", k, size());
			break;
		}
		}
		if(!write) REQUIRE_("content", Elem::live == live && (op == A_INIT_LIST || Elem::copies + Elem::moves == counts), "%s copied, moved or destroyed elements", anames[op]);
		if constexpr(writable) {
			if(write) {
				auto value{Val<T>::mk(v)};
				auto & r{*ref};
				const auto d{static_cast<std::ptrdiff_t>(i)};
				const bool constant{ch.flip()}; // constness of the reference is not that of the elements
				const auto & c{r};
				switch(op) {
				case WR_INDEX: (constant ? c[i] : r[i]) = value; break;
				case WR_AT: (constant ? c.at(i) : r.at(i)) = value; break;
				case WR_FRONT: (constant ? c.front() : r.front()) = value; break;
				case WR_BACK: (constant ? c.back() : r.back()) = value; break;
				case WR_DATA: (constant ? c.data() : r.data())[i] = value; break;
				case WR_ITER: r.begin()[d] = value; break;
				case WR_RITER: *(r.rbegin() + d) = value; break;
				}
				content[from + (op == WR_RITER ? size() - 1 - i : i)] = v;
			}
		}
		check();
		if constexpr(writable) { //back to the initial content
			mc::NoFaults nf;
			if(write) {
				constexpr int initial[]{0, 1, 2, 0, 1};
				for(int q{0}; q < n; ++q)
					if(content[static_cast<std::size_t>(q)] != initial[q]) { auto value{Val<T>::mk(initial[q])}; base[q] = value; content[static_cast<std::size_t>(q)] = initial[q]; }
			}
		}
	}
};

//! sizes and offsets beyond 32 bits: address space is reserved, nothing is read
struct HugeWorld : mc::World {
	static constexpr std::size_t total{(std::size_t{1} << 33) + 64};
	static char * region() { static char * const p{static_cast<char *>(::mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0))}; return p; }
	using A = ptl::array_ref<const char>;
	S s{region(), total};
	A a{region(), total};
	std::size_t from{0}, to{total};
	std::string key() override { return fmt("%zu..%zu", from, to); }
	void step(Chooser & ch) override {
		static const char * const n[]{"remove_prefix", "remove_suffix", "substr(o)", "substr(o, n)", "first", "last", "rebuild"};
		const int op{ch.choose(7)};
		ch.label(n[op]);
		const auto len{to - from};
		std::vector<std::size_t> sizes;
		for(auto c : {std::size_t{0}, std::size_t{1}, std::size_t{1} << 31, (std::size_t{1} << 32) - 1, std::size_t{1} << 32, (std::size_t{1} << 32) + 1, len - 1, len}) if(c <= len) sizes.push_back(c);
		const auto k{ch.pick(sizes)};
		switch(op) {
		case 0: s.remove_prefix(k); a = a.subrange(k); from += k; break;
		case 1: s.remove_suffix(k); a = a.first(len - k); to -= k; break;
		case 2: s = s.substr(k); a = a.subrange(k); from += k; break;
		case 3: { const auto c{ch.pick(sizes)}; if(k + c > len) return; s = s.substr(k, c); a = a.subrange(k, c); from += k; to = from + c; break; }
		case 4: s = s.substr(0, k); a = a.first(k); to = from + k; break;
		case 5: s = s.substr(len - k, k); a = a.last(k); from = to - k; break;
		case 6: s = S{std::string_view(region() + from, len)}; a = k & 1 ? A{region() + from, region() + to} : A{region() + from, len}; break;
		}
		const auto z{to - from};
		const auto d{static_cast<std::ptrdiff_t>(z)};
		REQUIRE_("content", s.data() == region() + from && s.size() == z && s.empty() == !z, "string_ref [%td, +%zu) instead of [%zu, +%zu)", s.data() - region(), s.size(), from, z);
		REQUIRE_("content", a.data() == region() + from && a.size() == z && a.empty() == !z, "array_ref [%td, +%zu) instead of [%zu, +%zu)", a.data() - region(), a.size(), from, z);
		REQUIRE_("content", std::string_view{s}.size() == z, "string_view of %zu characters", std::string_view{s}.size());
		REQUIRE_("iter", s.end() - s.begin() == d && a.end() - a.begin() == d && s.rend() - s.rbegin() == d && a.crend() - a.crbegin() == d && s.begin() + d == s.end() && a.begin() + d == a.end() && a.end() - d == a.begin(), "iterator distances");
		for(auto i : sizes)
			if(i < z) {
				REQUIRE_("access", &s[i] == region() + from + i && &a[i] == region() + from + i && &s.at(i) == &s[i] && &a.at(i) == &a[i], "element %zu", i);
				REQUIRE_("iter", &s.begin()[static_cast<std::ptrdiff_t>(i)] == &s[i] && &a.begin()[static_cast<std::ptrdiff_t>(i)] == &s[i], "iterator to element %zu", i);
			}
		if(z) REQUIRE_("access", &s.back() == region() + to - 1 && &a.back() == region() + to - 1 && &s.front() == region() + from && &a.front() == region() + from, "front or back");
		const std::size_t bad[]{z, z + 1, z + (std::size_t{1} << 32), static_cast<std::size_t>(-1)};
		for(auto i : bad) {
			REQUIRE_("access", mc::sut([&] { (void)s.at(i); }) == mc::RANGE, "at(%zu) of %zu characters", i, z);
			REQUIRE_("access", mc::sut([&] { (void)a.at(i); }) == mc::RANGE, "at(%zu) of %zu elements", i, z);
		}
	}
};

//! what must not be accepted as a source; each fact is a compile-time constant of the current headers
struct Base { int a; };
struct Derived : Base { int b; };
struct ConstraintWorld : mc::World {
	template<typename R, typename A> static constexpr bool from{std::is_constructible_v<R, A>};
	std::string key() override { return ""; }
	void step(Chooser & ch) override {
		using Int = ptl::array_ref<int>;
		using CInt = ptl::array_ref<const int>;
		using B = ptl::array_ref<Base>;
		using CB = ptl::array_ref<const Base>;
		struct Fact { bool holds; const char * what; };
		const Fact facts[]{
			{!from<Int, const std::vector<int> &>, "array_ref<int> from const std::vector<int>"},
			{!from<Int, const std::array<int, 3> &>, "array_ref<int> from const std::array<int>"},
			{!from<Int, const ptl::vector<int> &>, "array_ref<int> from const vector<int>"},
			{!from<Int, const ptl::array<int, 3> &>, "array_ref<int> from const array<int>"},
			{!from<Int, const int(&)[3]>, "array_ref<int> from const int[3]"},
			{!from<Int, CInt>, "array_ref<int> from array_ref<const int>"},
			{!from<Int, std::initializer_list<int>>, "array_ref<int> from initializer_list<int>"},
			{!from<Int, std::vector<long> &> && !from<CInt, std::vector<long> &> && !from<CInt, std::vector<short> &> && !from<CInt, std::vector<unsigned> &>, "array_ref<int> from a range of another type"},
			{!from<Int, std::list<int> &> && !from<CInt, std::list<int> &> && !from<CInt, std::deque<int> &>, "array_ref from a non-contiguous range"},
			{!from<B, std::vector<Derived> &> && !from<CB, std::vector<Derived> &> && !from<CB, const std::vector<Derived> &>, "array_ref<base> from std::vector<derived>"},
			{!from<B, std::array<Derived, 2> &> && !from<CB, std::array<Derived, 2> &>, "array_ref<base> from std::array<derived>"},
			{!from<B, Derived(&)[2]> && !from<CB, Derived(&)[2]>, "array_ref<base> from derived[2]"},
			{!from<B, ptl::array_ref<Derived>> && !from<CB, ptl::array_ref<Derived>> && !from<CB, ptl::array_ref<const Derived>>, "array_ref<base> from array_ref<derived>"},
			{!from<ptl::array_ref<const char>, std::vector<bool> &>, "array_ref from std::vector<bool>"},
			{!from<CInt, int>, "array_ref<const int> from int"},
			{from<CInt, Int> && from<CInt, Int &> && from<CInt, std::vector<int> &> && from<CInt, const std::vector<int> &> && from<CInt, int(&)[3]> && from<Int, int(&)[3]>, "conversions that are needed"},
		};
		const auto & f{facts[ch.choose(static_cast<int>(std::size(facts)))]};
		ch.label("sources");
		NOTE("%s", f.what);
		REQUIRE_("sources", f.holds, "wrong answer for %s", f.what);
	}
};

template<typename T, bool C>
mc::Model array_model(const char * name) {
	mc::Model m;
	m.name = fmt("array_ref<%s>%s", name, C ? " to const sources" : "");
	m.make = [] { return new ArrayRefWorld<T, C>; };
	m.depth = 60;
	return m;
}
}

mc::Plan plan(const std::string & p, bool thorough) {
	mc::Plan r;
	if(p != "C22")
		for(int content{0}; content < 3; ++content)
			for(int n : {0, 1, 5, thorough ? 10 : 7}) {
				mc::Model m;
				m.name = fmt("string_ref into %d characters (%d)", n, content);
				m.make = [n, content] { return new StringRefWorld{n, content}; };
				m.depth = 60;
				r.models.push_back(m);
			}
	if(p != "C21" && p != "C28") {
		r.models.push_back(array_model<int, false>("int"));
		r.models.push_back(array_model<Elem, false>("tracked"));
		r.models.push_back(array_model<const Elem, false>("const tracked"));
		r.models.push_back(array_model<const Elem, true>("const tracked"));
		r.models.push_back(array_model<const unsigned char, true>("const unsigned char"));
		r.models.push_back(array_model<mc::Amp, false>("tracked, operator& overloaded"));
		if(p == "C22") {
			mc::Model m;
			m.name = "array_ref sources";
			m.make = [] { return new ConstraintWorld; };
			r.models.push_back(m);
		}
	}
	if(p != "C28" && p != "C26") {
		mc::Model m;
		m.name = "references of more than 4 GiB";
		m.make = [] { return new HugeWorld; };
		m.depth = thorough ? 4 : 3;
		r.models.push_back(m);
	}
	if(p == "C21") r.mask = {"content", "access", "iter", "order", "hash"};
	else if(p == "C22") r.mask = {"content", "access", "iter", "sources", "life"};
	else if(p == "C26") r.mask = {"layout"};
	else if(p == "C28") r.mask = {"order", "hash"};
	else if(p == "C29") r.mask = {"iter"};
	else if(p == "C30") r.mask = {"access"};
	return r;
}
