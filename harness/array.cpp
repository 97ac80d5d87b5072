// array against an abstract fixed-size sequence
#include <ptl/array.hpp>
#include "values.hpp"

using mc::Chooser;
using mc::Elem;
using mc::Val;
using mc::fmt;
using std::get;

namespace mc {
template<> struct Val<ptl::array<Elem, 2>> {
	using T = ptl::array<Elem, 2>;
	static constexpr bool tracked{false};
	static T mk(int i) { return quietly([&] { return T{Elem{i / 2}, Elem{i % 2}}; }); }
	static int get(const T & t) { t[0].need("read"); t[1].need("read"); return t[0].v * 2 + t[1].v; }
	static constexpr int zero{0};
};
}

namespace {
enum Op {
	DEFAULT, VALUES_LVALUE, VALUES_CONST, VALUES_RVALUE, VALUES_MIXED,
	C_COPY, C_COPY_CONST, C_MOVE, A_COPY, A_COPY_CONST, A_MOVE, A_SELF, A_SELF_MOVE,
	SWAP, SWAP_FRIEND, SWAP_OTHER, SWAP_SELF,
	W_INDEX, W_AT, W_FRONT, W_BACK, W_GET, W_DATA, W_ITER, W_RITER, W_MOVE_IN, W_FOR, W_BIND, MOVE_OUT_GET, MOVE_OUT_BIND,
	FILL, FILL_CONST, FILL_OWN, AT_BAD, OPS
};
const char * const names[]{"default", "values (lvalues)", "values (const lvalues)", "values (rvalues)", "values (mixed)",
	"copy", "copy const", "move", "copy-assign", "copy-assign const", "move-assign", "self-assign", "self-move",
	"swap", "swap(a, b)", "other.swap", "self-swap",
	"a[i] = ", "a.at(i) = ", "front() = ", "back() = ", "get<i>(a) = ", "data()[i] = ", "*(begin() + i) = ", "*(rbegin() + i) = ", "a[i] = move", "range-for =", "auto & [..] = a", "get<i>(move(a))", "auto [..] = move(a)",
	"fill", "fill(const)", "fill(own element)", "at out of range"};

template<typename T, std::size_t N> struct World : mc::World {
	using A = ptl::array<T, N>;
	using Ref = std::vector<int>;
	mc::Box<A> a, b;
	Ref ra, rb;
	int alphabet;
	bool started{false};
	explicit World(int alphabet) : alphabet{alphabet} { Elem::reset(); }

	static std::string show(const Ref & r) { std::string s{"["}; for(auto i : r) s += " " + std::to_string(i); return s + " ]"; }
	static Ref read(const A & x) { Ref r; for(std::size_t i{0}; i < N; ++i) r.push_back(Val<T>::get(x.data()[i])); return r; }
	Ref choose_values(Chooser & ch) { Ref r; for(std::size_t i{0}; i < N; ++i) r.push_back(ch.choose(alphabet)); return r; }

	template<std::size_t... I, typename Get>
	static auto make_from(mc::Box<A> & box, std::index_sequence<I...>, Get get) { (void)get; return box.make(get(std::integral_constant<std::size_t, I>{})...); }

	//! constructs from the first k values in the given category, the rest is value-initialised
	template<std::size_t K>
	static mc::Outcome build(mc::Box<A> & box, const Ref & r, int how) {
		if constexpr(K > N) { (void)box; (void)r; (void)how; return mc::OTHER; }
		else {
			std::vector<std::unique_ptr<mc::Made<T>>> v;
			for(std::size_t i{0}; i < K; ++i) v.push_back(std::make_unique<mc::Made<T>>(r[i]));
			constexpr std::make_index_sequence<K> seq{};
			mc::Outcome o{mc::OK};
			if(how == VALUES_LVALUE) o = make_from(box, seq, [&](auto i) -> T & { return **v[i]; });
			else if(how == VALUES_CONST) o = make_from(box, seq, [&](auto i) -> const T & { return **v[i]; });
			else if(how == VALUES_RVALUE) o = make_from(box, seq, [&](auto i) -> T && { return std::move(**v[i]); });
			else o = make_from(box, seq, [&](auto i) -> decltype(auto) {
				constexpr auto k{decltype(i)::value % 3};
				if constexpr(k == 0) return static_cast<T &&>(**v[i]);
				else if constexpr(k == 1) return static_cast<const T &>(**v[i]);
				else return static_cast<T &>(**v[i]);
			});
			if(how == VALUES_LVALUE || how == VALUES_CONST)
				for(std::size_t i{0}; i < K; ++i) REQUIRE_("content", Val<T>::get(**v[i]) == r[i], "construction changed the given lvalue %zu", i);
			return o;
		}
	}
	static mc::Outcome build_n(std::size_t k, mc::Box<A> & box, const Ref & r, int how) {
		switch(k) {
		case 0: return build<0>(box, r, how);
		case 1: return build<1>(box, r, how);
		case 2: return build<2>(box, r, how);
		case 3: return build<3>(box, r, how);
		case 4: return build<4>(box, r, how);
		default: return build<5>(box, r, how);
		}
	}

	template<std::size_t I>
	static void check_get(A & x) {
		const A & c{x};
		static_assert(std::is_same_v<decltype(get<I>(x)), T &> && std::is_same_v<decltype(get<I>(c)), const T &>);
		static_assert(std::is_same_v<decltype(get<I>(std::move(x))), T &&> && std::is_same_v<decltype(get<I>(std::move(c))), const T &&>);
		static_assert(std::is_same_v<std::tuple_element_t<I, A>, T> && std::is_same_v<std::tuple_element_t<I, const A>, const T>);
		auto && m{get<I>(std::move(x))};
		auto && cm{get<I>(std::move(c))};
		const T * const e{x.data() + I};
		REQUIRE_("access", std::addressof(get<I>(x)) == e && std::addressof(get<I>(c)) == e && std::addressof(m) == e && std::addressof(cm) == e, "get<%zu> is not element %zu", I, I);
	}
	template<std::size_t... I> static void check_gets(A & x, std::index_sequence<I...>) { (void)x; (check_get<I>(x), ...); }
	static void bind(A & x) {
		(void)x;
		if constexpr(N == 1) { auto & [p] = x; REQUIRE_("access", std::addressof(p) == x.data(), "structured binding"); }
		if constexpr(N == 2) { auto & [p, q] = x; REQUIRE_("access", std::addressof(p) == x.data() && std::addressof(q) == x.data() + 1, "structured binding"); }
		if constexpr(N == 3) {
			auto & [p, q, r] = x;
			REQUIRE_("access", std::addressof(p) == x.data() && std::addressof(q) == x.data() + 1 && std::addressof(r) == x.data() + 2, "structured binding");
			const auto & [s, t, u] = static_cast<const A &>(x);
			REQUIRE_("access", std::addressof(s) == x.data() && std::addressof(t) == x.data() + 1 && std::addressof(u) == x.data() + 2, "structured binding to const");
		}
	}
	void check(mc::Box<A> & box, const Ref & r, const char * who) {
		A & x{*box};
		const A & c{x};
		REQUIRE_("content", x.size() == N && A::size() == N && x.max_size() == N && x.empty() == (N == 0) && std::tuple_size_v<A> == N && std::size(x) == N, "%s: size %zu instead of %zu", who, x.size(), N);
		REQUIRE_("access", x.data() == c.data(), "%s: data() of const array differs", who);
		if constexpr(N != 0) REQUIRE_("content", static_cast<const void *>(x.data()) == box.raw() && box.inside(x.data() + N - 1), "%s: elements are not inside the array", who);
		if constexpr(N != 0) REQUIRE_("layout", sizeof(A) == N * sizeof(T) && alignof(A) == alignof(T) && static_cast<const void *>(c.data()) == box.raw(), "array of %zu elements has %zu bytes, elements at offset %td", N, sizeof(A), reinterpret_cast<const char *>(c.data()) - static_cast<const char *>(box.raw()));
		else REQUIRE_("layout", sizeof(A) == 8 && alignof(A) == 8, "array without elements has %zu bytes", sizeof(A));
		const auto have{read(c)};
		REQUIRE_("content", have == r, "%s: %s instead of %s", who, show(have).c_str(), show(r).c_str());
		mc::Paused p;
		for(std::size_t i{0}; i < N; ++i) {
			const T * const e{c.data() + i};
			REQUIRE_("access", std::addressof(x[i]) == e && std::addressof(c[i]) == e && std::addressof(x.at(i)) == e && std::addressof(c.at(i)) == e, "%s: access to element %zu", who, i);
			REQUIRE_("iter", std::addressof(*(x.begin() + static_cast<std::ptrdiff_t>(i))) == e && std::addressof(c.begin()[static_cast<std::ptrdiff_t>(i)]) == e && std::addressof(x.rbegin()[static_cast<std::ptrdiff_t>(N - 1 - i)]) == e && std::addressof(c.crbegin()[static_cast<std::ptrdiff_t>(N - 1 - i)]) == e, "%s: iteration misses element %zu", who, i);
		}
		if constexpr(N != 0) {
			REQUIRE_("access", std::addressof(x.front()) == c.data() && std::addressof(c.front()) == c.data() && std::addressof(x.back()) == c.data() + N - 1 && std::addressof(c.back()) == c.data() + N - 1, "%s: front or back", who);
			check_gets(x, std::make_index_sequence<N>{});
			bind(x);
		}
		REQUIRE_("iter", x.end() - x.begin() == static_cast<std::ptrdiff_t>(N) && c.end() - c.begin() == static_cast<std::ptrdiff_t>(N) && c.cend() - c.cbegin() == static_cast<std::ptrdiff_t>(N) && x.rend() - x.rbegin() == static_cast<std::ptrdiff_t>(N) && c.crend() - c.crbegin() == static_cast<std::ptrdiff_t>(N) && c.rend() - c.rbegin() == static_cast<std::ptrdiff_t>(N), "%s: iterator distances", who);
		std::size_t k{0};
		for(auto & e : c) { REQUIRE_("iter", std::addressof(e) == c.data() + k, "%s: range-for", who); ++k; }
		for(auto & e : x) { --k; (void)e; }
		REQUIRE_("iter", k == 0, "%s: range-for", who);
	}
	void compare() {
		const A & x{*a};
		const A & y{*b};
		const bool eq{ra == rb}, lt{ra < rb}, gt{rb < ra};
		REQUIRE_("order", (x == y) == eq && (x != y) == !eq && (x < y) == lt && (x > y) == gt && (x <= y) == !gt && (x >= y) == !lt, "comparison of %s and %s", show(ra).c_str(), show(rb).c_str());
		REQUIRE_("order", (y == x) == eq && (y != x) == !eq && (y < x) == gt && (y > x) == lt && (y <= x) == !lt && (y >= x) == !gt, "comparison of %s and %s", show(rb).c_str(), show(ra).c_str());
		REQUIRE_("order", x == x && !(x != x) && !(x < x) && !(x > x) && x <= x && x >= x, "comparison with itself");
	}
	template<std::size_t I> static void write_get(A & x, T & v) { get<I>(x) = v; }
	template<std::size_t I> static void take_get(A & x, std::vector<T> & out) { out.push_back(get<I>(std::move(x))); }
	template<std::size_t... I> static void dispatch_write(std::index_sequence<I...>, A & x, std::size_t i, T & v) { (void)x; (void)v; ((I == i ? write_get<I>(x, v) : void()), ...); }

	template<std::size_t... I> static void dispatch_take(std::index_sequence<I...>, A & x, std::size_t i, std::vector<T> & out) { (void)x; (void)out; ((I == i ? take_get<I>(x, out) : void()), ...); }

	void step(Chooser & ch) override {
		if(!started) { started = true; mc::quietly([&] { ::new(a.raw()) A(); }); a.assume_live(true); ra.assign(N, Val<T>::zero); }
		const int op{ch.choose(OPS)};
		ch.label(names[op]);
		const bool needs{op >= W_INDEX && op <= MOVE_OUT_BIND};
		if(N == 0 && (needs || op == FILL_OWN)) return;
		if((op == W_BIND || op == MOVE_OUT_BIND) && (N == 0 || N > 3)) return;
		const bool two{(op >= C_COPY && op <= A_MOVE) || op == SWAP || op == SWAP_FRIEND || op == SWAP_OTHER};
		const bool constructing{op <= C_MOVE};
		NOTE("  array %s", show(ra).c_str());
		Ref given;
		if(two || constructing) given = op == DEFAULT ? Ref{} : choose_values(ch);
		std::size_t k{0};
		if(op >= VALUES_LVALUE && op <= VALUES_MIXED) { k = static_cast<std::size_t>(ch.choose(static_cast<int>(N) + 1)); given.resize(k); NOTE("  given %s", show(given).c_str()); }
		const auto count_before{[&] { return mc::Elem::live; }};
		b.kill();
		if(two) { NOTE("  other %s", show(given).c_str()); mc::quietly([&] { build_n(N, b, given, VALUES_LVALUE); }); rb = given; }
		if(constructing) a.kill();
		std::size_t i{0};
		int v{0};
		if(needs) {
			i = op == W_FRONT ? 0 : op == W_BACK ? N - 1 : op == W_FOR || op == W_BIND || op == MOVE_OUT_BIND ? 0 : static_cast<std::size_t>(ch.choose(static_cast<int>(N)));
			v = ch.choose(alphabet);
			NOTE("  element %zu, value %d", i, v);
		}
		if(op == FILL || op == FILL_CONST) v = ch.choose(alphabet);
		if(op == FILL_OWN) { i = static_cast<std::size_t>(ch.choose(static_cast<int>(N))); v = ra[i]; }
		mc::Made<T> val{v};
		T & value{*val};
		std::vector<T> taken;
		taken.reserve(8);
		const auto before{ra};
		auto expect{ra};
		std::vector<bool> unspec(N, false);
		const auto live{count_before()};
		const auto ledger_n{mc::ledger.n};
		(void)ledger_n;
		mc::Outcome o{mc::OK};
		mc::arm(op == AT_BAD ? 0 : 1);
		const auto di{static_cast<std::ptrdiff_t>(i)};
		switch(op) {
		case DEFAULT: o = a.make(); expect.assign(N, Val<T>::zero); break;
		case VALUES_LVALUE: case VALUES_CONST: case VALUES_RVALUE: case VALUES_MIXED: o = build_n(k, a, given, op); expect = given; expect.resize(N, Val<T>::zero); break;
		case C_COPY: o = a.make(*b); expect = rb; break;
		case C_COPY_CONST: o = a.make(static_cast<const A &>(*b)); expect = rb; break;
		case C_MOVE: o = a.make(std::move(*b)); expect = rb; break;
		case A_COPY: o = mc::sut([&] { *a = *b; }); expect = rb; break;
		case A_COPY_CONST: o = mc::sut([&] { *a = static_cast<const A &>(*b); }); expect = rb; break;
		case A_MOVE: o = mc::sut([&] { *a = std::move(*b); }); expect = rb; break;
		case A_SELF: { const A & alias{*a}; o = mc::sut([&] { *a = alias; }); } break;
		case A_SELF_MOVE: { A & alias{*a}; o = mc::sut([&] { *a = std::move(alias); }); unspec.assign(N, true); } break;
		case SWAP: o = mc::sut([&] { a->swap(*b); }); expect = rb; rb = before; break;
		case SWAP_FRIEND: o = mc::sut([&] { swap(*a, *b); }); expect = rb; rb = before; break;
		case SWAP_OTHER: o = mc::sut([&] { b->swap(*a); }); expect = rb; rb = before; break;
		case SWAP_SELF: o = mc::sut([&] { a->swap(*a); }); break;
		case W_INDEX: o = mc::sut([&] { (*a)[i] = value; }); expect[i] = v; break;
		case W_AT: o = mc::sut([&] { a->at(i) = value; }); expect[i] = v; break;
		case W_FRONT: o = mc::sut([&] { a->front() = value; }); expect[i] = v; break;
		case W_BACK: o = mc::sut([&] { a->back() = value; }); expect[i] = v; break;
		case W_GET: o = mc::sut([&] { dispatch_write(std::make_index_sequence<N>{}, *a, i, value); }); expect[i] = v; break;
		case W_DATA: o = mc::sut([&] { a->data()[i] = value; }); expect[i] = v; break;
		case W_ITER: o = mc::sut([&] { *(a->begin() + di) = value; }); expect[i] = v; break;
		case W_RITER: o = mc::sut([&] { *(a->rbegin() + di) = value; }); expect[N - 1 - i] = v; break;
		case W_MOVE_IN: o = mc::sut([&] { (*a)[i] = std::move(value); }); expect[i] = v; break;
		case W_FOR: o = mc::sut([&] { for(auto & e : *a) e = value; }); expect.assign(N, v); break;
		case W_BIND:
			o = mc::sut([&] {
				if constexpr(N == 1) { auto & [x] = *a; x = value; }
				if constexpr(N == 2) { auto & [x, y] = *a; x = value; y = value; }
				if constexpr(N == 3) { auto & [x, y, z] = *a; x = value; z = value; (void)y; }
			});
			for(std::size_t q{0}; q < N; ++q) if(!(N == 3 && q == 1)) expect[q] = v;
			break;
		case MOVE_OUT_GET:
			o = mc::sut([&] { dispatch_take(std::make_index_sequence<N>{}, *a, i, taken); });
			if constexpr(N != 0) {
				if(o == mc::OK) REQUIRE_("content", taken.size() == 1 && Val<T>::get(taken[0]) == before[i], "get<%zu>(move(a)) yielded %d", i, Val<T>::get(taken.at(0)));
				unspec[i] = true;
			}
			break;
		case MOVE_OUT_BIND:
			if constexpr(N == 2) {
				o = mc::sut([&] { auto [x, y] = std::move(*a); taken.push_back(std::move(x)); taken.push_back(std::move(y)); });
				if(o == mc::OK) REQUIRE_("content", Val<T>::get(taken[0]) == before[0] && Val<T>::get(taken[1]) == before[1], "auto [x, y] = move(a)");
				unspec.assign(N, true);
			}
			break;
		case FILL: o = mc::sut([&] { a->fill(value); }); expect.assign(N, v); break;
		case FILL_CONST: o = mc::sut([&] { a->fill(static_cast<const T &>(value)); }); expect.assign(N, v); break;
		case FILL_OWN: if constexpr(N != 0) { o = mc::sut([&] { a->fill((*a)[i]); }); expect.assign(N, v); } break;
		case AT_BAD: {
			const std::size_t bad[]{N, N + 1, N + 7, static_cast<std::size_t>(-1), static_cast<std::size_t>(-1) / sizeof(T) + (sizeof(T) > 1), std::size_t{1} << 63, std::size_t{1} << 32, (std::size_t{1} << 32) + (N ? N - 1 : 0)};
			const auto idx{ch.pick(bad)};
			const bool c{ch.flip()};
			NOTE("  index %zu", idx);
			o = mc::sut([&] { if(c) (void)static_cast<const A &>(*a).at(idx); else (void)a->at(idx); });
			REQUIRE_("access", o == mc::RANGE, "at(%zu) of %zu elements did not throw out_of_range (%s)", idx, N, mc::outcome_name(o));
			o = mc::OK;
			break;
		}
		}
		const auto faults{mc::fault_count};
		mc::arm(0);
		if(o != mc::OK) REQUIRE_("throws", faults && (o == mc::INJECTED || o == mc::BAD_ALLOC), "%s threw %s", names[op], mc::outcome_name(o));
		if(op == SWAP || op == SWAP_FRIEND || op == SWAP_OTHER || op == SWAP_SELF) REQUIRE_("throws", !faults, "swap performed operations that may fail");
		if(o != mc::OK) {
			if(constructing) { REQUIRE_("content", !a.alive(), "object alive after its construction failed"); if constexpr(Val<T>::tracked) for(std::size_t q{0}; q < N; ++q) REQUIRE_("life", !Val<T>::lives(static_cast<char *>(a.raw()) + q * sizeof(T)), "element %zu still alive after the construction failed", q); mc::quietly([&] { ::new(a.raw()) A(); }); a.assume_live(true); expect.assign(N, Val<T>::zero); }
			else { //element-wise operation: every element is old, new, or (moved from, string) unspecified
				const auto now{read(*a)};
				for(std::size_t q{0}; q < N; ++q) {
					if(Val<T>::tracked) REQUIRE_("content", now[q] == before[q] || now[q] == expect[q], "%s failed and left %d in element %zu", names[op], now[q], q);
					expect[q] = now[q];
				}
				if(std::any_of(now.begin(), now.end(), [&](int x) { return x < 0 || x >= alphabet; })) { mc::quietly([&] { a.kill(); ::new(a.raw()) A(); }); a.assume_live(true); expect.assign(N, Val<T>::zero); }
			}
		} else if(op == A_SELF_MOVE || op == MOVE_OUT_GET || op == MOVE_OUT_BIND) {
			const auto now{read(*a)};
			if(op == MOVE_OUT_GET) for(std::size_t q{0}; q < N; ++q) if(!unspec[q]) REQUIRE_("content", now[q] == before[q], "moving out element %zu changed element %zu", i, q);
			mc::quietly([&] { a.kill(); build_n(N, a, before, VALUES_LVALUE); });
			expect = before;
		}
		if constexpr(Val<T>::tracked) {
			const long now{mc::Elem::live - static_cast<long>(taken.size())};
			REQUIRE_("life", now - live == (constructing ? static_cast<long>(N) : 0), "%s: %ld elements too many alive", names[op], now - live - (constructing ? static_cast<long>(N) : 0));
		}
		ra = expect;
		if(op == W_INDEX && o == mc::OK) REQUIRE_("content", Val<T>::get(value) == v, "argument changed");
		check(a, ra, "array");
		if(two && o == mc::OK) {
			if(op == C_MOVE || op == A_MOVE) { //still valid
				for(std::size_t q{0}; q < N; ++q) (void)Val<T>::get((*b)[q]);
				mc::quietly([&] { b.kill(); build_n(N, b, rb, VALUES_LVALUE); });
			}
			check(b, rb, "other");
			if(ch.fresh()) compare();
			if constexpr(N != 0) { //independence
				if(ch.fresh()) {
					mc::NoFaults nf;
					mc::Made<T> w{(rb[0] + 1) % alphabet};
					mc::sut([&] { (*b)[0] = *w; });
					check(a, ra, "array after a change of the other");
				}
			}
		}
		mc::Scope s;
		taken.clear();
	}
	std::string key() override { return show(ra); }
};

template<typename T, std::size_t N>
mc::Model model(const char * name, bool faults, int alphabet) {
	mc::Model m;
	m.name = fmt("array<%s, %zu>%s", name, N, faults ? " with faults" : "");
	m.make = [alphabet] { return new World<T, N>{alphabet}; };
	m.depth = 40;
	m.faults = faults;
	return m;
}
}

mc::Plan plan(const std::string & p, bool thorough) {
	mc::Plan r;
	auto & m{r.models};
	for(int f{0}; f < (p == "C19" ? 2 : 1); ++f) {
		m.push_back(model<Elem, 0>("tracked", f, 3));
		m.push_back(model<Elem, 1>("tracked", f, 3));
		m.push_back(model<Elem, 2>("tracked", f, 3));
		m.push_back(model<Elem, 3>("tracked", f, thorough ? 3 : 2));
		m.push_back(model<mc::Amp, 2>("tracked, operator& overloaded", f, 2));
		m.push_back(model<ptl::string, 2>("string", f, 3));
		m.push_back(model<ptl::array<Elem, 2>, 2>("array<tracked, 2>", f, thorough ? 4 : 3));
		if(!f) {
			m.push_back(model<int, 0>("int", f, 3));
			m.push_back(model<int, 3>("int", f, thorough ? 3 : 2));
			m.push_back(model<unsigned char, 2>("unsigned char", f, 3));
			m.push_back(model<double, 1>("double", f, 3));
			m.push_back(model<mc::Ordered, 2>("ordered", f, 3));
			m.push_back(model<ptl::string, 0>("string", f, 3));
		}
		if(thorough || !f) m.push_back(model<Elem, 5>("tracked", f, 2));
	}
	if(p == "C19") r.mask = {"content", "access", "iter", "order", "throws", "life", "leak", "mem"};
	else if(p == "C26") r.mask = {"layout"};
	else if(p == "C28") r.mask = {"order"};
	else if(p == "C30") r.mask = {"access"};
	else if(p == "C33") r.mask = {"content", "life", "leak"};
	return r;
}
