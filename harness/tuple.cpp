// tuple against an abstract product of its members
#include <ptl/tuple.hpp>
#include "values.hpp"

using mc::Chooser;
using mc::Elem;
using mc::Val;
using mc::fmt;

namespace {
enum Op {
	VALUES_LVALUE, VALUES_CONST, VALUES_RVALUE, VALUES_MIXED,
	C_COPY, C_COPY_CONST, C_MOVE, C_MOVE_CONST, A_COPY, A_COPY_CONST, A_MOVE, A_SELF, A_SELF_MOVE,
	SWAP, SWAP_FRIEND, SWAP_OTHER, SWAP_SELF,
	W_GET, W_GET_MOVE, W_BIND, TAKE_GET, TAKE_GET_CONST, BIND_COPY, BIND_MOVE, OPS
};
const char * const names[]{"values (lvalues)", "values (const lvalues)", "values (rvalues)", "values (mixed)",
	"copy", "copy const", "move", "move const", "copy-assign", "copy-assign const", "move-assign", "self-assign", "self-move",
	"swap", "swap(a, b)", "other.swap", "self-swap",
	"get<i>() = ", "get<i>() = move", "auto & [..] = a", "move(a).get<i>()", "move(const a).get<i>()", "auto [..] = a", "auto [..] = move(a)"};

template<typename... Ts> struct World : mc::World {
	static constexpr std::size_t N{sizeof...(Ts)};
	using A = ptl::tuple<Ts...>;
	using Ref = std::vector<int>;
	using Seq = std::make_index_sequence<N>;
	template<std::size_t I> using Type = std::tuple_element_t<I, std::tuple<Ts...>>;
	static_assert(std::tuple_size_v<A> == N);
	mc::Box<A> a, b;
	Ref ra, rb;
	int alphabet;
	bool started{false};
	explicit World(int alphabet) : alphabet{alphabet} { Elem::reset(); }

	static std::string show(const Ref & r) { std::string s{"("}; for(auto i : r) s += " " + std::to_string(i); return s + " )"; }
	template<std::size_t... I> static Ref read_(const A & x, std::index_sequence<I...>) { (void)x; return Ref{Val<Ts>::get(x.template get<I>())...}; }
	static Ref read(const A & x) { return read_(x, Seq{}); }
	Ref choose_values(Chooser & ch) { Ref r; for(std::size_t i{0}; i < N; ++i) r.push_back(ch.choose(alphabet)); return r; }

	template<std::size_t... I>
	static mc::Outcome build_(mc::Box<A> & box, const Ref & r, int how, std::index_sequence<I...>) {
		const std::tuple<std::unique_ptr<mc::Made<Ts>>...> v{std::make_unique<mc::Made<Ts>>(r[I])...};
		mc::Outcome o{mc::OK};
		if(how == VALUES_LVALUE) o = box.make(static_cast<Ts &>(**std::get<I>(v))...);
		else if(how == VALUES_CONST) o = box.make(static_cast<const Ts &>(**std::get<I>(v))...);
		else if(how == VALUES_RVALUE) o = box.make(static_cast<Ts &&>(**std::get<I>(v))...);
		else o = box.make(static_cast<std::conditional_t<I % 3 == 0, Ts &&, std::conditional_t<I % 3 == 1, const Ts &, Ts &>>>(**std::get<I>(v))...);
		if(how == VALUES_LVALUE || how == VALUES_CONST) {
			const Ref after{Val<Ts>::get(**std::get<I>(v))...};
			REQUIRE_("content", after == r, "construction changed the given lvalues to %s", show(after).c_str());
		}
		return o;
	}
	static mc::Outcome build(mc::Box<A> & box, const Ref & r, int how) { return build_(box, r, how, Seq{}); }

	template<std::size_t I>
	static void check_get(mc::Box<A> & box) {
		using T = Type<I>;
		A & x{*box};
		const A & c{x};
		static_assert(std::is_same_v<decltype(x.template get<I>()), T &> && std::is_same_v<decltype(c.template get<I>()), const T &>);
		static_assert(std::is_same_v<decltype(std::move(x).template get<I>()), T &&> && std::is_same_v<decltype(std::move(c).template get<I>()), const T &&>);
		static_assert(std::is_same_v<std::tuple_element_t<I, A>, T> && std::is_same_v<std::tuple_element_t<I, const A>, const T>);
		auto && p{x.template get<I>()};
		auto && q{c.template get<I>()};
		auto && m{std::move(x).template get<I>()};
		auto && n{std::move(c).template get<I>()};
		const auto e{std::addressof(p)};
		REQUIRE_("access", std::addressof(q) == e && std::addressof(m) == e && std::addressof(n) == e, "get<%zu> denotes different objects", I);
		REQUIRE_("content", box.inside(e) && box.inside(reinterpret_cast<const char *>(e) + sizeof(T) - 1), "get<%zu> lies outside the tuple", I);
	}
	template<std::size_t... I> static void check_gets(mc::Box<A> & box, std::index_sequence<I...>) {
		(void)box;
		(check_get<I>(box), ...);
		const std::vector<std::pair<const char *, std::size_t>> ranges{{reinterpret_cast<const char *>(std::addressof((*box).template get<I>())), sizeof(Type<I>)}...};
		for(std::size_t i{0}; i < N; ++i)
			for(std::size_t k{0}; k < i; ++k) REQUIRE_("content", ranges[i].first + ranges[i].second <= ranges[k].first || ranges[k].first + ranges[k].second <= ranges[i].first, "members %zu and %zu overlap", k, i);
	}
	static void bind(A & x) {
		(void)x;
		const A & c{x};
		(void)c;
		if constexpr(N == 1) { auto & [p] = x; auto & [q] = c; REQUIRE_("access", std::addressof(p) == std::addressof(x.template get<0>()) && std::addressof(q) == std::addressof(p), "structured binding"); }
		if constexpr(N == 2) { auto & [p, q] = x; auto & [r, s] = c; REQUIRE_("access", std::addressof(p) == std::addressof(x.template get<0>()) && std::addressof(q) == std::addressof(x.template get<1>()) && std::addressof(r) == std::addressof(p) && std::addressof(s) == std::addressof(q), "structured binding"); }
		if constexpr(N == 3) { auto & [p, q, r] = x; REQUIRE_("access", std::addressof(p) == std::addressof(x.template get<0>()) && std::addressof(q) == std::addressof(x.template get<1>()) && std::addressof(r) == std::addressof(x.template get<2>()), "structured binding"); }
	}
	//! packed, last member first
	template<std::size_t... I> static void layout(mc::Box<A> & box, std::index_sequence<I...>) {
		const std::size_t sizes[]{sizeof(Type<I>)..., 0};
		const void * const at[]{std::addressof(box->template get<I>())..., nullptr};
		std::size_t offset{0};
		for(std::size_t k{N}; k-- > 0;) {
			REQUIRE_("layout", at[k] == static_cast<const char *>(box.raw()) + offset, "member %zu is at offset %td instead of %zu", k, static_cast<const char *>(at[k]) - static_cast<const char *>(box.raw()), offset);
			offset += sizes[k];
		}
		REQUIRE_("layout", sizeof(A) == (N ? offset : 1) && alignof(A) == 1, "tuple has %zu bytes aligned at %zu instead of %zu", sizeof(A), alignof(A), offset);
	}
	void check(mc::Box<A> & box, const Ref & r, const char * who) {
		const auto have{read(*box)};
		REQUIRE_("content", have == r, "%s: %s instead of %s", who, show(have).c_str(), show(r).c_str());
		if constexpr(N != 0) check_gets(box, Seq{});
		bind(*box);
		layout(box, Seq{});
	}
	void compare() {
		const A & x{*a};
		const A & y{*b};
		const bool eq{ra == rb}, lt{ra < rb}, gt{rb < ra};
		REQUIRE_("order", (x == y) == eq && (x != y) == !eq && (x < y) == lt && (x > y) == gt && (x <= y) == !gt && (x >= y) == !lt, "comparison of %s and %s", show(ra).c_str(), show(rb).c_str());
		REQUIRE_("order", (y == x) == eq && (y != x) == !eq && (y < x) == gt && (y > x) == lt && (y <= x) == !lt && (y >= x) == !gt, "comparison of %s and %s", show(rb).c_str(), show(ra).c_str());
		REQUIRE_("order", x == x && !(x != x) && !(x < x) && !(x > x) && x <= x && x >= x, "comparison with itself");
	}
	template<std::size_t I> static mc::Outcome write(A & x, int v, bool move) {
		mc::Made<Type<I>> value{v};
		auto & val{*value};
		const auto o{mc::sut([&] { if(move) x.template get<I>() = std::move(val); else x.template get<I>() = static_cast<const Type<I> &>(val); })};
		if(!move) REQUIRE_("content", Val<Type<I>>::get(val) == v, "assignment changed its source");
		return o;
	}
	template<std::size_t I> static mc::Outcome take(A & x, int expect, bool constant) {
		mc::Box<Type<I>> t;
		const auto o{constant ? t.make(std::move(static_cast<const A &>(x)).template get<I>()) : t.make(std::move(x).template get<I>())};
		if(o == mc::OK) REQUIRE_("content", Val<Type<I>>::get(*t) == expect, "taking member %zu yielded %d instead of %d", I, Val<Type<I>>::get(*t), expect);
		if(o == mc::OK && constant) REQUIRE_("content", Val<Type<I>>::get(x.template get<I>()) == expect, "reading const member %zu changed it", I);
		return o;
	}
	template<typename F, std::size_t... I> static void with(std::size_t i, F f, std::index_sequence<I...>) { (void)i; (void)f; ((I == i ? f(std::integral_constant<std::size_t, I>{}) : void()), ...); }

	void reset(const Ref & r) { mc::quietly([&] { a.kill(); build(a, r, VALUES_LVALUE); }); }

	void step(Chooser & ch) override {
		if(!started) { started = true; ra.assign(N, 0); reset(ra); }
		const int op{ch.choose(OPS)};
		ch.label(names[op]);
		const bool needs{op == W_GET || op == W_GET_MOVE || op == TAKE_GET || op == TAKE_GET_CONST};
		if(needs && N == 0) return;
		const bool binds{op == W_BIND || op == BIND_COPY || op == BIND_MOVE};
		if(binds && (N == 0 || N > 3)) return;
		const bool two{(op >= C_COPY && op <= A_MOVE) || op == SWAP || op == SWAP_FRIEND || op == SWAP_OTHER};
		const bool constructing{op <= C_MOVE_CONST};
		NOTE("  tuple %s", show(ra).c_str());
		Ref given;
		if(two || constructing) given = choose_values(ch);
		std::size_t i{0};
		int v{0};
		if(needs) {
			i = static_cast<std::size_t>(ch.choose(static_cast<int>(N)));
			v = ch.choose(alphabet);
			NOTE("  member %zu, value %d", i, v);
		} else if(op == W_BIND) v = ch.choose(alphabet);
		b.kill();
		if(two) { NOTE("  other %s", show(given).c_str()); mc::quietly([&] { build(b, given, VALUES_LVALUE); }); rb = given; }
		if(constructing) a.kill();
		const auto before{ra};
		auto expect{ra};
		const auto live{Elem::live};
		bool disturbed{false};
		mc::Outcome o{mc::OK};
		mc::arm(1);
		switch(op) {
		case VALUES_LVALUE: case VALUES_CONST: case VALUES_RVALUE: case VALUES_MIXED: NOTE("  given %s", show(given).c_str()); o = build(a, given, op); expect = given; break;
		case C_COPY: o = a.make(*b); expect = rb; break;
		case C_COPY_CONST: o = a.make(static_cast<const A &>(*b)); expect = rb; break;
		case C_MOVE: o = a.make(std::move(*b)); expect = rb; break;
		case C_MOVE_CONST: o = a.make(static_cast<const A &&>(*b)); expect = rb; break;
		case A_COPY: o = mc::sut([&] { *a = *b; }); expect = rb; break;
		case A_COPY_CONST: o = mc::sut([&] { *a = static_cast<const A &>(*b); }); expect = rb; break;
		case A_MOVE: o = mc::sut([&] { *a = std::move(*b); }); expect = rb; break;
		case A_SELF: { const A & alias{*a}; o = mc::sut([&] { *a = alias; }); } break;
		case A_SELF_MOVE: { A & alias{*a}; o = mc::sut([&] { *a = std::move(alias); }); disturbed = true; } break;
		case SWAP: o = mc::sut([&] { a->swap(*b); }); expect = rb; rb = before; break;
		case SWAP_FRIEND: o = mc::sut([&] { swap(*a, *b); }); expect = rb; rb = before; break;
		case SWAP_OTHER: o = mc::sut([&] { b->swap(*a); }); expect = rb; rb = before; break;
		case SWAP_SELF: o = mc::sut([&] { a->swap(*a); }); break;
		case W_GET: case W_GET_MOVE: with(i, [&](auto k) { o = write<decltype(k)::value>(*a, v, op == W_GET_MOVE); }, Seq{}); expect[i] = v; break;
		case W_BIND:
			if constexpr(N == 2) {
				auto & [x, y] = *a;
				(void)x;
				y = Val<Type<1>>::mk(v);
				expect[1] = v;
			}
			if constexpr(N == 3) {
				auto & [x, y, z] = *a;
				(void)x; (void)z;
				y = Val<Type<1>>::mk(v);
				expect[1] = v;
			}
			break;
		case TAKE_GET: case TAKE_GET_CONST:
			with(i, [&](auto k) { o = take<decltype(k)::value>(*a, before[i], op == TAKE_GET_CONST); }, Seq{});
			if(op == TAKE_GET && o == mc::OK) {
				const auto now{read(*a)};
				for(std::size_t q{0}; q < N; ++q) if(q != i) REQUIRE_("content", now[q] == before[q], "taking member %zu changed member %zu", i, q);
				disturbed = true;
			}
			break;
		case BIND_COPY:
			if constexpr(N == 2) o = mc::sut([&] { auto [x, y] = *a; mc::Paused p; REQUIRE_("content", Val<Type<0>>::get(x) == before[0] && Val<Type<1>>::get(y) == before[1], "auto [x, y] = a"); });
			if constexpr(N == 3) o = mc::sut([&] { auto [x, y, z] = *a; mc::Paused p; REQUIRE_("content", Val<Type<0>>::get(x) == before[0] && Val<Type<1>>::get(y) == before[1] && Val<Type<2>>::get(z) == before[2], "auto [x, y, z] = a"); });
			break;
		case BIND_MOVE:
			if constexpr(N == 2) o = mc::sut([&] { auto [x, y] = std::move(*a); mc::Paused p; REQUIRE_("content", Val<Type<0>>::get(x) == before[0] && Val<Type<1>>::get(y) == before[1], "auto [x, y] = move(a)"); });
			if constexpr(N == 3) o = mc::sut([&] { auto [x, y, z] = std::move(*a); mc::Paused p; REQUIRE_("content", Val<Type<0>>::get(x) == before[0] && Val<Type<1>>::get(y) == before[1] && Val<Type<2>>::get(z) == before[2], "auto [x, y, z] = move(a)"); });
			disturbed = true;
			break;
		}
		const auto faults{mc::fault_count};
		mc::arm(0);
		if(o != mc::OK) REQUIRE_("throws", faults && (o == mc::INJECTED || o == mc::BAD_ALLOC), "%s threw %s", names[op], mc::outcome_name(o));
		if(op == SWAP || op == SWAP_FRIEND || op == SWAP_OTHER || op == SWAP_SELF || op == C_MOVE || op == A_MOVE) REQUIRE_("throws", !faults, "%s performed operations that may fail", names[op]);
		constexpr long tracked{(0 + ... + (Val<Ts>::tracked ? 1 : 0))};
		if constexpr(tracked) {
			const long extra{Elem::live - live};
			REQUIRE_("life", extra == (constructing && o == mc::OK ? tracked : 0), "%s: %ld members too many alive", names[op], extra);
		}
		if(o != mc::OK) {
			if(constructing) { REQUIRE_("content", !a.alive(), "object alive after its construction failed"); expect = before; reset(expect); }
			else {
				const auto now{read(*a)};
				const bool flags[]{Val<Ts>::tracked..., false};
				for(std::size_t q{0}; q < N; ++q) if(flags[q]) REQUIRE_("content", now[q] == before[q] || now[q] == expect[q], "%s failed and left %d in member %zu", names[op], now[q], q);
				expect = before;
				reset(expect);
			}
		} else if(disturbed) { (void)read(*a); expect = before; reset(expect); }
		ra = expect;
		check(a, ra, "tuple");
		if(two && o == mc::OK) {
			if(op == C_MOVE || op == A_MOVE) { (void)read(*b); mc::quietly([&] { b.kill(); build(b, rb, VALUES_LVALUE); }); }
			check(b, rb, "other");
			if(ch.fresh()) {
				compare();
				for(std::size_t q{0}; q < N; ++q) { //independence
					mc::NoFaults nf;
					with(q, [&](auto k) { write<decltype(k)::value>(*b, (rb[q] + 1) % alphabet, false); }, Seq{});
					rb[q] = (rb[q] + 1) % alphabet;
					check(b, rb, "other after a change");
					check(a, ra, "tuple after a change of the other");
				}
			}
		}
	}
	std::string key() override { return show(ra); }
};

template<typename... Ts>
void add(mc::Plan & r, const char * name, bool faults, int alphabet) {
	mc::Model m;
	m.name = fmt("tuple<%s>%s", name, faults ? " with faults" : "");
	m.make = [alphabet] { return new World<Ts...>{alphabet}; };
	m.depth = 40;
	m.faults = faults;
	r.models.push_back(m);
}
}

mc::Plan plan(const std::string & p, bool thorough) {
	mc::Plan r;
	for(int f{0}; f < (p == "C20" ? 2 : 1); ++f) {
		add<Elem>(r, "tracked", f, 3);
		add<Elem, Elem>(r, "tracked, tracked", f, 3);
		add<char, Elem, ptl::string>(r, "char, tracked, string", f, thorough ? 3 : 2);
		add<ptl::string, ptl::string>(r, "string, string", f, 3);
		add<ptl::optional<int>, mc::Amp>(r, "optional<int>, tracked with operator&", f, 3);
		if(!f) {
			add<>(r, "", f, 1);
			add<int>(r, "int", f, 3);
			add<int, char>(r, "int, char", f, 3);
			add<char, long long, unsigned char>(r, "char, long long, unsigned char", f, thorough ? 3 : 2);
			add<mc::Ordered, mc::Pod>(r, "ordered, aggregate", f, 3);
			add<double, int, char, long long, unsigned char>(r, "double, int, char, long long, unsigned char", f, 2);
		}
		if(thorough) add<Elem, char, Elem, int>(r, "tracked, char, tracked, int", f, 2);
	}
	if(p == "C20") r.mask = {"content", "access", "order", "throws", "life", "leak", "mem"};
	else if(p == "C26") r.mask = {"layout"};
	else if(p == "C28") r.mask = {"order"};
	else if(p == "C33") r.mask = {"content", "life", "leak"};
	return r;
}
