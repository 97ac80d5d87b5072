// function_ref against "which target is called, how, with what"
#include <ptl/function_ref.hpp>
#include "values.hpp"
#include <functional>

using mc::Chooser;
using mc::Elem;
using mc::Val;
using mc::fmt;

namespace {
//! what a target saw
struct Seen { int id; int overload; const void * self; int args; const void * addr[6]; int value[6]; bool rvalue_ok; };
Seen seen;
int calls;
bool throwing;
const void * const anywhere{&calls};

int value_of(int x) { return x; }
int value_of(long x) { return static_cast<int>(x); }
int value_of(const Elem & e) { e.need("read"); return e.v; }
int value_of(const std::unique_ptr<int> & p) { return p ? *p : -1; }
int value_of(const mc::Pod & p) { return p.a; }
template<typename... A> void arrive(int id, int overload, const void * self, A &... a) {
	mc::Paused p;
	++calls;
	seen = {id, overload, self, 0, {}, {}, true};
	((seen.addr[seen.args] = std::addressof(a), seen.value[seen.args++] = value_of(a)), ...);
}
Elem pool[8]{0, 1, 2, 3, 4, 5, 6, 7};
template<typename R> struct Result {
	static R make(int id) { return static_cast<R>(id * 100 + 1); }
	static bool good(R r, int id) { return r == static_cast<R>(id * 100 + 1); }
};
template<> struct Result<Elem> {
	static Elem make(int id) { return Elem{id * 100}; }
	static bool good(const Elem & e, int id) { return e.v == id * 100; }
};
template<> struct Result<Elem &> { static Elem & make(int id) { return pool[id]; } static bool good(Elem & e, int id) { return &e == &pool[id]; } };
template<> struct Result<const Elem &> { static const Elem & make(int id) { return pool[id]; } static bool good(const Elem & e, int id) { return &e == &pool[id]; } };
template<> struct Result<Elem &&> { static Elem && make(int id) { return std::move(pool[id]); } static bool good(Elem && e, int id) { return &e == &pool[id]; } };
template<> struct Result<std::unique_ptr<int>> { static std::unique_ptr<int> make(int id) { mc::Paused p; return std::make_unique<int>(id); } static bool good(std::unique_ptr<int> p, int id) { mc::Paused q; const bool r{p && *p == id}; p.reset(); return r; } };

enum { PLAIN, CONSTANT, BOTH, FUNCTION };
//! Kind: which call operators; NE: noexcept
template<int Kind, bool NE, typename R, typename... A> struct Functor;
#define BODY(overload) { arrive(id, overload, this, a...); if constexpr(!NE) { if(throwing) throw mc::Injected{}; } if constexpr(!std::is_void_v<R>) return Result<R>::make(id); }
template<bool NE, typename R, typename... A> struct Functor<PLAIN, NE, R, A...> {
	int id;
	R operator()(A... a) noexcept(NE) BODY(0)
	Functor * operator&() { mc::fail("call", "operator& of the target used"); return nullptr; }
};
template<bool NE, typename R, typename... A> struct Functor<CONSTANT, NE, R, A...> {
	int id;
	R operator()(A... a) const noexcept(NE) BODY(1)
};
template<bool NE, typename R, typename... A> struct Functor<BOTH, NE, R, A...> {
	int id;
	char pad[40];
	R operator()(A... a) & noexcept(NE) BODY(0)
	R operator()(A... a) const & noexcept(NE) BODY(1)
	R operator()(A... a) && noexcept(NE) BODY(2)
	R operator()(A... a) const && noexcept(NE) BODY(3)
};
#undef BODY
template<int Id, bool NE, typename R, typename... A> R function(A... a) noexcept(NE) {
	arrive(Id, -1, nullptr, a...);
	if constexpr(!NE) { if(throwing) throw mc::Injected{}; }
	if constexpr(!std::is_void_v<R>) return Result<R>::make(Id);
}

//! arguments: the same value is given each time; references denote pool elements
template<typename A> struct Arg;
template<> struct Arg<int> { static int make(int, int k) { return 1000 + k; } static bool good(const void *, int v, int, int k) { return v == 1000 + k; } };
template<> struct Arg<short> { static short make(int, int k) { return static_cast<short>(100 + k); } static bool good(const void *, int v, int, int k) { return v == 100 + k; } };
template<> struct Arg<Elem> { static Elem make(int s, int k) { mc::Paused p; return Elem{500 + s * 10 + k}; } static bool good(const void *, int v, int s, int k) { return v == 500 + s * 10 + k; } };
template<> struct Arg<Elem &> { static Elem & make(int s, int k) { return pool[4 + (s + k) % 4]; } static bool good(const void * p, int, int s, int k) { return p == &pool[4 + (s + k) % 4]; } };
template<> struct Arg<const Elem &> { static const Elem & make(int s, int k) { return pool[4 + (s + k) % 4]; } static bool good(const void * p, int, int s, int k) { return p == &pool[4 + (s + k) % 4]; } };
template<> struct Arg<Elem &&> { static Elem && make(int s, int k) { return std::move(pool[4 + (s + k) % 4]); } static bool good(const void * p, int, int s, int k) { return p == &pool[4 + (s + k) % 4]; } };
template<> struct Arg<std::unique_ptr<int>> { static std::unique_ptr<int> make(int s, int k) { return std::make_unique<int>(s + k); } static bool good(const void *, int v, int s, int k) { return v == s + k; } };

enum Op { C_TARGET, C_IMPLICIT, A_TARGET, C_COPY, C_COPY_CONST, C_MOVE, A_COPY, A_MOVE, A_SELF, CHAIN, NESTED, OPS };
const char * const names[]{"target", "implicit from target", "assign from target", "copy", "copy const", "move", "copy-assign", "move-assign", "self-assign", "chain of copies", "reference to a function_ref"};

template<typename Sig, bool Const, bool NE, typename R, typename... A> struct World : mc::World {
	using F = ptl::function_ref<Sig>;
	Functor<PLAIN, NE, R, A...> plain0{0}, plain1{1};
	Functor<CONSTANT, NE, R, A...> constant2{2};
	const Functor<CONSTANT, NE, R, A...> constant3{3};
	Functor<BOTH, NE, R, A...> both4{4, {}};
	const Functor<BOTH, NE, R, A...> both5{5, {}};
	using Ptr = R (*)(A...) noexcept(NE);
	using Ptr2 = R (*)(A...) noexcept(true);
	enum { TARGETS = 9 };
	mc::Box<F> r;
	int at{-1};
	World() { Elem::reset(); Elem::life_tag = "life"; for(int i{0}; i < 8; ++i) pool[i].v = i; }
	std::string key() override { return fmt("%d", at); }
	//! can the target be bound with this signature? (mutable call operators need a non-const signature)
	static bool allowed(int k) { return !Const || k > 1; }
	template<typename G> bool with(int k, G g) {
		switch(k) {
		case 0: if constexpr(!Const) g(plain0); else static_assert(!std::is_constructible_v<F, decltype(plain0) &>); break;
		case 1: if constexpr(!Const) g(plain1); break;
		case 2: g(constant2); break;
		case 3: g(constant3); break;
		case 4: g(both4); break;
		case 5: g(both5); break;
		case 6: g(function<6, NE, R, A...>); break;
		case 7: { Ptr p{&function<7, NE, R, A...>}; g(p); p = &function<6, NE, R, A...>; break; } // a copy of the pointer must be kept, not its address
		case 8: { Ptr2 const p{&function<8, true, R, A...>}; g(p); break; }
		}
		return true;
	}
	int expected_overload(int k) const { return k < 2 ? 0 : k < 4 ? 1 : k == 4 ? (Const ? 1 : 0) : k == 5 ? 1 : -1; }
	const void * expected_self(int k) const {
		const void * s[]{std::addressof(plain0), std::addressof(plain1), &constant2, &constant3, &both4, &both5, nullptr, nullptr, nullptr};
		return s[k];
	}
	template<std::size_t... I> void call(const F & f, int k, int salt, bool fail, std::index_sequence<I...>) {
		calls = 0;
		throwing = fail;
		const auto copies{Elem::copies};
		const auto live{Elem::live};
		bool good{true};
		const auto o{mc::sut([&] {
			if constexpr(std::is_void_v<R>) { static_assert(std::is_void_v<decltype(f(Arg<A>::make(salt, static_cast<int>(I))...))>); f(Arg<A>::make(salt, static_cast<int>(I))...); }
			else { static_assert(std::is_same_v<decltype(f(Arg<A>::make(salt, static_cast<int>(I))...)), R>); good = Result<R>::good(f(Arg<A>::make(salt, static_cast<int>(I))...), k); }
		})};
		throwing = false;
		static_assert(noexcept(std::declval<const F &>()(std::declval<A>()...)) == NE || (false || ... || !std::is_reference_v<A>));
		REQUIRE_("call", calls == 1, "the target was called %d times", calls);
		REQUIRE_("call", seen.id == k, "target %d was called instead of %d", seen.id, k);
		REQUIRE_("call", seen.overload == expected_overload(k), "call operator %d of target %d was called instead of %d (0: &, 1: const &, 2: &&, 3: const &&)", seen.overload, k, expected_overload(k));
		REQUIRE_("call", seen.self == expected_self(k), "target %d is a copy", k);
		REQUIRE_("call", seen.args == static_cast<int>(sizeof...(A)), "%d arguments", seen.args);
		const bool args[]{Arg<A>::good(seen.addr[I], seen.value[I], salt, static_cast<int>(I))..., true};
		for(std::size_t i{0}; i < sizeof...(A); ++i) REQUIRE_("call", args[i], "argument %zu arrived as %d", i, seen.value[i]);
		REQUIRE_("call", Elem::copies == copies, "%llu copies of arguments or results", static_cast<unsigned long long>(Elem::copies - copies));
		REQUIRE_("call", Elem::live == live, "%ld objects left by the call", Elem::live - live);
		if(fail && !NE) REQUIRE_("call", o == mc::INJECTED, "the exception of the target did not arrive (%s)", mc::outcome_name(o));
		else REQUIRE_("call", o == mc::OK && good, "wrong result of target %d (%s)", k, mc::outcome_name(o));
	}
	void check() {
		if(at < 0) return;
		std::index_sequence_for<A...> seq;
		call(*r, at, 0, false, seq);
		call(*r, at, 1, false, seq);
		if constexpr(!NE) if(at != 8) { call(*r, at, 2, true, seq); call(*r, at, 3, false, seq); }
	}
	void step(Chooser & ch) override {
		const int op{ch.choose(OPS)};
		ch.label(names[op]);
		NOTE("  referring to %d", at);
		if(at < 0 && op != C_TARGET && op != C_IMPLICIT) return;
		const bool takes{op <= A_TARGET || op == A_COPY || op == A_MOVE || op == CHAIN};
		int k{0};
		if(takes) { k = ch.choose(TARGETS); if(!allowed(k)) return; NOTE("  target %d", k); }
		const auto live{Elem::live};
		switch(op) {
		case C_TARGET: r.kill(); with(k, [&](auto & t) { r.make(t); }); at = k; break;
		case C_IMPLICIT: r.kill(); with(k, [&](auto & t) { r.make_by([&]() -> F { return t; }); }); at = k; break;
		case A_TARGET: with(k, [&](auto & t) { mc::sut([&] { *r = F{t}; }); }); at = k; break;
		case C_COPY: { mc::Box<F> c; c.make(*r); r.kill(); r.make(*c); break; }
		case C_COPY_CONST: { mc::Box<F> c; c.make(static_cast<const F &>(*r)); r.kill(); r.make(static_cast<const F &>(*c)); break; }
		case C_MOVE: { mc::Box<F> c; c.make(std::move(*r)); r.kill(); r.make(std::move(*c)); break; }
		case A_COPY: case A_MOVE: {
			mc::Box<F> o;
			with(k, [&](auto & t) { o.make(t); });
			F * ret{nullptr};
			mc::sut([&] { ret = op == A_COPY ? std::addressof(*r = static_cast<const F &>(*o)) : std::addressof(*r = std::move(*o)); });
			REQUIRE_("call", ret == r.raw(), "assignment did not return its target");
			if(op == A_COPY) { const auto keep{at}; call(*o, k, 0, false, std::index_sequence_for<A...>{}); (void)keep; }
			at = k;
			break;
		}
		case A_SELF: { F & alias{*r}; *r = alias; break; }
		case CHAIN: {
			mc::Box<F> c, o;
			c.make(*r);
			o.make(*c);
			with(k, [&](auto & t) { *r = F{t}; *c = F{t}; });
			*r = *o;
			break;
		}
		case NESTED: //a function_ref is itself a callable
			if constexpr(!NE) {
				ptl::function_ref<R(A...)> outer{*r};
				(void)outer;
				if constexpr(!std::is_same_v<R(A...), Sig>) {
					const auto before{at};
					calls = 0;
					mc::Box<F> c;
					c.make(*r);
					call_nested(outer, at, std::index_sequence_for<A...>{});
					(void)before;
				}
			}
			break;
		}
		REQUIRE_("call", Elem::live == live, "%s created or destroyed objects", names[op]);
		check();
	}
	template<typename O, std::size_t... I> void call_nested(O & f, int k, std::index_sequence<I...>) {
		bool good{true};
		mc::sut([&] { if constexpr(std::is_void_v<R>) f(Arg<A>::make(0, static_cast<int>(I))...); else good = Result<R>::good(f(Arg<A>::make(0, static_cast<int>(I))...), k); });
		REQUIRE_("call", good && calls == 1 && seen.id == k && seen.self == expected_self(k), "nested function_ref called target %d %d times", seen.id, calls);
	}
};

// ---------------------------------------------------------------- conversions, temporaries, lambdas, deduction
struct Base { virtual ~Base() =default; virtual int operator()(int x) const { return x + 1; } };
struct Derived : Base { int k{5}; int operator()(int x) const override { return x + k; } };
int add_one(int x) { return x + 1; }
int add_two(int x) noexcept { return x + 2; }
const char * text(int) { return "text"; }
template<typename T> int taker(ptl::function_ref<int(T)> f, T x) { return f(x); }
struct Misc : mc::World {
	std::string key() override { return ""; }
	void step(Chooser & ch) override {
		const int op{ch.choose(14)};
		ch.label("conversions");
		NOTE("case %d", op);
		const int x{ch.choose(3)};
		switch(op) {
		case 0: { ptl::function_ref<long(short)> f{add_one}; REQUIRE_("call", f(static_cast<short>(x)) == x + 1, "converted argument and result"); break; }
		case 1: { int n{0}; auto l{[&](int v) { n += v + 1; return std::string(50, 'x'); }}; ptl::function_ref<void(int)> f{l}; f(x); REQUIRE_("call", n == x + 1, "discarded result"); break; }
		case 2: { auto l{[](int v) { return v * 3; }}; const ptl::function_ref<int(int)> f{l}; REQUIRE_("call", f(x) == x * 3, "const function_ref"); break; }
		case 3: REQUIRE_("call", taker<int>([x](int v) { return v + x; }, 4) == 4 + x, "temporary lambda in a call"); break;
		case 4: { std::function<int(int)> s{[x](int v) { return v - x; }}; ptl::function_ref<int(int)> f{s}; REQUIRE_("call", f(9) == 9 - x, "std::function"); s = [](int) { return 77; }; REQUIRE_("call", f(9) == 77, "std::function reassigned"); break; }
		case 5: { Derived d; d.k = x; const Base & b{d}; ptl::function_ref<int(int) const> f{b}; REQUIRE_("call", f(1) == 1 + x, "virtual call operator"); break; }
		case 6: { ptl::function_ref f{add_one}; static_assert(std::is_same_v<decltype(f), ptl::function_ref<int(int)>>); REQUIRE_("call", f(x) == x + 1, "deduced"); f = add_two; REQUIRE_("call", f(x) == x + 2, "noexcept function in a plain reference"); f = &add_one; REQUIRE_("call", f(x) == x + 1, "reassigned from a function pointer"); break; }
		case 7: { ptl::function_ref f{add_two}; static_assert(std::is_same_v<decltype(f), ptl::function_ref<int(int) noexcept>>); REQUIRE_("call", f(x) == x + 2 && noexcept(f(x)), "deduced noexcept"); break; }
		case 8: { int state{0}; auto l{[state](int v) mutable { return state += v; }}; ptl::function_ref<int(int)> f{l}; f(x); f(x); REQUIRE_("call", f(1) == 2 * x + 1 && l(0) == 2 * x + 1, "state of a mutable lambda"); break; }
		case 9: { ptl::function_ref<std::string_view(int)> f{text}; REQUIRE_("call", f(x) == "text", "converted result"); break; }
		case 10: { //a larger hierarchy: the Elem is copied exactly as often as the signature demands
			Elem e{x};
			const auto c{Elem::copies};
			auto l{[](const Elem & p) { return p.v; }};
			ptl::function_ref<int(Elem)> f{l};
			REQUIRE_("call", f(e) == x && Elem::copies == c + 1, "lvalue to by-value parameter: %llu copies", static_cast<unsigned long long>(Elem::copies - c));
			REQUIRE_("call", f(std::move(e)) == x && Elem::copies == c + 1, "rvalue to by-value parameter: %llu copies", static_cast<unsigned long long>(Elem::copies - c));
			break;
		}
		case 11: { Elem e{x}; auto l{[](Elem p) { return p.v; }}; ptl::function_ref<int(const Elem &)> f{l}; const auto c{Elem::copies}; REQUIRE_("call", f(e) == x && Elem::copies == c + 1 && e.v == x, "const reference to by-value parameter"); break; }
		case 12: { auto l{[&](auto && f2, int d) -> int { return d ? 1 + f2(f2, d - 1) : 0; }}; auto rec{[&](int d) { return l(l, d); }}; ptl::function_ref<int(int)> f{rec}; REQUIRE_("call", f(x) == x, "generic lambda"); break; }
		case 13: {
			using F = ptl::function_ref<int(int)>;
			struct No { };
			struct RvalueOnly { int operator()(int) &&; };
			REQUIRE_("call", (!std::is_constructible_v<F, No &> && !std::is_constructible_v<F, RvalueOnly &> && !std::is_constructible_v<ptl::function_ref<int(int) noexcept>, decltype(add_one) *> && !std::is_constructible_v<ptl::function_ref<int(int) const>, Functor<PLAIN, false, int, int> &>), "an unsuitable target is accepted");
			break;
		}
		}
	}
};

template<typename Sig, bool C, bool NE, typename R, typename... A> void add(mc::Plan & r, const char * name, bool thorough) {
	mc::Model m;
	m.name = fmt("function_ref<%s>", name);
	m.make = [] { return new World<Sig, C, NE, R, A...>; };
	m.depth = 40;
	r.models.push_back(m);
	m.name += " histories";
	m.dedupe = false;
	m.depth = thorough ? 3 : 2;
	r.models.push_back(m);
}
}

mc::Plan plan(const std::string &, bool thorough) {
	mc::Plan r;
	add<void(), false, false, void>(r, "void()", thorough);
	add<int(int), false, false, int, int>(r, "int(int)", thorough);
	add<int(int) const, true, false, int, int>(r, "int(int) const", thorough);
	add<int(int) noexcept, false, true, int, int>(r, "int(int) noexcept", thorough);
	add<int(int) const noexcept, true, true, int, int>(r, "int(int) const noexcept", thorough);
	add<Elem(Elem), false, false, Elem, Elem>(r, "tracked(tracked)", thorough);
	add<Elem &(Elem &), false, false, Elem &, Elem &>(r, "tracked &(tracked &)", thorough);
	add<const Elem &(const Elem &) const, true, false, const Elem &, const Elem &>(r, "const tracked &(const tracked &) const", thorough);
	add<Elem &&(Elem &&), false, false, Elem &&, Elem &&>(r, "tracked &&(tracked &&)", thorough);
	add<void(Elem, const Elem &, Elem &&, Elem &, short), false, false, void, Elem, const Elem &, Elem &&, Elem &, short>(r, "void(tracked, const tracked &, tracked &&, tracked &, short)", thorough);
	add<std::unique_ptr<int>(std::unique_ptr<int>) const, true, false, std::unique_ptr<int>, std::unique_ptr<int>>(r, "unique_ptr(unique_ptr) const", thorough);
	add<Elem(Elem, Elem) const noexcept, true, true, Elem, Elem, Elem>(r, "tracked(tracked, tracked) const noexcept", thorough);
	mc::Model m;
	m.name = "function_ref conversions";
	m.make = [] { return new Misc; };
	r.models.push_back(m);
	r.mask = {"call", "life", "leak"};
	return r;
}
