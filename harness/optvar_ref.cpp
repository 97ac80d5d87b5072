// optional_ref and variant_ref against "which object is referred to"
#include <ptl/optional_ref.hpp>
#include <ptl/variant_ref.hpp>
#include "values.hpp"
#include <optional>

using mc::Chooser;
using mc::Elem;
using mc::Val;
using mc::fmt;

namespace {
struct Derived : Elem { using Elem::Elem; };
struct Wide { long pad[3]{}; };
struct Second : Wide, Elem { using Elem::Elem; }; // Elem is not at offset zero

//! optional-like user type whose operator& lies and whose operator bool is explicit
template<typename T> struct Like {
	T * p;
	explicit operator bool() const { return p; }
	T & operator*() const { return *p; }
	Like * operator&() { mc::fail("content", "operator& of the source used"); return nullptr; }
};

enum Op { O_NOTHING, O_NULLOPT, O_OBJECT, O_POINTER, O_CPOINTER, O_STD, O_PTL, O_UNIQUE, O_SHARED, O_LIKE, O_REF, O_CREF,
	O_COPY, O_MOVE, O_ASSIGN, O_ASSIGN_MOVE, O_ASSIGN_SELF, O_ASSIGN_EMPTY, O_ASSIGN_NULLOPT, W_DEREF, W_ARROW, W_VALUE, VALUE_OR, VALUE_OR_MOVE, VALUE, OPS };
const char * const names[]{"{}", "nullopt", "object", "pointer", "const pointer", "std::optional", "optional", "unique_ptr", "shared_ptr", "optional-like", "optional_ref", "const optional_ref",
	"copy", "move", "copy-assign", "move-assign", "self-assign", "= {}", "= nullopt", "*r =", "r-> =", "r.value() =", "value_or", "value_or(move)", "value"};

//! Type: what the reference refers to; Obj: the objects; ConstSource: seen as const
template<typename Type, typename Obj, bool ConstSource> struct OptionalRefWorld : mc::World {
	using T = std::remove_const_t<Type>;
	using R = ptl::optional_ref<Type>;
	static constexpr bool writable{!std::is_const_v<Type>};
	template<typename C> using Source = std::conditional_t<ConstSource, const C, C>;
	static constexpr int count{6};
	// objects 0, 1: plain; 2: in a std::optional; 3: in an optional; 4: in a unique_ptr; 5: in a shared_ptr
	Obj plain[2]{Obj(0), Obj(1)};
	std::optional<Obj> stdopt{Obj(2)}, stdopt_empty;
	std::conditional_t<std::is_standard_layout_v<Obj>, ptl::optional<Obj>, std::optional<Obj>> ptlopt, ptlopt_empty;
	std::unique_ptr<Source<Obj>> unique, unique_empty;
	std::shared_ptr<Source<Obj>> shared, shared_empty;
	Obj * object[count];
	mc::Box<R> r;
	int at{-1}; // the object referred to
	static int life() { Elem::reset(); return 0; }
	int reset_life{life()};

	OptionalRefWorld() : ptlopt{Obj(3)}, unique{new Obj(4)}, shared{new Obj(5)} {
		object[0] = std::addressof(plain[0]);
		object[1] = std::addressof(plain[1]);
		object[2] = std::addressof(*stdopt);
		object[3] = std::addressof(*ptlopt);
		object[4] = const_cast<Obj *>(std::addressof(*unique));
		object[5] = const_cast<Obj *>(std::addressof(*shared));
		r.make();
	}
	std::string key() override { return fmt("%d", at); }
	Type * target(int k) const { return k < 0 ? nullptr : static_cast<Type *>(object[k]); }
	void check() {
		const R & c{*r};
		REQUIRE_("content", static_cast<bool>(c) == (at >= 0) && c.has_value() == (at >= 0), "reference is %s", c ? "engaged" : "empty");
		{
			Type * f;
			std::memcpy(&f, r.raw(), sizeof f);
			REQUIRE_("layout", sizeof(R) == 8 && alignof(R) == 8 && f == (at >= 0 ? target(at) : nullptr), "the stored pointer is not that of object %d", at);
		}
		Type * v{nullptr};
		const auto o{mc::sut([&] { v = std::addressof(c.value()); })};
		if(at >= 0) {
			REQUIRE_("content", std::addressof(*c) == target(at) && c.operator->() == target(at), "refers to another object than %d", at);
			REQUIRE_("access", o == mc::OK && v == target(at), "value() of an engaged reference");
		} else REQUIRE_("access", o == mc::BAD_OPT, "value() of an empty reference did not throw bad_optional_access (%s)", mc::outcome_name(o));
		for(int k{0}; k < count; ++k) REQUIRE_("content", static_cast<const T &>(*object[k]).v == k, "object %d was changed to %d", k, static_cast<const T &>(*object[k]).v);
		REQUIRE_("content", stdopt && ptlopt && unique && shared && !stdopt_empty && !ptlopt_empty && !unique_empty && !shared_empty, "a source was emptied");
	}
	template<typename S> void take(Chooser & ch, S & s, int k) {
		switch(ch.choose(3)) {
		case 0: r.kill(); r.make(s); break;
		case 1: mc::sut([&] { *r = s; }); break;
		case 2: r.kill(); r.make_by([&]() -> R { return s; }); break;
		}
		at = k;
	}
	void step(Chooser & ch) override {
		const int op{ch.choose(OPS)};
		ch.label(names[op]);
		NOTE("  referring to %d", at);
		const auto live{Elem::live};
		const auto work{Elem::copies + Elem::moves};
		bool touches{false};
		switch(op) {
		case O_NOTHING: r.kill(); r.make(); at = -1; break;
		case O_NULLOPT: r.kill(); r.make(std::nullopt); at = -1; break;
		case O_OBJECT: { const int k{ch.choose(count)}; take(ch, *static_cast<Source<Obj> *>(object[k]), k); break; }
		case O_POINTER: { const int k{ch.choose(count + 1) - 1}; Source<Obj> * p{k < 0 ? nullptr : object[k]}; take(ch, p, k); p = object[(k + 1) % count]; break; }
		case O_CPOINTER: { const int k{ch.choose(count + 1) - 1}; Source<Obj> * const p{k < 0 ? nullptr : object[k]}; take(ch, p, k); break; }
		case O_STD: if(ch.flip()) take(ch, static_cast<Source<std::optional<Obj>> &>(stdopt), 2); else take(ch, static_cast<Source<std::optional<Obj>> &>(stdopt_empty), -1); break;
		case O_PTL: if(ch.flip()) take(ch, static_cast<Source<decltype(ptlopt)> &>(ptlopt), 3); else take(ch, static_cast<Source<decltype(ptlopt)> &>(ptlopt_empty), -1); break;
		case O_UNIQUE: if(ch.flip()) take(ch, unique, 4); else take(ch, unique_empty, -1); break;
		case O_SHARED: if(ch.flip()) take(ch, static_cast<const std::shared_ptr<Source<Obj>> &>(shared), 5); else take(ch, shared_empty, -1); break;
		case O_LIKE: { const int k{ch.choose(count + 1) - 1}; Like<Source<Obj>> l{k < 0 ? nullptr : object[k]}; take(ch, l, k); break; }
		case O_REF: case O_CREF: {
			const int k{ch.choose(count + 1) - 1};
			mc::Box<ptl::optional_ref<Source<Obj>>> o;
			o.make();
			if(k >= 0) *o = *static_cast<Source<Obj> *>(object[k]);
			if(op == O_REF) take(ch, *o, k);
			else take(ch, static_cast<const ptl::optional_ref<Source<Obj>> &>(*o), k);
			break; // the source reference ends its life here
		}
		case O_COPY: { mc::Box<R> c; if(ch.flip()) c.make(*r); else c.make(static_cast<const R &>(*r)); r.kill(); r.make(*c); break; }
		case O_MOVE: { mc::Box<R> c; c.make(std::move(*r)); r.kill(); r.make(std::move(*c)); break; }
		case O_ASSIGN: case O_ASSIGN_MOVE: {
			const int k{ch.choose(count + 1) - 1};
			mc::Box<R> o;
			o.make();
			if(k >= 0) *o = *static_cast<Source<Obj> *>(object[k]);
			R * ret{nullptr};
			mc::sut([&] { ret = op == O_ASSIGN ? &(*r = static_cast<const R &>(*o)) : &(*r = std::move(*o)); });
			REQUIRE_("content", ret == &*r, "assignment did not return its target");
			if(op == O_ASSIGN) REQUIRE_("content", static_cast<bool>(*o) == (k >= 0) && (k < 0 || std::addressof(**o) == target(k)), "assignment changed its source");
			at = k;
			break;
		}
		case O_ASSIGN_SELF: { R & alias{*r}; if(ch.flip()) *r = alias; else *r = std::move(alias); break; }
		case O_ASSIGN_EMPTY: *r = {}; at = -1; break;
		case O_ASSIGN_NULLOPT: *r = std::nullopt; at = -1; break;
		case W_DEREF: case W_ARROW: case W_VALUE:
			if constexpr(writable) {
				touches = true;
				if(at < 0) return;
				const R & c{*r};
				if(op == W_DEREF) (*c).v = 55;
				else if(op == W_ARROW) c->v = 55;
				else c.value().v = 55;
				for(int k{0}; k < count; ++k) REQUIRE_("content", static_cast<T &>(*object[k]).v == (k == at ? 55 : k), "a write reached object %d", k);
				static_cast<T &>(*object[at]).v = at;
			}
			break;
		case VALUE_OR: case VALUE_OR_MOVE:
			if constexpr(std::is_same_v<T, Obj>) {
				touches = true;
				mc::Made<T> d{2};
				mc::Box<T> res;
				const R & c{*r};
				const auto o{op == VALUE_OR ? res.make_by([&]() -> T { return c.value_or(static_cast<const T &>(*d)); }) : res.make_by([&]() -> T { return c.value_or(std::move(*d)); })};
				REQUIRE_("content", o == mc::OK, "value_or threw");
				REQUIRE_("content", Val<T>::get(*res) == (at < 0 ? 2 : at), "value_or yielded %d", Val<T>::get(*res));
				if(op == VALUE_OR || at >= 0) REQUIRE_("content", Val<T>::get(*d) == 2, "value_or changed its argument");
				REQUIRE_("content", Val<T>::get(c.value_or(7)) == (at < 0 ? 7 : at), "value_or of a convertible value yielded something else");
			}
			break;
		case VALUE: break; // checked below
		}
		if(!touches) REQUIRE_("life", Elem::live == live && Elem::copies + Elem::moves == work, "%s copied, moved or destroyed an object", names[op]);
		check();
		if constexpr(std::is_same_v<Type, Source<Obj>>) deduce();
	}
	void deduce() {
		auto & o{static_cast<Source<std::optional<Obj>> &>(stdopt)};
		ptl::optional_ref a{o};
		static_assert(std::is_same_v<decltype(a), R>);
		REQUIRE_("content", a && std::addressof(*a) == target(2), "deduced reference to an optional");
		Source<Obj> * p{nullptr};
		ptl::optional_ref b{p};
		static_assert(std::is_same_v<decltype(b), R>);
		REQUIRE_("content", !b, "deduced reference to a null pointer");
	}
};

// ---------------------------------------------------------------- variant_ref
struct Tag { int v; };
using V = ptl::variant_ref<int, const Elem, Elem, const double, char *, const Tag, mc::Amp, void (*)(), const int *>;
enum { ALTS = 9 };
//! sources: number -> (alternative, object)
void some_function() {}
struct VariantRefWorld : mc::World {
	int i0{10}, i1{11};
	const Elem ce{1};
	Elem e0{2}, e1{3};
	double d{1.5};
	const double cd{2.5};
	char text[3]{"ab"};
	char * cp{text};
	Tag tag{7};
	const Tag ctag{8};
	mc::Amp amp{4};
	void (*fp)(){some_function};
	const int * ip{&i0};
	mc::Box<V> r;
	int at{0};
	static int life() { Elem::reset(); return 0; }
	int reset_life{life()};
	enum { SOURCES = 13 };
	static constexpr int alternative[SOURCES]{0, 0, 1, 2, 2, 3, 3, 4, 5, 5, 6, 7, 8};
	const void * object(int k) const {
		const void * p[]{&i0, &i1, &ce, &e0, &e1, &d, &cd, &cp, &tag, &ctag, std::addressof(amp), &fp, &ip};
		return p[k];
	}
	template<typename F> void with(int k, F f) {
		switch(k) {
		case 0: f(i0); break; case 1: f(i1); break; case 2: f(ce); break; case 3: f(e0); break; case 4: f(e1); break; case 5: f(d); break; case 6: f(cd); break;
		case 7: f(cp); break; case 8: f(tag); break; case 9: f(ctag); break; case 10: f(amp); break; case 11: f(fp); break; case 12: f(ip); break;
		}
	}
	VariantRefWorld() { r.make(i0); }
	std::string key() override { return fmt("%d", at); }
	static constexpr bool mutable_alternative(int a) { return a == 0 || a == 2 || a == 4 || a >= 6; }

	template<typename T> void alternative_check(const V & c, int a) {
		const bool here{alternative[at] == a};
		REQUIRE_("content", c.template holds<T>() == here, "holds of alternative %d while source %d (alternative %d) is referred to", a, at, alternative[at]);
		static_assert(std::is_same_v<decltype(c.template get_if<T>()), T *> && std::is_same_v<decltype(c.template get<T>()), T &>);
		const auto p{c.template get_if<T>()};
		REQUIRE_("content", (p != nullptr) == here && (!here || static_cast<const volatile void *>(p) == object(at)), "get_if of alternative %d while source %d is referred to", a, at);
		const void * g{nullptr};
		const auto o{mc::sut([&] { g = std::addressof(c.template get<T>()); })};
		if(here) REQUIRE_("access", o == mc::OK && g == object(at), "get of alternative %d", a);
		else REQUIRE_("access", o == mc::BAD_VAR, "get of alternative %d while alternative %d is referred to did not throw bad_variant_access (%s)", a, alternative[at], mc::outcome_name(o));
	}
	struct Visit {
		const void * seen{nullptr};
		int alt{-1}, calls{0};
		bool mut{false};
		template<typename T> int note(T & t, int a) { ++calls; seen = const_cast<const void *>(static_cast<const volatile void *>(std::addressof(t))); alt = a; mut = !std::is_const_v<T>; return a * 3; }
		int operator()(int & x) { return note(x, 0); }
		int operator()(const Elem & x) { return note(x, 1); }
		int operator()(Elem & x) { return note(x, 2); }
		int operator()(const double & x) { return note(x, 3); }
		int operator()(char *& x) { return note(x, 4); }
		int operator()(const Tag & x) { return note(x, 5); }
		int operator()(mc::Amp & x) { return note(x, 6); }
		int operator()(void (*&x)()) { return note(x, 7); }
		int operator()(const int *& x) { return note(x, 8); }
	};
	void check() {
		const V & c{*r};
		alternative_check<int>(c, 0);
		alternative_check<const Elem>(c, 1);
		alternative_check<Elem>(c, 2);
		alternative_check<const double>(c, 3);
		alternative_check<char *>(c, 4);
		alternative_check<const Tag>(c, 5);
		alternative_check<mc::Amp>(c, 6);
		alternative_check<void (*)()>(c, 7);
		alternative_check<const int *>(c, 8);
		{
			const void * f;
			std::uint64_t i;
			std::memcpy(&f, r.raw(), 8);
			std::memcpy(&i, static_cast<const char *>(r.raw()) + 8, 8);
			REQUIRE_("layout", sizeof(V) == 16 && alignof(V) == 8 && f == object(at) && i == static_cast<std::uint64_t>(alternative[at]), "the stored index is %llu instead of %d, or the pointer differs", static_cast<unsigned long long>(i), alternative[at]);
		}
		Visit v;
		const int res{c.visit(v)};
		REQUIRE_("visit", v.calls == 1 && v.seen == object(at) && v.alt == alternative[at] && v.mut == mutable_alternative(alternative[at]) && res == 3 * alternative[at], "visit of source %d reached alternative %d (%d calls)", at, v.alt, v.calls);
		int which{-1};
		const void * seen{nullptr};
		const auto on{[&](const void * p, int a) { which = a; seen = p; }};
		c.visit([&](int & x) { on(&x, 0); }, [&](const Elem & x) { on(&x, 1); }, [&](Elem & x) { on(&x, 2); }, [&](const double & x) { on(&x, 3); }, [&](char *& x) { on(&x, 4); }, [&](const Tag & x) { on(&x, 5); }, [&](mc::Amp & x) { on(std::addressof(x), 6); }, [&](void (*& x)()) { on(&x, 7); }, [&](const int *& x) { on(&x, 8); });
		REQUIRE_("visit", which == alternative[at] && seen == object(at), "visit with several visitors reached %d instead of %d", which, alternative[at]);
		bool threw{false};
		try { c.visit([](auto &) -> int { throw 42; }); } catch(int x) { threw = x == 42; }
		REQUIRE_("visit", threw, "exception of the visitor lost");
		REQUIRE_("content", i0 == 10 && i1 == 11 && ce.v == 1 && e0.v == 2 && e1.v == 3 && d == 1.5 && cd == 2.5 && cp == text && tag.v == 7 && ctag.v == 8 && amp.v == 4 && fp == some_function && ip == &i0, "an object was changed");
	}
	void step(Chooser & ch) override {
		static const char * const n[]{"bind", "rebind", "initialise", "copy", "copy const", "move", "copy-assign", "move-assign", "self-assign", "chain of copies", "write", "temporary", "swap"};
		const int op{ch.choose(13)};
		ch.label(n[op]);
		NOTE("  referring to %d", at);
		const auto live{Elem::live};
		const auto work{Elem::copies + Elem::moves};
		switch(op) {
		case 0: { const int k{ch.choose(SOURCES)}; r.kill(); with(k, [&](auto & x) { r.make(x); }); at = k; break; }
		case 1: { const int k{ch.choose(SOURCES)}; with(k, [&](auto & x) { mc::sut([&] { *r = x; }); }); at = k; break; }
		case 2: { const int k{ch.choose(SOURCES)}; r.kill(); with(k, [&](auto & x) { r.make_by([&]() -> V { return x; }); }); at = k; break; }
		case 3: { mc::Box<V> c; c.make(*r); r.kill(); r.make(*c); break; }
		case 4: { mc::Box<V> c; c.make(static_cast<const V &>(*r)); r.kill(); r.make(static_cast<const V &>(*c)); break; }
		case 5: { mc::Box<V> c; c.make(std::move(*r)); r.kill(); r.make(std::move(*c)); break; }
		case 6: case 7: {
			const int k{ch.choose(SOURCES)};
			mc::Box<V> o;
			with(k, [&](auto & x) { o.make(x); });
			V * ret{nullptr};
			mc::sut([&] { ret = op == 6 ? std::addressof(*r = static_cast<const V &>(*o)) : std::addressof(*r = std::move(*o)); });
			REQUIRE_("content", ret == &*r, "assignment did not return its target");
			const auto keep{at};
			at = k;
			if(op == 6) { Visit v; o->visit(v); REQUIRE_("content", v.seen == object(k), "assignment changed its source"); }
			(void)keep;
			break;
		}
		case 8: { V & alias{*r}; *r = alias; break; }
		case 9: { //a -> b -> a, with the intermediate ones rebound
			const int k{ch.choose(SOURCES)};
			mc::Box<V> c, o;
			c.make(*r);
			o.make(static_cast<const V &>(*c));
			with(k, [&](auto & x) { *r = x; *c = x; });
			*r = *o;
			with(k, [&](auto & x) { *o = x; });
			break;
		}
		case 10: {
			const V & c{*r};
			switch(alternative[at]) {
			case 0: c.get<int>() = 99; REQUIRE_("content", i0 == (at == 0 ? 99 : 10) && i1 == (at == 1 ? 99 : 11), "write to int"); (at == 0 ? i0 : i1) = 10 + at; break;
			case 2: c.get_if<Elem>()->v = 99; REQUIRE_("content", e0.v == (at == 3 ? 99 : 2) && e1.v == (at == 4 ? 99 : 3), "write to Elem"); (at == 3 ? e0 : e1).v = at - 1; break;
			case 6: c.visit([](auto & x) { if constexpr(std::is_same_v<decltype(x), mc::Amp &>) x.v = 99; }); REQUIRE_("content", amp.v == 99, "write by visitor"); amp.v = 4; break;
			}
			break;
		}
		case 11: { //an rvalue can be referred to only as const
			mc::Box<V> c;
			c.make(std::move(e0)); // xvalue of a mutable type: const alternative
			REQUIRE_("content", c->holds<const Elem>() && c->get_if<const Elem>() == &e0 && !c->holds<Elem>(), "rvalue is not referred to by the const alternative");
			mc::Box<V> q;
			q.make(std::move(d));
			REQUIRE_("content", q->holds<const double>() && q->get_if<const double>() == &d, "rvalue of type double");
			REQUIRE_("content", (!std::is_constructible_v<V, int> && !std::is_constructible_v<V, const int &> && !std::is_constructible_v<V, char *> && !std::is_constructible_v<V, float &>), "an unsuitable source is accepted");
			break;
		}
		case 12: { const int k{ch.choose(SOURCES)}; mc::Box<V> o; with(k, [&](auto & x) { o.make(x); }); std::swap(*r, *o); at = k; break; }
		}
		REQUIRE_("life", Elem::live == live && Elem::copies + Elem::moves == work, "%s copied, moved or destroyed an object", n[op]);
		check();
	}
};
constexpr int VariantRefWorld::alternative[];

template<typename W> void add(mc::Plan & r, const char * name) {
	mc::Model m;
	m.name = name;
	m.make = [] { return new W; };
	m.depth = 40;
	r.models.push_back(m);
	m.name += " histories";
	m.dedupe = false;
	m.depth = 2;
	r.models.push_back(m);
}
}

mc::Plan plan(const std::string & p, bool thorough) {
	mc::Plan r;
	if(p == "C23" || p == "C26" || p == "C30") {
		add<OptionalRefWorld<Elem, Elem, false>>(r, "optional_ref<tracked>");
		add<OptionalRefWorld<const Elem, Elem, false>>(r, "optional_ref<const tracked>");
		add<OptionalRefWorld<const Elem, Elem, true>>(r, "optional_ref<const tracked> to const objects");
		add<OptionalRefWorld<mc::Amp, mc::Amp, false>>(r, "optional_ref<tracked with operator&>");
		add<OptionalRefWorld<Elem, Derived, false>>(r, "optional_ref<tracked> to derived objects");
		add<OptionalRefWorld<Elem, Second, false>>(r, "optional_ref<tracked> to objects with tracked as second base");
	}
	if(p == "C24" || p == "C26" || p == "C30" || p == "C18") add<VariantRefWorld>(r, "variant_ref of 9 alternatives");
	for(auto & m : r.models) if(!m.dedupe) m.depth = thorough ? 3 : 2;
	if(p == "C23") r.mask = {"content", "access", "life"};
	else if(p == "C24") r.mask = {"content", "access", "life", "visit"};
	else if(p == "C26") r.mask = {"layout"};
	else if(p == "C30") r.mask = {"access"};
	else if(p == "C18") r.mask = {"visit"};
	return r;
}
