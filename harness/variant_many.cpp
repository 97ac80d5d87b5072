// variant and variant_ref with more alternatives than a signed char can index
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include "common.hpp"

using mc::Chooser;
using mc::fmt;
#define A(n) struct n { int v; friend bool operator==(n a, n b) { return a.v == b.v; } friend bool operator<(n a, n b) { return a.v < b.v; } };
#define TEN(p) A(p##0) A(p##1) A(p##2) A(p##3) A(p##4) A(p##5) A(p##6) A(p##7) A(p##8) A(p##9)
TEN(a) TEN(b) TEN(c) TEN(d) TEN(e) TEN(f) TEN(g) TEN(h) TEN(i) TEN(n) TEN(k) TEN(l) TEN(m)
#define LIST(p) p##0, p##1, p##2, p##3, p##4, p##5, p##6, p##7, p##8, p##9
#define ALL LIST(a), LIST(b), LIST(c), LIST(d), LIST(e), LIST(f), LIST(g), LIST(h), LIST(i), LIST(n), LIST(k), LIST(l), LIST(m)
using V = ptl::variant<ALL>;
using R = ptl::variant_ref<ALL>;

namespace {
//! the alternatives exercised: both ends, around 64 and around 128
struct Alt {
	int index;
	void (*construct)(mc::Box<V> &, int);
	void (*assign)(V &, int);
	void (*emplace)(V &, int);
	bool (*holds)(const V &);
	const int * (*get)(const V &);
	int (*bad)(const V &); // 1: get threw
	bool (*ref)(int, int &); // everything about a variant_ref to it
};
template<typename T> const void * seen_object;
int calls;
const void * object;
struct Visitor { template<typename T> int operator()(T & t) { ++calls; object = &t; return t.v + 1000; } };

template<typename T, int I> bool check_ref(int v, int & problem) {
	T t{v};
	R r{t};
	calls = 0;
	if(!r.template holds<T>() || r.template get_if<T>() != &t) { problem = 1; return false; }
	if(r.visit(Visitor{}) != v + 1000 || calls != 1 || object != &t) { problem = 2; return false; }
	a0 other{-1};
	R s{other};
	s = r;
	if(s.template get_if<T>() != &t || s.visit(Visitor{}) != v + 1000) { problem = 3; return false; }
	R u{s};
	if(&u.template get<T>() != &t || (I != 0 && u.template holds<a0>()) || other.v != -1) { problem = 4; return false; }
	return true;
}
template<typename T, int I>
constexpr Alt alt() {
	return {I, [](mc::Box<V> & b, int v) { b.make(T{v}); }, [](V & x, int v) { x = T{v}; }, [](V & x, int v) { x.template emplace<I>(v); },
		[](const V & x) { return x.template holds<T>(); }, [](const V & x) -> const int * { const auto p{x.template get_if<T>()}; return p ? &p->v : nullptr; },
		[](const V & x) { int t{0}; mc::Paused p; try { (void)x.template get<T>(); } catch(const std::bad_variant_access &) { t = 1; } return t; }, &check_ref<T, I>};
}
const Alt alts[]{alt<a0, 0>(), alt<a1, 1>(), alt<g3, 63>(), alt<g4, 64>(), alt<m6, 126>(), alt<m7, 127>(), alt<m8, 128>(), alt<m9, 129>()};
constexpr int count{sizeof(alts) / sizeof(*alts)};

enum { CONSTRUCT, ASSIGN, EMPLACE, COPY, MOVE, COPY_ASSIGN, MOVE_ASSIGN, SWAP, SWAP_REVERSED, REFERENCE, OPS };
const char * names[]{"construct", "assign value", "emplace", "copy", "move", "copy-assign", "move-assign", "swap", "other.swap", "variant_ref"};

struct World : mc::World {
	mc::Box<V> a, b;
	int ai{0}, av{0}, bi{0}, bv{0};
	World() { a.make(a0{0}); b.make(a0{0}); }
	std::string key() override { return fmt("%d=%d", ai, av); }
	void check(const V & x, int i, int v, const char * who) {
		for(int k{0}; k < count; ++k) {
			const bool here{k == i};
			REQUIRE_("content", alts[k].holds(x) == here, "%s: holds() of alternative %d while %d is held", who, alts[k].index, alts[i].index);
			REQUIRE_("content", (alts[k].get(x) != nullptr) == here, "%s: get_if of alternative %d while %d is held", who, alts[k].index, alts[i].index);
			REQUIRE_("access", alts[k].bad(x) == !here, "%s: get of alternative %d while %d is held", who, alts[k].index, alts[i].index);
			if(here) REQUIRE_("content", *alts[k].get(x) == v, "%s: value %d instead of %d", who, *alts[k].get(x), v);
		}
		calls = 0;
		const int r{const_cast<V &>(x).visit(Visitor{})};
		REQUIRE_("visit", calls == 1 && r == v + 1000 && object == alts[i].get(x), "%s: visit of alternative %d", who, alts[i].index);
	}
	void step(Chooser & ch) override {
		const int op{ch.choose(OPS)};
		ch.label(names[op]);
		if(op == REFERENCE) {
			const int i{ch.choose(count)};
			int problem{0};
			REQUIRE_("visit", alts[i].ref(ch.choose(2), problem), "variant_ref to alternative %d (problem %d)", alts[i].index, problem);
			return;
		}
		int i{0}, v{0};
		i = ch.choose(count);
		v = ch.choose(2);
		NOTE("  holds %d=%d, given %d=%d", alts[ai].index, av, alts[i].index, v);
		const bool two{op >= COPY};
		if(two) { b.kill(); alts[i].construct(b, v); bi = i; bv = v; }
		switch(op) {
		case CONSTRUCT: a.kill(); alts[i].construct(a, v); break;
		case ASSIGN: mc::sut([&] { alts[i].assign(*a, v); }); break;
		case EMPLACE: mc::sut([&] { alts[i].emplace(*a, v); }); break;
		case COPY: a.kill(); a.make(static_cast<const V &>(*b)); break;
		case MOVE: a.kill(); a.make(std::move(*b)); break;
		case COPY_ASSIGN: mc::sut([&] { *a = static_cast<const V &>(*b); }); break;
		case MOVE_ASSIGN: mc::sut([&] { *a = std::move(*b); }); break;
		case SWAP: mc::sut([&] { a->swap(*b); }); std::swap(ai, bi); std::swap(av, bv); i = ai; v = av; break;
		case SWAP_REVERSED: mc::sut([&] { b->swap(*a); }); std::swap(ai, bi); std::swap(av, bv); i = ai; v = av; break;
		}
		ai = i;
		av = v;
		check(*a, ai, av, names[op]);
		if(two) {
			check(*b, bi, bv, "other");
			const V & x{*a};
			const V & y{*b};
			REQUIRE_("order", (x == y) == (ai == bi && av == bv), "== of alternatives %d and %d", alts[ai].index, alts[bi].index);
			REQUIRE_("order", (x < y) == (ai < bi || (ai == bi && av < bv)) && (y < x) == (bi < ai || (ai == bi && bv < av)), "< of alternatives %d and %d", alts[ai].index, alts[bi].index);
		}
	}
};
}

mc::Plan plan(const std::string & p, bool) {
	mc::Plan r;
	mc::Model m;
	m.name = "variant of 130 alternatives";
	m.make = [] { return new World; };
	m.depth = 100;
	r.models.push_back(m);
	if(p == "C18" || p == "C24") r.mask = {"visit"};
	else r.mask = {"content", "access", "order"};
	return r;
}
