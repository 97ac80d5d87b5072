// ptl::variant in lock-step with (index, value), over several alternative lists, with faults; visitation.
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include "values.hpp"

using mc::Chooser;
using mc::Elem;
using mc::fmt;
using mc::Outcome;
using mc::Val;

namespace {
struct Ref { int i{0}, v{0}; };

//! second tracked type, distinct from the first
struct Elem2 : Elem {
	using Elem::Elem;
	Elem2() =default;
	friend void swap(Elem2 & a, Elem2 & b) noexcept { swap(static_cast<Elem &>(a), static_cast<Elem &>(b)); }
};
}
namespace mc {
template<> struct Val<Elem2> : ValElem<Elem2> {};
}
namespace {
enum {
	C_LVALUE, C_CONST_LVALUE, C_RVALUE, C_INDEX, C_TYPE, C_INDEX_COPY, C_TYPE_COPY, C_INDEX_MOVE, C_TYPE_MOVE, C_INDEX_NONE, C_TYPE_NONE,
	A_LVALUE, A_CONST_LVALUE, A_RVALUE, A_CONST_RVALUE, A_OWN, A_OWN_CONST, A_OWN_MOVE, A_OTHER_VALUE, A_OTHER_VALUE_MOVE,
	E_INDEX, E_TYPE, E_INDEX_COPY, E_TYPE_COPY, E_INDEX_MOVE, E_TYPE_MOVE, E_INDEX_NONE, E_TYPE_NONE, WRITE_THROUGH, TAKE, READ, READ_CONST,
	C_DEFAULT, C_COPY, C_COPY_CONST, C_MOVE, A_COPY, A_COPY_CONST, A_MOVE, A_SELF, A_SELF_MOVE, SWAP, SWAP_FRIEND, SWAP_REVERSED, SWAP_SELF, SWAP_FRIEND_SELF, STD_SWAP, DESTROY, OPS
};
constexpr int per_alternative{C_DEFAULT};
const char * names[]{"variant(value &)", "variant(const value &)", "variant(value &&)", "variant(in_place_index, args)", "variant(in_place_type, args)", "variant(in_place_index, value &)", "variant(in_place_type, value &)", "variant(in_place_index, value &&)", "variant(in_place_type, value &&)", "variant(in_place_index)", "variant(in_place_type)",
	"= value &", "= const value &", "= value &&", "= const value &&", "= own value &", "= own const value &", "= own value &&", "= other's value &", "= other's value &&",
	"emplace<I>(args)", "emplace<T>(args)", "emplace<I>(value &)", "emplace<T>(value &)", "emplace<I>(value &&)", "emplace<T>(value &&)", "emplace<I>()", "emplace<T>()", "write through", "take move(variant).get", "get", "const get",
	"variant()", "variant(variant &)", "variant(const variant &)", "variant(variant &&)", "= variant &", "= const variant &", "= variant &&", "= itself", "= move(itself)", "swap", "swap (friend)", "other.swap", "swap with itself", "swap with itself (friend)", "std::swap", "destroy"};

template<typename X, typename... Ts>
struct World : mc::World {
	using O = ptl::variant<X, Ts...>;
	static constexpr int N{1 + sizeof...(Ts)};
	static constexpr std::size_t largest{std::max({sizeof(X), sizeof(Ts)...})};
	template<int I> using Alt = std::tuple_element_t<I, std::tuple<X, Ts...>>;
	mc::Box<O> a, b;
	Ref ra, rb;
	bool only_transfer, all_alternatives;
	World(bool t, bool all) : only_transfer{t}, all_alternatives{all} { Elem::reset(); a.make(); b.make(); }
	~World() override {
		a.kill();
		b.kill();
		REQUIRE_("life", Elem::live == 0, "%ld value(s) alive after the variants' destruction", Elem::live);
		Elem::reset();
	}
	//! calls f.template operator()<I> for a run-time index
	template<typename F>
	static void with(int i, F && f) { with_impl(i, f, std::make_integer_sequence<int, N>{}); }
	template<typename F, int... I>
	static void with_impl(int i, F & f, std::integer_sequence<int, I...>) {
		using Fn = void(*)(F &);
		static constexpr Fn table[]{+[](F & g) { g(std::integral_constant<int, I>{}); }...};
		table[i](f);
	}
	static int index_of(const O & o) {
		int r{-1}, n{0};
		const auto probe{[&](auto ic) { if(o.template holds<Alt<decltype(ic)::value>>()) { r = decltype(ic)::value; ++n; } }};
		for(int i{0}; i < N; ++i) with(i, probe);
		REQUIRE_("content", n == 1, "holds() is true for %d alternatives", n);
		return r;
	}
	static void adopt(const O & o, Ref & r) {
		r.i = index_of(o);
		with(r.i < 0 ? 0 : r.i, [&](auto ic) { r.v = Val<Alt<decltype(ic)::value>>::get(*o.template get_if<Alt<decltype(ic)::value>>()); });
	}
	static bool tracked(int i) { bool r{false}; with(i, [&](auto ic) { r = Val<Alt<decltype(ic)::value>>::tracked; }); return r; }

	void check(const mc::Box<O> & box, const Ref & r, const char * who, bool brief = false) {
		O & o{*box};
		const O & c{o};
		REQUIRE_("content", index_of(c) == r.i, "%s: holds alternative %d, expected %d", who, index_of(c), r.i);
		REQUIRE_("layout", sizeof(O) == largest + 1 && alignof(O) == 1, "variant has %zu bytes aligned at %zu for values of up to %zu", sizeof(O), alignof(O), largest);
		REQUIRE_("layout", static_cast<const unsigned char *>(box.raw())[largest] == r.i, "%s: index byte is %d, expected %d", who, static_cast<const unsigned char *>(box.raw())[largest], r.i);
		int lo{0}, hi{N};
		if(N > 8 || brief) { lo = std::max(0, r.i - 1); hi = std::min(N, r.i + 2); } // neighbours
		for(int i{lo}; i < hi; ++i) with(i, [&](auto ic) {
			using T = Alt<decltype(ic)::value>;
			const bool here{i == r.i};
			T * const p{o.template get_if<T>()};
			const T * const q{c.template get_if<T>()};
			static_assert(std::is_same_v<decltype(c.template get_if<T>()), const T *>);
			REQUIRE_("content", (p != nullptr) == here && p == q, "%s: get_if of alternative %d is %s", who, i, p ? "set" : "null");
			if(here && p) {
				REQUIRE_("layout", static_cast<const void *>(p) == box.raw(), "%s: the alternative is not at the beginning", who);
				REQUIRE_("content", box.inside(p), "%s: the alternative is not inside the variant", who);
				REQUIRE_("content", Val<T>::get(*p) == r.v, "%s: alternative %d has value %d, expected %d", who, i, Val<T>::get(*p), r.v);
			}
			const auto access{[&](auto f, const char * how) {
				const void * at{nullptr};
				const auto out{mc::sut([&] { at = f(); })};
				if(here) REQUIRE_("access", out == mc::OK && at == static_cast<const void *>(p), "%s: %s of the held alternative %d failed", who, how, i);
				else REQUIRE_("access", out == mc::BAD_VAR, "%s: %s of alternative %d (held: %d): %s instead of bad_variant_access", who, how, i, r.i, mc::outcome_name(out));
			}};
			access([&]() -> const void * { T & x{o.template get<T>()}; return std::addressof(x); }, "get");
			access([&]() -> const void * { const T & x{c.template get<T>()}; return std::addressof(x); }, "const get");
			access([&]() -> const void * { T && x{std::move(o).template get<T>()}; return std::addressof(x); }, "rvalue get");
			access([&]() -> const void * { const T && x{std::move(c).template get<T>()}; return std::addressof(x); }, "const rvalue get");
		});
	}
	static int sign(const Ref & l, const Ref & r) { if(l.i != r.i) return l.i < r.i ? -1 : 1; return (l.v > r.v) - (l.v < r.v); }
	static void order(const O & l, const O & r, int c, const char * who) {
		REQUIRE_("order", (l == r) == (c == 0) && (l != r) == (c != 0) && (l < r) == (c < 0) && (l <= r) == (c <= 0) && (l > r) == (c > 0) && (l >= r) == (c >= 0), "%s: comparison operators disagree with the order (expected sign %d)", who, c);
	}
	static bool known(const Ref & r) { return r.v >= 0 && r.v < 3; }
	void compare() {
		mc::NoFaults nf;
		if(!known(ra)) return;
		if(known(rb)) { order(*a, *b, sign(ra, rb), "variants"); order(*b, *a, sign(rb, ra), "variants"); }
		order(*a, *a, 0, "variant with itself");
		for(int i{N > 8 ? std::max(0, ra.i - 1) : 0}; i < (N > 8 ? std::min(N, ra.i + 2) : N); ++i)
			for(int v{0}; v < 3; ++v) {
				mc::Box<O> t;
				set(t, i, v);
				order(*a, *t, sign(ra, Ref{i, v}), "variants");
			}
	}
	static void set(mc::Box<O> & t, int i, int v) {
		with(i, [&](auto ic) { mc::Made<Alt<decltype(ic)::value>> m{v}; t.make(std::move(*m)); });
	}
	int other_choices() const { return 3 * (all_alternatives ? N : std::min(N, 4)) + 2; }
	static int spread(int i) { return N <= 4 ? i : i == 0 ? 0 : i == 1 ? 1 : i == 2 ? N / 2 : N - 1; }
	void set_b(int what) { // values of each alternative, then re-assigned, then moved from
		mc::NoFaults nf;
		b.kill();
		const int n{other_choices() - 2};
		if(what < n) { rb = {all_alternatives ? what / 3 : spread(what / 3), what % 3}; set(b, rb.i, rb.v); }
		else if(what == n) { set(b, 0, 2); mc::Box<O> t; set(t, N - 1, 1); quiet([&] { *b = std::move(*t); }); rb = {N - 1, 1}; }
		else { set(b, N - 1, 2); mc::Box<O> t; t.make(std::move(*b)); adopt(*b, rb); }
	}
	template<typename F> static void quiet(F && f) { mc::NoFaults nf; mc::sut(f); }

	struct Run {
		World & w;
		int op, value, moves{0};
		Ref expect, expect_b;
		int expect_arg{0};
		bool a_unspec{false}, b_unspec{false}, no_copy{false}, applicable{true}, throwing_args{false};
		const void * ret{nullptr};
		bool returns_self{false}, returns_value{false};
		int got{-100};
		Outcome o{mc::OK};
		int faulted{0};
		Chooser & ch;
	};
	template<int I>
	void with_alternative(Run & r) {
		using T = Alt<I>;
		mc::Made<T> arg{r.value};
		T & val{*arg};
		const T & cval{val};
		r.expect = {I, r.value};
		r.expect_arg = r.value;
		const auto moved{[&] { r.expect_arg = -1; r.no_copy = true; }};
		const bool own{r.op == A_OWN || r.op == A_OWN_CONST || r.op == A_OWN_MOVE || r.op == WRITE_THROUGH || r.op == TAKE || r.op == READ || r.op == READ_CONST};
		const bool theirs{r.op == A_OTHER_VALUE || r.op == A_OTHER_VALUE_MOVE};
		if((own && ra.i != I) || (theirs && rb.i != I)) { r.applicable = false; r.expect = ra; return; }
		Elem::copies = 0;
		mc::arm(1);
		switch(r.op) {
		case C_LVALUE: r.o = a.make(val); break;
		case C_CONST_LVALUE: r.o = a.make(cval); break;
		case C_RVALUE: r.o = a.make(std::move(val)); moved(); break;
		case C_INDEX: r.o = mc::sut([&] { std::apply([&](auto... x) { ::new(a.raw()) O(std::in_place_index<I>, x...); a.assume_live(true); }, Val<T>::args()); }); r.expect.v = Val<T>::args_value; break;
		case C_TYPE: r.o = mc::sut([&] { std::apply([&](auto... x) { ::new(a.raw()) O(std::in_place_type<T>, x...); a.assume_live(true); }, Val<T>::args()); }); r.expect.v = Val<T>::args_value; break;
		case C_INDEX_COPY: r.o = a.make(std::in_place_index<I>, cval); break;
		case C_TYPE_COPY: r.o = a.make(std::in_place_type<T>, cval); break;
		case C_INDEX_MOVE: r.o = a.make(std::in_place_index<I>, std::move(val)); moved(); break;
		case C_TYPE_MOVE: r.o = a.make(std::in_place_type<T>, std::move(val)); moved(); break;
		case C_INDEX_NONE: r.o = a.make(std::in_place_index<I>); r.expect.v = Val<T>::zero; break;
		case C_TYPE_NONE: r.o = a.make(std::in_place_type<T>); r.expect.v = Val<T>::zero; break;
		case A_LVALUE: r.o = mc::sut([&] { r.ret = &(*a = val); }); r.returns_self = true; break;
		case A_CONST_LVALUE: r.o = mc::sut([&] { r.ret = &(*a = cval); }); r.returns_self = true; break;
		case A_RVALUE: r.o = mc::sut([&] { r.ret = &(*a = std::move(val)); }); r.returns_self = true; moved(); break;
		case A_CONST_RVALUE: r.o = mc::sut([&] { r.ret = &(*a = std::move(cval)); }); r.returns_self = true; break;
		case A_OWN: r.expect = ra; r.o = mc::sut([&] { r.ret = &(*a = a->template get<T>()); }); r.returns_self = true; break;
		case A_OWN_CONST: r.expect = ra; r.o = mc::sut([&] { r.ret = &(*a = static_cast<const O &>(*a).template get<T>()); }); r.returns_self = true; break;
		case A_OWN_MOVE: r.expect = ra; r.o = mc::sut([&] { r.ret = &(*a = std::move(a->template get<T>())); }); r.returns_self = true; r.no_copy = true; break;
		case A_OTHER_VALUE: r.expect = rb; r.o = mc::sut([&] { r.ret = &(*a = static_cast<const O &>(*b).template get<T>()); }); r.returns_self = true; break;
		case A_OTHER_VALUE_MOVE: r.expect = rb; r.o = mc::sut([&] { r.ret = &(*a = std::move(*b).template get<T>()); }); r.returns_self = true; r.b_unspec = true; r.no_copy = true; break;
		case E_INDEX: r.throwing_args = true; r.o = mc::sut([&] { std::apply([&](auto... x) { r.ret = std::addressof(a->template emplace<I>(x...)); }, Val<T>::args()); }); r.returns_value = true; r.expect.v = Val<T>::args_value; r.no_copy = true; break;
		case E_TYPE: r.throwing_args = true; r.o = mc::sut([&] { std::apply([&](auto... x) { r.ret = std::addressof(a->template emplace<T>(x...)); }, Val<T>::args()); }); r.returns_value = true; r.expect.v = Val<T>::args_value; r.no_copy = true; break;
		case E_INDEX_COPY: r.o = mc::sut([&] { r.ret = std::addressof(a->template emplace<I>(cval)); }); r.returns_value = true; break;
		case E_TYPE_COPY: r.o = mc::sut([&] { r.ret = std::addressof(a->template emplace<T>(cval)); }); r.returns_value = true; break;
		case E_INDEX_MOVE: r.o = mc::sut([&] { r.ret = std::addressof(a->template emplace<I>(std::move(val))); }); r.returns_value = true; moved(); break;
		case E_TYPE_MOVE: r.o = mc::sut([&] { r.ret = std::addressof(a->template emplace<T>(std::move(val))); }); r.returns_value = true; moved(); break;
		case E_INDEX_NONE: r.throwing_args = true; r.o = mc::sut([&] { r.ret = std::addressof(a->template emplace<I>()); }); r.returns_value = true; r.expect.v = Val<T>::zero; r.no_copy = true; break;
		case E_TYPE_NONE: r.throwing_args = true; r.o = mc::sut([&] { r.ret = std::addressof(a->template emplace<T>()); }); r.returns_value = true; r.expect.v = Val<T>::zero; r.no_copy = true; break;
		case WRITE_THROUGH:
			if constexpr(std::is_move_assignable_v<T>) {
				mc::arm(0);
				r.o = mc::sut([&] { switch(r.ch.choose(2)) { case 0: a->template get<T>() = std::move(val); break; default: *a->template get_if<T>() = std::move(val); } });
				r.expect_arg = -1;
			} else r.expect = ra;
			break;
		case TAKE: r.expect = ra; r.o = mc::sut([&] { T t{std::move(*a).template get<T>()}; r.got = Val<T>::get(t); }); REQUIRE_("content", r.got == ra.v, "rvalue get yielded %d", r.got); r.a_unspec = true; r.no_copy = true; break;
		case READ: r.expect = ra; r.o = mc::sut([&] { r.got = Val<T>::get(a->template get<T>()); }); REQUIRE_("content", r.got == ra.v, "get yielded %d", r.got); break;
		case READ_CONST: r.expect = ra; r.o = mc::sut([&] { const T t{static_cast<const O &>(*a).template get<T>()}; r.got = Val<T>::get(t); }); REQUIRE_("content", r.o != mc::OK || r.got == ra.v, "const get yielded %d", r.got); break;
		}
		r.faulted = mc::fault_count;
		mc::arm(0);
		if(r.o != mc::OK) r.expect_arg = r.value;
		if(r.returns_value && r.o == mc::OK) REQUIRE_("content", r.ret == static_cast<const void *>(a->template get_if<T>()), "%s did not return the new value", names[r.op]);
		if(r.expect_arg >= 0) REQUIRE_("content", Val<T>::get(cval) == r.expect_arg, "%s changed its argument", names[r.op]);
	}
	void on_variants(Run & r) {
		Elem::copies = 0;
		mc::arm(1);
		switch(r.op) {
		case C_DEFAULT: r.o = a.make(); r.expect = {0, Val<X>::zero}; break;
		case C_COPY: r.o = a.make(*b); r.expect = rb; break;
		case C_COPY_CONST: r.o = a.make(static_cast<const O &>(*b)); r.expect = rb; break;
		case C_MOVE: r.o = a.make(std::move(*b)); r.expect = rb; r.b_unspec = true; r.no_copy = true; break;
		case A_COPY: r.o = mc::sut([&] { r.ret = &(*a = *b); }); r.returns_self = true; r.expect = rb; break;
		case A_COPY_CONST: r.o = mc::sut([&] { r.ret = &(*a = static_cast<const O &>(*b)); }); r.returns_self = true; r.expect = rb; break;
		case A_MOVE: r.o = mc::sut([&] { r.ret = &(*a = std::move(*b)); }); r.returns_self = true; r.expect = rb; r.b_unspec = true; r.no_copy = true; break;
		case A_SELF: r.o = mc::sut([&] { r.ret = &(*a = static_cast<const O &>(*a)); }); r.returns_self = true; break;
		case A_SELF_MOVE: r.o = mc::sut([&] { O & other{*a}; r.ret = &(*a = std::move(other)); }); r.returns_self = true; r.a_unspec = true; r.no_copy = true; break;
		case SWAP: r.o = mc::sut([&] { a->swap(*b); }); std::swap(r.expect, r.expect_b); r.no_copy = true; break;
		case SWAP_FRIEND: r.o = mc::sut([&] { swap(*a, *b); }); std::swap(r.expect, r.expect_b); r.no_copy = true; break;
		case SWAP_REVERSED: r.o = mc::sut([&] { b->swap(*a); }); std::swap(r.expect, r.expect_b); r.no_copy = true; break;
		case STD_SWAP: r.o = mc::sut([&] { std::swap(*a, *b); }); std::swap(r.expect, r.expect_b); r.no_copy = true; break;
		case SWAP_SELF: r.o = mc::sut([&] { a->swap(*a); }); r.no_copy = true; break;
		case SWAP_FRIEND_SELF: r.o = mc::sut([&] { swap(*a, *a); }); r.no_copy = true; break;
		case DESTROY: r.o = a.make(); r.expect = {0, Val<X>::zero}; break;
		}
		r.faulted = mc::fault_count;
		mc::arm(0);
	}

	void step(Chooser & ch) override {
		static const int transfer[]{C_DEFAULT, C_COPY, C_COPY_CONST, C_MOVE, A_COPY, A_COPY_CONST, A_MOVE, A_SELF, A_SELF_MOVE, SWAP, SWAP_FRIEND, SWAP_REVERSED, SWAP_SELF, SWAP_FRIEND_SELF, STD_SWAP, A_RVALUE, C_LVALUE, E_TYPE_COPY};
		const int op{only_transfer ? transfer[ch.choose(static_cast<int>(std::size(transfer)))] : ch.choose(OPS)};
		ch.label(names[op]);
		const bool own{op == A_OWN || op == A_OWN_CONST || op == A_OWN_MOVE || op == WRITE_THROUGH || op == TAKE || op == READ || op == READ_CONST};
		const bool theirs{op == A_OTHER_VALUE || op == A_OTHER_VALUE_MOVE};
		const bool uses_b{theirs || op == C_COPY || op == C_COPY_CONST || op == C_MOVE || op == A_COPY || op == A_COPY_CONST || op == A_MOVE || op == SWAP || op == SWAP_FRIEND || op == SWAP_REVERSED || op == STD_SWAP};
		set_b(uses_b ? ch.choose(other_choices()) : 0);
		int alternative{0}, value{0};
		if(op < per_alternative) {
			alternative = own ? ra.i : theirs ? rb.i : all_alternatives || N <= 4 ? ch.choose(N) : spread(ch.choose(4));
			const bool valued{op == C_LVALUE || op == C_CONST_LVALUE || op == C_RVALUE || (op >= C_INDEX_COPY && op <= C_TYPE_MOVE) || (op >= A_LVALUE && op <= A_CONST_RVALUE) || (op >= E_INDEX_COPY && op <= E_TYPE_MOVE) || op == WRITE_THROUGH};
			if(valued) value = ch.choose(3);
		}
		NOTE("  variant holds #%d = %d, other holds #%d = %d; alternative #%d, value %d", ra.i, ra.v, rb.i, rb.v, alternative, value);
		const bool constructing{op <= C_TYPE_NONE || (op >= C_DEFAULT && op <= C_MOVE) || op == DESTROY};
		const Ref before{ra};
		const long a_live{tracked(ra.i)}, b_live{tracked(rb.i)};
		if(constructing) a.kill();
		const auto live{Elem::live};
		Run r{*this, op, value, 0, ra, rb, 0, false, false, false, true, false, nullptr, false, false, -100, mc::OK, 0, ch};
		if(op < per_alternative) with(alternative, [&](auto ic) { with_alternative<decltype(ic)::value>(r); });
		else on_variants(r);
		if(!r.applicable) return;
		if(r.o != mc::OK) {
			REQUIRE_("content", r.faulted > 0, "%s threw %s", names[op], mc::outcome_name(r.o));
			REQUIRE_("atomic", r.o == mc::INJECTED || r.o == mc::BAD_ALLOC, "%s: the exception changed into %s", names[op], mc::outcome_name(r.o));
			REQUIRE_("nothrow", !r.no_copy || r.throwing_args, "%s threw although it only moves", names[op]);
			r.a_unspec = r.b_unspec = r.returns_self = false;
			r.expect = before;
			r.expect_b = rb;
			if(constructing) {
				REQUIRE_("life", Elem::live == live, "%s threw but %ld value(s) stayed alive", names[op], Elem::live - live);
				quiet([&] { ::new(a.raw()) O; });
				a.assume_live(true);
				r.expect = {0, Val<X>::zero};
			}
		}
		if(r.no_copy && r.o == mc::OK) REQUIRE_("copies", Elem::copies == 0, "%s copied a value (%llu copies)", names[op], static_cast<unsigned long long>(Elem::copies));
		if(r.returns_self) REQUIRE_("content", r.ret == a.raw(), "%s did not return the variant itself", names[op]);
		if(r.a_unspec) {
			adopt(*a, r.expect);
			if(op == A_SELF_MOVE) REQUIRE_("self", r.expect.i == ra.i && r.expect.v == ra.v, "self-move changed the value");
		}
		if(r.b_unspec) adopt(*b, r.expect_b);
		ra = r.expect;
		rb = r.expect_b;
		check(a, ra, "variant", !ch.fresh());
		if(uses_b || ch.fresh()) check(b, rb, "other", !ch.fresh());
		{ //exactly the held values live
			const long now{static_cast<long>(tracked(ra.i)) + static_cast<long>(tracked(rb.i))};
			const long base{(constructing ? 0 : a_live) + b_live};
			bool exempt{false}; // vectors of tracked elements bring their own
			for(int i : {before.i, ra.i, rb.i}) with(i, [&](auto ic) { exempt |= std::is_same_v<Alt<decltype(ic)::value>, ptl::vector<Elem>>; });
			const long delta{Elem::live - live};
			if(!exempt) REQUIRE_("life", delta == now - base, "%s: %ld value(s) too many alive", names[op], delta - (now - base));
		}
		if(ch.fresh()) {
			compare();
			if(uses_b) { //independence
				b.kill();
				set(b, N - 1, 0);
				rb = {N - 1, 0};
				check(a, ra, "variant after a change of the other");
			}
		}
	}
	std::string key() override { return fmt("#%d=%d", ra.i, ra.v); }
};

// ---------------------------------------------------------------- visitation
struct Log {
	int calls{0}, alternative{-1}, category{-1}, set{0};
	const void * object{nullptr};
	const void * visitor{nullptr};
} seen;
enum { LV, CLV, RV, CRV };
const char * category_names[]{"lvalue", "const lvalue", "rvalue", "const rvalue"};
template<typename T> constexpr int category{std::is_lvalue_reference_v<T> ? (std::is_const_v<std::remove_reference_t<T>> ? CLV : LV) : (std::is_const_v<std::remove_reference_t<T>> ? CRV : RV)};
struct Pinned { // a result that can neither be copied nor moved
	int v;
	explicit Pinned(int v) : v{v} {}
	Pinned(const Pinned &) =delete;
};
struct Thrown { int v; const void * object; };
int cell[8];
template<typename T>
int note(const T & object, int alternative, int category, int set, const void * visitor = nullptr) {
	++seen.calls;
	seen.alternative = alternative;
	seen.category = category;
	seen.set = set;
	seen.object = std::addressof(object);
	seen.visitor = visitor;
	return set * 100 + alternative * 10 + category;
}
using P = mc::Pod;
template<typename T> constexpr int alt_of{std::is_same_v<std::decay_t<T>, int> ? 0 : std::is_same_v<std::decay_t<T>, Elem> ? 1 : std::is_same_v<std::decay_t<T>, ptl::string> ? 2 : std::is_same_v<std::decay_t<T>, P> ? 3 : -1};

template<typename Result>
struct Generic { // one function object, every category
	template<typename T>
	Result operator()(T && t) {
		[[maybe_unused]] const int r{note(t, alt_of<T>, category<T &&>, 1, this)};
		if constexpr(std::is_void_v<Result>) return;
		else if constexpr(std::is_reference_v<Result>) return static_cast<Result>(cell[alt_of<T>]);
		else return Result(r);
	}
};
struct Qualified { // distinguishes const and non-const calls of the visitor
	template<typename T> int operator()(T && t) { return note(t, alt_of<T>, category<T &&>, 2, this); }
	template<typename T> int operator()(T && t) const { return note(t, alt_of<T>, category<T &&>, 3, this); }
};
struct Thrower {
	template<typename T> int operator()(T && t) { note(t, alt_of<T>, category<T &&>, 4, this); throw Thrown{alt_of<T>, std::addressof(t)}; }
};
struct Mover { // takes what it is given
	int got{-1};
	int operator()(int && i) { got = i; return note(i, 0, RV, 5, this); }
	int operator()(Elem && e) { note(e, 1, RV, 5, this); Elem t{std::move(e)}; got = t.v; return 515; }
	int operator()(ptl::string && s) { note(s, 2, RV, 5, this); ptl::string t{std::move(s)}; got = Val<ptl::string>::get(t); return 525; }
	int operator()(P && p) { got = Val<P>::get(p); return note(p, 3, RV, 5, this); }
	template<typename T> int operator()(T && t) { return note(t, alt_of<T>, category<T &&>, 6, this); }
};
template<typename... Fs> struct Overload : Fs... { using Fs::operator()...; };
template<typename... Fs> Overload(Fs...) -> Overload<Fs...>;
//lists of several visitors; the same list combined by hand tells which one C++ chooses
template<int Which, typename F>
decltype(auto) list(F f) {
	auto exact{[](auto & x) { return note(x, alt_of<decltype(x)>, category<decltype(x)>, 10); }};
	(void)exact;
	if constexpr(Which == 0) return f([](int & x) { return note(x, 0, LV, 11); }, [](const auto & x) { return note(x, alt_of<decltype(x)>, CLV, 12); });
	else if constexpr(Which == 1) return f([](auto && x) { return note(x, alt_of<decltype(x)>, category<decltype(x)>, 13); }, [](const Elem & x) { return note(x, 1, CLV, 14); }, [](int x) { return 1500 + x; });
	else if constexpr(Which == 2) return f([](const int & x) { return note(x, 0, CLV, 16); }, [](const Elem & x) { return note(x, 1, CLV, 16); }, [](const ptl::string & x) { return note(x, 2, CLV, 16); }, [](const P & x) { return note(x, 3, CLV, 16); });
	else if constexpr(Which == 3) return f([](const auto & x) { return note(x, alt_of<decltype(x)>, CLV, 17); }, [](const auto && x) { return note(x, alt_of<decltype(x)>, CRV, 18); }, [](Elem & x) { return note(x, 1, LV, 19); }, [](Elem && x) { return note(x, 1, RV, 20); });
	else return f([n = 3](auto && x) mutable { ++n; return note(x, alt_of<decltype(x)>, category<decltype(x)>, 20 + n); }, [](P & p) { return note(p, 3, LV, 30); });
}

template<typename V>
struct Visit : mc::World {
	static constexpr bool is_ref{!std::is_same_v<V, ptl::variant<int, Elem, ptl::string, P>>};
	int i_{0}, v_{1};
	const void * object{nullptr};
	Visit() { Elem::reset(); }
	~Visit() override { REQUIRE_("life", Elem::live == 0, "%ld value(s) alive after visiting", Elem::live); Elem::reset(); }
	std::string key() override { return {}; }

	void expect(int category_, int set, int result, int got, const char * what) {
		REQUIRE_("visit", seen.calls == 1, "%s: the visitor was called %d times", what, seen.calls);
		REQUIRE_("visit", seen.alternative == i_, "%s: visited alternative %d, held is %d", what, seen.alternative, i_);
		REQUIRE_("visit", seen.object == object, "%s: visited another object", what);
		REQUIRE_("visit", seen.category == category_, "%s: visited as %s instead of %s", what, category_names[seen.category], category_names[category_]);
		REQUIRE_("visit", seen.set == set, "%s: overload %d called instead of %d", what, seen.set, set);
		REQUIRE_("visit", got == result, "%s: result %d instead of %d", what, got, result);
	}
	//! f(variant expression as given, category), direct(visitor) calls the visitor the way C++ would
	template<typename Var, typename Direct>
	void all(Var && var, int cat, Chooser & ch, Direct direct, bool movable) {
		using Fwd = Var &&;
		const auto fwd{[&]() -> Fwd { return static_cast<Fwd>(var); }};
		const int which{ch.choose(movable ? 17 : 16)};
		seen = {};
		NOTE("  %s visit, visitor kind %d, alternative %d", category_names[cat], which, i_);
		switch(which) {
		case 0: { Generic<int> g; int r{0}; mc::sut([&] { r = fwd().visit(g); }); expect(cat, 1, 100 + i_ * 10 + cat, r, "visitor lvalue"); REQUIRE_("visit", seen.visitor == &g, "the visitor was copied"); static_assert(std::is_same_v<decltype(fwd().visit(g)), int>); break; }
		case 1: { int r{0}; mc::sut([&] { r = fwd().visit(Generic<int>{}); }); expect(cat, 1, 100 + i_ * 10 + cat, r, "visitor rvalue"); break; }
		case 2: { Generic<void> g; mc::sut([&] { fwd().visit(g); }); static_assert(std::is_void_v<decltype(fwd().visit(g))>); expect(cat, 1, 0, 0, "void visitor"); break; }
		case 3: { Generic<int &> g; int * r{nullptr}; mc::sut([&] { r = &fwd().visit(g); }); static_assert(std::is_same_v<decltype(fwd().visit(g)), int &>); expect(cat, 1, 0, 0, "reference result"); REQUIRE_("visit", r == &cell[i_], "another object returned"); break; }
		case 4: { Generic<const int &> g; const int * r{nullptr}; mc::sut([&] { r = &fwd().visit(g); }); static_assert(std::is_same_v<decltype(fwd().visit(g)), const int &>); expect(cat, 1, 0, 0, "const reference result"); REQUIRE_("visit", r == &cell[i_], "another object returned"); break; }
		case 5: { Generic<int &&> g; const int * r{nullptr}; mc::sut([&] { auto && x{fwd().visit(g)}; r = &x; }); static_assert(std::is_same_v<decltype(fwd().visit(g)), int &&>); expect(cat, 1, 0, 0, "rvalue reference result"); REQUIRE_("visit", r == &cell[i_], "another object returned"); break; }
		case 6: { Generic<Pinned> g; int r{0}; mc::sut([&] { const auto & x{fwd().visit(g)}; r = x.v; }); expect(cat, 1, 100 + i_ * 10 + cat, r, "immovable result"); break; }
		case 7: { Qualified q; int r{0}; mc::sut([&] { r = fwd().visit(q); }); expect(cat, 2, 200 + i_ * 10 + cat, r, "mutable visitor"); REQUIRE_("visit", seen.visitor == &q, "the visitor was copied"); break; }
		case 8: { const Qualified q; int r{0}; mc::sut([&] { r = fwd().visit(q); }); expect(cat, 3, 300 + i_ * 10 + cat, r, "const visitor"); REQUIRE_("visit", seen.visitor == &q, "the visitor was copied"); break; }
		case 9: {
			Thrower t;
			bool threw{false};
			mc::Scope s;
			try { fwd().visit(t); } catch(Thrown & x) { threw = true; REQUIRE_("visit", x.v == i_ && x.object == object, "the visitor's exception was changed"); }
			REQUIRE_("visit", threw, "the visitor's exception was lost");
			expect(cat, 4, 0, 0, "throwing visitor");
			break;
		}
		case 10: { auto l{[n = 0](auto && x) mutable { ++n; return note(x, alt_of<decltype(x)>, category<decltype(x)>, 7) + 10000 * n; }}; int r{0}, r2{0}; mc::sut([&] { r = fwd().visit(l); }); expect(cat, 7, 10700 + i_ * 10 + cat, r, "stateful visitor"); seen = {}; mc::sut([&] { r2 = fwd().visit(l); }); expect(cat, 7, 20700 + i_ * 10 + cat, r2, "stateful visitor, second time"); break; }
		case 11: several<0>(fwd, direct); break;
		case 12: several<1>(fwd, direct); break;
		case 13: several<2>(fwd, direct); break;
		case 14: several<3>(fwd, direct); break;
		case 15: several<4>(fwd, direct); break;
		case 16: {
			Mover m;
			int r{0};
			const int want{v_};
			mc::sut([&] { r = fwd().visit(m); });
			if(cat == RV) { expect(RV, 5, i_ == 0 ? 500 : i_ == 1 ? 515 : i_ == 2 ? 525 : 532, i_ == 0 || i_ == 3 ? (i_ == 0 ? r - 2 : r) : r, "consuming visitor"); REQUIRE_("visit", m.got == want, "visitor received %d instead of %d", m.got, want); }
			else expect(cat, 6, 600 + i_ * 10 + cat, r, "consuming visitor");
			break;
		}
		}
	}
	template<int Which, typename Fwd, typename Direct>
	void several(Fwd fwd, Direct direct) {
		Log got_log, want_log;
		int got{-1}, want{-2};
		mc::sut([&] { got = list<Which>([&](auto... fs) { return fwd().visit(std::move(fs)...); }); });
		got_log = seen;
		seen = {};
		want = list<Which>([&](auto... fs) { Overload o{std::move(fs)...}; return direct(o); });
		want_log = seen;
		REQUIRE_("visit", got == want && got_log.calls == want_log.calls && got_log.set == want_log.set && got_log.category == want_log.category && got_log.object == want_log.object, "several visitors (list %d): overload %d/%s called, C++ chooses %d/%s", Which, got_log.set, got_log.category < 0 ? "by value" : category_names[got_log.category], want_log.set, want_log.category < 0 ? "by value" : category_names[want_log.category]);
	}
	template<typename T>
	void start(Chooser & ch) {
		if constexpr(!is_ref) {
			mc::Box<V> box;
			{ mc::Made<T> m{v_}; box.make(std::move(*m)); }
			object = box->template get_if<T>();
			const int cat{ch.choose(4)};
			ch.label(category_names[cat]);
			V & v{*box};
			const V & c{v};
			T & t{*v.template get_if<T>()};
			const T & ct{t};
			switch(cat) {
			case LV: all(v, cat, ch, [&](auto & f) { return f(t); }, true); break;
			case CLV: all(c, cat, ch, [&](auto & f) { return f(ct); }, true); break;
			case RV: all(std::move(v), cat, ch, [&](auto & f) { return f(std::move(t)); }, true); break;
			case CRV: all(std::move(c), cat, ch, [&](auto & f) { return f(std::move(ct)); }, true); break;
			}
			REQUIRE_("visit", v.template holds<T>(), "visiting changed the alternative");
		} else if constexpr(std::is_copy_constructible_v<T>) {
			mc::Made<T> m{v_};
			T & t{*m};
			const T & ct{t};
			object = std::addressof(t);
			const bool as_const{ch.flip()}, const_ref{ch.flip()}, rvalue_ref{ch.flip()};
			ch.label(as_const ? "reference to const" : "reference to mutable");
			V r{as_const ? V{ct} : V{t}};
			const V & cr{r};
			const int cat{as_const || !mutable_too ? CLV : LV};
			const auto direct{[&](auto & f) { if(cat == CLV) return f(ct); else return f(t); }};
			if(const_ref) { if(rvalue_ref) all(std::move(cr), cat, ch, direct, false); else all(cr, cat, ch, direct, false); }
			else if(rvalue_ref) all(std::move(r), cat, ch, direct, false);
			else all(r, cat, ch, direct, false);
		}
	}
	static constexpr bool mutable_too{!std::is_same_v<V, ptl::variant_ref<const int, const Elem, const ptl::string, const P>>};
	void step(Chooser & ch) override {
		i_ = ch.choose(4);
		v_ = ch.choose(3);
		for(int k{0}; k < 8; ++k) cell[k] = k;
		switch(i_) {
		case 0: start<int>(ch); break;
		case 1: start<Elem>(ch); break;
		case 2: start<ptl::string>(ch); break;
		case 3: start<P>(ch); break;
		}
	}
};

template<typename... Ts>
mc::Model model(const char * name, bool faults, bool transfer, bool all) {
	mc::Model m;
	m.name = fmt("variant<%s>%s", name, faults ? " with faults" : "");
	m.make = [=] { return new World<Ts...>{transfer, all}; };
	m.depth = 200;
	m.faults = faults;
	return m;
}
template<typename... Ts>
mc::Model histories(const char * name, int depth, bool faults) {
	auto m{model<Ts...>(name, faults, true, true)};
	m.name += " histories";
	m.dedupe = false;
	m.depth = depth;
	return m;
}
template<typename V>
mc::Model visits(const char * name) {
	mc::Model m;
	m.name = name;
	m.make = [] { return new Visit<V>; };
	m.depth = 1;
	return m;
}
}

#ifndef PART
#define PART 0
#endif
mc::Plan plan(const std::string & p, bool thorough) {
	mc::Plan r;
	const bool faults{p == "C17"};
	const bool transfer{p == "C33"};
	(void)thorough;
	(void)faults;
	(void)transfer;
	if(p == "C18") {
#if PART == 2
		r.models.push_back(visits<ptl::variant<int, Elem, ptl::string, P>>("visit variant"));
		r.models.push_back(visits<ptl::variant_ref<int, Elem, ptl::string, P, const int, const Elem, const ptl::string, const P>>("visit variant_ref to mutable and const"));
		r.models.push_back(visits<ptl::variant_ref<const int, const Elem, const ptl::string, const P>>("visit variant_ref to const"));
#endif
		r.mask = {"visit", "life"};
		return r;
	}
#if PART == 0
	r.models.push_back(model<Elem>("tracked", faults, transfer, true));
	r.models.push_back(model<int, Elem>("int, tracked", faults, transfer, true));
	r.models.push_back(model<Elem, Elem2, ptl::string, char>("tracked, tracked2, string, char", faults, transfer, true));
	r.models.push_back(histories<int, Elem>("int, tracked", 2, faults));
	if(thorough) r.models.push_back(histories<Elem, ptl::string>("tracked, string", 3, faults));
#elif PART == 1
	r.models.push_back(model<char, mc::Amp, mc::Fixed, mc::Pod, ptl::vector<Elem>>("char, operator&, not assignable, aggregate, vector", faults, transfer, true));
	r.models.push_back(model<ptl::optional<int>, double, unsigned char>("optional, double, unsigned char", faults, transfer, true));
#endif
	if(p == "C16") r.mask = {"content", "access", "order"};
	else if(p == "C17") r.mask = {"life", "atomic", "copies", "nothrow", "leak", "mem", "content"};
	else if(p == "C26") r.mask = {"layout"};
	else if(p == "C28") r.mask = {"order"};
	else if(p == "C30") r.mask = {"access"};
	else if(p == "C33") r.mask = {"content", "copies", "life", "leak", "self"};
	return r;
}
