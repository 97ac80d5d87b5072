// ptl::optional in lock-step with (engaged?, value), over several value types, with faults.
#include "values.hpp"
#include <ptl/bitset.hpp>

using mc::Chooser;
using mc::Elem;
using mc::fmt;
using mc::Outcome;
using mc::Val;

namespace {
struct Ref { bool has{false}; int v{0}; };
std::string show(const Ref & r) { return r.has ? std::to_string(r.v) : "nothing"; }

enum {
	C_DEFAULT, C_NULLOPT, C_LVALUE, C_CONST_LVALUE, C_RVALUE, C_IN_PLACE, C_IN_PLACE_COPY, C_IN_PLACE_MOVE, C_IN_PLACE_NONE, C_COPY, C_COPY_CONST, C_MOVE,
	A_NULLOPT, A_BRACES, A_LVALUE, A_CONST_LVALUE, A_RVALUE, A_COPY, A_COPY_CONST, A_MOVE, A_SELF, A_SELF_MOVE, A_OWN_VALUE, A_OWN_VALUE_MOVE, A_OTHER_VALUE, A_OTHER_VALUE_MOVE,
	E_ARGS, E_COPY, E_MOVE, E_NONE, E_OWN, E_OWN_MOVE,
	RESET, SWAP, SWAP_FRIEND, SWAP_REVERSED, SWAP_SELF, SWAP_FRIEND_SELF, STD_SWAP, WRITE_THROUGH, VALUE_OR_CONST, VALUE_OR, VALUE_OR_MOVE, TAKE_STAR, TAKE_VALUE, DESTROY, OPS
};
const char * names[]{"optional()", "optional(nullopt)", "optional(value &)", "optional(const value &)", "optional(value &&)", "optional(in_place, args)", "optional(in_place, value &)", "optional(in_place, value &&)", "optional(in_place)", "optional(optional &)", "optional(const optional &)", "optional(optional &&)",
	"= nullopt", "= {}", "= value &", "= const value &", "= value &&", "= optional &", "= const optional &", "= optional &&", "= itself", "= move(itself)", "= *itself", "= move(*itself)", "= *other", "= move(*other)",
	"emplace(args)", "emplace(value &)", "emplace(value &&)", "emplace()", "emplace(*itself)", "emplace(move(*itself))",
	"reset", "swap", "swap (friend)", "other.swap", "swap with itself", "swap with itself (friend)", "std::swap", "write through", "const value_or", "value_or", "move(optional).value_or", "take *move(optional)", "take move(optional).value()", "destroy"};

template<typename T>
struct World : mc::World {
	using O = ptl::optional<T>;
	mc::Box<O> a, b;
	Ref ra, rb;
	bool only_transfer;
	explicit World(bool t) : only_transfer{t} { Elem::reset(); a.make(); b.make(); }
	~World() override {
		a.kill();
		b.kill();
		REQUIRE_("life", Elem::live == 0, "%ld value(s) alive after the optionals' destruction", Elem::live);
		Elem::reset();
	}
	//! reads what an unspecified (moved-from) state turned out to be
	static void adopt(const O & o, Ref & r) { r.has = static_cast<bool>(o); r.v = r.has ? Val<T>::get(*o) : 0; }

	static void check(O & o, const Ref & r, const char * who, const mc::Box<O> & box) {
		const O & c{o};
		REQUIRE_("content", static_cast<bool>(c) == r.has, "%s: operator bool is %d, expected %s", who, static_cast<bool>(c), show(r).c_str());
		REQUIRE_("content", c.has_value() == r.has, "%s: has_value()", who);
		REQUIRE_("content", (c == std::nullopt) == !r.has && (std::nullopt == c) == !r.has && (c != std::nullopt) == r.has && (std::nullopt != c) == r.has, "%s: comparison with nullopt", who);
		if constexpr(Val<T>::tracked) if(!r.has) REQUIRE_("life", !Val<T>::lives(box.raw()), "%s: empty, but a value lives inside", who);
		REQUIRE_("layout", sizeof(O) == sizeof(T) + 1 && alignof(O) == 1, "optional has %zu bytes aligned at %zu for a value of %zu", sizeof(O), alignof(O), sizeof(T));
		REQUIRE_("layout", static_cast<const unsigned char *>(box.raw())[sizeof(T)] == (r.has ? 1 : 0), "%s: flag byte is %02x, expected %s", who, static_cast<const unsigned char *>(box.raw())[sizeof(T)], show(r).c_str());
		if(r.has) REQUIRE_("layout", static_cast<const void *>(std::addressof(*c)) == box.raw(), "%s: the value is not at the beginning", who);
		int threw{0};
		const auto access{[&](auto f) {
			const auto o2{mc::sut([&] {
				auto p{f()};
				if(r.has) REQUIRE_("content", p == std::addressof(*c) && box.inside(p), "%s: accessor refers to another object", who);
			})};
			if(r.has) REQUIRE_("access", o2 == mc::OK, "%s: value() threw %s although there is a value", who, mc::outcome_name(o2));
			else REQUIRE_("access", o2 == mc::BAD_OPT, "%s: value() of an empty optional: %s instead of bad_optional_access", who, mc::outcome_name(o2));
			threw += o2 != mc::OK;
		}};
		access([&]() -> const void * { return std::addressof(o.value()); });
		access([&]() -> const void * { return std::addressof(c.value()); });
		access([&]() -> const void * { auto && x{std::move(o).value()}; static_assert(std::is_same_v<decltype(std::move(o).value()), T &&>); return std::addressof(x); });
		access([&]() -> const void * { auto && x{std::move(c).value()}; static_assert(std::is_same_v<decltype(std::move(c).value()), const T &&>); return std::addressof(x); });
		if(!r.has) return;
		REQUIRE_("content", Val<T>::get(*c) == r.v, "%s: value %d, expected %d", who, Val<T>::get(*c), r.v);
		REQUIRE_("content", std::addressof(*o) == std::addressof(*c) && o.operator->() == std::addressof(*c) && c.operator->() == std::addressof(*c), "%s: accessors disagree", who);
		auto && x{*std::move(o)};
		auto && y{*std::move(c)};
		static_assert(std::is_same_v<decltype(*std::move(o)), T &&> && std::is_same_v<decltype(*std::move(c)), const T &&>);
		REQUIRE_("content", std::addressof(x) == std::addressof(*c) && std::addressof(y) == std::addressof(*c), "%s: rvalue accessors disagree", who);
	}
	template<typename L, typename R2>
	static void order(const L & l, const R2 & r, int c, const char * who) {
		REQUIRE_("order", (l == r) == (c == 0) && (l != r) == (c != 0) && (l < r) == (c < 0) && (l <= r) == (c <= 0) && (l > r) == (c > 0) && (l >= r) == (c >= 0), "%s: comparison operators disagree with the order (expected sign %d)", who, c);
	}
	static int sign(const Ref & l, const Ref & r) { if(!l.has || !r.has) return static_cast<int>(l.has) - static_cast<int>(r.has); return (l.v > r.v) - (l.v < r.v); }
	static bool known(const Ref & r) { return !r.has || (r.v >= 0 && r.v < 3) || std::is_base_of_v<Elem, T>; }

	void compare() {
		const O & x{*a};
		const O & y{*b};
		if(!known(ra) || !known(rb)) return;
		mc::NoFaults nf;
		order(x, y, sign(ra, rb), "optional, optional");
		order(y, x, sign(rb, ra), "optional, optional");
		order(x, x, 0, "optional with itself");
		order(x, std::nullopt, ra.has ? 1 : 0, "optional, nullopt");
		order(std::nullopt, x, ra.has ? -1 : 0, "nullopt, optional");
		if constexpr(!std::is_same_v<T, ptl::optional<int>>)
			for(int i{0}; i < 3; ++i) {
				mc::Made<T> m{i};
				order(x, static_cast<const T &>(*m), sign(ra, Ref{true, i}), "optional, value");
				order(static_cast<const T &>(*m), x, -sign(ra, Ref{true, i}), "value, optional");
				O wrapped{static_cast<const T &>(*m)};
				order(x, wrapped, sign(ra, Ref{true, i}), "optional, wrapped value");
			}
	}
	void set_b(int what) { // 0 never assigned, 1..3 value, 4 emptied, 5 moved from, 6 refilled
		mc::NoFaults nf;
		b.kill();
		b.make();
		rb = {};
		if(what == 0) return;
		const int i{what <= 3 ? what - 1 : 2};
		quietly_assign(*b, i);
		rb = {true, i};
		if(what == 4) { b->reset(); rb = {}; }
		if(what == 5) { { mc::Box<O> t; t.make(std::move(*b)); } adopt(*b, rb); }
		if(what == 6) { b->reset(); quietly_assign(*b, 1); rb = {true, 1}; }
	}
	static void quietly_assign(O & o, int i) { mc::Made<T> m{i}; mc::sut([&] { o = std::move(*m); }); }

	void step(Chooser & ch) override {
		static const int transfer[]{C_COPY, C_COPY_CONST, C_MOVE, A_COPY, A_COPY_CONST, A_MOVE, A_SELF, A_SELF_MOVE, SWAP, SWAP_FRIEND, SWAP_REVERSED, SWAP_SELF, SWAP_FRIEND_SELF, STD_SWAP, RESET, A_RVALUE, C_LVALUE, E_COPY, DESTROY};
		const int op{only_transfer ? transfer[ch.choose(static_cast<int>(std::size(transfer)))] : ch.choose(OPS)};
		ch.label(names[op]);
		//arguments
		const bool uses_b{op == C_COPY || op == C_COPY_CONST || op == C_MOVE || op == A_COPY || op == A_COPY_CONST || op == A_MOVE || op == A_OTHER_VALUE || op == A_OTHER_VALUE_MOVE || op == SWAP || op == SWAP_FRIEND || op == SWAP_REVERSED || op == STD_SWAP};
		set_b(uses_b ? ch.choose(7) : 0);
		const bool uses_value{op == C_LVALUE || op == C_CONST_LVALUE || op == C_RVALUE || op == C_IN_PLACE_COPY || op == C_IN_PLACE_MOVE || op == A_LVALUE || op == A_CONST_LVALUE || op == A_RVALUE || op == E_COPY || op == E_MOVE || op == WRITE_THROUGH || op == VALUE_OR || op == VALUE_OR_CONST || op == VALUE_OR_MOVE};
		const int value{uses_value ? ch.choose(3) : 0};
		NOTE("  optional holds %s, other holds %s, value %d", show(ra).c_str(), show(rb).c_str(), value);
		if((op == A_OTHER_VALUE || op == A_OTHER_VALUE_MOVE) && !rb.has) return;
		if((op == A_OWN_VALUE || op == A_OWN_VALUE_MOVE || op == E_OWN || op == E_OWN_MOVE || op == WRITE_THROUGH || op == TAKE_STAR) && !ra.has) return;
		mc::Made<T> arg{value};
		T & val{*arg};
		const T & cval{val};
		const bool constructing{op <= C_MOVE};
		Ref before{ra};
		if(constructing || op == DESTROY) { a.kill(); before = {}; }
		const auto live{Elem::live};
		const auto had{ra.has};
		const auto bhad{rb.has};
		Ref expect{ra}, expect_b{rb};
		int expect_arg{value}; // -1: moved from
		bool b_unspec{false}, a_unspec{false}, no_copy{false};
		const void * ret{nullptr};
		bool returns{false};
		int got{-100};
		Outcome o{mc::OK};
		Elem::copies = 0;
		mc::arm(1);
		switch(op) {
		case C_DEFAULT: o = a.make(); expect = {}; break;
		case C_NULLOPT: o = a.make(std::nullopt); expect = {}; break;
		case C_LVALUE: o = a.make(val); expect = {true, value}; break;
		case C_CONST_LVALUE: o = a.make(cval); expect = {true, value}; break;
		case C_RVALUE: o = a.make(std::move(val)); expect = {true, value}; expect_arg = -1; no_copy = true; break;
		case C_IN_PLACE: o = mc::sut([&] { std::apply([&](auto... x) { ::new(a.raw()) O(std::in_place, x...); a.assume_live(true); }, Val<T>::args()); }); expect = {true, Val<T>::args_value}; break;
		case C_IN_PLACE_COPY: o = a.make(std::in_place, cval); expect = {true, value}; break;
		case C_IN_PLACE_MOVE: o = a.make(std::in_place, std::move(val)); expect = {true, value}; expect_arg = -1; no_copy = true; break;
		case C_IN_PLACE_NONE: o = a.make(std::in_place); expect = {true, Val<T>::zero}; break;
		case C_COPY: o = a.make(*b); expect = rb; break;
		case C_COPY_CONST: o = a.make(static_cast<const O &>(*b)); expect = rb; break;
		case C_MOVE: o = a.make(std::move(*b)); expect = rb; b_unspec = true; no_copy = true; break;
		case A_NULLOPT: o = mc::sut([&] { ret = &(*a = std::nullopt); }); returns = true; expect = {}; break;
		case A_BRACES: if constexpr(std::is_class_v<T>) { o = mc::sut([&] { ret = &(*a = O{}); }); returns = true; expect = {}; } else { o = mc::sut([&] { ret = &(*a = O{}); }); returns = true; expect = {}; } break;
		case A_LVALUE: o = mc::sut([&] { ret = &(*a = val); }); returns = true; expect = {true, value}; break;
		case A_CONST_LVALUE: o = mc::sut([&] { ret = &(*a = cval); }); returns = true; expect = {true, value}; break;
		case A_RVALUE: o = mc::sut([&] { ret = &(*a = std::move(val)); }); returns = true; expect = {true, value}; expect_arg = -1; no_copy = true; break;
		case A_COPY: o = mc::sut([&] { ret = &(*a = *b); }); returns = true; expect = rb; break;
		case A_COPY_CONST: o = mc::sut([&] { ret = &(*a = static_cast<const O &>(*b)); }); returns = true; expect = rb; break;
		case A_MOVE: o = mc::sut([&] { ret = &(*a = std::move(*b)); }); returns = true; expect = rb; b_unspec = true; no_copy = true; break;
		case A_SELF: o = mc::sut([&] { ret = &(*a = static_cast<const O &>(*a)); }); returns = true; break;
		case A_SELF_MOVE: o = mc::sut([&] { ret = &(*a = std::move(*a)); }); returns = true; a_unspec = true; no_copy = true; break;
		case A_OWN_VALUE: o = mc::sut([&] { ret = &(*a = static_cast<const T &>(**a)); }); returns = true; break;
		case A_OWN_VALUE_MOVE: o = mc::sut([&] { ret = &(*a = std::move(**a)); }); returns = true; a_unspec = true; no_copy = true; break;
		case A_OTHER_VALUE: o = mc::sut([&] { ret = &(*a = static_cast<const T &>(**b)); }); returns = true; expect = rb; break;
		case A_OTHER_VALUE_MOVE: o = mc::sut([&] { ret = &(*a = std::move(**b)); }); returns = true; expect = rb; b_unspec = true; no_copy = true; break;
		case E_ARGS: o = mc::sut([&] { std::apply([&](auto... x) { ret = std::addressof(a->emplace(x...)); }, Val<T>::args()); }); expect = {true, Val<T>::args_value}; no_copy = true; break;
		case E_COPY: o = mc::sut([&] { ret = std::addressof(a->emplace(cval)); }); expect = {true, value}; break;
		case E_MOVE: o = mc::sut([&] { ret = std::addressof(a->emplace(std::move(val))); }); expect = {true, value}; expect_arg = -1; no_copy = true; break;
		case E_NONE: o = mc::sut([&] { ret = std::addressof(a->emplace()); }); expect = {true, Val<T>::zero}; no_copy = true; break;
		case E_OWN: o = mc::sut([&] { ret = std::addressof(a->emplace(static_cast<const T &>(**a))); }); break;
		case E_OWN_MOVE: o = mc::sut([&] { ret = std::addressof(a->emplace(std::move(**a))); }); a_unspec = std::is_same_v<T, int>; no_copy = true; break;
		case RESET: o = mc::sut([&] { a->reset(); }); expect = {}; break;
		case SWAP: o = mc::sut([&] { a->swap(*b); }); std::swap(expect, expect_b); no_copy = true; break;
		case SWAP_FRIEND: o = mc::sut([&] { swap(*a, *b); }); std::swap(expect, expect_b); no_copy = true; break;
		case SWAP_REVERSED: o = mc::sut([&] { b->swap(*a); }); std::swap(expect, expect_b); no_copy = true; break;
		case STD_SWAP: o = mc::sut([&] { std::swap(*a, *b); }); std::swap(expect, expect_b); no_copy = true; break;
		case SWAP_SELF: o = mc::sut([&] { a->swap(*a); }); no_copy = true; break;
		case SWAP_FRIEND_SELF: o = mc::sut([&] { swap(*a, *a); }); no_copy = true; break;
		case WRITE_THROUGH: { mc::Paused p; Outcome r; { mc::NoFaults nf; r = mc::sut([&] { switch(ch.choose(3)) { case 0: **a = std::move(val); break; case 1: a->value() = std::move(val); break; default: *a->operator->() = std::move(val); } }); } o = r; expect = {true, value}; expect_arg = -1; break; }
		case VALUE_OR_CONST: o = mc::sut([&] { const auto t{static_cast<const O &>(*a).value_or(cval)}; got = Val<T>::get(t); }); REQUIRE_("content", o != mc::OK || got == (ra.has ? ra.v : value), "value_or() yielded %d", got); break;
		case VALUE_OR: o = mc::sut([&] { auto t{a->value_or(std::move(val))}; got = Val<T>::get(t); }); if(!ra.has) expect_arg = -1; REQUIRE_("content", o != mc::OK || got == (ra.has ? ra.v : value), "value_or() yielded %d", got); break;
		case VALUE_OR_MOVE: o = mc::sut([&] { auto t{std::move(*a).value_or(std::move(val))}; got = Val<T>::get(t); }); if(ra.has) a_unspec = true; else expect_arg = -1; no_copy = true; REQUIRE_("content", o != mc::OK || got == (ra.has ? ra.v : value), "value_or() of an rvalue yielded %d", got); break;
		case TAKE_STAR: o = mc::sut([&] { T t{*std::move(*a)}; got = Val<T>::get(t); }); a_unspec = true; no_copy = true; REQUIRE_("content", got == ra.v, "*rvalue yielded %d", got); break;
		case TAKE_VALUE:
			o = mc::sut([&] { T t{std::move(*a).value()}; got = Val<T>::get(t); });
			if(!ra.has) { REQUIRE_("access", o == mc::BAD_OPT, "value() of an empty optional: %s", mc::outcome_name(o)); o = mc::OK; }
			else { a_unspec = true; no_copy = true; REQUIRE_("content", got == ra.v, "value() of an rvalue yielded %d", got); }
			break;
		case DESTROY: expect = {}; o = a.make(); break;
		}
		const auto faulted{mc::fault_count};
		mc::arm(0);
		if(o != mc::OK) {
			REQUIRE_("content", faulted > 0, "%s threw %s", names[op], mc::outcome_name(o));
			REQUIRE_("atomic", o == mc::INJECTED || o == mc::BAD_ALLOC, "%s: the exception changed into %s", names[op], mc::outcome_name(o));
			REQUIRE_("nothrow", !no_copy || op == E_ARGS || op == E_NONE, "%s threw although it only moves", names[op]);
			expect = before;
			if(constructing) { //no object came to life
				REQUIRE_("life", Elem::live == live, "%s threw but %ld value(s) stayed alive", names[op], Elem::live - live);
				if constexpr(Val<T>::tracked) REQUIRE_("life", !Val<T>::lives(a.raw()), "%s threw but its value stayed alive", names[op]);
				REQUIRE_("atomic", !a.alive(), "constructed although it threw");
				a.make();
			} else {
				//a failed assignment to a live value may have changed the value, everything else not
				const bool assigning{before.has && (op == A_LVALUE || op == A_CONST_LVALUE || op == A_COPY || op == A_COPY_CONST || op == A_OTHER_VALUE || op == A_OWN_VALUE || op == A_SELF)};
				REQUIRE_("atomic", static_cast<bool>(*a) == before.has, "%s threw and left the optional %s", names[op], *a ? "with a value" : "empty");
				if(assigning && *a) expect.v = Val<T>::get(**a);
				else if(*a) REQUIRE_("atomic", Val<T>::get(**a) == before.v, "%s threw and changed the value from %d to %d", names[op], before.v, Val<T>::get(**a));
			}
			a_unspec = b_unspec = false;
			expect_b = rb;
			if(expect_arg == -1) expect_arg = value;
		}
		if(no_copy && o == mc::OK && !(op == VALUE_OR)) REQUIRE_("copies", Elem::copies == 0, "%s copied a value (%llu copies)", names[op], static_cast<unsigned long long>(Elem::copies));
		if(returns && o == mc::OK) REQUIRE_("content", ret == a.raw(), "%s did not return the optional itself", names[op]);
		if((op == E_ARGS || op == E_COPY || op == E_MOVE || op == E_NONE || op == E_OWN || op == E_OWN_MOVE) && o == mc::OK) REQUIRE_("content", ret == std::addressof(**a), "%s did not return the new value", names[op]);
		if(a_unspec) { //valid: still usable; engaged state of a moved-from optional is not prescribed
			adopt(*a, expect);
			if(op == A_SELF_MOVE) REQUIRE_("content", expect.has == ra.has, "self-move changed whether there is a value");
			if(op == A_SELF_MOVE) REQUIRE_("self", expect.v == ra.v, "self-move changed the value");
		}
		if(b_unspec) adopt(*b, expect_b);
		//exactly the values held live
		if constexpr(Val<T>::tracked) {
			const long delta{Elem::live - live};
			const long base{(constructing || op == DESTROY) ? static_cast<long>(bhad) : static_cast<long>(had) + static_cast<long>(bhad)};
			const long now{static_cast<long>(static_cast<bool>(*a)) + static_cast<long>(static_cast<bool>(*b))};
			REQUIRE_("life", delta == now - base, "%s: %ld value(s) too many alive", names[op], delta - (now - base));
		}
		ra = expect;
		rb = expect_b;
		check(*a, ra, "optional", a);
		check(*b, rb, "other", b);
		if(expect_arg >= 0) REQUIRE_("content", Val<T>::get(cval) == expect_arg, "%s changed its argument", names[op]);
		if(ch.fresh()) compare();
		//independence: changing the other leaves this one alone
		if(ch.fresh() && (op == C_COPY || op == C_COPY_CONST || op == A_COPY || op == A_COPY_CONST || op == SWAP || op == C_MOVE || op == A_MOVE) && rb.has) {
			mc::NoFaults nf;
			quietly_assign(*b, 0);
			rb = {true, 0};
			check(*b, rb, "other after a change", b);
			check(*a, ra, "optional after a change of the other", a);
		}
	}
	std::string key() override { auto r{show(ra)}; if(std::is_trivially_copyable_v<T> && !std::is_same_v<T, mc::Ordered>) r.append(static_cast<const char *>(a.raw()), sizeof(O)); else r += static_cast<const char *>(a.raw())[sizeof(O) - 1]; return r; }
};

template<typename T>
mc::Model model(const char * name, bool faults, bool transfer) {
	mc::Model m;
	m.name = fmt("optional<%s>%s", name, faults ? " with faults" : "");
	m.make = [transfer] { return new World<T>{transfer}; };
	m.depth = 200;
	m.faults = faults;
	return m;
}
//! every history (states not merged) up to a depth: hidden state would show up
template<typename T>
mc::Model histories(const char * name, int depth, bool faults) {
	auto m{model<T>(name, faults, true)};
	m.name += " histories";
	m.dedupe = false;
	m.depth = depth;
	return m;
}
}

mc::Plan plan(const std::string & p, bool thorough) {
	mc::Plan r;
	const bool faults{p == "C15"};
	const bool transfer{p == "C33"};
	r.models.push_back(model<Elem>("tracked", faults, transfer));
	r.models.push_back(model<mc::Amp>("tracked, operator& overloaded", faults, transfer));
	r.models.push_back(model<ptl::string>("string", faults, transfer));
	r.models.push_back(model<ptl::vector<Elem>>("vector<tracked>", faults, transfer));
	if(p != "C15") {
		r.models.push_back(model<int>("int", faults, transfer));
		r.models.push_back(model<unsigned char>("unsigned char", faults, transfer));
		r.models.push_back(model<double>("double", faults, transfer));
		r.models.push_back(model<mc::Pod>("aggregate", faults, transfer));
		r.models.push_back(model<mc::Ordered>("ordered", faults, transfer));
		r.models.push_back(model<ptl::optional<int>>("optional<int>", faults, transfer));
	}
	if(p == "C14" || p == "C15" || p == "C33") {
		if(p != "C15") r.models.push_back(histories<Elem>("tracked", thorough ? 3 : 2, false));
		if(p != "C14") r.models.push_back(histories<ptl::string>("string", thorough ? 3 : 2, false));
		if(p == "C15") r.models.push_back(histories<Elem>("tracked", thorough ? 3 : 2, true));
	}
	if(p == "C14") r.mask = {"content", "access", "order"};
	else if(p == "C15") r.mask = {"life", "atomic", "copies", "nothrow", "leak", "mem", "content"};
	else if(p == "C26") r.mask = {"layout"};
	else if(p == "C28") r.mask = {"order"};
	else if(p == "C30") r.mask = {"access"};
	else if(p == "C33") r.mask = {"content", "copies", "life", "leak", "self"};
	return r;
}
