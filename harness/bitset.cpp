// ptl::bitset against an abstract vector of bits, and its stream operators against std::bitset.
#include <ptl/bitset.hpp>
#include "output.hpp"
#include <set>
#include <bitset>
#include <sstream>
#include <tuple>

using mc::Chooser;
using mc::fmt;
using mc::Outcome;
using Bits = std::vector<bool>;

struct bool_tag {};
namespace ptl { template<> inline constexpr bool enable_bitset_operator_bool<bool_tag>{true}; }

namespace {
bool deep{false};
std::string text(const Bits & b) { std::string r; for(auto i{b.size()}; i-- > 0;) r += b[i] ? '1' : '0'; return r.empty() ? "(empty)" : r; }

//! the part that depends on the width
struct Sut {
	virtual ~Sut() =default;
	std::size_t n;
	virtual Outcome op(int which, std::size_t i, bool v, std::size_t k) =0; // on a, sometimes with b
	virtual void set_b(const Bits &) =0;
	virtual void check_a(const Bits &) =0;
	virtual void check_b(const Bits &, const char *) =0;
	virtual void check_result(const Bits &, const char *) =0; // value returned by the last operator
	virtual std::string raw() =0;
	virtual Outcome ref_op(int which, int obj_i, std::size_t i, int obj_j, std::size_t j, bool v, bool & out) =0;
	bool result_is_self{true}, got_bit{false};
	virtual std::string raw_b() =0;
	virtual void io(Chooser &, const std::string &) {}
};

enum { DEFAULT, FROM_VALUE, SET_ALL, RESET_ALL, FLIP_ALL, SET, SET_TO, RESET, FLIP, SHL, SHR, SHL_COPY, SHR_COPY, AND, OR, XOR, AND_COPY, OR_COPY, XOR_COPY, NOT, SWAP, SWAP_FRIEND, SELF_AND, SELF_OR, SELF_XOR, SELF_SWAP, COPY_FROM_B, SELF_ASSIGN, AT, AT_CONST, TEST, OPS };
const char * names[]{"bitset()", "bitset(value)", "set()", "reset()", "flip()", "set(i)", "set(i, v)", "reset(i)", "flip(i)", "<<=", ">>=", "<<", ">>", "&=", "|=", "^=", "&", "|", "^", "~", "swap", "swap (friend)", "&= itself", "|= itself", "^= itself", "swap itself", "= other", "= itself", "at(i)", "at(i) const", "test(i)"};
enum { R_READ, R_NOT, R_ASSIGN, R_ASSIGN_REF, R_FLIP, R_SWAP_MEMBER, R_SWAP_FRIEND, R_COPY, R_AT_ASSIGN, R_STD_SWAP, R_SELF_ASSIGN, R_CHAIN, R_OPS };
const char * ref_names[]{"read", "~", "= bool", "= reference", "flip()", "swap (member)", "swap (friend)", "copy and write through", "at() = bool", "using std::swap; swap", "= itself", "chained assignment"};

template<std::size_t N>
struct SutN final : Sut {
	using P = ptl::bitset<N>;
	mc::Box<P> a, b, res;
	SutN() { n = N; a.make(); b.make(); res.make(); }

	template<std::size_t I = 0>
	static void gets(const P & p, const Bits & ref) { using std::get; if constexpr(I < N && I < 80) { REQUIRE_("bits", get<I>(p) == ref[I], "get<%zu>() of %s", I, text(ref).c_str()); gets<I + 1>(p, ref); } }

	static void check(const P & p, const Bits & ref, const char * who) {
		const auto t{[&] { return text(ref); }};
		P & m{const_cast<P &>(p)};
		const auto ones{static_cast<std::size_t>(std::count(ref.begin(), ref.end(), true))};
		REQUIRE_("bits", P::size() == N && P::max_size() == N && P::empty() == (N == 0), "%s: size", who);
		REQUIRE_("bits", p.count() == ones, "%s: count() is %zu for %s", who, p.count(), t().c_str());
		REQUIRE_("bits", p.any() == (ones != 0), "%s: any() of %s", who, t().c_str());
		REQUIRE_("bits", p.none() == (ones == 0), "%s: none() of %s", who, t().c_str());
		REQUIRE_("bits", p.all() == (ones == N), "%s: all() of %s", who, t().c_str());
		P fresh;
		for(std::size_t i{0}; i < N; ++i) if(ref[i]) fresh.set(i);
		for(std::size_t i{0}; i < N; ++i) {
			REQUIRE_("bits", p[i] == ref[i], "%s: bit %zu of %s", who, i, t().c_str());
			REQUIRE_("bits", p.test(i) == ref[i] && p.at(i) == ref[i], "%s: test/at(%zu) of %s", who, i, t().c_str());
			REQUIRE_("ref", static_cast<bool>(m[i]) == ref[i] && static_cast<bool>(m.at(i)) == ref[i], "%s: reference to bit %zu of %s", who, i, t().c_str());
		}
		REQUIRE_("bits", p == fresh && !(p != fresh) && fresh == p, "%s: not equal to an equal bitset %s", who, t().c_str());
		REQUIRE_("hash", std::hash<P>{}(p) == std::hash<P>{}(fresh), "%s: hash differs from that of an equal bitset %s", who, t().c_str());
		for(std::size_t i{0}; i < N; i += N > 16 ? 7 : 1) {
			auto other{fresh};
			other.flip(i);
			REQUIRE_("bits", p != other && !(p == other), "%s: equal to a different bitset (bit %zu of %s)", who, i, t().c_str());
		}
		gets(p, ref);
		{ //bytes, least significant bit first, unused bits zero
			constexpr std::size_t bytes{N ? (N + 7) / 8 : 1};
			REQUIRE_("layout", sizeof(P) == bytes && alignof(P) == 1, "bitset<%zu> has %zu bytes aligned at %zu", N, sizeof(P), alignof(P));
			for(std::size_t k{0}; k < bytes; ++k) {
				int e{0};
				for(std::size_t i{k * 8}; i < N && i < k * 8 + 8; ++i) e |= ref[i] << (i % 8);
				REQUIRE_("layout", reinterpret_cast<const unsigned char *>(&p)[k] == e, "%s: byte %zu of %s is %02x instead of %02x", who, k, t().c_str(), reinterpret_cast<const unsigned char *>(&p)[k], e);
			}
		}
		//nothing beyond the width may become observable: shift everything down
		if constexpr(N > 0) {
			auto top{p};
			top >>= N - 1;
			REQUIRE_("bits", top.count() == (ref[N - 1] ? 1u : 0u) && top[0] == ref[N - 1], "%s: bits beyond the width appear after >>= %zu", who, N - 1);
		}
		const auto inv{~p};
		REQUIRE_("bits", inv.count() == N - ones, "%s: ~ of %s has %zu bits set", who, t().c_str(), inv.count());
		REQUIRE_("bits", sizeof(P) == 0 || inv.all() == (ones == 0), "%s: ~ of %s", who, t().c_str());
		ptl::bitset<N, bool_tag> tagged;
		for(std::size_t i{0}; i < N; ++i) tagged.set(i, ref[i]);
		REQUIRE_("bits", static_cast<bool>(tagged) == (ones != 0), "%s: operator bool of %s", who, t().c_str());
	}
	void set_b(const Bits & v) override { b->reset(); for(std::size_t i{0}; i < N; ++i) if(v[i]) b->set(i); }
	void check_a(const Bits & r) override { check(*a, r, "a"); }
	void check_b(const Bits & r, const char * w) override { check(*b, r, w); }
	void check_result(const Bits & r, const char * w) override { check(*res, r, w); }
	std::string raw_b() override { return std::string(static_cast<const char *>(b.raw()), sizeof(P)); }
	std::string raw() override { return std::string(static_cast<const char *>(a.raw()), sizeof(P)); }

	Outcome op(int which, std::size_t i, bool v, std::size_t k) override {
		result_is_self = true;
		const P * self{&*a};
		const P * got{self};
		Outcome o{mc::OK};
		P & x{*a};
		P & y{*b};
		const P & cx{x};
		const P & cy{y};
		switch(which) {
		case DEFAULT: o = a.make(); break;
		case FROM_VALUE: o = a.make(k); break;
		case SET_ALL: o = mc::sut([&] { got = &x.set(); }); break;
		case RESET_ALL: o = mc::sut([&] { got = &x.reset(); }); break;
		case FLIP_ALL: o = mc::sut([&] { got = &x.flip(); }); break;
		case SET: o = mc::sut([&] { got = &x.set(i); }); break;
		case SET_TO: o = mc::sut([&] { got = &x.set(i, v); }); break;
		case RESET: o = mc::sut([&] { got = &x.reset(i); }); break;
		case FLIP: o = mc::sut([&] { got = &x.flip(i); }); break;
		case SHL: o = mc::sut([&] { got = &(x <<= k); }); break;
		case SHR: o = mc::sut([&] { got = &(x >>= k); }); break;
		case SHL_COPY: o = res.make_by([&] { return cx << k; }); break;
		case SHR_COPY: o = res.make_by([&] { return cx >> k; }); break;
		case AND: o = mc::sut([&] { got = &(x &= cy); }); break;
		case OR: o = mc::sut([&] { got = &(x |= cy); }); break;
		case XOR: o = mc::sut([&] { got = &(x ^= cy); }); break;
		case AND_COPY: o = res.make_by([&] { return cx & cy; }); break;
		case OR_COPY: o = res.make_by([&] { return cx | cy; }); break;
		case XOR_COPY: o = res.make_by([&] { return cx ^ cy; }); break;
		case NOT: o = res.make_by([&] { return ~cx; }); break;
		case SWAP: o = mc::sut([&] { x.swap(y); }); break;
		case SWAP_FRIEND: o = mc::sut([&] { using std::swap; swap(x, y); }); break;
		case SELF_AND: o = mc::sut([&] { got = &(x &= cx); }); break;
		case SELF_OR: o = mc::sut([&] { got = &(x |= cx); }); break;
		case SELF_XOR: o = mc::sut([&] { got = &(x ^= cx); }); break;
		case SELF_SWAP: o = mc::sut([&] { x.swap(x); }); break;
		case COPY_FROM_B: o = mc::sut([&] { got = &(x = cy); }); break;
		case SELF_ASSIGN: o = mc::sut([&] { got = &(x = cx); }); break;
		case AT: o = mc::sut([&] { got_bit = x.at(i); }); break;
		case AT_CONST: o = mc::sut([&] { got_bit = cx.at(i); }); break;
		case TEST: o = mc::sut([&] { got_bit = cx.test(i); }); break;
		}
		result_is_self = got == self;
		return o;
	}
	Outcome ref_op(int which, int oi, std::size_t i, int oj, std::size_t j, bool v, bool & out) override {
		if constexpr(N > 0) {
			P & x{oi ? *b : *a};
			P & y{oj ? *b : *a};
			return mc::sut([&] {
				switch(which) {
				case R_READ: { auto r{x[i]}; out = r; break; }
				case R_NOT: { auto r{x[i]}; out = ~r; break; }
				case R_ASSIGN: out = (x[i] = v); break;
				case R_ASSIGN_REF: out = (x[i] = y[j]); break;
				case R_FLIP: out = x[i].flip(); break;
				case R_SWAP_MEMBER: { auto r{y[j]}; x[i].swap(r); out = r; break; }
				case R_SWAP_FRIEND: swap(x[i], y[j]); break;
				case R_COPY: { auto r{x[i]}; auto s{r}; s = v; out = r; break; }
				case R_AT_ASSIGN: x.at(i) = v; break;
				case R_STD_SWAP: { using std::swap; auto r{x[i]}; auto s{y[j]}; swap(r, s); break; }
				case R_SELF_ASSIGN: { auto r{x[i]}; r = r; out = r; break; }
				case R_CHAIN: x[i] = y[j] = v; break;
				}
			});
		} else { (void)which; (void)oi; (void)i; (void)oj; (void)j; (void)v; (void)out; return mc::OK; }
	}
	void io(Chooser & ch, const std::string & input) override {
		using Std = std::bitset<N>;
		const bool brief{input.size() > 5}; // long texts: one mode
		const bool skip{brief || ch.flip()};
		const auto prior{brief ? 2 : ch.choose(3)};
		const auto preset{brief ? 0 : ch.choose(4)}; // state of the stream beforehand
		Std s;
		P & p{*a};
		p.reset();
		for(std::size_t i{0}; i < N; ++i) { const bool v{prior == 1 || (prior == 2 && i % 2)}; s[i] = v; if(v) p.set(i); }
		NOTE("  read \"%s\" into bitset<%zu> (prior %d, %s, state %d)", input.c_str(), N, prior, skip ? "skipws" : "noskipws", preset);
		std::istringstream in{input}, ref{input};
		for(auto st : {&in, &ref}) {
			if(!skip) *st >> std::noskipws;
			if(preset == 1) st->setstate(std::ios::eofbit);
			if(preset == 2) st->setstate(std::ios::failbit);
		}
		const bool throwing{preset == 3};
		if(throwing) for(auto st : {&in, &ref}) st->exceptions(std::ios::failbit);
		for(int round{0}; round < 3; ++round) { // repeated extraction from the same stream
			bool t1{false}, t2{false};
			std::istream * ret{&in};
			try { ret = &(in >> p); } catch(const std::ios_base::failure &) { t1 = true; }
			try { ref >> s; } catch(const std::ios_base::failure &) { t2 = true; }
			REQUIRE_("stream", ret == &in, "extraction returned another stream");
			REQUIRE_("stream", t1 == t2, "extraction %d: %s an exception, std::bitset does%s", round, t1 ? "threw" : "did not throw", t2 ? "" : " not");
			REQUIRE_("stream", in.rdstate() == ref.rdstate(), "extraction %d: state %d, std::bitset leaves %d", round, static_cast<int>(in.rdstate()), static_cast<int>(ref.rdstate()));
			for(std::size_t i{0}; i < N; ++i) REQUIRE_("stream", p[i] == s[i], "extraction %d: bit %zu is %d, std::bitset has %d", round, i, static_cast<int>(p[i]), static_cast<int>(s[i]));
			const auto left{[](std::istringstream & st) { const auto b{st.rdbuf()}; std::string r; const auto pos{b->pubseekoff(0, std::ios::cur, std::ios::in)}; for(int c; (c = b->sbumpc()) != EOF;) r += static_cast<char>(c); b->pubseekpos(pos, std::ios::in); return r; }};
			REQUIRE_("stream", left(in) == left(ref), "extraction %d: unread input \"%s\", std::bitset leaves \"%s\"", round, left(in).c_str(), left(ref).c_str());
			REQUIRE_("stream", p.count() == s.count(), "extraction %d: count", round);
		}
		//output and round trip
		std::ostringstream out;
		out << static_cast<const P &>(p);
		if(brief) { std::ostringstream rout; rout << s; REQUIRE_("stream", out.str() == rout.str(), "wrote \"%s\", std::bitset writes \"%s\"", out.str().c_str(), rout.str().c_str()); }
		else if(static std::set<std::string> written; written.insert(s.to_string()).second) mc::same_output("stream", static_cast<const P &>(p), s, N); //once for each value
		if(N == 0) return;
		std::istringstream back{out.str()};
		b->set();
		back >> *b;
		REQUIRE_("stream", *b == p && !back.fail(), "writing then reading changed the value");
		REQUIRE_("stream", &(out << p) == &out, "insertion returned another stream");
	}
};

Sut * make(std::size_t n) {
	switch(n) {
	#define W(x) case x: return new SutN<x>;
	W(0) W(1) W(2) W(3) W(4) W(5) W(6) W(7) W(8) W(9) W(10) W(12) W(15) W(16) W(17) W(24) W(25) W(31) W(32) W(33) W(63) W(64) W(65) W(72) W(130)
	#undef W
	}
	std::abort();
}
std::vector<Bits> patterns(std::size_t n) {
	std::vector<Bits> r;
	if(n <= 8) for(std::size_t v{0}; v < (std::size_t{1} << n); ++v) { Bits b(n); for(std::size_t i{0}; i < n; ++i) b[i] = v >> i & 1; r.push_back(b); }
	else {
		r.emplace_back(n, false);
		r.emplace_back(n, true);
		Bits x(n), y(n), z(n);
		for(std::size_t i{0}; i < n; ++i) { x[i] = i % 2; y[i] = i % 3 == 0; z[i] = (i * 7 + 3) % 5 < 2; }
		r.insert(r.end(), {x, y, z});
		for(std::size_t i : {std::size_t{0}, std::size_t{7}, std::size_t{8}, n / 2, n - 2, n - 1}) if(i < n) { Bits b(n); b[i] = true; r.push_back(b); b.flip(); r.push_back(b); }
		for(std::size_t k : {std::size_t{1}, std::size_t{8}, n - 1}) { Bits b(n); for(std::size_t i{0}; i < k && i < n; ++i) b[i] = true; r.push_back(b); }
	}
	return r;
}

bool only_checked{false};
const int checked_ops[]{DEFAULT, SET_ALL, FLIP_ALL, SET, SET_TO, RESET, FLIP, AT, AT_CONST, TEST};

struct World : mc::World {
	std::unique_ptr<Sut> s;
	std::size_t n;
	Bits a, b;
	bool refs, small;
	World(std::size_t n, bool refs) : s{make(n)}, n{n}, a(n), b(n), refs{refs}, small{n <= 8} {}
	Bits pattern(Chooser & ch) { static std::map<std::size_t, std::vector<Bits>> cache; auto & p{cache[n]}; if(p.empty()) p = patterns(n); return ch.pick(p); }

	void step(Chooser & ch) override {
		const auto op{refs ? ch.choose(R_OPS) : only_checked ? checked_ops[ch.choose(10)] : ch.choose(OPS)};
		ch.label(refs ? ref_names[op] : names[op]);
		NOTE("  a = %s", text(a).c_str());
		if(refs) reference(ch, op); else plain(ch, op);
		if(ch.fresh()) s->check_a(a);
	}
	static Bits shl(const Bits & x, std::size_t k) { Bits r(x.size()); for(std::size_t i{0}; i < x.size(); ++i) r[i] = i >= k && x[i - k]; return r; }
	static Bits shr(const Bits & x, std::size_t k) { Bits r(x.size()); for(std::size_t i{0}; i < x.size(); ++i) r[i] = k < x.size() && i + k < x.size() && x[i + k]; return r; }

	void plain(Chooser & ch, int op) {
		std::size_t i{0}, k{0};
		bool v{true};
		if(op == SWAP || op == SWAP_FRIEND || op == COPY_FROM_B || (op >= AND && op <= XOR_COPY)) { b = pattern(ch); s->set_b(b); NOTE("  b = %s", text(b).c_str()); }
		if(op == FROM_VALUE) {
			const std::size_t top{static_cast<std::size_t>(-1)};
			const std::size_t extra[]{0, 1, 2, 0x5555555555555555u, 0xAAAAAAAAAAAAAAAAu, top, top >> 1, top << 63, 0x123456789ABCDEFu, 256, 255, 257, 0x100000000u, 0x80000000u, 0xFFFFFFFFu};
			const auto c{ch.choose(small ? 15 + (1 << n) : 15 + 64)};
			k = c < 15 ? extra[c] : small ? static_cast<std::size_t>(c - 15) : std::size_t{1} << (c - 15);
			NOTE("  value 0x%zx", k);
		}
		const bool indexed{(op >= SET && op <= FLIP) || op >= AT};
		if(indexed) {
			std::vector<std::size_t> is;
			for(std::size_t x{0}; x < n + 3; ++x) is.push_back(x);
			for(auto x : {n + 7, n + 8, n + 63, n + 64, n * 8, std::size_t{256}, std::size_t{1} << 32, static_cast<std::size_t>(-1), static_cast<std::size_t>(-8), std::size_t{1} << 63}) if(x >= n + 3) is.push_back(x);
			i = ch.pick(is);
			if(op == SET_TO) v = ch.flip();
			NOTE("  index %zu", i);
		}
		if(op >= SHL && op <= SHR_COPY) {
			std::vector<std::size_t> ks;
			for(std::size_t x{0}; x < n + 3; ++x) ks.push_back(x);
			for(auto x : {n + 7, n + 8, n + 64, n * 8, std::size_t{255}, std::size_t{256}, std::size_t{257}, std::size_t{1} << 31, std::size_t{1} << 32, (std::size_t{1} << 32) + 1, static_cast<std::size_t>(-1), static_cast<std::size_t>(-1) / 2, std::size_t{1} << 63}) if(x >= n + 3) ks.push_back(x);
			k = ch.pick(ks);
			NOTE("  distance %zu", k);
		}
		const auto b_before{s->raw_b()};
		const bool invalid{indexed && i >= n};
		const auto o{s->op(op, i, v, k)};
		if(invalid) {
			REQUIRE_("checked", o == mc::RANGE, "%s with index %zu of %zu: %s instead of out_of_range", names[op], i, n, mc::outcome_name(o));
			return;
		}
		REQUIRE_("checked", o == mc::OK || !indexed, "%s with valid index %zu of %zu threw", names[op], i, n);
		REQUIRE_("bits", o == mc::OK, "%s threw %s", names[op], mc::outcome_name(o));
		REQUIRE_("bits", s->result_is_self, "%s returned a reference to another object", names[op]);
		if(op >= AT) REQUIRE_("checked", s->got_bit == a[i], "%s of bit %zu yielded %d", names[op], i, s->got_bit);
		if(!ch.fresh()) {}
		else if(op == SWAP || op == SWAP_FRIEND) s->check_b(a, "b");
		else REQUIRE_("bits", s->raw_b() == b_before, "%s changed its other operand", names[op]);
		const auto both{[&](auto f) { Bits r(n); for(std::size_t x{0}; x < n; ++x) r[x] = f(a[x], b[x]); return r; }};
		switch(op) {
		case DEFAULT: case RESET_ALL: case SELF_XOR: a.assign(n, false); break;
		case FROM_VALUE: for(std::size_t x{0}; x < n; ++x) a[x] = x < 64 && (k >> x & 1); break;
		case SET_ALL: a.assign(n, true); break;
		case FLIP_ALL: a.flip(); break;
		case SET: a[i] = true; break;
		case SET_TO: a[i] = v; break;
		case RESET: a[i] = false; break;
		case FLIP: a[i] = !a[i]; break;
		case SHL: a = shl(a, k); break;
		case SHR: a = shr(a, k); break;
		case SHL_COPY: s->check_result(shl(a, k), "<<"); break;
		case SHR_COPY: s->check_result(shr(a, k), ">>"); break;
		case AND: a = both([](bool x, bool y) { return x && y; }); break;
		case OR: a = both([](bool x, bool y) { return x || y; }); break;
		case XOR: a = both([](bool x, bool y) { return x != y; }); break;
		case AND_COPY: s->check_result(both([](bool x, bool y) { return x && y; }), "&"); break;
		case OR_COPY: s->check_result(both([](bool x, bool y) { return x || y; }), "|"); break;
		case XOR_COPY: s->check_result(both([](bool x, bool y) { return x != y; }), "^"); break;
		case NOT: { auto r{a}; r.flip(); s->check_result(r, "~"); break; }
		case SWAP: case SWAP_FRIEND: std::swap(a, b); break;
		case COPY_FROM_B: a = b; break;
		default: break;
		}
	}
	void reference(Chooser & ch, int op) {
		{
			static std::map<std::size_t, std::vector<Bits>> cache;
			auto & ps{cache[n]};
			if(ps.empty() && n <= 4) ps = patterns(n);
			if(ps.empty()) { Bits x(n), y(n); for(std::size_t i{0}; i < n; ++i) { x[i] = i % 2; y[i] = i % 3 == 0; } ps = {Bits(n, false), Bits(n, true), x, y}; }
			b = ch.pick(ps);
		}
		s->set_b(b);
		std::vector<std::size_t> is;
		for(std::size_t x{0}; x < n; ++x) if(n <= 10 || x < 2 || (x >= 6 && x <= 9) || x >= n - 2) is.push_back(x);
		if(is.empty()) return;
		const auto i{ch.pick(is)};
		const int oi{0};
		int oj{0};
		std::size_t j{i};
		bool v{false};
		const bool two{op == R_ASSIGN_REF || op == R_SWAP_MEMBER || op == R_SWAP_FRIEND || op == R_STD_SWAP || op == R_CHAIN};
		if(two) { oj = ch.choose(2); j = ch.pick(is); }
		if(op == R_ASSIGN || op == R_COPY || op == R_AT_ASSIGN || op == R_CHAIN) v = ch.flip();
		NOTE("  b = %s, a[%zu], %s[%zu], value %d", text(b).c_str(), i, oj ? "b" : "a", j, v);
		Bits & y{oj ? b : a};
		bool out{false};
		const auto o{s->ref_op(op, oi, i, oj, j, v, out)};
		REQUIRE_("ref", o == mc::OK, "reference operation threw %s", mc::outcome_name(o));
		bool expected{out};
		switch(op) {
		case R_READ: case R_SELF_ASSIGN: expected = a[i]; break;
		case R_NOT: expected = !a[i]; break;
		case R_ASSIGN: a[i] = v; expected = v; break;
		case R_ASSIGN_REF: a[i] = static_cast<bool>(y[j]); expected = a[i]; break;
		case R_FLIP: a[i] = !a[i]; expected = a[i]; break;
		case R_SWAP_MEMBER: { const bool t{a[i]}; a[i] = static_cast<bool>(y[j]); y[j] = t; expected = y[j]; break; }
		case R_SWAP_FRIEND: case R_STD_SWAP: { const bool t{a[i]}; a[i] = static_cast<bool>(y[j]); y[j] = t; break; }
		case R_COPY: a[i] = v; expected = v; break;
		case R_AT_ASSIGN: a[i] = v; break;
		case R_CHAIN: y[j] = v; a[i] = v; break;
		}
		REQUIRE_("ref", out == expected, "%s of bit %zu yielded %d", ref_names[op], i, out);
		if(ch.fresh()) s->check_b(b, "b");
	}
	std::string key() override { return text(a) + s->raw(); }
};

struct Io : mc::World {
	std::unique_ptr<Sut> s;
	std::string alphabet;
	int max;
	Io(std::size_t n, std::string al, int m) : s{make(n)}, alphabet{std::move(al)}, max{m} {}
	void step(Chooser & ch) override {
		std::string x;
		for(int i{0}; i < max; ++i) {
			const auto c{ch.choose(static_cast<int>(alphabet.size()) + 1)};
			if(c == 0) break;
			x += alphabet[static_cast<std::size_t>(c - 1)];
		}
		ch.label("extract");
		s->io(ch, x);
	}
	std::string key() override { return {}; }
};

mc::Model model(std::size_t n, bool refs, int depth) {
	mc::Model m;
	m.name = fmt("bitset<%zu> %s", n, refs ? "references" : "operations");
	m.make = [n, refs] { return new World{n, refs}; };
	m.depth = depth;
	return m;
}
mc::Model io(std::size_t n, const char * alphabet, int max) {
	mc::Model m;
	m.name = fmt("bitset<%zu> streams, all texts over %zu characters up to length %d", n, std::strlen(alphabet), max);
	m.make = [=] { return new Io{n, alphabet, max}; };
	m.depth = 1;
	m.split = max > 1 ? 2 : 1;
	return m;
}
}

mc::Plan plan(const std::string & p, bool thorough) {
	deep = thorough;
	mc::Plan r;
	const std::size_t small[]{0, 1, 2, 3, 4, 5, 6, 7, 8}, large[]{9, 10, 12, 15, 16, 17, 24, 25, 31, 32, 33, 63, 64, 65, 72, 130};
	if(p == "C11" || p == "C30" || p == "C26" || p == "C28" || p == "C33") {
		only_checked = p == "C30";
		const bool all{p == "C11" || thorough};
		for(auto n : small) if(all || n < 6) r.models.push_back(model(n, false, 300));
		if(all) for(auto n : large) r.models.push_back(model(n, false, thorough && n < 40 ? 3 : 2));
		else for(auto n : {std::size_t{9}, std::size_t{16}, std::size_t{17}, std::size_t{33}, std::size_t{64}}) r.models.push_back(model(n, false, 2));
		if(p == "C11") r.mask = {"bits"};
		else if(p == "C30") r.mask = {"checked", "bits", "ref"};
		else if(p == "C26") r.mask = {"layout"};
		else if(p == "C28") r.mask = {"hash", "bits"};
		else r.mask = {"bits"};
	} else if(p == "C12") {
		for(auto n : small) if(n) r.models.push_back(model(n, true, 300));
		for(auto n : {std::size_t{9}, std::size_t{10}, std::size_t{16}, std::size_t{17}, std::size_t{33}, std::size_t{65}}) r.models.push_back(model(n, true, thorough ? 3 : 2));
		r.mask = {"ref", "bits"};
	} else if(p == "C13") {
		for(std::size_t n{0}; n <= 4; ++n) r.models.push_back(io(n, n == 3 || thorough ? "01x \n2/" : n == 2 ? "01 x" : "01\n2", thorough ? 6 : 5));
		r.models.push_back(io(3, "01x ", thorough ? 8 : 6));
		for(auto n : {std::size_t{8}, std::size_t{9}}) r.models.push_back(io(n, "01", thorough ? 13 : 11));
		r.models.push_back(io(12, "01", thorough ? 15 : 13));
		r.mask = {"stream"};
	}
	return r;
}
