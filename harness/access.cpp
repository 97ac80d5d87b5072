// at() of the owning sequences in every state reached through a history
#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#include "values.hpp"

using mc::Chooser;
using mc::Elem;
using mc::fmt;

namespace {
enum Op { PUSH, POP, RESIZE, ERASE_FIRST, CLEAR, SHRINK, RESERVE, MOVE_OUT, MOVE_IN, COPY_IN, OPS };
const char * const op_names[]{"push_back", "pop_back", "resize", "erase first", "clear", "shrink_to_fit", "reserve", "move away", "move from other", "copy from other"};
enum Acc { READ, READ_CONST, WRITE, ACCS };
const char * const acc_names[]{"at(i)", "at(i) const", "at(i) ="};

struct Odd { char a[3]; Odd(int i = 0) : a{9, static_cast<char>(i), 9} {} };

template<typename C, typename T> struct World : mc::World {
	bool big;
	mc::Box<C> box, spare;
	std::vector<int> ref;
	bool done{false};
	explicit World(bool big) : big{big} { Elem::reset(); box.make(); }
	std::string key() override { return done ? "" : fmt("%zu %zu %d", ref.size(), box->capacity(), inline_()); }
	bool inline_() { const void * d{box->data()}; return box.inside(d); }
	static T mk(int i) { return T(static_cast<char>(i)); }
	static int number(const T & t) { if constexpr(std::is_same_v<T, Elem>) { t.need("read"); return t.v; } else if constexpr(std::is_same_v<T, Odd>) return t.a[1]; else return t; }

	void check() {
		REQUIRE_("access", box->size() == ref.size(), "size %zu, expected %zu", box->size(), ref.size());
		for(std::size_t i{0}; i < ref.size(); ++i) if(number(box->data()[i]) != ref[i]) { mc::fail("access", fmt("element %zu is %d, expected %d", i, number(box->data()[i]), ref[i])); break; }
	}
	std::string image() {
		std::string r(static_cast<const char *>(box.raw()), sizeof(C));
		if(!inline_() && box->data()) { mc::Paused p; const auto n{(box->capacity() * sizeof(T))}; if(auto a{mc::ledger.find(box->data())}) r.append(static_cast<const char *>(a->ptr), std::min(n, a->size)); }
		return r;
	}
	void step(Chooser & ch) override {
		auto & c{*box};
		const auto kind{ch.choose(OPS + ACCS)};
		if(kind < OPS) {
			ch.label(op_names[kind]);
			switch(kind) {
				case PUSH: {
					const auto v{static_cast<int>(ref.size() * 3 + 1) & 63};
					mc::sut([&] { c.push_back(mk(v)); });
					ref.push_back(v);
					break;
				}
				case POP: if(ref.empty()) { done = true; return; } mc::sut([&] { c.pop_back(); }); ref.pop_back(); break;
				case RESIZE: {
					static const std::size_t s[]{0, 1, 2, 5, 10, 11, 22, 23, 24, 49}, b[]{0, 127, 128, 255, 256, 257, 65535, 65536, 65537};
					const auto n{big ? ch.pick(b) : ch.pick(s)};
					NOTE("to %zu", n);
					if constexpr(std::is_same_v<C, ptl::string>) mc::sut([&] { c.resize(n, 'r'); });
					else { const auto v{mk('r')}; mc::sut([&] { c.resize(n, v); }); }
					ref.resize(n, 'r');
					break;
				}
				case ERASE_FIRST: if(ref.empty()) { done = true; return; } mc::sut([&] { c.erase(c.begin()); }); ref.erase(ref.begin()); break;
				case CLEAR: mc::sut([&] { c.clear(); }); ref.clear(); break;
				case SHRINK: mc::sut([&] { c.shrink_to_fit(); }); break;
				case RESERVE: { static const std::size_t n[]{1, 23, 60, 300}; const auto k{ch.pick(n)}; mc::sut([&] { c.reserve(k); }); break; }
				case MOVE_OUT: spare.make(std::move(c)); spare.kill(); { mc::Paused p; mc::sut([&] { c = C{}; }); } ref.clear(); break;
				case MOVE_IN: case COPY_IN: {
					spare.make();
					const auto n{ch.choose(2) ? std::size_t{30} : std::size_t{3}};
					for(std::size_t i{0}; i < n; ++i) mc::sut([&] { spare->push_back(mk(static_cast<int>(i))); });
					if(kind == MOVE_IN) mc::sut([&] { c = std::move(*spare); }); else mc::sut([&] { c = static_cast<const C &>(*spare); });
					spare.kill();
					ref.clear();
					for(std::size_t i{0}; i < n; ++i) ref.push_back(static_cast<int>(i));
					break;
				}
			}
			if(ch.fresh()) check();
			return;
		}
		done = true;
		const auto a{kind - OPS};
		ch.label(acc_names[a]);
		const auto n{ref.size()}, cap{c.capacity()};
		std::vector<std::size_t> idx;
		if(n + 3 < 70) for(std::size_t i{0}; i <= std::max(cap, n) + 3 && i < 80; ++i) idx.push_back(i);
		const std::size_t top{static_cast<std::size_t>(-1)}, one{1};
		for(auto i : {std::size_t{0}, one, n / 2, n - 1, n, n + 1, cap - 1, cap, cap + 1, one << 7, one << 8, n + (one << 8), one << 15, one << 16, n + (one << 16), one << 31, one << 32, (one << 32) + n / 2, one << 63, (one << 63) + n / 2, top, top - n, top - n + 1, top / sizeof(T), top / sizeof(T) + 1, top / sizeof(T) + 2, one << 61, one << 62}) idx.push_back(i);
		idx = mc::uniq(idx, top);
		const auto i{ch.pick(idx)};
		NOTE("index %zu of %zu (capacity %zu)", i, n, cap);
		const auto before{image()};
		const void * at{nullptr};
		const auto o{mc::sut([&] {
			if(a == READ_CONST) at = std::addressof(static_cast<const C &>(c).at(i));
			else if(a == READ) at = std::addressof(c.at(i));
			else c.at(i) = mk('w');
		})};
		if(!ch.fresh()) return;
		REQUIRE_("access", o == (i < n ? mc::OK : mc::RANGE), "at(%zu) of %zu elements: %s", i, n, mc::outcome_name(o));
		if(i < n && a != WRITE) REQUIRE_("access", at == std::addressof(c.data()[i]), "at(%zu) yields another element", i);
		if(i < n && a == WRITE) ref[i] = 'w';
		else REQUIRE_("access", image() == before, "at(%zu) of %zu elements changed the object", i, n);
		check();
	}
};
template<typename C, typename T> mc::Model model(const char * name, bool big, int depth) {
	mc::Model m;
	m.name = fmt("%s%s", name, big ? ", big sizes" : "");
	m.make = [big] { return new World<C, T>{big}; };
	m.depth = depth;
	return m;
}
}

mc::Plan plan(const std::string &, bool thorough) {
	mc::Plan r;
	const int d{thorough ? 14 : 9};
	r.models.push_back(model<ptl::string, char>("string", false, d));
	r.models.push_back(model<ptl::vector<Elem>, Elem>("vector<tracked>", false, d));
	r.models.push_back(model<ptl::vector<unsigned char>, unsigned char>("vector<unsigned char>", false, d));
	r.models.push_back(model<ptl::vector<Odd>, Odd>("vector<3 byte elements>", false, d));
	r.models.push_back(model<ptl::string, char>("string", true, thorough ? 5 : 3));
	r.models.push_back(model<ptl::vector<unsigned char>, unsigned char>("vector<unsigned char>", true, thorough ? 5 : 3));
	r.models.push_back(model<ptl::vector<Odd>, Odd>("vector<3 byte elements>", true, thorough ? 4 : 2));
	r.mask = {"access"};
	return r;
}
