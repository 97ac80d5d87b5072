// Recursive values: containers of nodes that own containers of nodes. Every operation whose argument is
// part of the object it changes (tree = part of the tree), with every allocation failing.
#include <ptl/optional.hpp>
#include <ptl/variant.hpp>
#include <ptl/vector.hpp>
#include "common.hpp"

using mc::Chooser;
using mc::fmt;

namespace {
template<template<typename> class C>
struct Node {
	using Kids = C<Node>;
	Kids * kids{nullptr};
	int n{0};
	Node() noexcept {}
	explicit Node(int n) noexcept : n{n} {}
	Node(const Node & o) : kids{o.kids ? new Kids(*o.kids) : nullptr}, n{o.n} {}
	Node(Node && o) noexcept : kids{std::exchange(o.kids, nullptr)}, n{o.n} {}
	Node & operator=(const Node & o) { Node t{o}; return *this = std::move(t); }
	Node & operator=(Node && o) noexcept {
		const auto old{kids};
		if(this != &o) { kids = std::exchange(o.kids, nullptr); n = o.n; delete old; }
		return *this;
	}
	~Node() { delete kids; }
	friend void swap(Node & a, Node & b) noexcept { std::swap(a.kids, b.kids); std::swap(a.n, b.n); }
};
template<typename T> using Opt = ptl::optional<T>;
template<typename T> using Var = ptl::variant<int, T>;
template<typename T> using Vec = ptl::vector<T>;

// the reference: plain trees
struct Tree;
struct Cont { std::vector<Tree> e; int alt{0}; }; // alt: the int of a variant without a node
struct Tree { int n{0}; bool has{false}; Cont kids; };
bool same(const Cont & a, const Cont & b);
bool same(const Tree & a, const Tree & b) { return a.n == b.n && a.has == b.has && (!a.has || same(a.kids, b.kids)); }
bool same(const Cont & a, const Cont & b) {
	if(a.e.size() != b.e.size() || (a.e.empty() && a.alt != b.alt)) return false;
	for(std::size_t i{0}; i < a.e.size(); ++i) if(!same(a.e[i], b.e[i])) return false;
	return true;
}
std::string text(const Cont & c) {
	if(c.e.empty()) return c.alt ? fmt("%d", c.alt) : "_";
	std::string r{"["};
	for(auto & t : c.e) { r += fmt("%d", t.n); if(t.has) r += text(t.kids); }
	return r + "]";
}
int weight(const Cont & c) { int r{0}; for(auto & t : c.e) r += 1 + (t.has ? weight(t.kids) : 0); return r; }

template<template<typename> class C> struct Kind;
template<> struct Kind<Opt> {
	using N = Node<Opt>;
	static constexpr char name[]{"optional"};
	static constexpr bool sequence{false};
	static std::size_t size(const Opt<N> & c) { return c.has_value(); }
	static N & at(Opt<N> & c, std::size_t) { return *c; }
	static int alt(const Opt<N> &) { return 0; }
	static void clear(Opt<N> & c, int) { c = std::nullopt; }
};
template<> struct Kind<Var> {
	using N = Node<Var>;
	static constexpr char name[]{"variant"};
	static constexpr bool sequence{false};
	static std::size_t size(const Var<N> & c) { return c.holds<N>(); }
	static N & at(Var<N> & c, std::size_t) { return c.get<N>(); }
	static int alt(const Var<N> & c) { return c.get<int>(); }
	static void clear(Var<N> & c, int i) { c = i; }
};
template<> struct Kind<Vec> {
	using N = Node<Vec>;
	static constexpr char name[]{"vector"};
	static constexpr bool sequence{true};
	static std::size_t size(const Vec<N> & c) { return c.size(); }
	static N & at(Vec<N> & c, std::size_t i) { return c.data()[i]; }
	static int alt(const Vec<N> &) { return 0; }
	static void clear(Vec<N> & c, int) { c.clear(); }
};
using Path = std::vector<int>; // of a container: the element of each container on the way to it
void containers(const Cont & c, Path & p, std::vector<Path> & out) {
	out.push_back(p);
	for(std::size_t i{0}; i < c.e.size(); ++i) if(c.e[i].has) { p.push_back(static_cast<int>(i)); containers(c.e[i].kids, p, out); p.pop_back(); }
}
bool within(const Path & q, const Path & p) { return q.size() > p.size() && std::equal(p.begin(), p.end(), q.begin()); }
Cont & model_at(Cont & c, const Path & p) { auto r{&c}; for(const auto i : p) r = &r->e[static_cast<std::size_t>(i)].kids; return *r; }
std::string where(const Path & p) { std::string r{"root"}; for(const auto i : p) r += fmt("/%d", i); return r; }

template<template<typename> class C> struct World : mc::World {
	using K = Kind<C>;
	using N = Node<C>;
	using Box = C<N>;
	mc::Box<Box> box;
	Cont ref;
	int next{1}, max;
	explicit World(int max) : max{max} { box.make(); ref.alt = 0; }
	Box & at(const Path & p) { auto r{&*box}; for(const auto i : p) r = K::at(*r, static_cast<std::size_t>(i)).kids; return *r; }
	static void read(Box & c, Cont & r) {
		r.e.clear();
		const auto n{K::size(c)};
		if(!n) r.alt = K::alt(c);
		for(std::size_t i{0}; i < n && i < 64; ++i) {
			auto & x{K::at(c, i)};
			Tree t;
			t.n = x.n;
			t.has = x.kids;
			if(x.kids) read(*x.kids, t.kids);
			r.e.push_back(std::move(t));
		}
	}
	void step(Chooser & ch) override {
		std::vector<Path> all;
		{ Path p; containers(ref, p, all); }
		const auto p{ch.pick(all)};
		auto & m{model_at(ref, p)};
		const auto n{static_cast<int>(m.e.size())};
		std::vector<Path> inner; // containers inside this one
		for(auto & q : all) if(within(q, p)) inner.push_back(q);
		auto expected{ref};
		auto & e{model_at(expected, p)};
		const auto value{next % 5 + 1};
		++next;
		mc::Outcome o{mc::OK};
		int faulted{0};
		const auto go{[&](const char * what, auto f) {
			ch.label(what);
			NOTE("  at %s of %s", where(p).c_str(), text(ref).c_str());
			mc::arm(1);
			o = mc::sut(f);
			faulted = mc::fault_count;
			mc::arm(0);
		}};
		const int kinds{inner.empty() ? 3 : K::sequence ? 9 : 8};
		switch(ch.choose(kinds)) {
			case 0: // grow: one more element
				if(weight(ref) >= max) throw_away(ch);
				if constexpr(K::sequence) { e.e.push_back({value, false, {}}); go("add an element", [&] { at(p).push_back(N{value}); }); }
				else { e.e.assign(1, {value, false, {}}); go("assign an element", [&] { at(p) = N{value}; }); }
				break;
			case 1: // an element gets an (empty) container
				if(!n || weight(ref) >= max || p.size() > 2) throw_away(ch);
				{
					const auto i{static_cast<std::size_t>(ch.choose(n))};
					if(m.e[i].has) throw_away(ch);
					e.e[i].has = true;
					go("give an element a container", [&] { K::at(at(p), i).kids = new Box; });
				}
				break;
			case 2:
				e.e.clear();
				if constexpr(std::is_same_v<Box, Var<N>>) e.alt = value;
				go("clear", [&] { K::clear(at(p), value); });
				break;
			default: {
				const auto q{ch.pick(inner)};
				const auto s{model_at(ref, q)};
				if constexpr(K::sequence) {
					const auto k{static_cast<int>(s.e.size())};
					switch(ch.choose(9)) {
						case 0: e = s; go("copy-assign a nested container", [&] { at(p) = std::as_const(at(q)); }); break;
						case 1: e = s; go("move-assign a nested container", [&] { at(p) = std::move(at(q)); }); break;
						case 2: e = s; go("assign the range of a nested container", [&] { auto & c{at(q)}; at(p).assign(c.begin(), c.end()); }); break;
						default: {
							if(!k) throw_away(ch);
							const auto i{static_cast<std::size_t>(ch.choose(k))};
							const auto & t{s.e[i]};
							const auto source{[&]() -> N & { return K::at(at(q), i); }};
							if(weight(ref) + 3 > max + 3) throw_away(ch);
							const auto pos{ch.choose(n + 1)};
							switch(ch.choose(6)) {
								case 0: if(pos) throw_away(ch); e.e.push_back(t); go("push_back a nested element", [&] { at(p).push_back(source()); }); break;
								case 1: e.e.insert(e.e.begin() + pos, t); go("insert a nested element", [&] { auto & c{at(p)}; c.insert(c.begin() + pos, source()); }); break;
								case 2: e.e.insert(e.e.begin() + pos, 2, t); go("insert copies of a nested element", [&] { auto & c{at(p)}; c.insert(c.begin() + pos, 2, source()); }); break;
								case 3: if(pos) throw_away(ch); e.e.resize(static_cast<std::size_t>(n) + 2, t); go("resize with a nested element", [&] { at(p).resize(static_cast<std::size_t>(n) + 2, source()); }); break;
								case 4: e.e.insert(e.e.begin() + pos, s.e.begin(), s.e.end()); go("insert the range of a nested container", [&] { auto & c{at(p)}; auto & d{at(q)}; c.insert(c.begin() + pos, d.begin(), d.end()); }); break;
								default: if(pos >= 2) throw_away(ch); e.e.assign(static_cast<std::size_t>(pos) + 1, t); go("assign copies of a nested element", [&] { at(p).assign(static_cast<std::size_t>(pos) + 1, source()); }); break;
							}
						}
					}
				} else {
					const auto k{s.e.size()};
					switch(const auto how{ch.choose(8)}; how) {
						case 0: e = s; go("copy-assign a nested container", [&] { at(p) = std::as_const(at(q)); }); break;
						case 1: e = s; go("move-assign a nested container", [&] { at(p) = std::move(at(q)); }); break;
						case 6: case 7: // the other way round
							model_at(expected, q) = ref_at(p);
							if(how == 6) go("copy-assign the outer container to a nested one", [&] { at(q) = std::as_const(at(p)); });
							else go("copy-assign the outer element to a nested container", [&] { at(q) = std::as_const(K::at(at(p), 0)); });
							break;
						default:
							if(!k) throw_away(ch);
							e = s;
							if(how == 2) go("assign a nested element", [&] { at(p) = std::as_const(K::at(at(q), 0)); });
							else if(how == 3) go("move-assign a nested element", [&] { at(p) = std::move(K::at(at(q), 0)); });
							else if(how == 4) go("emplace a copy of a nested element", [&] { emplace(at(p), std::as_const(K::at(at(q), 0))); });
							else go("copy a nested container and move it in", [&] { auto t{at(q)}; at(p) = std::move(t); });
					}
				}
			}
		}
		Cont have;
		read(*box, have);
		if(o == mc::OK) { REQUIRE_("content", same(have, expected), "%s expected, not %s", text(expected).c_str(), text(have).c_str()); }
		else { REQUIRE_("content", faulted, "threw without a cause"); REQUIRE_("strong", same(have, ref), "a failing operation changed %s to %s", text(ref).c_str(), text(have).c_str()); }
		ref = have;
	}
	Cont ref_at(const Path & p) { return model_at(ref, p); }
	static void emplace(Opt<Node<Opt>> & c, const Node<Opt> & n) { auto t{n}; c.emplace(std::move(t)); }
	static void emplace(Var<Node<Var>> & c, const Node<Var> & n) { c.template emplace<Node<Var>>(n); }
	static void emplace(Vec<Node<Vec>> &, const Node<Vec> &) {}
	[[noreturn]] void throw_away(Chooser &) { throw Disabled{}; }
	struct Disabled {};
	std::string key() override { return weight(ref) > max + 2 ? "" : text(ref) + fmt(" %d", next % 5); }
};
// a disabled choice ends the step without effect
template<template<typename> class C> struct Guarded : World<C> {
	using World<C>::World;
	void step(Chooser & ch) override { try { World<C>::step(ch); } catch(const typename World<C>::Disabled &) { --this->next; ch.label("-"); } }
};
template<template<typename> class C> void add(mc::Plan & p, bool thorough, bool faults) {
	mc::Model m;
	const int max{Kind<C>::sequence ? (thorough ? 5 : 4) : (thorough ? 5 : 4)};
	m.name = fmt("trees of nested %s up to %d nodes%s", Kind<C>::name, max, faults ? ", with faults" : "");
	m.make = [max] { return new Guarded<C>{max}; };
	m.depth = thorough ? 8 : 7;
	m.faults = faults;
	p.models.push_back(m);
}
}

mc::Plan plan(const std::string & prop, bool thorough) {
	mc::Plan p;
	p.mask = {"content", "strong", "mem", "leak"};
	const bool faults{prop == "C08" || prop == "C15" || prop == "C17"};
	if(prop == "C05" || prop == "C08" || prop == "C33") add<Vec>(p, thorough, faults);
	if(prop == "C14" || prop == "C15" || prop == "C33") add<Opt>(p, thorough, faults);
	if(prop == "C16" || prop == "C17" || prop == "C33") add<Var>(p, thorough, faults);
	return p;
}
