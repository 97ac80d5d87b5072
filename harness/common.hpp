// Shared pieces of the harnesses: poisoned storage, instrumented iterators, tracked elements.
#pragma once
#include "driver.hpp"
#include <iterator>
#include <deque>
#include <forward_list>
#include <list>

namespace mc {
//! storage for one object under test: own heap block (sanitizer red zones), poisoned
template<typename T>
class Box {
	void * mem{nullptr};
	bool live{false};
public:
	Box() {
		mem = alignof(T) > 16 ? __real_aligned_alloc(alignof(T), (sizeof(T) + alignof(T) - 1) / alignof(T) * alignof(T)) : __real_malloc(sizeof(T));
		std::memset(mem, 0xCD, sizeof(T));
	}
	Box(const Box &) =delete;
	~Box() {
		if(live) { Scope s; get().~T(); }
		__real_free(mem);
	}
	template<typename... Args>
	Outcome make(Args &&... args) { // T(args...)
		return sut([&] { ::new(mem) T(std::forward<Args>(args)...); live = true; });
	}
	template<typename F>
	Outcome make_by(F f) { // placement of the prvalue returned by f
		return sut([&] { ::new(mem) T(f()); live = true; });
	}
	void kill() {
		if(live) {
			live = false;
			{ Scope s; get().~T(); }
			std::memset(mem, 0xCD, sizeof(T));
		}
	}
	void assume_live(bool v) { live = v; }
	bool alive() const { return live; }
	void * raw() const { return mem; }
	T & get() const { return *static_cast<T *>(mem); }
	T & operator*() const { return get(); }
	T * operator->() const { return &get(); }
	bool inside(const void * p) const { return p >= mem && p < static_cast<char *>(mem) + sizeof(T); }
};

//! distinct, deterministic characters including NUL and negative ones
inline char lab(std::size_t i, int salt = 0) {
	const auto v{i + static_cast<std::size_t>(salt) * 101};
	if(v % 17 == 3) return '\0';
	if(v % 17 == 7) return static_cast<char>(-1);
	return static_cast<char>(1 + v * 7 % 253);
}

//! a source range that detects misuse; Src is shared by all iterators into it
template<typename T>
struct Src {
	T * data{nullptr};
	std::size_t n{0};
	//single pass state
	std::size_t pos{0};
	bool read{false};
	std::uint64_t reads{0}, advances{0};
	bool exact{true}; // heap block of exactly n elements: reads outside it are seen by the sanitizer
	explicit Src(std::size_t count) : n{count} {
		data = static_cast<T *>(__real_malloc(n * sizeof(T) ? n * sizeof(T) : 1));
	}
	Src(const Src &) =delete;
	~Src() { __real_free(data); }
};

template<typename T, typename Cat>
struct It {
	using iterator_category = Cat;
	using value_type = T;
	using difference_type = std::ptrdiff_t;
	using pointer = const T *;
	using reference = const T &;
	Src<T> * s{nullptr};
	std::ptrdiff_t i{0};
	static constexpr bool single{std::is_same_v<Cat, std::input_iterator_tag>};

	reference operator*() const {
		may_throw("iterator dereference");
		if(i < 0 || static_cast<std::size_t>(i) >= s->n) {
			fail("iter", fmt("source dereferenced at position %td of %zu", i, s->n));
			static const T dummy{};
			return dummy;
		}
		if constexpr(single) {
			if(static_cast<std::size_t>(i) != s->pos) fail("iter", fmt("single-pass source read at %td although already advanced to %zu", i, s->pos));
			s->read = true;
		}
		++s->reads;
		return s->data[i];
	}
	pointer operator->() const { return &**this; }
	It & operator++() {
		may_throw("iterator increment");
		if(i < 0 || static_cast<std::size_t>(i) >= s->n) { fail("iter", fmt("source advanced past its end (%td of %zu)", i, s->n)); return *this; }
		if constexpr(single) {
			if(static_cast<std::size_t>(i) != s->pos) fail("iter", fmt("single-pass source advanced twice over element %td", i));
			if(!s->read) fail("iter", fmt("single-pass source advanced over element %td without reading it", i));
			s->pos = static_cast<std::size_t>(i) + 1;
			s->read = false;
			++s->advances;
		}
		++i;
		return *this;
	}
	struct Proxy { T v; const T & operator*() const { return v; } };
	auto operator++(int) {
		if constexpr(single) {
			Proxy p{**this};
			++*this;
			return p;
		} else {
			auto t{*this};
			++*this;
			return t;
		}
	}
	It & operator--() {
		may_throw("iterator decrement");
		if(i <= 0) fail("iter", "source moved before its beginning");
		--i;
		return *this;
	}
	It operator--(int) { auto t{*this}; --*this; return t; }
	It & operator+=(std::ptrdiff_t k) {
		i += k;
		if(i < 0 || static_cast<std::size_t>(i) > s->n) fail("iter", "source moved outside its range");
		return *this;
	}
	It & operator-=(std::ptrdiff_t k) { return *this += -k; }
	friend It operator+(It l, std::ptrdiff_t k) { return l += k; }
	friend It operator+(std::ptrdiff_t k, It l) { return l += k; }
	friend It operator-(It l, std::ptrdiff_t k) { return l -= k; }
	friend std::ptrdiff_t operator-(const It & l, const It & r) { return l.i - r.i; }
	reference operator[](std::ptrdiff_t k) const { return *(*this + k); }
	friend bool operator==(const It & l, const It & r) { return l.i == r.i; }
	friend bool operator!=(const It & l, const It & r) { return l.i != r.i; }
	friend bool operator<(const It & l, const It & r) { return l.i < r.i; }
	friend bool operator>(const It & l, const It & r) { return l.i > r.i; }
	friend bool operator<=(const It & l, const It & r) { return l.i <= r.i; }
	friend bool operator>=(const It & l, const It & r) { return l.i >= r.i; }
};
template<typename Cat, typename T>
It<T, Cat> src_begin(Src<T> & s) { s.pos = 0; s.read = false; return {&s, 0}; }
template<typename Cat, typename T>
It<T, Cat> src_end(Src<T> & s) { return {&s, static_cast<std::ptrdiff_t>(s.n)}; }

//! after a successful operation over a single-pass source
template<typename T>
void single_pass_done(const Src<T> & s) {
	REQUIRE_("iter", s.pos == s.n && s.advances == s.n, "single-pass source of %zu elements left at %zu after %llu advances", s.n, s.pos, static_cast<unsigned long long>(s.advances));
}

//! position in a source too long to be stored: every element is the same object
template<typename T>
struct Far {
	using iterator_category = std::random_access_iterator_tag;
	using value_type = T;
	using difference_type = std::ptrdiff_t;
	using pointer = const T *;
	using reference = const T &;
	const T * value{nullptr};
	std::ptrdiff_t i{0};
	static inline long budget{0};
	reference operator*() const { if(--budget < 0) throw 1; return *value; }
	pointer operator->() const { return value; }
	Far & operator++() { ++i; return *this; }
	Far operator++(int) { auto t{*this}; ++i; return t; }
	Far & operator--() { --i; return *this; }
	Far operator--(int) { auto t{*this}; --i; return t; }
	Far & operator+=(std::ptrdiff_t k) { i += k; return *this; }
	Far & operator-=(std::ptrdiff_t k) { i -= k; return *this; }
	friend Far operator+(Far l, std::ptrdiff_t k) { return l += k; }
	friend Far operator+(std::ptrdiff_t k, Far l) { return l += k; }
	friend Far operator-(Far l, std::ptrdiff_t k) { return l -= k; }
	friend std::ptrdiff_t operator-(const Far & l, const Far & r) { return l.i - r.i; }
	reference operator[](std::ptrdiff_t) const { return **this; }
	friend bool operator==(const Far & l, const Far & r) { return l.i == r.i; }
	friend bool operator!=(const Far & l, const Far & r) { return l.i != r.i; }
	friend bool operator<(const Far & l, const Far & r) { return l.i < r.i; }
	friend bool operator>(const Far & l, const Far & r) { return l.i > r.i; }
	friend bool operator<=(const Far & l, const Far & r) { return l.i <= r.i; }
	friend bool operator>=(const Far & l, const Far & r) { return l.i >= r.i; }
};

inline std::vector<std::size_t> uniq(std::vector<std::size_t> v, std::size_t max) {
	std::sort(v.begin(), v.end());
	v.erase(std::unique(v.begin(), v.end()), v.end());
	v.erase(std::remove_if(v.begin(), v.end(), [&](auto x) { return x > max; }), v.end());
	return v;
}

// ---------------------------------------------------------------- tracked element
//! an element whose life is checked at every use: address-bound, counted, copy may throw
struct Elem {
	static constexpr std::uint32_t alive_magic{0xA11FEA11}, dead_magic{0xDEADDEAD};
	static constexpr int moved{-777};
	static inline long live{0};
	static inline std::uint64_t copies{0}, moves{0}, defaults{0};
	static inline bool (*copy_ok)(int value){nullptr};
	static inline const char * life_tag{"life"};

	int v;
	std::uint32_t magic;
	const void * self;

	void born() noexcept {
		if(magic == alive_magic && self == this) fail(life_tag, "element constructed over a live element");
		magic = alive_magic;
		self = this;
		++live;
	}
	void need(const char * what) const noexcept {
		if(magic != alive_magic || self != this) fail(life_tag, fmt("%s of an element that is not alive (%s)", what, magic == dead_magic ? "destroyed" : magic == alive_magic ? "relocated bitwise" : "never constructed"));
	}
	Elem() { may_throw("default construction"); v = 0; ++defaults; born(); }
	Elem(int x) { may_throw("construction from value"); v = x; born(); }
	Elem(int a, int b) { may_throw("construction from two values"); v = a * 1000 + b; born(); }
	Elem(const Elem & o) {
		o.need("copy");
		if(copy_ok && !copy_ok(o.v)) fail("copies", fmt("element %d copied although the operation does not take it as a source", o.v));
		may_throw("copy construction");
		v = o.v;
		++copies;
		born();
	}
	Elem(Elem && o) noexcept { o.need("move"); v = o.v; o.v = moved; ++moves; born(); }
	Elem & operator=(const Elem & o) {
		need("assignment to");
		o.need("copy assignment");
		if(copy_ok && !copy_ok(o.v)) fail("copies", fmt("element %d copy-assigned although the operation does not take it as a source", o.v));
		may_throw("copy assignment");
		v = o.v;
		++copies;
		return *this;
	}
	Elem & operator=(Elem && o) noexcept {
		need("move assignment to");
		o.need("move assignment");
		const auto t{o.v};
		o.v = moved; //self-move loses the value, as for many real types
		v = t;
		if(&o == this) v = moved;
		++moves;
		return *this;
	}
	~Elem() {
		need("destruction");
		magic = dead_magic;
		self = nullptr;
		--live;
	}
	friend void swap(Elem & a, Elem & b) noexcept { a.need("swap"); b.need("swap"); std::swap(a.v, b.v); }
	friend bool operator==(const Elem & a, const Elem & b) { a.need("comparison"); b.need("comparison"); return a.v == b.v; }
	friend bool operator!=(const Elem & a, const Elem & b) { return !(a == b); }
	friend bool operator<(const Elem & a, const Elem & b) { a.need("comparison"); b.need("comparison"); return a.v < b.v; }
	friend bool operator>(const Elem & a, const Elem & b) { return b < a; }
	friend bool operator<=(const Elem & a, const Elem & b) { return !(b < a); }
	friend bool operator>=(const Elem & a, const Elem & b) { return !(a < b); }
	static void reset() { live = 0; copies = moves = defaults = 0; copy_ok = nullptr; }
};
static_assert(std::is_standard_layout_v<Elem>);
}
