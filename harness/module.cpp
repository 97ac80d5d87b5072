// One module of a program: built several times by different compilers, options and library versions.
// Its allocator is private; everything but the entry point is hidden.
#include "module.hpp"
#include <functional>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <variant>
#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#include <ptl/array.hpp>
#include <ptl/bitset.hpp>
#include <ptl/optional.hpp>
#include <ptl/variant.hpp>
#include <ptl/tuple.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/function_ref.hpp>
#include <cstdlib>
#include <cstring>
#include <new>

namespace {
const Host * host;
int id;
}
// ---------------------------------------------------------------- the module's own heap
extern "C" {
void * __wrap_malloc(std::size_t n) { return host->alloc(id, n, 16, H_MALLOC); }
void * __wrap_calloc(std::size_t a, std::size_t b) { const auto p{host->alloc(id, a * b, 16, H_MALLOC)}; std::memset(p, 0, a * b); return p; }
void __wrap_free(void * p) { if(p) host->release(id, p, H_MALLOC); }
void * __wrap_aligned_alloc(std::size_t al, std::size_t n) { return host->alloc(id, n, al, H_MALLOC); }
}
void * operator new(std::size_t n) { return host->alloc(id, n, 16, H_NEW); }
void * operator new[](std::size_t n) { return host->alloc(id, n, 16, H_NEW); }
void operator delete(void * p) noexcept { if(p) host->release(id, p, H_NEW); }
void operator delete[](void * p) noexcept { if(p) host->release(id, p, H_NEW); }
void operator delete(void * p, std::size_t) noexcept { if(p) host->release(id, p, H_NEW); }
void operator delete[](void * p, std::size_t) noexcept { if(p) host->release(id, p, H_NEW); }
void * operator new(std::size_t n, std::align_val_t a) { return host->alloc(id, n, static_cast<std::size_t>(a), H_ALIGNED); }
void * operator new[](std::size_t n, std::align_val_t a) { return host->alloc(id, n, static_cast<std::size_t>(a), H_ALIGNED); }
void operator delete(void * p, std::align_val_t) noexcept { if(p) host->release(id, p, H_ALIGNED); }
void operator delete[](void * p, std::align_val_t) noexcept { if(p) host->release(id, p, H_ALIGNED); }
void operator delete(void * p, std::size_t, std::align_val_t) noexcept { if(p) host->release(id, p, H_ALIGNED); }
void operator delete[](void * p, std::size_t, std::align_val_t) noexcept { if(p) host->release(id, p, H_ALIGNED); }

namespace {
struct Tracked { // must be alive wherever it is used, whoever made it
	int v;
	unsigned magic;
	const void * self;
	void born() noexcept { magic = 0xA11FEA11; self = this; host->born(id); }
	void need() const noexcept { if(magic != 0xA11FEA11 || self != this) host->fail(id, "an element is used that is not alive"); }
	Tracked() noexcept : v{0} { born(); }
	Tracked(int v) noexcept : v{v} { born(); }
	Tracked(const Tracked & o) noexcept : v{o.v} { o.need(); born(); }
	Tracked(Tracked && o) noexcept : v{o.v} { o.need(); o.v = -777; born(); }
	Tracked & operator=(const Tracked & o) noexcept { need(); o.need(); v = o.v; return *this; }
	Tracked & operator=(Tracked && o) noexcept { need(); o.need(); if(this != &o) { v = o.v; o.v = -777; } return *this; }
	~Tracked() { need(); magic = 0xDEADDEAD; self = nullptr; host->died(id); }
	friend bool operator==(const Tracked & a, const Tracked & b) noexcept { return a.v == b.v; }
	friend bool operator<(const Tracked & a, const Tracked & b) noexcept { return a.v < b.v; }
};
using S = ptl::string;
std::string_view text(const Args & a) { return {static_cast<const char *>(a.data), a.n}; }
S make(const Args & a) { return S{text(a)}; }

void read(const S & s, Out & o) {
	o.n = s.size();
	o.m = s.capacity();
	o.p = s.data();
	const std::string_view v{s};
	std::size_t k{0};
	for(auto c : s) if(k < sizeof o.text) o.text[k++] = c;
	if(s.empty() != (s.size() == 0) || v.size() != s.size() || s.c_str() != s.data() || s.data()[s.size()] != 0 || k != s.size()) host->fail(id, "string observers disagree");
	for(std::size_t i{0}; i < s.size(); ++i) if(s[i] != o.text[i] || v[i] != o.text[i]) host->fail(id, "string observers disagree");
}
void string_(int op, void * self, const Args * pa, Out * po) {
	const auto & a{*pa};
	auto & o{*po};
	auto & s{*static_cast<S *>(self)};
	const auto other{static_cast<S *>(a.other)};
	const auto it{[&](std::size_t k) { return s.begin() + static_cast<std::ptrdiff_t>(k); }};
	switch(op) {
		case S_INIT: ::new(self) S{}; break;
		case S_INIT_TEXT: ::new(self) S(text(a)); break;
		case S_INIT_COPY: ::new(self) S(static_cast<const S &>(*other)); break;
		case S_INIT_MOVE: ::new(self) S(std::move(*other)); break;
		case S_DESTROY: s.~S(); break;
		case S_ASSIGN: s = text(a); break;
		case S_ASSIGN_COPY: s = static_cast<const S &>(*other); break;
		case S_ASSIGN_MOVE: s = std::move(*other); break;
		case S_SWAP: s.swap(*other); break;
		case S_APPEND: s.append(text(a)); break;
		case S_APPEND_OTHER: s += *other; break;
		case S_INSERT: { auto r{s.insert(it(a.at), text(a))}; o.value = r - s.begin(); break; }
		case S_ERASE: { auto r{s.erase(it(a.at), it(a.at + a.m))}; o.value = r - s.begin(); break; }
		case S_REPLACE: s.replace(it(a.at), it(a.at + a.m), text(a)); break;
		case S_RESIZE: s.resize(a.m, static_cast<char>(a.value)); break;
		case S_RESERVE: s.reserve(a.m); break;
		case S_SHRINK: s.shrink_to_fit(); break;
		case S_CLEAR: s.clear(); break;
		case S_PUSH: s.push_back(static_cast<char>(a.value)); break;
		case S_POP: s.pop_back(); break;
		case S_ADD: { S r{s + *other}; s = std::move(r); break; }
		case S_READ:
			read(s, o);
			if(other) o.value = (s == *other ? 0 : s < *other ? -1 : 1) * 4 + (s != *other) + 2 * (s > *other);
			break;
	}
}
template<typename T> long long number(const T & t) { if constexpr(std::is_same_v<T, Tracked>) { t.need(); return t.v; } else return static_cast<long long>(t); }
template<typename T> void vector_(int op, void * self, const Args & a, Out & o) {
	using V = ptl::vector<T>;
	auto & v{*static_cast<V *>(self)};
	const auto other{static_cast<V *>(a.other)};
	const auto data{static_cast<const int *>(a.data)};
	const auto it{[&](std::size_t k) { return v.begin() + static_cast<std::ptrdiff_t>(k); }};
	switch(op) {
		case V_INIT: ::new(self) V{}; break;
		case V_INIT_N: ::new(self) V(data, data + a.n); break;
		case V_INIT_COPY: ::new(self) V(static_cast<const V &>(*other)); break;
		case V_INIT_MOVE: ::new(self) V(std::move(*other)); break;
		case V_DESTROY: v.~V(); break;
		case V_ASSIGN: v.assign(data, data + a.n); break;
		case V_ASSIGN_COPY: v = static_cast<const V &>(*other); break;
		case V_ASSIGN_MOVE: v = std::move(*other); break;
		case V_SWAP: v.swap(*other); break;
		case V_PUSH: { const T t(static_cast<T>(a.value)); v.push_back(t); break; }
		case V_EMPLACE: v.emplace(it(a.at), static_cast<T>(a.value)); break;
		case V_INSERT: { auto r{v.insert(it(a.at), data, data + a.n)}; o.value = r - v.begin(); break; }
		case V_INSERT_N: { const T t(static_cast<T>(a.value)); v.insert(it(a.at), a.m, t); break; }
		case V_ERASE: { auto r{v.erase(it(a.at), it(a.at + a.m))}; o.value = r - v.begin(); break; }
		case V_RESIZE: { const T t(static_cast<T>(a.value)); v.resize(a.m, t); break; }
		case V_RESERVE: v.reserve(a.m); break;
		case V_SHRINK: v.shrink_to_fit(); break;
		case V_CLEAR: v.clear(); break;
		case V_POP: v.pop_back(); break;
		case V_SET: v[a.at] = static_cast<T>(a.value); break;
		case V_READ: {
			o.n = v.size();
			o.m = v.capacity();
			o.p = v.data();
			std::size_t k{0};
			for(auto & t : v) if(k < 128) { const auto x{static_cast<int>(number(t))}; std::memcpy(o.text + 4 * k++, &x, 4); }
			if(v.empty() != (v.size() == 0) || k != v.size()) host->fail(id, "vector observers disagree");
			if(other) o.value = v == *other ? 0 : v < *other ? -1 : 1;
			break;
		}
	}
}
void vectors(int element, int op, void * self, const Args * a, Out * o) {
	if(element == 0) vector_<int>(op, self, *a, *o);
	else if(element == 1) vector_<Tracked>(op, self, *a, *o);
	else vector_<unsigned char>(op, self, *a, *o);
}

using O = ptl::optional<S>;
using R = ptl::variant<char, long long, S, ptl::vector<S>>;
using T = ptl::tuple<char, S, short>;
using A = ptl::array<S, 2>;
using B = ptl::bitset<37>;
using N = ptl::vector<ptl::optional<S>>;
void mixed(int op, void * self, const Args * pa, Out * po) {
	const auto & a{*pa};
	auto & out{*po};
	auto & o{*static_cast<O *>(self)};
	auto & r{*static_cast<R *>(self)};
	auto & t{*static_cast<T *>(self)};
	auto & x{*static_cast<A *>(self)};
	auto & b{*static_cast<B *>(self)};
	auto & n{*static_cast<N *>(self)};
	switch(op) {
		case O_INIT: ::new(self) O{}; break;
		case O_DESTROY: o.~O(); break;
		case O_ASSIGN: { const auto s{make(a)}; o = s; break; }
		case O_EMPLACE: o.emplace(text(a)); break;
		case O_RESET: o = std::nullopt; break;
		case O_COPY: o = *static_cast<const O *>(a.other); break;
		case O_MOVE: o = std::move(*static_cast<O *>(a.other)); break;
		case O_SWAP: o.swap(*static_cast<O *>(a.other)); break;
		case O_READ: out.value = o.has_value(); if(o) { read(*o, out); if(&o.value() != &*o) host->fail(id, "optional"); } break;

		case R_INIT: ::new(self) R{'-'}; break;
		case R_DESTROY: r.~R(); break;
		case R_CHAR: r = static_cast<char>(a.value); break;
		case R_INT64: r = static_cast<long long>(a.value) * 1000000007; break;
		case R_STRING: r = make(a); break;
		case R_VECTOR: { ptl::vector<S> v; for(std::size_t k{0}; k < a.m; ++k) v.push_back(make(a)); r = std::move(v); break; }
		case R_COPY: r = *static_cast<const R *>(a.other); break;
		case R_MOVE: r = std::move(*static_cast<R *>(a.other)); break;
		case R_SWAP: r.swap(*static_cast<R *>(a.other)); break;
		case R_READ: {
			const R & c{r};
			int calls{0};
			c.visit([&](const auto & v) {
				++calls;
				using V = std::remove_cv_t<std::remove_reference_t<decltype(v)>>;
				if constexpr(std::is_same_v<V, char>) { out.value = 0; out.n = static_cast<std::size_t>(static_cast<unsigned char>(v)); }
				else if constexpr(std::is_same_v<V, long long>) { out.value = 1; out.n = static_cast<std::size_t>(v); }
				else if constexpr(std::is_same_v<V, S>) { read(v, out); out.value = 2; }
				else { out.value = 3; for(auto & s : v) read(s, out); out.m = v.size(); }
			});
			if(calls != 1 || c.holds<char>() != (out.value == 0) || c.holds<long long>() != (out.value == 1) || c.holds<S>() != (out.value == 2)) host->fail(id, "variant");
			break;
		}

		case T_INIT: ::new(self) T{'-', S{}, static_cast<short>(0)}; break;
		case T_DESTROY: t.~T(); break;
		case T_SET: t.get<1>() = text(a); t.get<2>() = static_cast<short>(a.value * 257); break;
		case T_SET_CHAR: t.get<0>() = static_cast<char>(a.value); break;
		case T_COPY: t = *static_cast<const T *>(a.other); break;
		case T_MOVE: t = std::move(*static_cast<T *>(a.other)); break;
		case T_SWAP: t.swap(*static_cast<T *>(a.other)); break;
		case T_READ: { const T & c{t}; read(c.get<1>(), out); out.value = c.get<0>() * 100000 + c.get<2>(); break; }

		case A_INIT: ::new(self) A{}; break;
		case A_DESTROY: x.~A(); break;
		case A_SET: x[a.at] = text(a); break;
		case A_COPY: x = *static_cast<const A *>(a.other); break;
		case A_MOVE: x = std::move(*static_cast<A *>(a.other)); break;
		case A_SWAP: x.swap(*static_cast<A *>(a.other)); break;
		case A_READ: { const A & c{x}; Out second; read(c.at(1), second); read(c.front(), out); if(second.n + out.n < sizeof out.text) std::memcpy(out.text + out.n, second.text, second.n); out.m = second.n; break; }

		case B_INIT: ::new(self) B{}; break;
		case B_DESTROY: b.~B(); break;
		case B_SET: b.set(a.at, a.value & 1); break;
		case B_FLIP: if(a.at < 37) b.flip(a.at); else b.flip(); break;
		case B_SHIFT_L: b <<= a.m; break;
		case B_SHIFT_R: b >>= a.m; break;
		case B_AND: b &= *static_cast<const B *>(a.other); break;
		case B_XOR: b ^= *static_cast<const B *>(a.other); break;
		case B_NOT: b = ~b; break;
		case B_COPY: b = *static_cast<const B *>(a.other); break;
		case B_READ: { const B & c{b}; out.n = c.count(); unsigned long long w{0}; for(std::size_t k{0}; k < 37; ++k) if(c.test(k)) w |= 1ull << k; out.value = static_cast<long long>(w); out.m = c.any() + 2u * c.all() + 4u * c.none(); if(a.other) out.m += 8u * (c == *static_cast<const B *>(a.other)); break; }

		case N_INIT: ::new(self) N{}; break;
		case N_DESTROY: n.~N(); break;
		case N_PUSH: n.emplace_back(); break;
		case N_PUSH_TEXT: n.push_back(ptl::optional<S>{make(a)}); break;
		case N_POP: n.pop_back(); break;
		case N_ERASE: n.erase(n.begin()); break;
		case N_TEXT: n[a.at] = make(a); break;
		case N_COPY: n = *static_cast<const N *>(a.other); break;
		case N_MOVE: n = std::move(*static_cast<N *>(a.other)); break;
		case N_SWAP: n.swap(*static_cast<N *>(a.other)); break;
		case N_READ: {
			const N & c{n};
			std::size_t k{0};
			for(auto & e : c) { if(!e) { out.text[k++] = '?'; continue; } out.text[k++] = '='; for(auto ch : *e) if(k < sizeof out.text - 2) out.text[k++] = ch; }
			out.n = k;
			out.m = c.size();
			break;
		}
	}
}

int module_function(int v) { return v * 7; }
struct Functor { int by; int operator()(int v) const { return v + by; } };
Functor functor{1000};
void refs(int op, void * self, const Args * pa, Out * po) {
	const auto & a{*pa};
	auto & out{*po};
	using AR = ptl::array_ref<int>;
	using OR = ptl::optional_ref<S>;
	using VR = ptl::variant_ref<int, S, const char>;
	using FR = ptl::function_ref<int(int)>;
	switch(op) {
		case X_STRING_REF: ::new(self) ptl::string_ref(*static_cast<const S *>(a.other)); break;
		case X_STRING_REF_READ: { const auto & r{*static_cast<const ptl::string_ref *>(self)}; out.n = r.size(); out.p = r.data(); std::size_t k{0}; for(auto c : r) if(k < sizeof out.text) out.text[k++] = c; break; }
		case X_ARRAY_REF: ::new(self) AR(*static_cast<ptl::vector<int> *>(a.other)); break;
		case X_ARRAY_REF_READ: { const auto & r{*static_cast<const AR *>(self)}; out.n = r.size(); out.p = r.data(); std::size_t k{0}; for(auto v : r) if(k < 128) std::memcpy(out.text + 4 * k++, &v, 4); break; }
		case X_ARRAY_REF_WRITE: (*static_cast<AR *>(self))[a.at] = a.value; break;
		case X_OPTIONAL_REF: ::new(self) OR(*static_cast<S *>(a.other)); break;
		case X_OPTIONAL_REF_EMPTY: ::new(self) OR{}; break;
		case X_OPTIONAL_REF_READ: { const auto & r{*static_cast<const OR *>(self)}; out.value = static_cast<bool>(r); out.p = nullptr; if(r) { read(*r, out); out.p = &r.value(); } break; }
		case X_VARIANT_REF_INT: ::new(self) VR(*static_cast<int *>(a.other)); break;
		case X_VARIANT_REF_STRING: ::new(self) VR(*static_cast<S *>(a.other)); break;
		case X_VARIANT_REF_READ: { const auto & r{*static_cast<const VR *>(self)}; r.visit([&](auto & v) { out.p = &v; out.n = sizeof v; }); out.value = r.holds<int>() ? 0 : r.holds<S>() ? 1 : 2; break; }
		case X_FUNCTION_REF: functor.by = 1000 * (id + 1); ::new(self) FR(functor); break;
		case X_FUNCTION_REF_FUNCTION: ::new(self) FR(module_function); break;
		case X_FUNCTION_REF_CALL: out.value = (*static_cast<const FR *>(self))(a.value); break;
		case X_COPY:
			switch(a.value) {
				case 0: ::new(self) ptl::string_ref(*static_cast<const ptl::string_ref *>(a.other)); break;
				case 1: ::new(self) AR(*static_cast<const AR *>(a.other)); break;
				case 2: ::new(self) OR(*static_cast<const OR *>(a.other)); break;
				case 3: ::new(self) VR(*static_cast<const VR *>(a.other)); break;
				case 4: ::new(self) FR(*static_cast<const FR *>(a.other)); break;
			}
			break;
	}
}
std::size_t size(int type) {
	const std::size_t s[]{sizeof(S), sizeof(ptl::vector<int>), sizeof(O), sizeof(R), sizeof(T), sizeof(A), sizeof(B), sizeof(N)};
	return s[type];
}
void attach(const Host * h, int i) { host = h; id = i; }
const Module table{attach, string_, vectors, mixed, refs, size, MODULE_NAME};
}

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
extern "C" __attribute__((visibility("default"))) const Module * CAT(module_table_, MODULE)() { return &table; }
