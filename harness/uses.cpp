// Which uses of the types compile: every pair (or triple) of a target and a source type of the lists below, judged by rules written down here
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/vector.hpp>
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/function_ref.hpp>
#include "driver.hpp"
#include <array>
#include <deque>
#include <list>
#include <memory>
#include <optional>
#include <variant>
#include <vector>

struct enabled_tag;
struct other_tag;
namespace ptl { template<> inline constexpr bool enable_bitset_operator_bool<enabled_tag>{true}; }

namespace {
using mc::Chooser;
using mc::fmt;

struct Row { std::string use; bool actual, expected; };
struct Matrix { std::string name; std::vector<Row> rows; };

template<typename...> struct L {};
template<typename... A, typename... B> L<A..., B...> operator+(L<A...>, L<B...>) { return {}; }
template<typename T> std::string name() {
	std::string s{__PRETTY_FUNCTION__};
	const auto b{s.find("T = ") + 4};
	auto e{s.find(';', b)}; // gcc appends what std::string is
	if(e == s.npos) e = s.rfind(']');
	return s.substr(b, e - b);
}
template<typename T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template<typename T> constexpr bool is_c{std::is_const_v<T>};
template<typename T> constexpr bool is_v{std::is_volatile_v<T>};
template<typename T, typename... Ts> constexpr bool one_of{(std::is_same_v<T, Ts> || ...)};

struct Base { int i; };
struct Derived : Base {};
struct Far { int i; };

// ---------------------------------------------------------------- array_ref
//! may objects of type From be addressed as objects of type To? only by adding qualifiers (deeply only if everything above is const)
template<typename From, typename To> constexpr bool adds_qualifiers() {
	if((is_c<From> && !is_c<To>) || (is_v<From> && !is_v<To>)) return false;
	using F = std::remove_cv_t<From>;
	using T = std::remove_cv_t<To>;
	if constexpr(std::is_same_v<F, T>) return true;
	else if constexpr(std::is_pointer_v<F> && std::is_pointer_v<T>) return is_c<To> && adds_qualifiers<std::remove_pointer_t<F>, std::remove_pointer_t<T>>();
	else return false;
}
//! the elements a source gives access to; void: none
template<typename S> struct Elements { using type = void; };
template<typename E, std::size_t N> struct Elements<E(&)[N]> { using type = E; };
#define CONTAINER(...) \
	struct Elements<__VA_ARGS__ &> { using type = E; }; \
	template<typename E> struct Elements<const __VA_ARGS__ &> { using type = const E; }; \
	template<typename E> struct Elements<__VA_ARGS__> { using type = const E; }; \
	template<typename E> struct Elements<const __VA_ARGS__> { using type = const E; };
#define SHALLOW(Q, ...) \
	struct Elements<__VA_ARGS__ &> { using type = Q E; }; \
	template<typename E> struct Elements<const __VA_ARGS__ &> { using type = Q E; }; \
	template<typename E> struct Elements<__VA_ARGS__> { using type = Q E; }; \
	template<typename E> struct Elements<const __VA_ARGS__> { using type = Q E; };
template<typename E> struct Shallow { E * p; std::size_t n; E * data() const { return p; } std::size_t size() const { return n; } };
template<typename E> struct Deep { E * p; std::size_t n; E * data() { return p; } const E * data() const { return p; } std::size_t size() const { return n; } };
template<typename E> using StdVector = std::vector<E>;
template<typename E> using StdDeque = std::deque<E>;
template<typename E> using StdList = std::list<E>;
template<typename E> using StdArray = std::array<E, 3>;
template<typename E> using PtlArray = ptl::array<E, 3>;
template<typename E> CONTAINER(std::vector<E>)
template<typename E> CONTAINER(ptl::vector<E>)
template<typename E> CONTAINER(std::array<E, 3>)
template<typename E> CONTAINER(ptl::array<E, 3>)
template<typename E> CONTAINER(Deep<E>)
template<typename E> SHALLOW(, ptl::array_ref<E>)
template<typename E> SHALLOW(, Shallow<E>)
template<typename E> SHALLOW(const, std::initializer_list<E>)
template<> struct Elements<std::string &> { using type = char; };
template<> struct Elements<const std::string &> { using type = const char; };
template<> struct Elements<std::string> { using type = const char; };
template<> struct Elements<ptl::string &> { using type = char; };
template<> struct Elements<const ptl::string &> { using type = const char; };
template<> struct Elements<ptl::string> { using type = const char; };
template<> struct Elements<std::string_view> { using type = const char; };
template<> struct Elements<std::string_view &> { using type = const char; };
template<> struct Elements<ptl::string_ref> { using type = const char; };
template<> struct Elements<const ptl::string_ref &> { using type = const char; };

template<typename T, typename S> void array_ref_row(Matrix & m) {
	using R = ptl::array_ref<T>;
	using E = typename Elements<S>::type;
	bool expected{false};
	if constexpr(!std::is_void_v<E>) expected = adds_qualifiers<E, T>();
	const auto n{name<R>() + " from " + name<S>() + (std::is_lvalue_reference_v<S> ? " lvalue" : " rvalue")};
	m.rows.push_back({n + ": construct", std::is_constructible_v<R, S>, expected});
	m.rows.push_back({n + ": convert", std::is_convertible_v<S, R>, expected});
	m.rows.push_back({n + ": assign", std::is_assignable_v<R &, S>, expected});
}
template<typename T, typename... S> void array_ref_rows(Matrix & m, L<S...>) { (array_ref_row<T, S>(m), ...); }
template<template<typename> class C, typename... E> using Every = L<C<E> &..., const C<E> &..., C<E>...>;
template<typename E> using Raw = E[3];
template<typename... T> void array_refs(std::vector<Matrix> & all, L<T...>) {
	using Sources = decltype(
		L<Raw<int> &, Raw<const int> &, Raw<volatile int> &, Raw<const volatile int> &, Raw<unsigned> &, Raw<char> &, Raw<const char> &, Raw<Base> &, Raw<const Base> &, Raw<Derived> &, Raw<const Derived> &, Raw<int *> &, Raw<const int *> &, Raw<int * const> &, Raw<const int * const> &, Raw<int **> &, Raw<const int * const *> &>{}
		+ Every<StdVector, int, unsigned, Base, Derived, int *, const int *, int **>{} + Every<ptl::vector, int, char, Base, Derived, int *, const int *>{}
		+ Every<StdArray, int, char, Base, Derived, int *, const int *>{} + Every<PtlArray, int, unsigned, Base, Derived, int *, const int *>{}
		+ Every<Deep, int, Base, Derived>{} + Every<Shallow, int, const int, volatile int, Base, Derived, const Derived, int *, const int *>{}
		+ Every<ptl::array_ref, int, const int, volatile int, Base, const Base, Derived, int *, const int *, int * const>{} + Every<std::initializer_list, int, Derived, int *>{}
		+ L<std::string &, const std::string &, std::string, ptl::string &, const ptl::string &, ptl::string, std::string_view, std::string_view &, ptl::string_ref, const ptl::string_ref &>{}
		+ Every<StdDeque, int, Base>{} + Every<StdList, int, Base>{} + L<int, int &, int *, int *&, const int *, std::nullptr_t, void *, Base &, Far, std::optional<int> &, ptl::optional<int> &>{});
	([&] {
		Matrix m{"array_ref<" + name<T>() + "> from sources", {}};
		array_ref_rows<T>(m, Sources{});
		all.push_back(std::move(m));
	}(), ...);
}

// ---------------------------------------------------------------- optional_ref
template<typename S> struct Target { using type = void; }; //what an optional-like lvalue gives access to
template<typename E> struct Target<E *&> { using type = E; };
template<typename E> struct Target<E * const &> { using type = E; };
template<typename E> struct Target<std::unique_ptr<E> &> { using type = E; };
template<typename E> struct Target<const std::unique_ptr<E> &> { using type = E; };
template<typename E> struct Target<const std::shared_ptr<E> &> { using type = E; };
template<typename E> struct Target<ptl::optional_ref<E> &> { using type = E; };
template<typename E> struct Target<const ptl::optional_ref<E> &> { using type = E; };
template<typename E> struct Target<ptl::optional<E> &> { using type = E; };
template<typename E> struct Target<const ptl::optional<E> &> { using type = const E; };
template<typename E> struct Target<std::optional<E> &> { using type = E; };
template<typename E> struct Target<const std::optional<E> &> { using type = const E; };
struct NoBool { int i; int & operator*() { return i; } const int & operator*() const { return i; } };
struct NoStar { int i; explicit operator bool() const { return i; } };

template<typename From, typename To> constexpr bool points() { //a pointer to From is usable as a pointer to To
	if((is_c<From> && !is_c<To>) || (is_v<From> && !is_v<To>)) return false;
	using F = std::remove_cv_t<From>;
	using T = std::remove_cv_t<To>;
	if constexpr(std::is_same_v<F, Derived> && std::is_same_v<T, Base>) return true;
	else return adds_qualifiers<From, To>();
}
template<typename T, typename S> void optional_ref_row(Matrix & m) {
	using R = ptl::optional_ref<T>;
	using E = typename Target<S>::type;
	bool expected{false};
	if constexpr(std::is_lvalue_reference_v<S> && !std::is_void_v<E>) expected = points<E, T>();
	if constexpr(std::is_lvalue_reference_v<S>) if constexpr(points<std::remove_reference_t<S>, T>()) expected = true;
	if constexpr(std::is_same_v<bare<S>, R> || std::is_same_v<bare<S>, std::nullopt_t>) expected = true;
	if constexpr(is_c<T> && !is_v<T>) if(!expected && (!std::is_lvalue_reference_v<S> || std::is_convertible_v<S, T>)) return; //temporaries for a constant: not prescribed
	const auto n{name<R>() + " from " + name<S>() + (std::is_lvalue_reference_v<S> ? " lvalue" : " rvalue")};
	m.rows.push_back({n + ": construct", std::is_constructible_v<R, S>, expected});
	m.rows.push_back({n + ": convert", std::is_convertible_v<S, R>, expected});
	m.rows.push_back({n + ": assign", std::is_assignable_v<R &, S>, expected});
}
template<typename T, typename... S> void optional_ref_rows(Matrix & m, L<S...>) { (optional_ref_row<T, S>(m), ...); }
template<typename... E> using OptionalLike = L<E *&..., E * const &..., std::unique_ptr<E> &..., const std::unique_ptr<E> &..., const std::shared_ptr<E> &..., ptl::optional_ref<E> &..., const ptl::optional_ref<E> &..., ptl::optional_ref<E>...>;
template<typename... E> using Owning = L<ptl::optional<E> &..., const ptl::optional<E> &..., ptl::optional<E>..., std::optional<E> &..., const std::optional<E> &..., std::optional<E>...>;
template<typename... E> using Plain = L<E &..., const E &..., E..., const E...>;
template<typename... T> void optional_refs(std::vector<Matrix> & all, L<T...>) {
	using Sources = decltype(OptionalLike<int, const int, volatile int, unsigned, Base, const Base, Derived, const Derived>{} + Owning<int, unsigned, Base, Derived>{} + Plain<int, unsigned, char, Base, Derived, Far>{}
		+ L<volatile int &, NoBool &, NoStar &, std::nullopt_t, const std::nullopt_t &, std::string &, Raw<Far> &>{});
	([&] {
		Matrix m{"optional_ref<" + name<T>() + "> from sources", {}};
		optional_ref_rows<T>(m, Sources{});
		all.push_back(std::move(m));
	}(), ...);
}

// ---------------------------------------------------------------- variant and variant_ref
template<typename V, typename T, typename = void> struct Holds : std::false_type {};
template<typename V, typename T> struct Holds<V, T, std::void_t<decltype(std::declval<const V &>().template holds<T>())>> : std::true_type {};
template<typename V, typename T, typename = void> struct Gets : std::false_type {};
template<typename V, typename T> struct Gets<V, T, std::void_t<decltype(std::declval<V>().template get<T>())>> : std::true_type {};
template<typename V, typename T, typename = void> struct GetsIf : std::false_type {};
template<typename V, typename T> struct GetsIf<V, T, std::void_t<decltype(std::declval<V>().template get_if<T>())>> : std::true_type {};
template<typename V, typename T, typename = void> struct Emplaces : std::false_type {};
template<typename V, typename T> struct Emplaces<V, T, std::void_t<decltype(std::declval<V>().template emplace<T>())>> : std::true_type {};
template<typename V, std::size_t I, typename = void> struct EmplacesAt : std::false_type {};
template<typename V, std::size_t I> struct EmplacesAt<V, I, std::void_t<decltype(std::declval<V>().template emplace<I>())>> : std::true_type {};

template<typename S, typename... T> void variant_ref_row(Matrix & m) {
	using R = ptl::variant_ref<T...>;
	using U = std::remove_reference_t<S>;
	const bool expected{(std::is_lvalue_reference_v<S> && one_of<U, T...>) || one_of<const U, T...> || std::is_same_v<std::remove_cv_t<U>, R>};
	const auto n{name<R>() + " from " + name<S>() + (std::is_lvalue_reference_v<S> ? " lvalue" : " rvalue")};
	m.rows.push_back({n + ": construct", std::is_constructible_v<R, S>, expected});
	m.rows.push_back({n + ": convert", std::is_convertible_v<S, R>, expected});
	m.rows.push_back({n + ": assign", std::is_assignable_v<R &, S>, expected});
	if constexpr(!std::is_lvalue_reference_v<S>) {
		m.rows.push_back({n + ": holds", Holds<R, S>::value, one_of<S, T...>});
		m.rows.push_back({n + ": get", Gets<const R &, S>::value, one_of<S, T...>});
		m.rows.push_back({n + ": get_if", GetsIf<const R &, S>::value, one_of<S, T...>});
	}
}
template<typename... S> struct VariantRefs {
	std::vector<Matrix> & all;
	template<typename... T> void operator()(L<T...>) const {
		Matrix m{name<ptl::variant_ref<T...>>() + " from sources", {}};
		(variant_ref_row<S, T...>(m), ...);
		(variant_ref_row<L<S>, T...>(m), ...); //a type related to none of them
		variant_ref_row<ptl::variant_ref<T...> &, T...>(m);
		variant_ref_row<const ptl::variant_ref<T...> &, T...>(m);
		all.push_back(std::move(m));
	}
};
template<typename... S> VariantRefs<S...> variant_refs(std::vector<Matrix> & all, L<S...>) { return {all}; }

template<typename V, typename S, typename... T> void variant_row(Matrix & m) {
	using U = std::remove_reference_t<S>;
	const bool alternative{one_of<std::remove_const_t<U>, T...>};
	const bool expected{alternative || std::is_same_v<std::remove_cv_t<U>, V>};
	const auto n{name<V>() + " from " + name<S>() + (std::is_lvalue_reference_v<S> ? " lvalue" : " rvalue")};
	m.rows.push_back({n + ": construct", std::is_constructible_v<V, S>, expected});
	m.rows.push_back({n + ": convert", std::is_convertible_v<S, V>, expected});
	m.rows.push_back({n + ": assign", std::is_assignable_v<V &, S>, expected});
	m.rows.push_back({n + ": assign to a constant", std::is_assignable_v<const V &, S>, false});
	if constexpr(std::is_same_v<S, std::decay_t<S>>) {
		if constexpr(std::is_default_constructible_v<S>) m.rows.push_back({n + ": in_place", std::is_constructible_v<V, std::in_place_type_t<S>>, alternative});
		m.rows.push_back({n + ": holds", Holds<V, S>::value, alternative});
		m.rows.push_back({n + ": get", Gets<V &, S>::value && Gets<const V &, S>::value && Gets<V, S>::value && Gets<const V, S>::value, alternative});
		m.rows.push_back({n + ": get at all", Gets<V &, S>::value || Gets<const V &, S>::value || Gets<V, S>::value || Gets<const V, S>::value, alternative});
		m.rows.push_back({n + ": get_if", GetsIf<V &, S>::value, alternative});
		m.rows.push_back({n + ": get_if of a constant", GetsIf<const V &, S>::value, alternative});
		if constexpr(std::is_default_constructible_v<S>) m.rows.push_back({n + ": emplace", Emplaces<V &, S>::value, alternative});
		m.rows.push_back({n + ": emplace into a constant", Emplaces<const V &, S>::value, false});
	}
}
template<typename V, typename... T> void variant_indices(Matrix & m) {
	constexpr std::size_t n{sizeof...(T)};
	const auto add{[&](std::size_t i, bool construct, bool emplace, bool constant) {
		m.rows.push_back({fmt("alternative number %zu: in_place", i), construct, i < n});
		m.rows.push_back({fmt("alternative number %zu: emplace", i), emplace, i < n});
		m.rows.push_back({fmt("alternative number %zu: emplace into a constant", i), constant, false});
	}};
	if constexpr((std::is_default_constructible_v<T> && ...)) {
		add(0, std::is_constructible_v<V, std::in_place_index_t<0>>, EmplacesAt<V &, 0>::value, EmplacesAt<const V &, 0>::value);
		add(n - 1, std::is_constructible_v<V, std::in_place_index_t<n - 1>>, EmplacesAt<V &, n - 1>::value, EmplacesAt<const V &, n - 1>::value);
	}
	add(n, std::is_constructible_v<V, std::in_place_index_t<n>>, EmplacesAt<V &, n>::value, EmplacesAt<const V &, n>::value);
	add(n + 1, std::is_constructible_v<V, std::in_place_index_t<n + 1>>, EmplacesAt<V &, n + 1>::value, EmplacesAt<const V &, n + 1>::value);
	add(255, std::is_constructible_v<V, std::in_place_index_t<255>>, EmplacesAt<V &, 255>::value, EmplacesAt<const V &, 255>::value);
	add(256, std::is_constructible_v<V, std::in_place_index_t<256>>, EmplacesAt<V &, 256>::value, EmplacesAt<const V &, 256>::value);
}
struct NoDefault { int i; explicit NoDefault(int i) : i{i} {} };
template<typename... S> struct Variants {
	std::vector<Matrix> & all;
	template<typename... T> void operator()(L<T...>) const {
		using V = ptl::variant<T...>;
		Matrix m{name<V>() + " from sources", {}};
		(variant_row<V, S, T...>(m), ...);
		variant_row<V, V &, T...>(m); variant_row<V, const V &, T...>(m); variant_row<V, const V &&, T...>(m);
		variant_indices<V, T...>(m);
		using First = std::tuple_element_t<0, std::tuple<T...>>;
		m.rows.push_back({"default construction", std::is_default_constructible_v<V>, std::is_default_constructible_v<First>});
		all.push_back(std::move(m));
	}
};
template<typename... S> Variants<S...> variants(std::vector<Matrix> & all, L<S...>) { return {all}; }

// ---------------------------------------------------------------- function_ref
//! a function object with a chosen call operator
enum Qualifier { NONE, CONST, LVALUE, CONST_LVALUE, RVALUE };
template<Qualifier Q, bool N, typename R, typename... A> struct Callable;
template<bool N, typename R, typename... A> struct Callable<NONE, N, R, A...> { R operator()(A...) noexcept(N); };
template<bool N, typename R, typename... A> struct Callable<CONST, N, R, A...> { R operator()(A...) const noexcept(N); };
template<bool N, typename R, typename... A> struct Callable<LVALUE, N, R, A...> { R operator()(A...) & noexcept(N); };
template<bool N, typename R, typename... A> struct Callable<CONST_LVALUE, N, R, A...> { R operator()(A...) const & noexcept(N); };
template<bool N, typename R, typename... A> struct Callable<RVALUE, N, R, A...> { R operator()(A...) && noexcept(N); };

//! the rules for the few parameter and result types below
template<typename From, typename To> constexpr bool converts{std::is_same_v<To, From>};
template<> inline constexpr bool converts<int, long>{true};
template<> inline constexpr bool converts<long, int>{true};
template<> inline constexpr bool converts<int &, const int &>{true};
template<> inline constexpr bool converts<int &, int>{true};
template<> inline constexpr bool converts<const int &, int>{true};
template<> inline constexpr bool converts<int, const int &>{true};
template<> inline constexpr bool converts<int &, long>{true};
template<> inline constexpr bool converts<const int &, long>{true};
template<> inline constexpr bool converts<Derived *, Base *>{true};
template<typename From, typename To> constexpr bool result_converts{converts<From, To> || std::is_void_v<To>};
template<> inline constexpr bool result_converts<int, const int &>{false}; //would dangle: left open below

template<typename R, typename A, bool C, bool N> struct Signature;
template<typename R, typename A> struct Signature<R, A, false, false> { using type = R(A); };
template<typename R, typename A> struct Signature<R, A, true, false> { using type = R(A) const; };
template<typename R, typename A> struct Signature<R, A, false, true> { using type = R(A) noexcept; };
template<typename R, typename A> struct Signature<R, A, true, true> { using type = R(A) const noexcept; };

template<typename R, typename A, bool C, bool N, Qualifier Q, bool FN, typename FR, typename FA> void function_ref_row(Matrix & m) {
	using S = typename Signature<R, A, C, N>::type;
	using Ref = ptl::function_ref<S>;
	using F = Callable<Q, FN, FR, FA>;
	const bool fits{converts<A, FA> && result_converts<FR, R> && (!N || FN)};
	const bool const_ok{Q == CONST || Q == CONST_LVALUE}, mutable_ok{Q != RVALUE};
	const auto add{[&](const char * source, bool construct, bool convert, bool assign, bool constant) {
		const bool expected{fits && (C || constant ? const_ok : mutable_ok)};
		const auto n{name<Ref>() + " from " + source + " " + name<F>()};
		m.rows.push_back({n + ": construct", construct, expected});
		m.rows.push_back({n + ": convert", convert, expected});
		m.rows.push_back({n + ": assign", assign, false});
	}};
	if constexpr(std::is_same_v<FR, int> && std::is_same_v<R, const int &>) return;
	else {
		add("lvalue", std::is_constructible_v<Ref, F &>, std::is_convertible_v<F &, Ref>, std::is_assignable_v<Ref &, F &>, false);
		add("constant", std::is_constructible_v<Ref, const F &>, std::is_convertible_v<const F &, Ref>, std::is_assignable_v<Ref &, const F &>, true);
		add("rvalue", std::is_constructible_v<Ref, F>, std::is_convertible_v<F, Ref>, std::is_assignable_v<Ref &, F>, false);
	}
}
template<typename R, typename A, bool C, bool N, bool FN, typename FR, typename FA> void function_row(Matrix & m) {
	using Ref = ptl::function_ref<typename Signature<R, A, C, N>::type>;
	using F = FR(FA) noexcept(FN);
	if constexpr(!(std::is_same_v<FR, int> && std::is_same_v<R, const int &>)) {
		const bool expected{converts<A, FA> && result_converts<FR, R> && (!N || FN)};
		const auto n{name<Ref>() + " from function " + name<F>()};
		m.rows.push_back({n + ": construct from the function", std::is_constructible_v<Ref, F &>, expected});
		m.rows.push_back({n + ": construct from a pointer", std::is_constructible_v<Ref, F *>, expected});
		m.rows.push_back({n + ": construct from a pointer variable", std::is_constructible_v<Ref, F *&>, expected});
		m.rows.push_back({n + ": construct from a constant pointer", std::is_constructible_v<Ref, F * const &>, expected});
		m.rows.push_back({n + ": convert", std::is_convertible_v<F *, Ref>, expected});
		m.rows.push_back({n + ": assign", std::is_assignable_v<Ref &, F *>, expected});
	}
}
template<typename R, typename A, bool C, bool N, typename FR, typename FA> void function_ref_rows(Matrix & m) {
	function_ref_row<R, A, C, N, NONE, false, FR, FA>(m); function_ref_row<R, A, C, N, NONE, true, FR, FA>(m);
	function_ref_row<R, A, C, N, CONST, false, FR, FA>(m); function_ref_row<R, A, C, N, CONST, true, FR, FA>(m);
	function_ref_row<R, A, C, N, LVALUE, false, FR, FA>(m); function_ref_row<R, A, C, N, LVALUE, true, FR, FA>(m);
	function_ref_row<R, A, C, N, CONST_LVALUE, false, FR, FA>(m); function_ref_row<R, A, C, N, CONST_LVALUE, true, FR, FA>(m);
	function_ref_row<R, A, C, N, RVALUE, false, FR, FA>(m); function_ref_row<R, A, C, N, RVALUE, true, FR, FA>(m);
	function_row<R, A, C, N, false, FR, FA>(m); function_row<R, A, C, N, true, FR, FA>(m);
}
template<typename R, typename A, typename... P> void function_refs_of(std::vector<Matrix> & all, L<P...>) {
	Matrix m{"function_ref<" + name<R(A)>() + "> from callables", {}};
	(function_ref_rows<R, A, false, false, typename P::first, typename P::second>(m), ...);
	(function_ref_rows<R, A, true, false, typename P::first, typename P::second>(m), ...);
	(function_ref_rows<R, A, false, true, typename P::first, typename P::second>(m), ...);
	(function_ref_rows<R, A, true, true, typename P::first, typename P::second>(m), ...);
	all.push_back(std::move(m));
}
template<typename A, typename B> struct P { using first = A; using second = B; };

// ---------------------------------------------------------------- single expressions
#define DETECT(Name, ...) \
	template<typename T, typename = void> struct Name##_ : std::false_type {}; \
	template<typename T> struct Name##_<T, std::void_t<decltype(__VA_ARGS__)>> : std::true_type {}; \
	template<typename T> constexpr bool Name{Name##_<T>::value};
#define SELF std::declval<T>()
DETECT(writes_front, SELF.front() = std::declval<typename bare<T>::value_type>())
DETECT(writes_back, SELF.back() = std::declval<typename bare<T>::value_type>())
DETECT(writes_at, SELF.at(0) = std::declval<typename bare<T>::value_type>())
DETECT(writes_subscript, SELF[0] = std::declval<typename bare<T>::value_type>())
DETECT(writes_data, *SELF.data() = std::declval<typename bare<T>::value_type>())
DETECT(writes_begin, *SELF.begin() = std::declval<typename bare<T>::value_type>())
DETECT(writes_iterator_subscript, SELF.begin()[0] = std::declval<typename bare<T>::value_type>())
DETECT(writes_end, *--SELF.end() = std::declval<typename bare<T>::value_type>())
DETECT(writes_rbegin, *SELF.rbegin() = std::declval<typename bare<T>::value_type>())
DETECT(writes_rend, *--SELF.rend() = std::declval<typename bare<T>::value_type>())
DETECT(writes_cbegin, *SELF.cbegin() = std::declval<typename bare<T>::value_type>())
DETECT(writes_crbegin, *SELF.crbegin() = std::declval<typename bare<T>::value_type>())
DETECT(writes_cend, *--SELF.cend() = std::declval<typename bare<T>::value_type>())
DETECT(writes_crend, *--SELF.crend() = std::declval<typename bare<T>::value_type>())
DETECT(writes_range, *std::begin(std::declval<T>()) = std::declval<typename bare<T>::value_type>())
DETECT(clears, SELF.clear())
DETECT(pops, SELF.pop_back())
DETECT(pushes, SELF.push_back(std::declval<typename bare<T>::value_type>()))
DETECT(resizes, SELF.resize(1))
DETECT(reserves, SELF.reserve(1))
DETECT(shrinks, SELF.shrink_to_fit())
DETECT(erases, SELF.erase(SELF.begin()))
DETECT(erases_range, SELF.erase(SELF.begin(), SELF.end()))
DETECT(inserts, SELF.insert(SELF.begin(), std::declval<typename bare<T>::value_type>()))
DETECT(inserts_many, SELF.insert(SELF.begin(), 2, std::declval<typename bare<T>::value_type>()))
DETECT(assigns, SELF.assign(2, std::declval<typename bare<T>::value_type>()))
DETECT(appends, SELF.append(2, 'x'))
DETECT(adds, SELF += 'x')
DETECT(replaces, SELF.replace(SELF.begin(), SELF.end(), 2, 'x'))
DETECT(fills, SELF.fill(std::declval<typename bare<T>::value_type>()))
DETECT(swaps, SELF.swap(std::declval<bare<T> &>()))
DETECT(swaps_from, std::declval<bare<T> &>().swap(SELF))
DETECT(removes_prefix, SELF.remove_prefix(1))
DETECT(sets, SELF.set())
DETECT(sets_one, SELF.set(0))
DETECT(resets, SELF.reset())
DETECT(resets_one, SELF.reset(0))
DETECT(flips, SELF.flip())
DETECT(flips_one, SELF.flip(0))
DETECT(ands, SELF &= std::declval<const bare<T> &>())
DETECT(ors, SELF |= std::declval<const bare<T> &>())
DETECT(xors, SELF ^= std::declval<const bare<T> &>())
DETECT(shifts_left, SELF <<= 1)
DETECT(shifts_right, SELF >>= 1)
DETECT(flips_ref, SELF[0].flip())
DETECT(flips_at, SELF.at(0).flip())
DETECT(reads_stream, std::declval<std::istream &>() >> SELF)
DETECT(negates, !SELF)
DETECT(writes_value, SELF.value() = 1)
DETECT(writes_star, *SELF = 1)
DETECT(writes_arrow, *SELF.operator->() = 1)
DETECT(emplaces, SELF.emplace(1))
DETECT(emplaces_back, SELF.emplace_back(std::declval<typename bare<T>::value_type>()))
DETECT(emplaces_pos, SELF.emplace(SELF.begin(), std::declval<typename bare<T>::value_type>()))
DETECT(writes_get0, SELF.template get<0>() = 1)
DETECT(writes_get_int, SELF.template get<int>() = 1)
DETECT(writes_get_if_int, *SELF.template get_if<int>() = 1)
DETECT(visits_mutable, SELF.visit(std::declval<void(*)(int &)>()))
template<typename A, typename B, typename = void> struct Compares : std::false_type {};
template<typename A, typename B> struct Compares<A, B, std::void_t<decltype(std::declval<const A &>() == std::declval<const B &>())>> : std::true_type {};
template<typename A, typename B, typename = void> struct Orders : std::false_type {};
template<typename A, typename B> struct Orders<A, B, std::void_t<decltype(std::declval<const A &>() < std::declval<const B &>())>> : std::true_type {};
template<typename A, typename B, typename = void> struct Ands : std::false_type {};
template<typename A, typename B> struct Ands<A, B, std::void_t<decltype(std::declval<const A &>() & std::declval<const B &>())>> : std::true_type {};
template<typename A, typename B, typename = void> struct SwapsWith : std::false_type {};
template<typename A, typename B> struct SwapsWith<A, B, std::void_t<decltype(std::declval<A &>().swap(std::declval<B &>()))>> : std::true_type {};

#define EXPECT(Type, Name, Expected) m.rows.push_back({name<Type>() + (std::is_lvalue_reference_v<Type> ? " lvalue" : " rvalue") + ": " #Name, Name<Type>, Expected})
template<typename C, bool Deep, bool Mutable> void elements(Matrix & m) {
	//Deep: a constant object has constant elements; Mutable: they are writable at all
	#define ACCESS(X, W, I) EXPECT(X, writes_front, W); EXPECT(X, writes_back, W); EXPECT(X, writes_at, W); EXPECT(X, writes_subscript, W); EXPECT(X, writes_data, W); \
		EXPECT(X, writes_begin, I); EXPECT(X, writes_iterator_subscript, I); EXPECT(X, writes_end, I); EXPECT(X, writes_rbegin, I); EXPECT(X, writes_rend, I); EXPECT(X, writes_range, I); \
		EXPECT(X, writes_cbegin, false); EXPECT(X, writes_crbegin, false); EXPECT(X, writes_cend, false); EXPECT(X, writes_crend, false)
	ACCESS(C &, Mutable, Mutable);
	ACCESS(const C &, Mutable && !Deep, false);
	using It = typename C::iterator;
	using CIt = typename C::const_iterator;
	m.rows.push_back({name<C>() + ": iterator to const_iterator", std::is_convertible_v<It, CIt>, true});
	m.rows.push_back({name<C>() + ": const_iterator to iterator", std::is_convertible_v<CIt, It> || std::is_constructible_v<It, CIt> || std::is_assignable_v<It &, CIt>, std::is_same_v<It, CIt>});
	m.rows.push_back({name<C>() + ": reverse_iterator to const_reverse_iterator", std::is_convertible_v<typename C::reverse_iterator, typename C::const_reverse_iterator>, true});
	m.rows.push_back({name<C>() + ": iterators compare with each other", Compares<It, It>::value && Compares<It, CIt>::value && Compares<CIt, It>::value && Orders<It, CIt>::value && Orders<CIt, It>::value, true});
}
template<typename C> void growing(Matrix & m) {
	#define GROW(X, W) EXPECT(X, clears, W); EXPECT(X, pops, W); EXPECT(X, pushes, W); EXPECT(X, resizes, W); EXPECT(X, reserves, W); EXPECT(X, shrinks, W); EXPECT(X, erases, W); EXPECT(X, erases_range, W); \
		EXPECT(X, inserts, W); EXPECT(X, inserts_many, W); EXPECT(X, assigns, W); EXPECT(X, swaps, W); EXPECT(X, swaps_from, W)
	GROW(C &, true);
	GROW(const C &, false);
	m.rows.push_back({name<C>() + ": iterators are mutually comparable with those of a string_ref", Compares<typename C::iterator, ptl::string_ref::iterator>::value, false});
}
template<typename T, bool Expected> void values(Matrix & m) { //an object with value semantics (or a rebindable reference)
	m.rows.push_back({name<T>() + ": copy", std::is_copy_constructible_v<T>, true});
	m.rows.push_back({name<T>() + ": copy a mutable object", std::is_constructible_v<T, T &>, true});
	m.rows.push_back({name<T>() + ": move", std::is_move_constructible_v<T>, true});
	m.rows.push_back({name<T>() + ": move a constant", std::is_constructible_v<T, const T>, true});
	m.rows.push_back({name<T>() + ": copy assignment", std::is_copy_assignable_v<T>, true});
	m.rows.push_back({name<T>() + ": copy assignment from a mutable object", std::is_assignable_v<T &, T &>, true});
	m.rows.push_back({name<T>() + ": move assignment", std::is_move_assignable_v<T>, true});
	m.rows.push_back({name<T>() + ": moving may throw", !std::is_nothrow_move_constructible_v<T> && Expected, false});
	m.rows.push_back({name<T>() + ": swap may throw", !std::is_nothrow_swappable_v<T> && Expected, false});
	m.rows.push_back({name<T>() + ": assigning to a constant", std::is_assignable_v<const T &, T> || std::is_assignable_v<const T &, const T &> || std::is_assignable_v<const T &, T &>, false});
}
//every type of the list with every one
template<typename A, typename B> void related(Matrix & m) {
	const bool same{std::is_same_v<A, B>};
	const auto n{name<A>() + " and " + name<B>()};
	m.rows.push_back({n + ": construct", std::is_constructible_v<A, B &> || std::is_constructible_v<A, const B &> || std::is_constructible_v<A, B>, same});
	m.rows.push_back({n + ": assign", std::is_assignable_v<A &, B &> || std::is_assignable_v<A &, const B &> || std::is_assignable_v<A &, B>, same});
	m.rows.push_back({n + ": compare", Compares<A, B>::value, same});
	m.rows.push_back({n + ": swap", SwapsWith<A, B>::value, same});
}
template<typename A, typename... B> void related_row(Matrix & m) { (related<A, B>(m), ...); }
template<typename... A> void unrelated(std::vector<Matrix> & all, const char * what, L<A...>) {
	Matrix m{fmt("%s of different types", what), {}};
	(related_row<A, A...>(m), ...);
	all.push_back(std::move(m));
}
template<std::size_t N, typename Tag> void bits(Matrix & m) {
	using B = ptl::bitset<N, Tag>;
	constexpr bool enabled{std::is_same_v<Tag, enabled_tag>};
	m.rows.push_back({name<B>() + ": explicit bool", std::is_constructible_v<bool, const B &>, enabled});
	m.rows.push_back({name<B>() + ": implicit bool", std::is_convertible_v<const B &, bool> || std::is_convertible_v<B &, int>, false});
	EXPECT(const B &, negates, enabled);
	m.rows.push_back({name<B>() + ": from an integer", std::is_constructible_v<B, std::size_t>, true});
	m.rows.push_back({name<B>() + ": implicitly from an integer", std::is_convertible_v<std::size_t, B> || std::is_convertible_v<int, B> || std::is_convertible_v<bool, B>, false});
	m.rows.push_back({name<B>() + ": assign an integer", std::is_assignable_v<B &, int> || std::is_assignable_v<B &, std::size_t> || std::is_assignable_v<B &, bool>, false});
	m.rows.push_back({name<B>() + ": compare with an integer", Compares<B, int>::value || Compares<int, B>::value, false});
	m.rows.push_back({name<B>() + ": order", Orders<B, B>::value, false});
	#define BITS(X, W) EXPECT(X, sets, W); EXPECT(X, sets_one, W); EXPECT(X, resets, W); EXPECT(X, resets_one, W); EXPECT(X, flips, W); EXPECT(X, flips_one, W); EXPECT(X, ands, W); EXPECT(X, ors, W); EXPECT(X, xors, W); \
		EXPECT(X, shifts_left, W); EXPECT(X, shifts_right, W); EXPECT(X, flips_ref, W); EXPECT(X, flips_at, W); EXPECT(X, reads_stream, W); EXPECT(X, swaps, W); EXPECT(X, writes_subscript, W); EXPECT(X, writes_at, W)
	BITS(B &, true);
	BITS(const B &, false);
	using R = typename B::reference;
	m.rows.push_back({name<B>() + "::reference: default construction", std::is_default_constructible_v<R>, false});
	m.rows.push_back({name<B>() + "::reference: from bool", std::is_constructible_v<R, bool &> || std::is_convertible_v<bool, R>, false});
	m.rows.push_back({name<B>() + "::reference: to bool", std::is_convertible_v<const R &, bool>, true});
	m.rows.push_back({name<B>() + "::reference: copy", std::is_copy_constructible_v<R>, true});
}
template<typename O, bool Owner, bool Const> void optionals(Matrix & m) {
	#define OPTIONAL(X, W) EXPECT(X, writes_value, W); EXPECT(X, writes_star, W); EXPECT(X, writes_arrow, W)
	OPTIONAL(O &, !Const);
	OPTIONAL(const O &, !Const && !Owner);
	if constexpr(Owner) {
		EXPECT(O &, emplaces, true); EXPECT(const O &, emplaces, false);
		EXPECT(O &, resets, true); EXPECT(const O &, resets, false);
		EXPECT(O &, swaps, true); EXPECT(const O &, swaps, false);
		m.rows.push_back({name<O>() + ": from an unrelated type", std::is_constructible_v<O, Far> || std::is_convertible_v<Far, O> || std::is_assignable_v<O &, Far>, false});
		m.rows.push_back({name<O>() + ": from std::optional", std::is_convertible_v<std::optional<int>, O>, false});
		m.rows.push_back({name<O>() + ": implicit in_place", std::is_convertible_v<std::in_place_t, O>, false});
		m.rows.push_back({name<O>() + ": order with nullopt and values", Orders<O, std::nullopt_t>::value && Orders<std::nullopt_t, O>::value && Orders<O, int>::value && Orders<int, O>::value, true});
	}
	m.rows.push_back({name<O>() + ": explicit bool", std::is_constructible_v<bool, const O &>, true});
	m.rows.push_back({name<O>() + ": implicit bool", std::is_convertible_v<const O &, bool> || std::is_convertible_v<O &, int>, false});
	m.rows.push_back({name<O>() + ": from nullopt", std::is_convertible_v<std::nullopt_t, O> && std::is_assignable_v<O &, std::nullopt_t>, true});
	m.rows.push_back({name<O>() + ": compare with an unrelated type", Compares<O, Far>::value || Compares<Far, O>::value, false});
}

std::vector<Matrix> build() {
	std::vector<Matrix> all;
	array_refs(all, L<int, const int, volatile int, const volatile int, unsigned, const char, char, Base, const Base, Derived, const Derived, int *, const int *, int * const, const int * const, const int * const * const>{});
	optional_refs(all, L<int, const int, volatile int, const volatile int, unsigned, Base, const Base, Derived, const Derived>{});
	{
		const auto v{variant_refs(all, Plain<int, char, unsigned, Base, Derived, std::string>{})};
		v(L<int>{}); v(L<const int>{}); v(L<int, const int>{}); v(L<const int, int>{}); v(L<int, char>{}); v(L<const int, char>{}); v(L<int, const char>{}); v(L<const int, const char>{});
		v(L<Base>{}); v(L<const Base>{}); v(L<Derived>{}); v(L<Base, const Derived>{}); v(L<const Base, Derived, const Derived>{}); v(L<std::string, const int, unsigned>{}); v(L<volatile int, const std::string>{});
	}
	{
		const auto v{variants(all, decltype(Plain<int, char, unsigned, bool, double, Base, Derived, NoDefault>{} + L<volatile int &, std::string &, const char *, const char(&)[4], std::nullptr_t, std::monostate, std::variant<int> &, ptl::optional<char> &>{}){})};
		v(L<int>{}); v(L<int, char>{}); v(L<bool, double>{}); v(L<Base>{}); v(L<Base, Derived>{}); v(L<NoDefault, int>{}); v(L<int, NoDefault>{}); v(L<std::nullptr_t, const char *, unsigned>{}); v(L<ptl::optional<char>, int>{});
	}
	function_refs_of<int, int>(all, L<P<int, int>, P<long, int>, P<int, long>, P<int, int &>, P<void, int>, P<int, const int &>, P<Base *, int>, P<int &, int>>{});
	function_refs_of<void, int>(all, L<P<int, int>, P<void, int>, P<void, int &>, P<Base *, int>>{});
	function_refs_of<void, int &>(all, L<P<void, int &>, P<void, const int &>, P<void, int>, P<void, long>, P<int, int &>>{});
	function_refs_of<int &, int &>(all, L<P<int &, int &>, P<int, int &>, P<const int &, int &>, P<void, int &>>{});
	function_refs_of<const int &, const int &>(all, L<P<int &, const int &>, P<const int &, const int &>, P<const int &, int &>, P<const int &, long>, P<void, int>>{});
	function_refs_of<Base *, Derived *>(all, L<P<Base *, Base *>, P<Derived *, Base *>, P<Derived *, Derived *>, P<Base *, int>, P<int, Derived *>>{});
	function_refs_of<Derived *, Base *>(all, L<P<Base *, Base *>, P<Derived *, Base *>, P<Derived *, Derived *>>{});
	{
		Matrix m{"access to elements and constness", {}};
		elements<ptl::string, true, true>(m); elements<ptl::vector<int>, true, true>(m); elements<ptl::vector<Base>, true, true>(m); elements<ptl::array<int, 3>, true, true>(m); elements<ptl::array<Base, 1>, true, true>(m);
		elements<ptl::string_ref, true, false>(m); elements<ptl::array_ref<int>, false, true>(m); elements<ptl::array_ref<Base>, false, true>(m); elements<ptl::array_ref<const int>, false, false>(m); elements<ptl::array_ref<const Base>, false, false>(m);
		all.push_back(std::move(m));
	}
	{
		Matrix m{"modification of constants", {}};
		growing<ptl::string>(m); growing<ptl::vector<int>>(m); growing<ptl::vector<Base>>(m);
		using S = ptl::string; using V = ptl::vector<int>; using A = ptl::array<int, 3>; using R = ptl::string_ref; using T = ptl::tuple<int, char>;
		EXPECT(S &, appends, true); EXPECT(const S &, appends, false); EXPECT(S &, adds, true); EXPECT(const S &, adds, false); EXPECT(S &, replaces, true); EXPECT(const S &, replaces, false);
		EXPECT(V &, emplaces_back, true); EXPECT(const V &, emplaces_back, false); EXPECT(V &, emplaces_pos, true); EXPECT(const V &, emplaces_pos, false);
		EXPECT(A &, fills, true); EXPECT(const A &, fills, false); EXPECT(A &, swaps, true); EXPECT(const A &, swaps, false); EXPECT(A &, swaps_from, true); EXPECT(const A &, swaps_from, false);
		EXPECT(R &, removes_prefix, true); EXPECT(const R &, removes_prefix, false);
		EXPECT(T &, swaps, true); EXPECT(const T &, swaps, false); EXPECT(T &, writes_get0, true); EXPECT(const T &, writes_get0, false); EXPECT(const T, writes_get0, false);
		using W = ptl::variant<int, char>; using X = ptl::variant_ref<int, const char>; using Y = ptl::variant_ref<int>;
		EXPECT(W &, writes_get_int, true); EXPECT(const W &, writes_get_int, false); EXPECT(const W, writes_get_int, false); EXPECT(W &, writes_get_if_int, true); EXPECT(const W &, writes_get_if_int, false); EXPECT(W &, swaps, true); EXPECT(const W &, swaps, false);
		EXPECT(X &, writes_get_int, true); EXPECT(const X &, writes_get_int, true); EXPECT(const X &, writes_get_if_int, true);
		EXPECT(Y &, visits_mutable, true); EXPECT(const Y &, visits_mutable, true);
		all.push_back(std::move(m));
	}
	{
		Matrix m{"bitset uses", {}};
		bits<0, enabled_tag>(m); bits<7, enabled_tag>(m); bits<8, enabled_tag>(m); bits<1, other_tag>(m); bits<9, other_tag>(m); bits<64, ptl::bitset_default_tag>(m); bits<0, ptl::bitset_default_tag>(m);
		m.rows.push_back({"&: same type", Ands<ptl::bitset<7>, ptl::bitset<7>>::value, true});
		m.rows.push_back({"&: other size", Ands<ptl::bitset<7>, ptl::bitset<8>>::value, false});
		m.rows.push_back({"&: other tag", Ands<ptl::bitset<7>, ptl::bitset<7, other_tag>>::value, false});
		m.rows.push_back({"&: integer", Ands<ptl::bitset<7>, int>::value || Ands<int, ptl::bitset<7>>::value || Ands<ptl::bitset<7>, std::size_t>::value, false});
		all.push_back(std::move(m));
	}
	unrelated(all, "bitsets", L<ptl::bitset<0>, ptl::bitset<7>, ptl::bitset<8>, ptl::bitset<9>, ptl::bitset<64>, ptl::bitset<7, other_tag>, ptl::bitset<7, enabled_tag>, ptl::bitset<8, other_tag>, ptl::bitset<8, enabled_tag>>{});
	unrelated(all, "vectors", L<ptl::vector<int>, ptl::vector<unsigned>, ptl::vector<Base>, ptl::vector<Derived>, ptl::vector<int *>, ptl::vector<const int *>>{});
	unrelated(all, "arrays", L<ptl::array<int, 1>, ptl::array<int, 2>, ptl::array<int, 3>, ptl::array<Base *, 2>, ptl::array<char *, 2>>{});
	unrelated(all, "variants", L<ptl::variant<int>, ptl::variant<unsigned>, ptl::variant<int, unsigned>, ptl::variant<unsigned, int>, ptl::variant<int, char>>{});
	unrelated(all, "optionals", L<ptl::optional<char *>, ptl::optional<int *>, ptl::optional<std::nullptr_t>>{});
	{
		Matrix m{"optional uses", {}};
		optionals<ptl::optional<int>, true, false>(m); optionals<ptl::optional_ref<int>, false, false>(m); optionals<ptl::optional_ref<const int>, false, true>(m);
		all.push_back(std::move(m));
	}
	{
		Matrix m{"value semantics", {}};
		values<ptl::string, true>(m); values<ptl::vector<int>, true>(m); values<ptl::vector<ptl::string>, true>(m); values<ptl::array<int, 0>, true>(m); values<ptl::array<ptl::string, 2>, true>(m); values<ptl::array<ptl::string, 1>, true>(m); values<ptl::bitset<0>, true>(m); values<ptl::bitset<9>, true>(m);
		values<ptl::optional<int>, true>(m); values<ptl::optional<ptl::string>, true>(m); values<ptl::variant<int, ptl::string>, true>(m); values<ptl::variant<ptl::string>, true>(m); values<ptl::tuple<int>, true>(m); values<ptl::tuple<int, ptl::string>, true>(m);
		values<ptl::string_ref, true>(m); values<ptl::array_ref<int>, true>(m); values<ptl::array_ref<const int>, true>(m); values<ptl::optional_ref<int>, true>(m); values<ptl::optional_ref<const int>, true>(m); values<ptl::variant_ref<int, const char>, false>(m); values<ptl::variant_ref<int>, false>(m);
		values<ptl::function_ref<int(int)>, true>(m); values<ptl::function_ref<void() const noexcept>, true>(m);
		all.push_back(std::move(m));
	}
	{
		Matrix m{"strings and their sources", {}};
		using S = ptl::string; using R = ptl::string_ref;
		#define USE(Text, Actual, Expected) m.rows.push_back({Text, Actual, Expected})
		USE("string from string_view", (std::is_constructible_v<S, std::string_view>), true);
		USE("string implicitly from string_view", (std::is_convertible_v<std::string_view, S>), false);
		USE("string implicitly from a literal", (std::is_convertible_v<const char *, S>), false);
		USE("string implicitly from std::string", (std::is_convertible_v<std::string, S>), false);
		USE("string from a character", (std::is_constructible_v<S, char> || std::is_constructible_v<S, int> || std::is_convertible_v<char, S>), false);
		USE("string from a count", (std::is_constructible_v<S, std::size_t>), false);
		USE("string from count and character", (std::is_constructible_v<S, std::size_t, char>), true);
		USE("string implicitly from initializer_list", (std::is_convertible_v<std::initializer_list<char>, S>), true);
		USE("string assigned a view, std::string, literal", (std::is_assignable_v<S &, std::string_view> && std::is_assignable_v<S &, std::string> && std::is_assignable_v<S &, const char *> && std::is_assignable_v<S &, std::initializer_list<char>>), true);
		USE("string assigned a number", (std::is_assignable_v<S &, int> || std::is_assignable_v<S &, char> || std::is_assignable_v<S &, double>), false);
		USE("constant string assigned", (std::is_assignable_v<const S &, std::string_view> || std::is_assignable_v<const S &, S>), false);
		USE("string to string_view", (std::is_convertible_v<const S &, std::string_view> && std::is_convertible_v<S &, std::string_view>), true);
		USE("string to char *", (std::is_convertible_v<S &, char *> || std::is_convertible_v<const S &, const char *> || std::is_convertible_v<const S &, bool>), false);
		USE("string from iterators of characters", (std::is_constructible_v<S, const char *, const char *> && std::is_constructible_v<S, std::list<char>::iterator, std::list<char>::iterator> && std::is_constructible_v<S, std::istream_iterator<char>, std::istream_iterator<char>>), true);
		USE("string_ref from sources", (std::is_convertible_v<const char *, R> && std::is_convertible_v<char *, R> && std::is_convertible_v<std::string_view, R> && std::is_constructible_v<R, const std::string &> && std::is_constructible_v<R, const S &> && std::is_constructible_v<R, S &> && std::is_constructible_v<R, const char *, std::size_t> && std::is_convertible_v<const char(&)[4], R>), true);
		USE("string_ref from numbers or other characters", (std::is_convertible_v<int, R> || std::is_convertible_v<char, R> || std::is_convertible_v<const wchar_t *, R> || std::is_convertible_v<const unsigned char *, R> || std::is_convertible_v<std::vector<char> &, R> || std::is_convertible_v<void *, R> || std::is_convertible_v<const volatile char *, R>), false);
		USE("string_ref to string_view", (std::is_convertible_v<const R &, std::string_view>), true);
		USE("string_ref to char *, string, bool", (std::is_convertible_v<R, const char *> || std::is_convertible_v<R, S> || std::is_convertible_v<R, std::string> || std::is_convertible_v<R, bool>), false);
		USE("string compared with number or vector", (Compares<S, int>::value || Compares<S, std::vector<char>>::value || Compares<R, int>::value), false);
		USE("string compared with strings", (Compares<S, S>::value && Compares<S, std::string_view>::value && Compares<std::string_view, S>::value && Compares<S, std::string>::value && Compares<S, const char *>::value && Compares<const char *, S>::value && Orders<S, std::string>::value && Orders<const char *, S>::value), true);
		USE("string_ref compared with strings", (Compares<R, R>::value && Compares<R, S>::value && Compares<S, R>::value && Compares<R, const char *>::value && Compares<const char *, R>::value && Orders<R, S>::value && Orders<S, R>::value), true);
		all.push_back(std::move(m));
	}
	{
		Matrix m{"what function_refs refuse", {}};
		using F = ptl::function_ref<int(int)>; using C = ptl::function_ref<int(int) const>; using N = ptl::function_ref<int(int) noexcept>; using D = ptl::function_ref<int(Base &)>; using O = ptl::function_ref<int(Far &)>;
		USE("member function pointer", (std::is_constructible_v<D, int (Base::*)()> || std::is_constructible_v<D, int (Base::*)() const> || std::is_constructible_v<D, int Base::*>), false);
		USE("member pointer lvalue", (std::is_constructible_v<D, int (Base::*&)()> || std::is_constructible_v<D, int Base::*&> || std::is_constructible_v<D, int Base::* const &>), false);
		USE("no callable", (std::is_constructible_v<F, int> || std::is_constructible_v<F, Far &> || std::is_constructible_v<F, std::nullptr_t> || std::is_constructible_v<F, void *> || std::is_default_constructible_v<F>), false);
		USE("unrelated function_ref", (std::is_constructible_v<D, O> || std::is_constructible_v<O, D &> || std::is_constructible_v<F, D> || std::is_constructible_v<N, F> || std::is_constructible_v<N, C &>), false);
		USE("assignment of other function_refs", (std::is_assignable_v<F &, C> || std::is_assignable_v<F &, N> || std::is_assignable_v<C &, F>), false);
		USE("calls with fitting arguments", (std::is_invocable_v<F, int> && std::is_invocable_v<const F &, int> && std::is_invocable_v<const C &, long> && std::is_invocable_v<D, Derived &>), true);
		USE("calls with other arguments", (std::is_invocable_v<F> || std::is_invocable_v<F, int, int> || std::is_invocable_v<F, Far> || std::is_invocable_v<D, const Base &> || std::is_invocable_v<D, Base>), false);
		USE("noexcept calls", (std::is_nothrow_invocable_v<N, int> && std::is_nothrow_invocable_v<const N &, int>), true);
		USE("calls that may throw", (std::is_nothrow_invocable_v<F, int> || std::is_nothrow_invocable_v<C, int>), false);
		all.push_back(std::move(m));
	}
	return all;
}
std::vector<Matrix> & matrices() {
	static std::vector<Matrix> all{build()};
	return all;
}

struct World : mc::World {
	int which;
	int row{-1};
	explicit World(int which) : which{which} {}
	std::string key() override { return fmt("row %d", row); }
	void step(Chooser & ch) override {
		const auto & m{matrices()[static_cast<std::size_t>(which)]};
		const auto n{static_cast<int>(m.rows.size())};
		const auto block{ch.choose((n + 63) / 64)};
		row = block * 64 + ch.choose(std::min(64, n - block * 64));
		const auto & r{m.rows[static_cast<std::size_t>(row)]};
		ch.label(r.expected ? "accepted" : "rejected");
		NOTE("%s", r.use.c_str());
		REQUIRE_("use", r.actual == r.expected, "%s: the compiler %s it, it should %s", r.use.c_str(), r.actual ? "accepts" : "rejects", r.expected ? "be accepted" : "be rejected");
	}
};
}
mc::Plan plan(const std::string &, bool) {
	mc::Plan r;
	r.mask = {"use"};
	for(std::size_t i{0}; i < matrices().size(); ++i) {
		mc::Model m;
		m.name = matrices()[i].name;
		m.depth = 1;
		m.make = [i] { return new World{static_cast<int>(i)}; };
		r.models.push_back(m);
	}
	return r;
}
