// Opaque vocabulary for the value-graph analysis (engine V).
//
// Everything the library treats as a parameter -- iterators, results, nested
// pattern nodes, the rest of the pattern, character predicates -- is replaced
// by types whose operations are calls of undefined external functions.  The
// code that remains after inlining is exactly the library's own decision
// logic, over an unconstrained vocabulary.
#pragma once
#include <ctre.hpp>
#include <cstddef>
#include <cstdint>

#define OPAQUE __attribute__((const, nothrow))

#ifndef PROBE_CHAR
#define PROBE_CHAR char32_t
#endif

namespace probe {

using chr = PROBE_CHAR;
struct itobj;
struct robj;

extern "C" {
	// iterators
	const itobj * it_next(const itobj *) OPAQUE;
	const itobj * it_prev(const itobj *) OPAQUE;
	bool it_eq(const itobj *, const itobj *) OPAQUE;
	chr it_deref(const itobj *) OPAQUE;
	// results
	const robj * r_nm() OPAQUE;
	const robj * r_default() OPAQUE;
	bool r_ok(const robj *) OPAQUE;
	const robj * r_matched(const robj *) OPAQUE;
	const robj * r_unmatch(const robj *) OPAQUE;
	const robj * r_set_start(const robj *, const itobj *) OPAQUE;
	const robj * r_set_end(const robj *, const itobj *) OPAQUE;
	const itobj * r_end_position(const robj *) OPAQUE;
	const robj * r_start_capture(const robj *, size_t, const itobj *) OPAQUE;
	const robj * r_end_capture(const robj *, size_t, const itobj *) OPAQUE;
	bool r_cap_ok(const robj *, size_t) OPAQUE;
	const itobj * r_cap_begin(const robj *, size_t) OPAQUE;
	const itobj * r_cap_end(const robj *, size_t) OPAQUE;
	// pattern nodes
	bool ch_match(size_t id, char32_t, bool ml, bool ci) OPAQUE;
	const robj * x_eval(size_t id, const void * rest, const itobj * b, const itobj * c, const itobj * l, bool blk, bool ml, bool ci, const robj * r) OPAQUE;
	const robj * k_eval(size_t reversed, const itobj * b, const itobj * c, const itobj * l, bool blk, bool ml, bool ci, const robj * r) OPAQUE;
}

// a bidirectional iterator about which nothing is known
struct It {
	using value_type = chr;
	using reference = chr;
	using pointer = const chr *;
	using difference_type = std::ptrdiff_t;
	using iterator_category = std::bidirectional_iterator_tag;
	const itobj * p{nullptr};
	constexpr It() noexcept = default;
	constexpr explicit It(const itobj * p_) noexcept: p{p_} { }
	chr operator*() const noexcept { return it_deref(p); }
	It & operator++() noexcept { p = it_next(p); return *this; }
	It operator++(int) noexcept { It o = *this; p = it_next(p); return o; }
	It & operator--() noexcept { p = it_prev(p); return *this; }
	It operator--(int) noexcept { It o = *this; p = it_prev(p); return o; }
	friend bool operator==(It a, It b) noexcept { return it_eq(a.p, b.p); }
	friend bool operator!=(It a, It b) noexcept { return !it_eq(a.p, b.p); }
};

// the end of the same subject, of another type
struct End {
	using value_type = chr;
	using reference = chr;
	using pointer = const chr *;
	using difference_type = std::ptrdiff_t;
	using iterator_category = std::bidirectional_iterator_tag;
	const itobj * p{nullptr};
	constexpr End() noexcept = default;
	constexpr explicit End(const itobj * p_) noexcept: p{p_} { }
	friend bool operator==(It a, End b) noexcept { return it_eq(a.p, b.p); }
	friend bool operator!=(It a, End b) noexcept { return !it_eq(a.p, b.p); }
	friend bool operator==(End b, It a) noexcept { return it_eq(a.p, b.p); }
	friend bool operator!=(End b, It a) noexcept { return !it_eq(a.p, b.p); }
};

template <size_t Id> struct name_of { static constexpr size_t value = Id; };

// what captures.get<Id>() gives
struct Cap {
	const robj * h;
	size_t id;
	explicit operator bool() const noexcept { return r_cap_ok(h, id); }
	It begin() const noexcept { return It{r_cap_begin(h, id)}; }
	It end() const noexcept { return It{r_cap_end(h, id)}; }
};

template <typename T> struct cap_id;
template <size_t Id> struct cap_id<name_of<Id>> { static constexpr size_t value = Id; };

// a result (with captures) about which nothing is known
struct R {
	const robj * h;
	R() noexcept: h{r_default()} { }
	R(ctre::not_matched_tag_t) noexcept: h{r_nm()} { }
	struct raw { const robj * h; };
	explicit R(raw r) noexcept: h{r.h} { }
	explicit operator bool() const noexcept { return r_ok(h); }
	R & matched() noexcept { h = r_matched(h); return *this; }
	R & unmatch() noexcept { h = r_unmatch(h); return *this; }
	R & set_start_mark(It i) noexcept { h = r_set_start(h, i.p); return *this; }
	R & set_end_mark(It i) noexcept { h = r_set_end(h, i.p); return *this; }
	It get_end_position() const noexcept { return It{r_end_position(h)}; }
	template <size_t Id> R & start_capture(It i) noexcept { h = r_start_capture(h, Id, i.p); return *this; }
	template <size_t Id> R & end_capture(It i) noexcept { h = r_end_capture(h, Id, i.p); return *this; }
	template <size_t Id> Cap get() const noexcept { return {h, Id}; }
	template <typename Name, size_t Id = cap_id<Name>::value> Cap get() const noexcept { return {h, Id}; }
};

// the type list of what has to follow, as a symbol
template <typename... Ts> struct tag_holder { static const char tag; };

// an opaque pattern node.  First: 0 = can start with anything, n = starts with exactly character n
template <size_t Id, char32_t First = 0> struct X { };
// an opaque character predicate
template <size_t Id> struct Ch {
	template <typename CharT> static bool match_char(CharT c, const ctre::flags & f) noexcept {
		return ch_match(Id, static_cast<char32_t>(c), ctre::multiline_mode(f), ctre::is_case_insensitive(f));
	}
};
// the opaque rest of the pattern (always two elements, so that losing or reordering a part of it shows)
template <char32_t First = 0> struct KA { };
struct KB { };

// iterators can be reversed in lookbehinds: same symbols, marked
template <typename T> struct base_of { static const itobj * get(T t) noexcept { return t.p; } static constexpr size_t reversed = 0; };
template <typename T> struct base_of<std::reverse_iterator<T>> { static const itobj * get(std::reverse_iterator<T> t) noexcept { return base_of<T>::get(t.base()); } static constexpr size_t reversed = 1 - base_of<T>::reversed; };

template <typename B, typename C, typename L> inline R call_k(B b, C c, L l, const ctre::flags & f, R r) noexcept {
	static_assert(base_of<B>::reversed == base_of<C>::reversed && base_of<C>::reversed == base_of<L>::reversed);
	return R{R::raw{k_eval(base_of<C>::reversed, base_of<B>::get(b), base_of<C>::get(c), base_of<L>::get(l), ctre::cannot_be_empty_match(f), ctre::multiline_mode(f), ctre::is_case_insensitive(f), r.h)}};
}

// what has to follow, in a form which does not depend on how sequences are nested
template <typename Done, typename... Ts> struct flat;
template <typename... Done> struct flat<ctll::list<Done...>> { using type = tag_holder<Done...>; };
template <typename... Done, typename H, typename... Ts> struct flat<ctll::list<Done...>, H, Ts...>: flat<ctll::list<Done..., H>, Ts...> { };
template <typename... Done, typename... Cs, typename... Ts> struct flat<ctll::list<Done...>, ctre::sequence<Cs...>, Ts...>: flat<ctll::list<Done...>, Cs..., Ts...> { };
template <typename... Done, typename... Ts> struct flat<ctll::list<Done...>, ctre::empty, Ts...>: flat<ctll::list<Done...>, Ts...> { };
template <typename... Rest> inline const void * rest_tag() noexcept { return &flat<ctll::list<>, Rest...>::type::tag; }

template <size_t Id, typename... Rest, typename B, typename C, typename L> inline R call_x(B b, C c, L l, const ctre::flags & f, R r) noexcept {
	static_assert(base_of<B>::reversed == base_of<C>::reversed && base_of<C>::reversed == base_of<L>::reversed);
	return R{R::raw{x_eval(Id + 1000 * base_of<C>::reversed, rest_tag<Rest...>(), base_of<B>::get(b), base_of<C>::get(c), base_of<L>::get(l), ctre::cannot_be_empty_match(f), ctre::multiline_mode(f), ctre::is_case_insensitive(f), r.h)}};
}

template <size_t Id, char32_t First, typename B, typename C, typename L, typename... Rest> inline R evaluate(B b, C c, L l, const ctre::flags & f, R r, ctll::list<X<Id, First>, Rest...>) noexcept {
	return call_x<Id, Rest...>(b, c, l, f, r);
}
template <char32_t First, typename B, typename C, typename L> inline R evaluate(B b, C c, L l, const ctre::flags & f, R r, ctll::list<KA<First>, KB>) noexcept {
	return call_k(b, c, l, f, r);
}

// first characters of opaque nodes
template <typename... Content, size_t Id, char32_t First, typename... Tail> constexpr auto first(ctll::list<Content...>, ctll::list<X<Id, First>, Tail...>) noexcept {
	if constexpr (First == 0) return ctll::list<ctre::can_be_anything>{};
	else return ctll::list<Content..., ctre::character<First>>{};
}
template <typename... Content, char32_t First, typename... Tail> constexpr auto first(ctll::list<Content...>, ctll::list<KA<First>, Tail...>) noexcept {
	if constexpr (First == 0) return ctll::list<ctre::can_be_anything>{};
	else return ctll::list<Content..., ctre::character<First>>{};
}

// an arbitrary set of modes, built through the public ways to do so
inline ctre::flags make_flags(bool blk, bool ml, bool ci) noexcept {
	const auto cased = [](ctre::flags f, bool on) { if (on) return f + ctre::pcre::mode_case_insensitive{}; else return f; };
	const auto blocked = [](ctre::flags f, bool on) { if (on) return ctre::not_empty_match(f); else return f; };
	if (ml) return blocked(cased(ctre::flags{ctre::multiline{}}, ci), blk);
	else return blocked(cased(ctre::flags{ctre::singleline{}}, ci), blk);
}

}
