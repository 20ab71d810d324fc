// Reference semantics, written over the opaque vocabulary only (no library code).
#pragma once
#include "probe.hpp"

namespace ref {
using I = const probe::itobj *;
using H = const probe::robj *;
struct F { bool blk, ml, ci; };
struct S { I b, l; };
inline constexpr char32_t eol = U'\n';

inline F used(F f, bool yes = true) { return F{f.blk && !yes, f.ml, f.ci}; }
inline F nonempty(F f) { return F{true, f.ml, f.ci}; }
inline H nm() { return probe::r_nm(); }
inline bool ok(H r) { return probe::r_ok(r); }

// the two directions of walking
struct Fwd {
	static constexpr size_t rev = 0;
	static bool at_begin(S s, I c) { return probe::it_eq(s.b, c); }
	static bool at_end(S s, I c) { return probe::it_eq(c, s.l); }
	static I next(I c) { return probe::it_next(c); }
	static I prev(I c) { return probe::it_prev(c); }
	static char32_t get(I c) { return probe::it_deref(c); }
	static char32_t before(I c) { return probe::it_deref(probe::it_prev(c)); }
	static H K(S s, I c, F f, H r) { return probe::k_eval(0, s.b, c, s.l, f.blk, f.ml, f.ci, r); }
	template <size_t Id, typename... Rest> static H X(S s, I c, F f, H r) { return probe::x_eval(Id, probe::rest_tag<Rest...>(), s.b, c, s.l, f.blk, f.ml, f.ci, r); }
};
struct Rev {
	static constexpr size_t rev = 1;
	static bool at_begin(S s, I c) { return probe::it_eq(s.l, c); }
	static bool at_end(S s, I c) { return probe::it_eq(c, s.b); }
	static I next(I c) { return probe::it_prev(c); }
	static I prev(I c) { return probe::it_next(c); }
	static char32_t get(I c) { return probe::it_deref(probe::it_prev(c)); }
	static char32_t before(I c) { return probe::it_deref(c); }
	static H K(S s, I c, F f, H r) { return probe::k_eval(1, s.l, c, s.b, f.blk, f.ml, f.ci, r); }
	template <size_t Id, typename... Rest> static H X(S s, I c, F f, H r) { return probe::x_eval(1000 + Id, probe::rest_tag<Rest...>(), s.l, c, s.b, f.blk, f.ml, f.ci, r); }
};

inline bool is_letter(char32_t c) { return (c >= U'a' && c <= U'z') || (c >= U'A' && c <= U'Z'); }
inline char32_t other_case(char32_t c) { return is_letter(c) ? c ^ 0x20u : c; }
inline bool same_char(char32_t a, char32_t b, F f) { return a == b || (f.ci && a == other_case(b)); }

// ---- single characters, text
template <typename D> H one(S s, I c, F f, H r) {
	if (D::at_end(s, c)) return nm();
	if (!probe::ch_match(1, D::get(c), f.ml, f.ci)) return nm();
	return D::K(s, D::next(c), used(f), r);
}
template <typename D> H any(S s, I c, F f, H r) {
	if (D::at_end(s, c)) return nm();
	if (f.ml && D::get(c) == eol) return nm();
	return D::K(s, D::next(c), used(f), r);
}
template <typename D, char32_t... Cs> H text(S s, I c, F f, H r) {
	const char32_t cs[sizeof...(Cs) + 1] = {Cs..., 0};
	const auto step = [&](auto self, auto i) -> bool {
		if constexpr (i.value == sizeof...(Cs)) return true;
		else {
			if (D::at_end(s, c)) return false;
			if (!same_char(D::get(c), cs[i.value], f)) return false;
			c = D::next(c);
			return self(self, std::integral_constant<size_t, i.value + 1>{});
		}
	};
	if (!step(step, std::integral_constant<size_t, 0>{})) return nm();
	return D::K(s, c, used(f, sizeof...(Cs) > 0), r);
}

// ---- assertions
template <typename D> H subject_begin(S s, I c, F f, H r) { return D::at_begin(s, c) ? D::K(s, c, f, r) : nm(); }
template <typename D> H subject_end(S s, I c, F f, H r) { return D::at_end(s, c) ? D::K(s, c, f, r) : nm(); }
// the end, or just before a final newline (the latter only in multi-line mode, see DESIGN.md)
template <typename D> H subject_end_line(S s, I c, F f, H r) {
	const bool end = D::at_end(s, c) || (f.ml && D::get(c) == eol && D::at_end(s, D::next(c)));
	return end ? D::K(s, c, f, r) : nm();
}
template <typename D> H line_begin(S s, I c, F f, H r) {
	const bool yes = D::at_begin(s, c) || (f.ml && D::before(c) == eol);
	return yes ? D::K(s, c, f, r) : nm();
}
template <typename D> H line_end(S s, I c, F f, H r) {
	const bool yes = D::at_end(s, c) || (f.ml && D::get(c) == eol);
	return yes ? D::K(s, c, f, r) : nm();
}
template <typename D, bool Negated> H word_boundary(S s, I c, F f, H r) {
	const bool after = !D::at_end(s, c) && probe::ch_match(1, D::get(c), f.ml, f.ci);
	const bool before = !D::at_begin(s, c) && probe::ch_match(1, D::before(c), f.ml, f.ci);
	return (before != after) != Negated ? D::K(s, c, f, r) : nm();
}

// ---- repetitions.  Each is parametrised by the body: X1 (X2) end_cycle_mark.
template <typename D, typename... Body> struct loop;
template <typename D> struct loop<D, probe::X<1>> {
	static H body(S s, I c, F f, H r) { return D::template X<1, ctre::end_cycle_mark>(s, c, f, r); }
};
template <typename D> struct loop<D, probe::X<1>, probe::X<2>> {
	static H body(S s, I c, F f, H r) { return D::template X<1, probe::X<2>, ctre::end_cycle_mark>(s, c, f, r); }
};
// state of the mandatory part
struct M { bool fine; I c; H r; size_t i; };
template <typename L> inline M iterate(S s, I c, F f, H r, size_t i, size_t a) {
	H x = L::body(s, c, nonempty(f), r);
	size_t n = i + 1;
	if (!ok(x)) {
		if (i >= a) return {false, c, r, i};
		// only an empty iteration is possible, so all the remaining mandatory ones are empty
		x = L::body(s, c, used(f), r);
		n = a;
		if (!ok(x)) return {false, c, r, i};
	}
	return {true, probe::r_end_position(x), probe::r_unmatch(x), n};
}
template <typename D, typename L, size_t A, size_t B> H greedy_from(S s, I c, F f, H r, size_t i) {
	if (B == 0 || i < B) {
		H x = L::body(s, c, nonempty(f), r);
		if (ok(x)) {
			H y = greedy_from<D, L, A, B>(s, probe::r_end_position(x), used(f), probe::r_unmatch(x), i + 1);
			if (ok(y)) return y;
		}
	}
	return D::K(s, c, f, r);
}
template <typename D, typename L, size_t A, size_t B> H greedy(S s, I c, F f, H r) {
	if (B != 0 && A > B) return nm();
	const I from = c;
	for (size_t i = 0; i < A; ) {
		M m = iterate<L>(s, c, f, r, i, A);
		if (!m.fine) return nm();
		c = m.c; r = m.r; i = m.i;
	}
	return greedy_from<D, L, A, B>(s, c, used(f, !probe::it_eq(from, c)), r, A);
}
template <typename D, typename L, size_t A, size_t B> H lazy(S s, I c, F f, H r) {
	if (B != 0 && A > B) return nm();
	const I from = c;
	size_t i = 0;
	while (i < A) {
		M m = iterate<L>(s, c, f, r, i, A);
		if (!m.fine) return nm();
		c = m.c; r = m.r; i = m.i;
	}
	bool first = true;
	while (true) {
		H y = D::K(s, c, used(f, !first || !probe::it_eq(from, c)), r);
		if (ok(y)) return y;
		if (B != 0 && i >= B) return nm();
		H x = L::body(s, c, nonempty(f), r);
		if (!ok(x)) return nm();
		c = probe::r_end_position(x); r = probe::r_unmatch(x);
		++i; first = false;
	}
}
template <typename D, typename L, size_t A, size_t B> H possessive(S s, I c, F f, H r) {
	if (B != 0 && A > B) return nm();
	const I from = c;
	size_t i = 0;
	while (B == 0 || i < B) {
		M m = iterate<L>(s, c, f, r, i, A);
		if (!m.fine) {
			if (i < A) return nm();
			break;
		}
		c = m.c; r = m.r; i = m.i;
	}
	return D::K(s, c, used(f, !probe::it_eq(from, c)), r);
}
template <typename D, typename L> H atomic(S s, I c, F f, H r) {
	H x = L::body(s, c, used(f), r);
	if (!ok(x)) return nm();
	const I e = probe::r_end_position(x);
	return D::K(s, e, used(f, !probe::it_eq(c, e)), probe::r_unmatch(x));
}

// ---- lookarounds
template <typename D, bool Negated> H ahead(S s, I c, F f, H r) {
	H x = D::template X<1, probe::X<2>, ctre::end_lookahead_mark>(s, c, f, r);
	if (ok(x) == Negated) return nm();
	return D::K(s, c, f, Negated ? r : probe::r_unmatch(x));
}
template <bool Negated> H behind(S s, I c, F f, H r) {
	H x = Rev::X<1, probe::X<2>, ctre::end_lookbehind_mark>(s, c, f, r);
	if (ok(x) == Negated) return nm();
	return Fwd::K(s, c, f, Negated ? r : probe::r_unmatch(x));
}

// ---- references
inline H backref(S s, I c, F f, H r, size_t id) {
	if (!probe::r_cap_ok(r, id)) return nm();
	I p = probe::r_cap_begin(r, id);
	const I e = probe::r_cap_end(r, id);
	const bool empty = probe::it_eq(p, e);
	while (!probe::it_eq(p, e)) {
		if (Fwd::at_end(s, c)) return nm();
		if (!same_char(Fwd::get(c), probe::it_deref(p), f)) return nm();
		c = probe::it_next(c);
		p = probe::it_next(p);
	}
	return Fwd::K(s, c, used(f, !empty), r);
}

}
