// Opaque vocabulary for everything around the matcher: results, search,
// iteration, splitting, ranges.  Results are the library's own here.
#pragma once
#include "probe.hpp"
#include "ref.hpp"

namespace probe {
extern "C" {
	// projections of results (arguments that do not matter are null)
	const robj * o_no() OPAQUE;
	const robj * o_pack(const itobj *, const itobj *) OPAQUE;
	const robj * o_list(const robj *, const robj *) OPAQUE;
	const robj * o_int(size_t) OPAQUE;
	const robj * o_ptr(const void *) OPAQUE;
	const robj * o_bool(bool) OPAQUE;
	// a pattern node with two ways to match
	bool y_ok(size_t id, size_t way, const itobj * b, const itobj * c, const itobj * l, bool ml, bool ci) OPAQUE;
	const itobj * y_pos(size_t id, size_t way, const itobj * b, const itobj * c, const itobj * l, bool ml, bool ci) OPAQUE;
	// a whole attempt of a pattern
	bool ex_ok(const itobj * orig, const itobj * from, const itobj * end) OPAQUE;
	const itobj * ex_b(const itobj * orig, const itobj * from, const itobj * end) OPAQUE;
	const itobj * ex_e(const itobj * orig, const itobj * from, const itobj * end) OPAQUE;
	bool ex_gok(const itobj * orig, const itobj * from, const itobj * end) OPAQUE;
	const itobj * ex_gb(const itobj * orig, const itobj * from, const itobj * end) OPAQUE;
	const itobj * ex_ge(const itobj * orig, const itobj * from, const itobj * end) OPAQUE;
	// whole subjects
	bool sub_ok(size_t subject) OPAQUE;
}

using O = const robj *;

template <size_t Id, size_t Ways = 2> struct Y: ctre::singleline { }; // (the base makes the library's namespace an associated one)
template <size_t Id, size_t Ways, typename Rt, typename B, typename C, typename L, typename... Rest> inline Rt evaluate(B b, C c, L l, const ctre::flags & f, Rt r, ctll::list<Y<Id, Ways>, Rest...>) noexcept {
	const bool ml = ctre::multiline_mode(f), ci = ctre::is_case_insensitive(f);
	if (y_ok(Id, 0, b.p, c.p, l.p, ml, ci)) {
		const itobj * to = y_pos(Id, 0, b.p, c.p, l.p, ml, ci);
		if (auto x = evaluate(b, C{to}, l, ctre::consumed_something(f, !it_eq(to, c.p)), r, ctll::list<Rest...>{})) return x;
	}
	if constexpr (Ways > 1) if (y_ok(Id, 1, b.p, c.p, l.p, ml, ci)) {
		const itobj * to = y_pos(Id, 1, b.p, c.p, l.p, ml, ci);
		if (auto x = evaluate(b, C{to}, l, ctre::consumed_something(f, !it_eq(to, c.p)), r, ctll::list<Rest...>{})) return x;
	}
	return ctre::not_matched;
}

template <typename... Content, size_t Id, size_t Ways, typename... Tail> constexpr auto first(ctll::list<Content...>, ctll::list<Y<Id, Ways>, Tail...>) noexcept { return ctll::list<ctre::can_be_anything>{}; }

template <typename T> inline O whole(const T & r) noexcept {
	if (!bool(r)) return o_no();
	return o_pack(r.begin().p, r.end().p);
}
template <size_t N, typename T> inline O group(const T & r) noexcept {
	const auto g = r.template get<N>();
	if (!bool(g)) return o_no();
	return o_pack(g.begin().p, g.end().p);
}

// a regular expression about which nothing is known but that it gives results
struct RE {
	template <typename ResultIterator, typename B, typename E> static auto exec_with_result_iterator(B orig, B from, E end) noexcept {
		using result = ctre::regex_results<ResultIterator, ctre::captured_content<1>>;
		result r{};
		if (ex_ok(orig.p, from.p, end.p)) {
			r.set_start_mark(ResultIterator{ex_b(orig.p, from.p, end.p)});
			if (ex_gok(orig.p, from.p, end.p)) {
				r.template start_capture<1>(ResultIterator{ex_gb(orig.p, from.p, end.p)});
				r.template end_capture<1>(ResultIterator{ex_ge(orig.p, from.p, end.p)});
			}
			r.set_end_mark(ResultIterator{ex_e(orig.p, from.p, end.p)});
			r.matched();
		} else {
			// a failed search may leave anything behind, the caller must not rely on it
			r.set_end_mark(ResultIterator{ex_e(orig.p, from.p, end.p)});
		}
		return r;
	}
	template <typename ResultIterator, typename B, typename E> static auto exec_with_result_iterator(B from, E end) noexcept {
		return exec_with_result_iterator<ResultIterator>(from, from, end);
	}
};
template <typename E = End> using RegexIt = ctre::regex_iterator<It, E, RE>;
template <typename E = End> using SplitIt = ctre::regex_split_iterator<It, E, RE>;

// what an iterator over results shows, and what it says about the end
template <typename I> inline O seen(const I & i) noexcept {
	const bool e1 = i == ctre::regex_end_iterator{}, e2 = ctre::regex_end_iterator{} == i, n1 = i != ctre::regex_end_iterator{}, n2 = ctre::regex_end_iterator{} != i;
	const O ends = o_list(o_list(o_bool(e1), o_bool(e2)), o_list(o_bool(n1), o_bool(n2)));
	const auto & m = *i;
	if (!bool(m)) return o_list(ends, o_no());
	return o_list(ends, o_list(whole(m), group<1>(m)));
}
template <typename I> inline O seen_whole(const I & i) noexcept { return whole(*i); }

// a subject in a range of subjects
struct Subject {
	const itobj * p;
	struct iter { };
};
struct Subjects {
	struct iterator {
		using value_type = Subject;
		using reference = Subject;
		using pointer = const Subject *;
		using difference_type = std::ptrdiff_t;
		using iterator_category = std::bidirectional_iterator_tag;
		const itobj * p{nullptr};
		Subject operator*() const noexcept { it_deref(p); return Subject{p}; }
		iterator & operator++() noexcept { p = it_next(p); return *this; }
		iterator operator++(int) noexcept { iterator o = *this; p = it_next(p); return o; }
		iterator & operator--() noexcept { p = it_prev(p); return *this; }
		friend bool operator==(iterator a, iterator b) noexcept { return it_eq(a.p, b.p); }
		friend bool operator!=(iterator a, iterator b) noexcept { return !it_eq(a.p, b.p); }
	};
	const itobj * b{nullptr};
	const itobj * l{nullptr};
	iterator begin() const noexcept { return iterator{b}; }
	iterator end() const noexcept { return iterator{l}; }
};
// a regular expression applied to whole subjects
struct REs {
	static auto exec(Subject s) noexcept { return RE::exec_with_result_iterator<It>(It{s.p}, It{s.p}, End{s.p}); }
};
using Multi = ctre::multi_subject_range<Subjects, REs>;
template <typename I> inline O seen_multi(const I & i) noexcept {
	const Multi::end_iterator e{};
	const O ends = o_list(o_list(o_bool(i == e), o_bool(e == i)), o_list(o_bool(i != e), o_bool(e != i)));
	const auto & m = *i;
	if (!bool(m)) return o_list(ends, o_no());
	return o_list(ends, o_list(whole(m), group<1>(m)));
}
}

namespace ref {
using probe::O;
inline O no() { return probe::o_no(); }
inline O pack(I b, I e) { return probe::o_pack(b, e); }
// what a pattern made of two-way nodes gives from a position, with continuation
template <size_t Id, size_t Ways = 2, typename K> inline O two(S s, I c, bool ml, bool ci, K k) {
	for (size_t w = 0; w != Ways; ++w) {
		if (probe::y_ok(Id, w, s.b, c, s.l, ml, ci)) {
			O x = k(probe::y_pos(Id, w, s.b, c, s.l, ml, ci));
			if (x != nullptr) return x;
		}
	}
	return nullptr;
}
inline O or_no(O x) { return x != nullptr ? x : no(); }

// ---- attempts
struct At { bool ok; I b, e; bool gok; I gb, ge; };
inline At attempt(I orig, I from, I end) {
	return At{probe::ex_ok(orig, from, end), probe::ex_b(orig, from, end), probe::ex_e(orig, from, end), probe::ex_gok(orig, from, end), probe::ex_gb(orig, from, end), probe::ex_ge(orig, from, end)};
}
inline O show(bool ok, I b, I e, bool gok, I gb, I ge) {
	if (!ok) return no();
	return probe::o_list(pack(b, e), gok ? pack(gb, ge) : no());
}

inline O ends(bool end) { return probe::o_list(probe::o_list(probe::o_bool(end), probe::o_bool(end)), probe::o_list(probe::o_bool(!end), probe::o_bool(!end))); }

// ---- iteration over matches
struct Iteration {
	I orig, pos, end;
	bool done;
	At m;
	void attempt_from(I from) {
		m = attempt(orig, from, end);
		if (m.ok) pos = m.e; else done = true;
	}
	Iteration(I b, I l): orig{b}, pos{b}, end{l}, done{false}, m{} { attempt_from(b); }
	void advance() {
		if (done) return;
		if (probe::it_eq(pos, end)) { done = true; return; }
		attempt_from(probe::it_eq(m.b, m.e) ? probe::it_next(pos) : pos);
	}
	O seen() const { return probe::o_list(ends(done), show(!done, m.b, m.e, m.gok, m.gb, m.ge)); }
};
// ---- splitting
struct Split {
	I orig, pos, end;
	bool done, last, empty;
	I pb, pe; At m;
	void piece(bool search, I from) {
		pb = pos;
		m = attempt(orig, from, end);
		if (search && m.ok) {
			pe = m.b; empty = probe::it_eq(m.b, m.e); pos = m.e;
		} else {
			while (!probe::it_eq(pos, end)) pos = probe::it_next(pos);
			pe = pos; last = true;
		}
	}
	Split(I b, I l): orig{b}, pos{b}, end{l}, done{false}, last{false}, empty{false}, pb{}, pe{}, m{} { piece(true, b); }
	void advance() {
		if (done) return;
		if (last) { done = true; return; }
		if (!empty) piece(true, pos);
		else if (probe::it_eq(pos, end)) piece(false, pos);
		else piece(true, probe::it_next(pos));
	}
	O seen() const {
		if (done) return probe::o_list(ends(true), no());
		return probe::o_list(ends(false), show(true, pb, pe, !last && m.gok, m.gb, m.ge));
	}
};
// ---- many subjects
struct Subjects {
	I pos, end;
	void find() { while (!probe::it_eq(pos, end) && !probe::ex_ok(pos, pos, pos)) pos = probe::it_next(pos); }
	Subjects(I b, I l): pos{b}, end{l} { find(); }
	void advance() { pos = probe::it_next(pos); find(); }
	O seen() const {
		if (probe::it_eq(pos, end)) return probe::o_list(ends(true), no());
		const At m = attempt(pos, pos, pos);
		return probe::o_list(ends(false), show(true, m.b, m.e, m.gok, m.gb, m.ge));
	}
};
}

namespace probe {
// the same entry point with another pattern
template <typename T> struct replant;
template <typename Pattern, typename Method, typename Modifier> struct replant<ctre::regular_expression<Pattern, Method, Modifier>> {
	template <typename Q> using with = ctre::regular_expression<Q, Method, Modifier>;
};
template <typename Q, typename T> using planted = typename replant<std::remove_const_t<T>>::template with<Q>;
// what a call gives, reduced to the first thing it shows
template <typename B, typename E, typename P, typename R_> inline O shown(const ctre::regex_range<B, E, P, R_> & r) noexcept { return whole(*r.begin()); }
template <typename B, typename E, typename P, typename R_> inline O shown(const ctre::regex_split_range<B, E, P, R_> & r) noexcept { return whole(*r.begin()); }
template <typename B, typename E, typename P, typename R_> inline O shown(const ctre::regex_iterator<B, E, P, R_> & r) noexcept { return whole(*r); }
template <typename I, typename... C> inline O shown(const ctre::regex_results<I, C...> & r) noexcept { return whole(r); }
}
