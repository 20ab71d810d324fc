// What every entry point does with the pattern ^(a)b? -- written down by hand
// over an array of units, so that every way to state it can be held to it.
#pragma once
#include <ctre.hpp>
#include <array>
#include <deque>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#if __cplusplus >= 202002L
#include <span>
#include "utf.hpp"
template <ctll::fixed_string Text> using T = typename ctre::regex_builder<Text>::type;
using Byte = char8_t;
#else
using Byte = char;
#endif

namespace form {
template <typename U> struct Sub { const U * s; uint64_t n; };

// the lengths of the matches at a position, in order of preference; wide: the letter is U+E1 in two bytes
template <bool ml, bool ci, bool wide, typename U> inline void at(Sub<U> t, uint64_t i, uint64_t & first, uint64_t & second, uint64_t & group) {
	first = second = group = 0;
	if (!(i == 0 || (ml && t.s[i - 1] == static_cast<U>('\n')))) return;
	if (wide) {
		if (t.n - i < 2) return;
		if (static_cast<unsigned char>(t.s[i]) != 0xC3 || static_cast<unsigned char>(t.s[i + 1]) != 0xA1) return;
		group = 2;
	} else {
		if (t.n - i < 1) return;
		if (!(t.s[i] == static_cast<U>('a') || (ci && t.s[i] == static_cast<U>('A')))) return;
		group = 1;
	}
	first = group;
	if (t.n - i > group && (t.s[i + group] == static_cast<U>('b') || (ci && t.s[i + group] == static_cast<U>('B')))) { second = group; first = group + 1; }
}
struct Found { bool ok; uint64_t b, e, ge; };
template <bool ml, bool ci, bool wide, typename U> inline Found one(Sub<U> t, uint64_t i, bool whole) {
	uint64_t x, y, g;
	at<ml, ci, wide>(t, i, x, y, g);
	if (x && (!whole || i + x == t.n)) return {true, i, i + x, i + g};
	if (y && (!whole || i + y == t.n)) return {true, i, i + y, i + g};
	return {};
}
template <bool ml, bool ci, bool wide, typename U> inline Found find(Sub<U> t, uint64_t i) {
	for (; i <= t.n; ++i) if (const Found f = one<ml, ci, wide>(t, i, false); f.ok) return f;
	return {};
}
inline uint64_t packed(Found f) { return f.ok ? 1 | f.b << 4 | f.e << 8 | 1 << 12 | f.b << 16 | f.ge << 20 : 0; }
inline uint64_t item(uint64_t h, Found f) { return h << 12 | 1 | f.b << 1 | f.e << 4 | f.ge << 8; }

struct match { template <bool ml, bool ci, bool wide, typename U> static uint64_t ref(Sub<U> t) { return packed(one<ml, ci, wide>(t, 0, true)); } };
struct starts_with { template <bool ml, bool ci, bool wide, typename U> static uint64_t ref(Sub<U> t) { return packed(one<ml, ci, wide>(t, 0, false)); } };
struct search { template <bool ml, bool ci, bool wide, typename U> static uint64_t ref(Sub<U> t) { return packed(find<ml, ci, wide>(t, 0)); } };
struct search_all { template <bool ml, bool ci, bool wide, typename U> static uint64_t ref(Sub<U> t) {
	uint64_t h = 1;
	for (uint64_t i = 0; i < t.n;) { const Found f = find<ml, ci, wide>(t, i); if (!f.ok) break; h = item(h, f); i = f.e; }
	return h;
} };
struct range: search_all { };
struct iterator: search_all { };
struct tokenize { template <bool ml, bool ci, bool wide, typename U> static uint64_t ref(Sub<U> t) {
	uint64_t h = 1;
	for (uint64_t i = 0; i < t.n;) { const Found f = one<ml, ci, wide>(t, i, false); if (!f.ok) break; h = item(h, f); i = f.e; }
	return h;
} };
struct split { template <bool ml, bool ci, bool wide, typename U> static uint64_t ref(Sub<U> t) {
	uint64_t h = 1, i = 0;
	while (true) { const Found f = find<ml, ci, wide>(t, i); if (!f.ok) break; h = item(h, Found{true, i, f.b, f.ge}); i = f.e; }
	return item(h, Found{true, i, t.n, 0});
} };

// what the library gave, as offsets
template <typename I> inline auto addr(const I & i) {
#if __cplusplus >= 202002L
	if constexpr (std::is_same_v<I, ctre::utf8_iterator>) return i.ptr; else return std::to_address(i);
#else
	return &*i;
#endif
}
template <typename U, typename R> inline uint64_t seen(const U * s, const R & r) {
	if (!r) return 0;
	const auto g = r.template get<1>();
	return 1 | static_cast<uint64_t>(addr(r.begin()) - s) << 4 | static_cast<uint64_t>(addr(r.end()) - s) << 8 |
		(g ? 1 << 12 | static_cast<uint64_t>(addr(g.begin()) - s) << 16 | static_cast<uint64_t>(addr(g.end()) - s) << 20 : 0);
}
template <typename U, typename R> inline uint64_t next(uint64_t h, const U * s, const R & r) {
	const auto g = r.template get<1>();
	return h << 12 | 1 | static_cast<uint64_t>(addr(r.begin()) - s) << 1 | static_cast<uint64_t>(addr(r.end()) - s) << 4 | (g ? static_cast<uint64_t>(addr(g.end()) - s) << 8 : 0);
}
template <typename U, typename R> inline uint64_t all(const U * s, R && r) { uint64_t h = 1; for (const auto & m : r) h = next(h, s, m); return h; }
template <typename U, typename I> inline uint64_t from(const U * s, I i) { uint64_t h = 1; for (; i != ctre::sentinel; ++i) h = next(h, s, *i); return h; }

// objects of the standard library that hold the units at p
template <typename S, typename U> struct string_at {
	struct { const U * p; size_t n; uint64_t r1, r2; } o;
	static_assert(sizeof(o) == sizeof(S));
	string_at(const U * p, size_t n): o{p, n, 0, 0} { }
	S & operator*() { return reinterpret_cast<S &>(o); }
};
template <typename S, typename U> struct vector_at {
	struct { const U * b; const U * e; const U * c; } o;
	static_assert(sizeof(o) == sizeof(S));
	vector_at(const U * p, size_t n): o{p, p + n, p + n} { }
	S & operator*() { return reinterpret_cast<S &>(o); }
};
// a range of another type, with an end of another type
template <typename U> struct Mine {
	const U * p; size_t n;
	struct End { const U * e; friend bool operator==(const U * a, End b) { return a == b.e; } friend bool operator!=(const U * a, End b) { return a != b.e; } friend bool operator==(End b, const U * a) { return a == b.e; } friend bool operator!=(End b, const U * a) { return a != b.e; } };
	const U * begin() const { return p; }
	End end() const { return {p + n}; }
};
}
