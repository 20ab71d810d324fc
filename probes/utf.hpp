// The encodings, as the Unicode standard defines them (table 3-7, D91, D92).
#pragma once
#include <ctre.hpp>
#include <array>
#include <string_view>
namespace enc {
struct Cp { uint32_t v; uint32_t n; };   // n == 0: malformed
using U8 = unsigned char;
constexpr bool in(U8 c, U8 a, U8 b) { return c >= a && c <= b; }
template <typename T> constexpr Cp utf8(const T * s, uint64_t n) {
	if (n == 0) return {0, 0};
	const U8 a = static_cast<U8>(s[0]);
	if (in(a, 0x00, 0x7F)) return {a, 1};
	if (n == 1) return {0, 0};
	const U8 b = static_cast<U8>(s[1]);
	if (in(a, 0xC2, 0xDF) && in(b, 0x80, 0xBF)) return {(a - 0xC0u) * 64 + (b - 0x80u), 2};
	if (n == 2) return {0, 0};
	const U8 c = static_cast<U8>(s[2]);
	if (((a == 0xE0 && in(b, 0xA0, 0xBF)) || (in(a, 0xE1, 0xEC) && in(b, 0x80, 0xBF)) || (a == 0xED && in(b, 0x80, 0x9F)) || (in(a, 0xEE, 0xEF) && in(b, 0x80, 0xBF))) && in(c, 0x80, 0xBF))
		return {(a - 0xE0u) * 4096 + (b - 0x80u) * 64 + (c - 0x80u), 3};
	if (n == 3) return {0, 0};
	const U8 d = static_cast<U8>(s[3]);
	if (((a == 0xF0 && in(b, 0x90, 0xBF)) || (in(a, 0xF1, 0xF3) && in(b, 0x80, 0xBF)) || (a == 0xF4 && in(b, 0x80, 0x8F))) && in(c, 0x80, 0xBF) && in(d, 0x80, 0xBF))
		return {(a - 0xF0u) * 262144 + (b - 0x80u) * 4096 + (c - 0x80u) * 64 + (d - 0x80u), 4};
	return {0, 0};
}
template <typename T> constexpr Cp utf16(const T * s, uint64_t n) {
	if (n == 0) return {0, 0};
	const uint32_t a = static_cast<uint16_t>(s[0]);
	if (a < 0xD800 || a > 0xDFFF) return {a, 1};
	if (a > 0xDBFF || n == 1) return {0, 0};
	const uint32_t b = static_cast<uint16_t>(s[1]);
	if (b < 0xDC00 || b > 0xDFFF) return {0, 0};
	return {(a - 0xD800) * 1024 + (b - 0xDC00) + 0x10000, 2};
}
// the k-th code point of a text: {value, 1 + number of them}; n == 0: malformed
struct Text { uint32_t c[8]; uint32_t n; bool ok; };
template <typename F, typename T> constexpr Text text(F f, const T * s, uint32_t n) {
	Text t{};
	t.ok = true;
	uint32_t i = 0;
	while (i < n) {
		const Cp p = f(s + i, n - i);
		if (p.n == 0) { t.ok = false; return t; }
		t.c[t.n++] = p.v;
		i += p.n;
	}
	return t;
}
struct F8 { template <typename T> constexpr Cp operator()(const T * s, uint64_t n) const { return utf8(s, n); } };
struct F16 { template <typename T> constexpr Cp operator()(const T * s, uint64_t n) const { return utf16(s, n); } };
struct F32 { template <typename T> constexpr Cp operator()(const T * s, uint64_t) const { return {static_cast<uint32_t>(s[0]), 1}; } };
struct FByte { template <typename T> constexpr Cp operator()(const T * s, uint64_t) const { return {static_cast<U8>(s[0]), 1}; } };
}
using P8 = const char8_t *;
