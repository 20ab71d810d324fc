// Opaque text and number types for what can be done with a result.
#pragma once
#include <charconv>
#include <string>
#include <string_view>
namespace probe {
struct robj;
struct Unit { int u; };
struct Num { const robj * n; constexpr Num(int = 0) noexcept: n{nullptr} { } explicit constexpr Num(const robj * p) noexcept: n{p} { } };
struct Base { int b; };
extern "C" {
	const robj * o_text(const void *, size_t) __attribute__((const, nothrow));
	const robj * o_number(const void *, const void *, int) __attribute__((const, nothrow));
}
}
namespace std {
// text of opaque units: only what it was made from is known
template <> struct char_traits<probe::Unit> { using char_type = probe::Unit; };
template <> class basic_string_view<probe::Unit, char_traits<probe::Unit>> {
public:
	const probe::robj * t{nullptr};
	constexpr basic_string_view() noexcept { }
	basic_string_view(const probe::Unit * p, size_t n) noexcept: t{probe::o_text(p, n)} { }
};
template <> class basic_string<probe::Unit, char_traits<probe::Unit>, allocator<probe::Unit>> {
public:
	const probe::robj * t{nullptr};
	basic_string() noexcept { }
	basic_string(const probe::Unit * p, size_t n) noexcept: t{probe::o_text(p, n)} { }
	basic_string(const probe::Unit * p, const probe::Unit * e) noexcept: t{probe::o_text(p, static_cast<size_t>(e - p))} { }
};
inline from_chars_result from_chars(const char * b, const char * e, probe::Num & n) noexcept { n = probe::Num{probe::o_number(b, e, 10)}; return {e, errc{}}; }
inline from_chars_result from_chars(const char * b, const char * e, probe::Num & n, probe::Base base) noexcept { n = probe::Num{probe::o_number(b, e, base.b)}; return {e, errc{}}; }
}
#include "probe.hpp"
#include "ref.hpp"
#include "api.hpp"
namespace probe {
using named = ctre::id<'n', 'a', 'm', 'e'>;
template <typename P> using Res = ctre::regex_results<P, ctre::captured_content<1>, ctre::captured_content<2, named>>;
template <typename P> inline auto make(P b, P e, P gb, P ge, P hb, P he, bool ok, bool gok, bool hok) noexcept {
	Res<P> r{};
	r.set_start_mark(b);
	if (gok) { r.template start_capture<1>(gb); r.template end_capture<1>(ge); }
	if (hok) { r.template start_capture<2>(hb); r.template end_capture<2>(he); }
	r.set_end_mark(e);
	if (ok) r.matched();
	return r;
}
inline const Unit * U(const itobj * p) noexcept { return reinterpret_cast<const Unit *>(p); }
inline const char * T(const itobj * p) noexcept { return reinterpret_cast<const char *>(p); }
inline const wchar_t * W(const itobj * p) noexcept { return reinterpret_cast<const wchar_t *>(p); }
// every way to look at a range
template <typename G> inline O look(const G & g) noexcept {
	return o_list(o_list(o_ptr(g.begin()), o_ptr(g.end())), o_list(o_ptr(g.data()), o_int(g.size())));
}
}
