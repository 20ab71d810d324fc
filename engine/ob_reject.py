"""C14: what must be rejected.

Every text is listed with the verdict the documented syntax demands; the list is written from the meaning of the syntax, not from the
grammar file.  In bulk the compiler is asked whether the translation of the text is correct; through every entry point whole programs
that use an invalid pattern must fail to compile and their valid twins must compile."""
import os
from . import valg
from .ob_gram import literal

PRELUDE = """#include <%s>
template <ctll::fixed_string X> constexpr bool OK = [] { constexpr auto _input = X; return (bool)ctll::parser<ctre::pcre, _input, ctre::pcre_actions>::template correct_with<ctre::pcre_context<>>; }();
"""
HEX = "0123456789abcdefABCDEF"
DIG = "0123456789"
ALPHA = "".join(map(chr, list(range(65, 91)) + list(range(97, 123))))
ASCII = [chr(c) for c in range(32, 127)]


def bulk():
    """[(text, valid, why)]"""
    L = []

    def bad(why, *ts): L.extend((t, False, why) for t in ts)

    def good(why, *ts): L.extend((t, True, why) for t in ts)
    both = lambda why, ts, pred: [L.append((t, bool(pred(c)), why)) for c, t in ts]
    # one character alone, escaped, escaped in a set, in a set
    both("a character alone", [(c, c) for c in ASCII], lambda c: c not in "()*+?[\\{}")
    # \p, \x, \u, \g need more; digits refer to groups
    both("an escape", [(c, "\\" + c) for c in ASCII if c not in " "], lambda c: c in "\"$()*+-./<>?[\\]^{|}0" or c in "ABDHNSVWZabdefhnrstvwz")
    both("an escape in a set", [(c, "[\\%s]" % c) for c in ASCII if c not in " "], lambda c: c in "\"$()*+-./<>?[\\]^{|}0" or c in "DHNSVWadefhnrstvw")
    both("a character alone in a set", [(c, "[%s]" % c) for c in ASCII], lambda c: c not in "-[]\\")
    both("group option", [(c, "(?%s)" % c) for c in ASCII], lambda c: c in "!:=>cims")
    both("two options", [(c, "(?i%s)" % c) for c in ASCII], lambda c: c in "cims")
    # groups
    bad("unbalanced group", "(", ")", "(a", "a)", "(a))", "((a)", "(?:a", "(?:", "(?", "(?=a", "(?!a", "(?<=a", "(?<!a", "(?>a", "(?<x>a", "(?<x", "(?<x>", "(?i", "(?i:", "(?<", "())", "(()", "a|(b", "(a|b", "(a]", "[(a]b)")
    good("balanced", "()", "(a)", "((a))", "(?:a)", "(?=a)", "(?!a)", "(?<=a)", "(?<!a)", "(?>a)", "(?<x>a)", "(?i)a", "(?:)")
    bad("group name", "(?<>a)", "(?<1a>b)", "(?<a-b>c)", "(?<a b>c)", "(?< a>c)", "(?<a >c)", "(?<\u00e9>a)", "(?<a.>b)", "(?<-a>b)", "(?<a>>b)"[:6], "(?<a<b>c)", "(?<(>a)")
    good("group name", "(?<a>b)", "(?<_a>b)", "(?<a1>b)", "(?<A_z9>b)", "(?<abcdefghijklmnopqrstuvwxyz>b)")
    bad("not supported", "(?P<a>b)", "(?#a)", "(?i:a)", "(?-i)", "(?-i:a)", "(?x)", "(?'a'b)", "(?|a|b)", "(?R)", "(?1)", "(?&a)", "(?(1)a)", "(?P>a)", "(?P=a)", "(?C)", "(*FAIL)", "(*UTF8)", "(?U)", "(?J)", "(?^)", "(?~a)")
    # sets
    bad("unfinished set", "[", "[a", "[^", "[]", "[^a", "[a-", "[a-z", "[\\", "[\\]", "[a\\", "[[:alpha:]", "[[:alpha", "a[", "a[b")
    bad("set", "[a[]", "[[]]", "[-a]", "[a-]", "[--]", "[a--]", "[z-a-]", "[\\d-z]", "[a-\\d]", "[a-[:alpha:]]", "[[:alpha:]-z]", "[a-\\w]", "[\\w-\\d]", "[[:foo:]]", "[[:alpha]]", "[[:^:]]", "[[::]]", "[[.a.]]", "[[=a=]]", "[[:Alpha:]]", "[[:alphaa:]]", "[[:alph:]]", "[[:any:]]", "[[:l:]]", "[[:xdigi:]]", "[[:ALPHA:]]", "[[: alpha:]]", "[[:alpha :]]", "[[:alpha:", "[[:alnumx:]]", "[[:al:]]", "[[:^foo:]]", "[[:^^alpha:]]", "[[:^alph:]]", "[[:digits:]]", "[[:wor:]]", "[[:spac:]]", "[[:cntr:]]", "[[:grap:]]", "[[:prin:]]", "[[:punc:]]", "[[:blan:]]", "[[:asci:]]", "[[:uppe:]]", "[[:lowe:]]", "[[:digi:]]", "[[:x:]]")
    names = "alnum alpha ascii blank cntrl digit graph lower print punct space upper word xdigit".split()
    good("a named class", *["[[:%s:]]" % n for n in names] + ["[[:^%s:]]" % n for n in names])
    bad("a named class misspelt", *["[[:%s:]]" % (n[:-1] + c) for n in names for c in "zq" if n[:-1] + c not in names] + ["[[:%s%s:]]" % (n, c) for n in names for c in "a:"] + ["[[:%s:]]" % n[:k] for n in names for k in (1, 3) if n[:k] not in names])
    good("set", "[a]", "[^a]", "[a-z]", "[a\\-]", "[\\-a]", "[\\]]", "[a\\]b]", "[^]", "[.-9]")
    # repetition
    bad("nothing to repeat", "*", "+", "?", "*a", "+a", "?a", "a|*", "a|+", "a|?", "(*)", "(+)", "(?)", "(|*)", "(?:*)", "(?:+)", "(?=*)", "(?>+)", "(?<x>*)", "(?<=?)", "{1}", "{1,2}", "a|{1}", "({1})", "|*", "(?:|+)")
    bad("repeated repetition", "a**", "a*+*", "a*{2}", "a+*", "a?*", "a{2}*", "a{2}+*", "a{2}{3}", "a{1,2}*", "a{1,2}{3}", "a*??", "a*+?", "a???", "a+++", "a++?", "a?+?", "a{1,}??", "a{1,}+*", "a+{2}", "a?{2}", "(a)**", "[a]+*", "\\d*+*", ".*{1}")
    bad("bounds", "a{", "a{}", "a{,}", "a{,2}", "a{1", "a{1,", "a{1,2", "a{1 }", "a{ 1}", "a{1, 2}", "a{1 ,2}", "a{-1}", "a{+1}", "a{1,-2}", "a{1,2,3}", "a{1,,2}", "a{a}", "a{1a}", "a{1,a}", "a{1,2a}", "a{0x1}", "a{1.0}", "a}", "a{1}}", "{", "}", "a{{1}}", "a{1;2}", "a{\u0661}", "a{1\n}")
    both("a bound", [(c, "a{%s}" % c) for c in ASCII], lambda c: c in DIG)
    both("a bound", [(c, "a{1%s}" % c) for c in ASCII], lambda c: c in DIG + ",")
    both("a bound", [(c, "a{1,%s}" % c) for c in ASCII if c != "0"], lambda c: c in "123456789}"[:9])
    good("bounds", "a{0}", "a{1}", "a{10}", "a{0,1}", "a{1,1}", "a{1,2}", "a{2,}", "a{9,10}", "a{99,100}", "a{1,2}?", "a{1,2}+", "a{1,}?", "a{18446744073709551615}", "a{0,18446744073709551615}", "a{00000000000000000000000000000001}")
    bad("bounds out of order", "a{2,1}", "a{3,2}", "a{10,9}", "a{100,99}", "(?:ab){2,1}", "(a){3,1}", "[ab]{2,1}", "a{2,1}?", "a{2,1}+", "a{10,2}", "a{18446744073709551615,1}", "(?:ab){4,3}?", "(?:a{2,1})?")
    bad("a number that does not fit", "a{18446744073709551616}", "a{18446744073709551617}", "a{18446744073709551616,}", "a{1,18446744073709551616}", "a{1,18446744073709551618}", "a{99999999999999999999}", "a{184467440737095516150}", "a{20000000000000000000}", "a{36893488147419103233}", "a{100000000000000000000000000001}", "(a)\\g{18446744073709551617}", "(a)\\g{-18446744073709551617}", "(a)\\g{36893488147419103233}", "(a)\\g{18446744073709551616}")
    # code points
    both("two hexadecimal digits", [(c, "\\x%s0" % c) for c in ASCII if c != "{"] + [(c, "\\x0%s" % c) for c in ASCII], lambda c: c in HEX)
    both("four hexadecimal digits", [(c, "\\u%s000" % c) for c in ASCII if c != "{"] + [(c, "\\u0%s00" % c) for c in ASCII] + [(c, "\\u00%s0" % c) for c in ASCII] + [(c, "\\u000%s" % c) for c in ASCII], lambda c: c in HEX)
    both("hexadecimal digits", [(c, "\\x{%s}" % c) for c in ASCII] + [(c, "\\x{1%s}" % c) for c in ASCII if c != "}"] + [(c, "\\u{%s}" % c) for c in ASCII], lambda c: c in HEX)
    bad("code point", "\\x", "\\x4", "\\x{", "\\x{}", "\\x{41", "\\x{ 41}", "\\x{41 }", "\\x{-1}", "\\x{0x41}", "\\u", "\\u1", "\\u12", "\\u123", "\\u{", "\\u{}", "\\u{41", "\\u{U+41}", "[\\x]", "[\\x4]", "[\\u123]", "[\\x{}]", "\\X41", "\\U00000041", "\\o{101}", "\\c", "\\cA", "\\N{U+41}")
    bad("a code point that does not fit", "\\x{100000000}", "\\u{100000000}", "\\x{100000041}", "\\x{1000000000000000041}", "\\x{10000000000000041}", "[\\x{100000041}]", "[a-\\u{100000062}]", "\\x{ffffffff0}", "\\u{10000000000000000000000000000000000000000041}")
    good("a code point", "\\x{0}", "\\x{10ffff}", "\\u{10FFFF}", "\\x{0000000000000000000041}", "\\x41", "\\u0041", "\\uFFFF")
    # references
    for n in range(0, 4):
        g = "(a)" * n
        for k in range(0, 6):
            ok = 1 <= k <= n
            if k: L.append((g + "\\%d" % k, ok, "a reference to group %d of %d" % (k, n)))
            L.append((g + "\\g{%d}" % k, ok, "a reference to group %d of %d" % (k, n)))
            L.append((g + "\\g{-%d}" % k, ok, "a reference to group -%d of %d" % (k, n)))
    for n in (9, 10, 11):
        g = "()" * n
        for k in (9, 10, 11, 12, 19, 100):
            L.append((g + "\\g{%d}" % k, k <= n, "a reference to group %d of %d" % (k, n)))
            L.append((g + "\\g{-%d}" % k, k <= n, "a reference to group -%d of %d" % (k, n)))
    bad("a reference to a group that does not exist", "(?:a)\\1", "(?=a)\\1", "(?>a)\\1", "(?<=a)\\1", "(?i)\\1", "[(a)]\\1", "\\(a\\)\\1", "(?:(a))\\2", "((a))\\3", "(?<x>a)\\2", "(?<x>a)\\g{2}", "(a)(?:b)\\2", "(a)|\\2", "(?=(a))\\2", "\\8", "\\9", "\\10", "(a)\\g{-2}", "\\g{-1}", "\\g{00}", "\\g{01}", "(a)\\g{-0}", "(a)\\g{0}", "(a)\\g{000}")
    good("a reference", "(?:(a))\\1", "((a))\\2", "(?<x>a)\\1", "(?<x>a)\\g{1}", "(?<x>a)\\g{x}", "(a)\\g{01}", "(a)\\10", "(a)\\g{-1}", "(?=(a))\\1", "(?>(a))\\1", "(a)(?:b)\\1", "(a)|\\1")
    bad("reference syntax", "(a)\\g", "(a)\\g1", "(a)\\g{", "(a)\\g{}", "(a)\\g{-}", "(a)\\g{1", "(a)\\g{--1}", "(a)\\g{+1}", "(a)\\g{1 }", "(a)\\g{ 1}", "(a)\\g<1>", "(a)\\k<a>", "(a)\\k{a}", "(a)\\k'a'", "(a)\\g{1x}", "(?<x>a)\\g{x", "(?<x>a)\\g{x-}", "(?<x>a)\\g{x y}", "(?<x>a)\\g{-x}", "(a)\\g{1,2}", "(?<x>a)\\g{x }")
    bad("unfinished escape", "\\", "a\\", "(\\", "a|\\", "\\\\\\")
    # neither may anything be left over nor be missing
    bad("empty alternatives in a row", "a||b", "||", "(a||b)", "(?:||)")
    for s in ("^(?:[a-z]+|\\d{2,3}?)$", "(?<year>\\d{4})/(?<month>[01])\\g{year}", "a[^b-d\\]]{2,3}+(?=x|\\x{41})\\1"[:-2], "((a)|b)\\2(?i)[[:alpha:]]"):
        good("valid", s)
        for tail in (")", "*?+?", "[", "(", "\\", "{", "}"): bad("left over or missing: " + tail, s + tail)
    out, seen = [], set()
    for t, ok, why in L:
        if t in seen: continue
        seen.add(t)
        out.append((t, ok, why))
    return out


CASES_U = [("\\p{L}", True), ("\\P{L}", True), ("\\p{Lu}", True), ("\\p{Latin}", True), ("\\p{script=Latin}", True), ("\\p{scx=Latin}", True), ("\\p{emoji}", True), ("\\p{ascii}", True), ("[\\p{L}]", True), ("[^\\P{L}a]", True), ("\\p{age=10.0}", True), ("\\p{block=basic_latin}", True), ("\\P{scx=foo}", False), ("\\P{script=foo}", False), ("\\P{foo=Latin}", False), ("\\p{block=foo}", False), ("\\p{scx=foo}", False), ("\\p{age=foo}", False), ("[\\p{age=foo}]", False),
           ("\\p", False), ("\\pL", False), ("\\p{", False), ("\\p{}", False), ("\\p{L", False), ("\\P{L", False), ("\\p{foo}", False), ("\\P{foo}", False), ("\\p{Lx}", False), ("\\p{script=foo}", False), ("\\p{script=}", False), ("\\p{foo=Latin}", False), ("\\p{=Latin}", False), ("\\p{script}", False), ("[\\p{foo}]", False), ("\\p{L }", False), ("\\p{ L}", False), ("\\p{Latinx}", False), ("\\p{emoj}", False), ("\\p{emojis}", False), ("\\p{script=L}", False), ("\\p{^L}", False), ("\\p{script:Latin}", False), ("\\p{age=99.0}", False), ("\\p{sc=Latin1}", False), ("[^\\P{foo}]", False)]

# characters of patterns given in UTF-8 and UTF-16, as units
ENC = [("u8", [0xC3, 0xA9], True), ("u8", [0xE2, 0x82, 0xAC], True), ("u8", [0xF0, 0x9F, 0x98, 0x80], True), ("u8", [0x61, 0xC3, 0xA9, 0x62], True), ("u8", [0xF4, 0x8F, 0xBF, 0xBF], True), ("u8", [0xED, 0x9F, 0xBF], True), ("u8", [0xEE, 0x80, 0x80], True), ("u8", [0xC2, 0x80], True), ("u8", [0xE0, 0xA0, 0x80], True), ("u8", [0xF0, 0x90, 0x80, 0x80], True),
       ("u8", [0x80], False), ("u8", [0xBF], False), ("u8", [0x61, 0x80], False), ("u8", [0xC3], False), ("u8", [0xC3, 0x61], False), ("u8", [0xC3, 0xC3], False), ("u8", [0xE2, 0x82], False), ("u8", [0xE2], False), ("u8", [0xE2, 0x61, 0x82], False), ("u8", [0xE2, 0x82, 0x61], False), ("u8", [0xF0, 0x9F, 0x98], False), ("u8", [0xF0, 0x9F, 0x98, 0x61], False), ("u8", [0xF0, 0x9F, 0x61, 0x80], False), ("u8", [0xF0, 0x61, 0x98, 0x80], False),
       ("u8", [0xFE], False), ("u8", [0xFF], False), ("u8", [0xFE, 0x80, 0x80, 0x80, 0x80, 0x80], False), ("u8", [0xC0, 0x80], False), ("u8", [0xC1, 0x81], False), ("u8", [0xE0, 0x81, 0x81], False), ("u8", [0xF0, 0x80, 0x81, 0x81], False), ("u8", [0xED, 0xA0, 0x80], False), ("u8", [0xED, 0xBF, 0xBF], False), ("u8", [0xF4, 0x90, 0x80, 0x80], False), ("u8", [0xF8, 0x88, 0x80, 0x80, 0x80], False), ("u8", [0xFC, 0x84, 0x80, 0x80, 0x80, 0x80], False), ("u8", [0x61, 0xFF, 0x62], False), ("u8", [0xC3, 0xA9, 0xC3], False),
       ("u", [0xE9], True), ("u", [0xD83D, 0xDE00], True), ("u", [0xDBFF, 0xDFFF], True), ("u", [0xD800, 0xDC00], True), ("u", [0xFFFF], True), ("u", [0xE000], True), ("u", [0xD7FF], True),
       ("u", [0xD83D], False), ("u", [0xDE00], False), ("u", [0xD83D, 0x61], False), ("u", [0xD83D, 0xD83D], False), ("u", [0xDE00, 0xD83D], False), ("u", [0x61, 0xDC00], False), ("u", [0xD83D, 0xE000], False), ("u", [0xDBFF], False), ("u", [0x61, 0xD800], False), ("u", [0xDFFF], False), ("u", [0xD800, 0xDBFF], False)]

ENTRY = {}
for m in ("match", "search", "starts_with", "multiline_match", "multiline_search", "multiline_starts_with"):
    ENTRY[m] = "bool f(std::string_view s) { return bool(ctre::%s<%%s>(s)); }" % m
    ENTRY[m + "_ci"] = "bool f(std::string_view s) { return bool(ctre::%s<%%s, ctre::case_insensitive>(s)); }" % m
    ENTRY["literal_" + m] = "using namespace ctre::literals; bool f(std::string_view s) { return bool(%%s_ctre.%s(s)); }" % m
    ENTRY["fixed_" + m] = "static constexpr auto p = ctll::fixed_string{%%s}; bool f(std::string_view s) { return bool(ctre::%s<p>(s)); }" % m
for m in ("search_all", "range", "split", "tokenize", "multiline_search_all", "multiline_range", "multiline_split", "multiline_tokenize"):
    ENTRY[m] = "int f(std::string_view s) { int n = 0; for (auto m : ctre::%s<%%s>(s)) n += m ? 2 : 1; return n; }" % m
    ENTRY["pipe_" + m] = "int f(std::string_view s) { int n = 0; for (auto m : s | ctre::%s<%%s>) n += m ? 2 : 1; return n; }" % m
    if "search_all" not in m: ENTRY["literal_" + m] = "using namespace ctre::literals; int f(std::string_view s) { int n = 0; for (auto m : %%s_ctre.%s(s)) n += m ? 2 : 1; return n; }" % m
for m in ("iterator", "multiline_iterator"):
    ENTRY[m] = "bool f(std::string_view s) { return ctre::%s<%%s>(s) != ctre::sentinel; }" % m
    ENTRY["literal_" + m] = "using namespace ctre::literals; bool f(std::string_view s) { return %%s_ctre.%s(s) != ctre::sentinel; }" % m
ENTRY["views"] = "#include <vector>\nint f(std::vector<std::string_view> v) { int n = 0; for (auto m : v | ctre::match<%s>) n += m ? 2 : 1; return n; }"
ENTRY["wide_match"] = "bool f(std::wstring_view s) { return bool(ctre::match<L%s>(s)); }"
ENTRY["u16_match"] = "bool f(std::u16string_view s) { return bool(ctre::match<u%s>(s)); }"
ENTRY["u32_match"] = "bool f(std::u32string_view s) { return bool(ctre::match<U%s>(s)); }"
ENTRY["u8_match"] = "bool f(std::u8string_view s) { return bool(ctre::match<u8%s>(s)); }"
E17 = {"fixed_match", "fixed_search", "literal_match", "literal_search"}
INVALID = ["(a", "(a)\\2", "\\g{nope}", "a{2,1}"]
VALID = "(?<yes>a)\\g{yes}"


def unit(u, width): return "\\x%0*x" % (width, u) if width == 2 else "\\x%x" % u


def run(ctx):
    rule = "the text is rejected when it is compiled exactly when the documented syntax gives it no meaning"
    bad = [("%s_%d" % ("valid" if ok else "invalid", i), ("OK<%s>" if ok else "!OK<%s>") % literal(t), "%s: %r %s" % (why, t, "is a pattern" if ok else "is not a pattern")) for i, (t, ok, why) in enumerate(bulk())]
    accepts(ctx, bad, PRELUDE % "ctre.hpp", rule)
    accepts(ctx, [("property_%d" % i, ("OK<%s>" if ok else "!OK<%s>") % literal(t), "%r" % t) for i, (t, ok) in enumerate(CASES_U) if ok is not None], PRELUDE % "ctre-unicode.hpp", rule)
    enc = []
    for i, (pre, units, ok) in enumerate(ENC):
        lit = "".join('%s"%s" ' % (pre, unit(u, 2 if pre == "u8" else 4)) for u in units)
        enc.append(("encoding_%d" % i, ("OK<%s>" if ok else "!OK<%s>") % lit, "%s text with the units %s" % ("UTF-8" if pre == "u8" else "UTF-16", " ".join("%X" % u for u in units))))
    accepts(ctx, enc, PRELUDE % "ctre.hpp", rule)
    accepts(ctx, [(n + "_char", e.replace('u8"', '"'), w) for n, e, w in enc if "UTF-8" in w], PRELUDE % "ctre.hpp", rule, ["-DCTRE_STRING_IS_UTF8"])
    accepts(ctx, [("zero_upper_bound", '!OK<"a{2,0}">', "'a{2,0}': the bounds are out of order")], PRELUDE % "ctre.hpp", rule)
    rule2 = "a program that uses the pattern through this entry point does not compile when the pattern is invalid, and compiles when it is valid"
    progs = []
    for e in sorted(ENTRY):
        for j, p in enumerate(INVALID + [VALID]):
            progs.append(("entry_%s_%d" % (e, j), "#include <ctre.hpp>\n#include <string_view>\n" + ENTRY[e] % ('"%s"' % p.replace("\\", "\\\\")) + "\n", j < len(INVALID), "%r through %s" % (p, e)))
    ctx.rejects(progs, rule2, defines=["-Wno-deprecated-declarations"])
    ctx.rejects([("c++17_" + n, p, m, w + " in C++17") for n, p, m, w in progs if n.split("_", 1)[1].rsplit("_", 1)[0] in E17], rule2, defines=["-std=c++17", "-Wno-deprecated-declarations"])


def accepts(ctx, ws, prelude, rule, defines=()):
    """a text whose translation is an error for the compiler counts as rejected"""
    before = len(ctx.results)
    ctx.types(ws, prelude, rule, "type witnesses: acceptance", defines)
    for r in ctx.results[before:]:
        if r.verdict == "broken": r.verdict = "holds" if next(e for n, e, _ in ws if n == r.name).startswith("!") else "violated"
