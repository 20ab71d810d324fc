"""C15: numbering and lookup of groups.

The groups of a text are counted by reading its opening parentheses; the type of the result that the library's entry points return must
have exactly those groups, in that order, found by number and by name."""
from . import valg
from .ob_gram import literal

PRELUDE = """#include <ctre.hpp>
#include <string_view>
#include <type_traits>
template <ctll::fixed_string X> using M = decltype(ctre::match<X>(std::string_view{}));
template <typename R, size_t I> using G = std::remove_cvref_t<decltype(std::declval<const R &>().template get<I>())>;
template <typename R, ctll::fixed_string N> using GN = std::remove_cvref_t<decltype(std::declval<const R &>().template get<N>())>;
template <typename R, typename N> using GI = std::remove_cvref_t<decltype(std::declval<const R &>().template get<N>())>;
template <typename R, size_t... I> constexpr bool ids(std::index_sequence<I...>) { return ((G<R, I>::get_id() == I) && ...) && (std::is_same_v<std::tuple_element_t<I, R>, G<R, I>> && ...); }
template <typename R, size_t N> constexpr bool has_() { if constexpr (R::count() == N + 1 && std::tuple_size_v<R> == N + 1) return ids<R>(std::make_index_sequence<N + 1>()); else return false; }
template <typename R, size_t N> constexpr bool has = has_<R, N>();
"""


def groups(t):
    """names (None: no name) of the groups in the order of their opening parentheses"""
    out, i = [], 0
    inset = False
    while i < len(t):
        if t[i] == "\\": i += 2; continue
        if inset:
            if t.startswith("[:", i): i = t.index(":]", i) + 2; continue
            if t[i] == "]": inset = False
        elif t[i] == "[":
            inset = True
            if t.startswith("[^", i): i += 1
        elif t[i] == "(":
            if not t.startswith("(?", i): out.append(None)
            elif t.startswith("(?<", i) and t[i + 3] not in "=!": out.append(t[i + 3:t.index(">", i)])
        i += 1
    return out


CONTEXTS = ["(%s)", "(?<n%d>%s)", "(?:%s)", "%sx", "x%s", "x.%sy", "(?:%s|x)", "(?:x|%s)", "%s|x", "x|%s", "x|y|%s", "(?:%s)*", "(?:%s)+", "(?:%s)?", "(?:%s)*?", "(?:%s)+?", "(?:%s)??", "(?:%s)*+", "(?:%s)++", "(?:%s)?+", "(?:%s){2}", "(?:%s){1,3}", "(?:%s){2,}", "(?:%s){0}", "(?:%s){1,3}?", "(?:%s){1,3}+", "(?=%s)", "(?!%s)", "(?>%s)", "(?:x%s)*", "(?:%sx)+?", "(?:.%s)++",
            "(y)%s", "%s(y)", "(y)%s(z)", "(?i)%s", "^%s$", "\\b%s\\B", "[(]%s\\(", "[^)]%s", "\\(%s\\)", "(?:(y)|%s)", "(?:%s|(y))", "%s(?=y)(?!z)", "%s*", "%s+?", "%s?+", "%s??", "%s{2}", "\\A%s\\z", "\\d%s\\W", "[[:alpha:]]%s", "%s\\1"]
CORES = ["(a)", "(?<name>ab)", "(a)(b)"]


def texts(tier):
    out = []

    def fill(c, x, k):
        if "%d" in c: return c % (k, x)
        if c.startswith("%s") and c[2:3] in ("*", "+", "{", "?") and x not in CORES[:2]: x = "(?:" + x + ")"
        if c in ("x|%s", "%s|x", "x|y|%s") and "|" in x: x = "(?:" + x + ")"
        if "|" in x and (c.startswith("%s") or c.startswith("x%s") or c.startswith("x.%s")) and "|" not in c: x = "(?:" + x + ")"
        return c.replace("%s", x)
    for i, c in enumerate(CONTEXTS):
        for j, k in enumerate(CORES): out.append(fill(c, k, 1))
    for i, c in enumerate(CONTEXTS):
        for j, d in enumerate(CONTEXTS):
            if tier == "quick" and (i + j) % 4: continue
            core = CORES[(i * 7 + j) % 3]
            out.append(fill(c, fill(d, core, 1), 2))
    out += ["", "a", "[()]", "\\(a\\)", "(?:a)", "(?=a)", "(?>a)", "(((((((((((a)))))))))))", "()()()()()()()()()()()()", "(?<a>1)(?<ab>2)(?<abc>3)(?<b>4)", "(?<x>a)(b)(?<y>c)(d)", "(a(?<x>b(c))(d))(?<y>e)", "((((a)b)c)d)", "(a)|(b)|(c)|(?<d>d)", "(?<A>a)(?<a>b)", "(?<_>a)(?<_1>b)", "(?:(?:(a)?)*(?:(?:(b))+?)++)", "(?=(a)(?!(b)(?>(c))))(d)", "(a)\\1(b)\\2", "(?<x>a)(?<y>\\g{x}b)(c)", "(a){0}(b)", "(?:(a){2}){3}(b)", "(?:(a){0}|(b){0,})(c)", "(?:(a)?+)?+(b)", "(?:(a)??)?(b)", "(?:(?<x>a)??)?+(b)", "(?<first_name_1>a)(?<first_name_2>b)"]
    return list(dict.fromkeys(out))


def run(ctx):
    rule = "the result has one entry per opening parenthesis of a group, numbered in that order, and names lead to their group"
    ws = []
    for i, t in enumerate(texts(ctx.tier)):
        g = groups(t)
        e = "has<M<%s>, %d>" % (literal(t), len(g))
        for k, n in enumerate(g):
            if n: e += ' && std::is_same_v<GN<M<%s>, "%s">, G<M<%s>, %d>>' % (literal(t), n, literal(t), k + 1)
        ws.append(("groups_%d" % i, e, "%r has the groups %s" % (t, ", ".join("%d%s" % (k + 1, "" if not n else " " + n) for k, n in enumerate(g)) or "none")))
    ask_types(ctx, [("no_groups", 'has<M<"a">, 0>', "a pattern without groups")], PRELUDE, rule, broken="broken")
    if any(r.verdict == "broken" for r in ctx.results): return
    ask_types(ctx, ws, PRELUDE, rule)
    # every way to run a pattern returns the same groups
    ways = []
    pat = '"(?<x>a)|(b(?<y>c))"'
    for m in ("match", "search", "starts_with", "multiline_match", "multiline_search", "multiline_starts_with"):
        ways.append((m, "ctre::%s<%s>(std::string_view{})" % (m, pat)))
        ways.append((m + "_call", "ctre::%s<%s>(std::declval<const char *>(), std::declval<const char *>())" % (m, pat)))
    for m in ("search_all", "split", "tokenize", "multiline_search_all", "multiline_split", "multiline_tokenize"): ways.append((m, "*ctre::%s<%s>(std::string_view{}).begin()" % (m, pat)))
    ways.append(("iterator", "*ctre::iterator<%s>(std::string_view{})" % pat))
    ways.append(("views", "*(std::declval<std::string_view (&)[3]>() | ctre::match<%s>).begin()" % pat))
    ask_types(ctx, [("way_" + n, 'has<std::remove_cvref_t<decltype(%s)>, 3> && std::is_same_v<GN<std::remove_cvref_t<decltype(%s)>, "y">, G<std::remove_cvref_t<decltype(%s)>, 3>> && std::is_same_v<GN<std::remove_cvref_t<decltype(%s)>, "x">, G<std::remove_cvref_t<decltype(%s)>, 1>>' % (e, e, e, e, e), "the groups of %s in what %s returns" % (pat, n)) for n, e in ways if n != "views"], PRELUDE, rule)
    two = '"(?<ab>a)(?<abc>b)(c)"'
    look = [("id", "ctre::id<'a','b'>", 1), ("id2", "ctre::id<'a','b','c'>", 2)]
    ask_types(ctx, [("lookup_" + n, "std::is_same_v<GI<M<%s>, %s>, G<M<%s>, %d>>" % (two, ty, two, k), "get<%s>" % ty) for n, ty, k in look] +
              [("lookup_%s" % p, 'std::is_same_v<GN<M<%s>, %s"ab">, G<M<%s>, 1>> && std::is_same_v<GN<M<%s>, %s"abc">, G<M<%s>, 2>>' % (two, p, two, two, p, two), "get<%s\"ab\">" % p) for p in ("u8", "u", "U", "L")] +
              [("lookup_free", 'std::is_same_v<std::remove_cvref_t<decltype(ctre::get<3>(std::declval<const M<%s> &>()))>, G<M<%s>, 3>> && std::is_same_v<std::remove_cvref_t<decltype(ctre::get<3>(std::declval<const M<%s> &>()))>, G<M<%s>, 3>>' % (two, two, two, two), "ctre::get")], PRELUDE, rule)
    P17 = PRELUDE.split("template")[0] + """template <typename T> using U = std::remove_cv_t<std::remove_reference_t<T>>;
static constexpr auto pat = ctll::fixed_string{"(a)(?<ab>b)(?<abc>c)"}; static constexpr auto ab = ctll::fixed_string{"ab"}; static constexpr auto abc = ctll::fixed_string{"abc"};
using M = decltype(ctre::match<pat>(std::string_view{}));
"""
    ask_types(ctx, [("names_c++17", "M::count() == 4 && std::is_same_v<U<decltype(std::declval<const M &>().get<ab>())>, U<decltype(std::declval<const M &>().get<2>())>> && std::is_same_v<U<decltype(std::declval<const M &>().get<abc>())>, U<decltype(std::declval<const M &>().get<3>())>> && !std::is_same_v<U<decltype(std::declval<const M &>().get<2>())>, U<decltype(std::declval<const M &>().get<3>())>>", "names as references in C++17")], P17, rule, defines=["-std=c++17"])
    rule2 = "asking for a group that does not exist does not compile"
    progs = []

    def ask(n, pat, what, fails): progs.append(("ask_" + n, '#include <ctre.hpp>\n#include <string_view>\nbool f(std::string_view s) { return bool(ctre::match<%s>(s).get<%s>()); }\n' % (pat, what), fails, "get<%s> of %s" % (what, pat)))
    p = '"(?<ab>a)(b)(?<abc>c)"'
    for n, w, f in (("0", "0", 0), ("3", "3", 0), ("4", "4", 1), ("5", "5", 1), ("max", "~size_t(0)", 1), ("ab", '"ab"', 0), ("abc", '"abc"', 0), ("a", '"a"', 1), ("b", '"b"', 1), ("abcd", '"abcd"', 1), ("empty", '""', 1), ("AB", '"AB"', 1), ("bc", '"bc"', 1), ("id", "ctre::id<'a','b'>", 0), ("noid", "ctre::id<'b'>", 1), ("ba", '"ba"', 1), ("abd", '"abd"', 1)):
        ask(n, p, w, bool(f))
    ask("none", '"a"', "1", True)
    ask("noncapturing", '"(?:a)(b)"', "2", True)
    ask("unnamed", '"(a)"', '"a"', True)
    for m in ("search", "starts_with"):
        progs.append(("ask_4_" + m, '#include <ctre.hpp>\n#include <string_view>\nbool f(std::string_view s) { return bool(ctre::%s<%s>(s).get<4>()); }\n' % (m, p), True, "get<4> of %s" % p))
    for n, fails in ((2, True), (3, True), (4, False), (5, True)):
        progs.append(("binding_%d" % n, '#include <ctre.hpp>\n#include <string_view>\nbool f(std::string_view s) { auto [%s] = ctre::match<%s>(s); return bool(g0); }\n' % (", ".join("g%d" % k for k in range(n)), p), fails, "%d names bound to the result of %s" % (n, p)))
    ctx.rejects(progs, rule2)
    # the one construct whose groups cannot be found
    ask_types(ctx, [("lookbehind", 'has<M<"(?<=(a))b">, 1>', "a group inside a lookbehind")], PRELUDE, rule)


def ask_types(ctx, ws, prelude, rule, broken="violated", defines=()):
    """a pattern that cannot be used, or a group that cannot be asked for, breaks the property"""
    before = len(ctx.results)
    ctx.types(ws, prelude, rule, defines=defines)
    for r in ctx.results[before:]:
        if r.verdict == "broken": r.verdict = broken
