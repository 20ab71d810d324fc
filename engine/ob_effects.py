"""C26: programs that use every part of the library, for the effect analysis."""
import os, re
from concurrent.futures import ThreadPoolExecutor
from . import effects, valg
from .ob_gram import literal

PRELUDE = """#include <ctre-unicode.hpp>
#include <array>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
using namespace ctre::literals;
template <typename I> inline size_t at(const I & i, const void * p) {
	if constexpr (std::is_same_v<I, ctre::utf8_iterator>) return reinterpret_cast<const char *>(i.ptr) - static_cast<const char *>(p);
	else return reinterpret_cast<const char *>(std::to_address(i)) - static_cast<const char *>(p);
}
template <size_t... I, typename R> inline size_t groups(const R & r, const void * p, std::index_sequence<I...>) {
	return (size_t{0} + ... + (r.template get<I>() ? at(r.template get<I>().begin(), p) * 3 + at(r.template get<I>().end(), p) + r.template get<I>().size() : 7));
}
template <typename R> inline size_t see(const R & r, const void * p) {
	if (!r) return 1;
	return at(r.begin(), p) + at(r.end(), p) + groups(r, p, std::make_index_sequence<R::count()>{});
}
template <typename R> inline size_t all(R && r, const void * p) { size_t h = 0; for (const auto & m : r) h = h * 31 + see(m, p); return h; }
template <typename I> inline size_t from(I i, const void * p) { size_t h = 0; for (; i != ctre::sentinel; ++i) h = h * 31 + see(*i, p); return h; }
"""

PATTERNS = ["abc", "a|b|", "(a)(?<n>b)?", "[a-z0-9_]+", "[^a-c]*x", "a*?b", "a++b", "a{2,4}b", "(?:ab)*c", "(?:a|b)*?c", "(?:a|b)++c", "(?>a*)b", "^a$", "\\Aa\\z", "\\Aa\\Z", "\\ba\\B", "(?=a)b", "(?!a)b", "(?<=a)b", "(?<!ab)c",
            "(a)\\1", "(?<n>a)\\g{n}", "(?i)abc", "(?i)[a-z]+", "(?s).+", "\\d+\\s\\w\\D\\S\\W\\h\\v", "[[:alpha:][:^digit:]]", ".*", "\\x{61}\\n\\t", "((a)|(b))*c", "(?:a?)*b", "(a*)*?b", "\\N\\H\\V", "(?c)a(?i)b", "[\\d\\-x]{3}", "(?:^a|b$)+",
            "\\p{L}", "\\P{Lu}+", "[\\p{Latin}\\d]", "\\p{age=3.0}", "\\p{block=cyrillic}", "\\p{scx=deva}", "\\p{sc=grek}\\p{Any}\\p{Alphabetic}", ""]
ONE, MANY = ["match", "starts_with", "search"], ["search_all", "tokenize", "split"]


def see(m, call): return "return %s(%s, p);" % ("see" if m in ONE else "from" if m == "iterator" else "all", call)


def programs(tier):
    """[(name, body, note)]"""
    o = []
    n = 0

    def add(body, note, alloc=False):
        nonlocal n
        n += 1
        o.append(("e_%s%d" % ("alloc_" if alloc else "", n), "auto s = reinterpret_cast<const char *>(p); " + body, note))
    for i, t in enumerate(PATTERNS):
        P = literal(t)
        for ml in (False, True):
            for m in ONE + MANY + ["iterator"]:
                if tier == "quick" and (ml != (i % 2 == 1)) : continue
                full = ("multiline_" if ml else "") + m
                arg = "std::string_view(s, n)" if (i + len(m)) % 3 or m == "iterator" else "s, s + n" if i % 2 else "s"
                if m == "iterator": arg = "s, s + n"
                call = "ctre::%s<%s>(%s)" % (full, P, arg)
                add(see(m, call), call)
        for U, m in (("wchar_t", "search"), ("char16_t", "match"), ("char32_t", "starts_with"), ("char8_t", "search_all"), ("char8_t", "search"), ("char32_t", "split"), ("char16_t", "tokenize")):
            if tier == "quick" and (i + len(m) + len(U)) % 3: continue
            if "\\p" in t and U == "char16_t": continue
            pre = {"wchar_t": "w", "char16_t": "u16", "char32_t": "u32", "char8_t": "u8"}[U]
            call = "ctre::%s<%s>(std::%sstring_view(reinterpret_cast<const %s *>(p), n))" % (m, P, pre, U)
            add(see(m, call), call)
        add("return ctre::match<%s, ctre::case_insensitive>(std::string_view(s, n)) ? 1 : 0;" % P, "ctre::match<%s, ctre::case_insensitive>" % P)
    # forms of subject
    P = '"(a)(?<n>b)?"'
    for m in ONE + MANY:
        for call in ("ctre::%s<%s>(*reinterpret_cast<const std::string *>(p))", "ctre::%s<%s>(*reinterpret_cast<const std::vector<char> *>(p))", "ctre::%s<%s>(s)", "ctre::%s<%s>(reinterpret_cast<const wchar_t *>(p))", "ctre::%s<%s>(*reinterpret_cast<const std::u8string *>(p))",
                     "ctre::%s<%s>(*reinterpret_cast<const std::u16string *>(p))", "ctre::%s<%s>(s, n ? s + n : s)", "ctre::%s<%s>.try_extract(std::string_view(s, n))"):
            add(see(m, call % (m, P)), call % (m, P))
        add(see(m, "%s_ctre.%s(std::string_view(s, n))" % (P, "range" if m == "search_all" else m)), "method " + m)
    for m in MANY:
        for arg in ("std::string_view(s, n)", "*reinterpret_cast<const std::string *>(p)", "std::u8string_view(reinterpret_cast<const char8_t *>(p), n)"): add(see("range", "%s | ctre::%s<%s>" % (arg, m, P)), "%s | ctre::%s" % (arg, m))
    for m in ONE: add("size_t h = 0; for (auto x : *reinterpret_cast<const std::array<std::string_view, 3> *>(p) | ctre::%s<%s>) h += see(x, p); return h;" % (m, P), "range of subjects | ctre::" + m)
    # results
    R = "auto r = ctre::search<%s>(std::string_view(s, n)); " % P
    for body in ("return r.get<1>().to_view().size() + r.to_view().size() + r.get<\"n\">().view().size();", "return r.get<1>().to_number() + r.get<2>().to_number(16) + r.to_number();", "auto [w, a, b] = r; return bool(w) + 2 * bool(a) + 4 * bool(b);",
                 "return (r == std::string_view(s, 1)) + (std::string_view(s, 1) != r.get<1>()) + (r.get<1>() == r.get<1>().to_view()) + (r.get<2>() == \"x\");", "std::string_view v = r; std::string_view u = r.get<1>(); return v.size() + u.size() + r.size() + r.data()[0];",
                 "return r.get<1>().to_optional_view().has_value() + r.to_optional_view().has_value();", "std::optional<std::string_view> v = r.get<1>(); return v.has_value();", "auto c = r; auto d = std::move(c); c = d; return see(c, p);", "return r.template get<2>().data_unsafe() == s;"):
        add(R + body, "results: " + body)
    add("const char * q = ctre::starts_with<\"[0-9]+\">(s).get_end_position(); return q - s;", "get_end_position")
    R8 = "auto r = ctre::search<%s>(std::u8string_view(reinterpret_cast<const char8_t *>(p), n)); " % P
    add(R8 + "return r.get<1>().to_view().size() + r.size();", "results: u8 view")
    for k in ("binary_prop", ): add("return uni::cp_category(static_cast<char32_t>(n)) == uni::category::lu;", "uni::cp_category")
    add("const ctre::utf8_range r{std::u8string_view(reinterpret_cast<const char8_t *>(p), n)}; size_t h = 0; for (char32_t c : r) h = h * 31 + c; return h;", "utf8_range")
    # conversions that build a string
    for body in ("std::string x = r.to_string(); return x.size();", "std::string x = r.get<1>().str(); return x.size();", "std::string x{r.get<2>()}; return x.size();", "return r.get<1>().to_optional_string().has_value();"):
        add(R + body, "results: " + body, alloc=True)
    add(R8 + "return r.get<1>().to_string().size();", "results: u8 string", alloc=True)
    return o


def run(ctx):
    rule = "every store reachable from the call goes to an object of the call itself; nothing that changes is read, nothing is allocated, nothing can throw"
    progs = [p for p in programs(ctx.tier) if not ctx.only or ctx.only in p[0]]
    parts = [progs[i::16] for i in range(16) if progs[i::16]]

    def one(a):
        i, ps = a
        src = os.path.join(ctx.tmp, "eff%d.cpp" % i)
        with open(src, "w") as f:
            f.write(PRELUDE + "\n")
            for n, b, _ in ps: f.write('extern "C" size_t %s(const void * p, size_t n) { %s }\n' % (n, b))
        t, err = effects.build(src, os.path.join(ctx.tmp, "eff%d.ll" % i))
        return t, err, ps
    import multiprocessing as mp
    with ThreadPoolExecutor(8) as ex: built = list(ex.map(one, enumerate(parts)))
    good = []
    for t, err, ps in built:
        if t is None:
            for n, b, note in ps: ctx.add(n, "effects", "broken", ["the program does not compile:"] + [l for l in err.split("\n") if "error" in l][:3], where=note, rule=rule)
        else: good.append((t, ps))
    with mp.get_context("fork").Pool(8) as pool: res = pool.map(effects.analyse, [t for t, _ in good], chunksize=1)
    fns, tot = set(), {"stores": 0, "calls": 0, "loads": 0}
    for (t, ps), (out, glob, st) in zip(good, res):
        fns |= st["functions"]
        for k in tot: tot[k] += st[k]
        names = {x for e in out.values() for r in e for x in r[3]} | {r[0] for e in out.values() for r in e}
        dm = effects.demangle(sorted(names))
        for n, b, note in ps:
            bad = out.get("@" + n)
            if bad is None: ctx.add(n, "effects", "broken", ["the entry is gone"], where=note, rule=rule); continue
            text = []
            for fn, where, what, path in bad[:4]:
                text.append("%s: %s %s" % (where, dm.get(fn, fn)[:300], what))
                text.append("    reached by " + " <- ".join(dm.get(x, x)[:120] for x in path[:6]))
            ctx.add(n, "effects", not bad, text, where=note, rule=rule)
        for i, g in enumerate(glob): ctx.add("module_%d_%d" % (len(ctx.results), i), "effects", False, [g], where=g, rule=rule)
    ctx.notes.append("%d functions of the programs analysed, %d stores, %d calls, %d loads" % (len(fns), tot["stores"], tot["calls"], tot["loads"]))
