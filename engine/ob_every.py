"""C29: every construct, wherever it stands, is handled by every pass over patterns.

Matching: each construct inside each construct is instantiated through real entry points.  Discovery of groups: a group at each place
is in the result.  First characters: a repetition before (or of) each construct matches as the definition says.  Mirroring: each
construct inside a lookbehind is the mirrored one."""
import os
from concurrent.futures import ThreadPoolExecutor
from . import ob_groups as GP, ob_greedy as G, ob_syntax as SY, valg
from .ob_gram import literal

LEAVES = ["a", "ab", "\\n", "\\x41", "\\x{1F600}", "\\u00e9", ".", "\\N", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\h", "\\H", "\\v", "\\V", "[ab]", "[^ab]", "[a-f]", "[^a-f0-9]", "[\\d\\-]", "[[:alpha:]]", "[^[:^digit:]]", "[]", "^", "$", "\\A", "\\z", "\\Z", "\\b", "\\B", "", "a|b", "ab|", "a|b|cd", "(?:)"]
LEAVES = [l for l in LEAVES if l != "[]"]
UNICODE = ["\\p{L}", "\\P{Lu}", "\\p{Latin}", "\\p{script=Grek}", "\\p{scx=Cyrl}", "\\p{age=10.0}", "\\p{block=basic_latin}", "\\p{Alphabetic}", "\\p{emoji}", "[\\p{L}\\d]", "[^\\p{Lu}]", "\\p{any}", "\\p{ascii}", "\\p{assigned}"]
# a construct that has content
IN = ["(?:%s)", "(%s)", "(?<n>%s)", "(?:%s|x)", "(?:x|%s)", "x%s", "%sx", "x%sy", "(?:%s)?", "(?:%s)*", "(?:%s)+", "(?:%s){2}", "(?:%s){1,3}", "(?:%s){2,}", "(?:%s){0}", "(?:%s)??", "(?:%s)*?", "(?:%s)+?", "(?:%s){1,3}?", "(?:%s)?+", "(?:%s)*+", "(?:%s)++", "(?:%s){1,3}+", "(?>%s)", "(?=%s)", "(?!%s)", "(?i)%s", "(?:(?m)%s)", "(?:(?s)%s)", "(?:(?c)%s)"]
BEHIND = ["(?<=%s)", "(?<!%s)"]
WITH_CONTENT = [c % "a" for c in IN] + ["(a)\\1", "(?<n>a)\\g{n}", "(a)\\g{-1}", "a{2,}?", "a{2,3}+"] + [b % "ab" for b in BEHIND]
# constructs that stand inside a lookbehind
MIRRORED = [l for l in LEAVES if l not in ("\\Z",)] + ["(?=a)", "(?!ab)", "(?<=a)", "(?<!ab)", "(?:a|bc)", "(?:ab)c", "a.", "(?:a|b)(?:c|d)", "\\b(?:ab|c)^", "[ab][cd]"]
# and those that do not
NOT_MIRRORED = [("repeat", "a+"), ("repeat_exact", "a{2}"), ("repeat_lazy", "a*?"), ("repeat_possessive", "a++"), ("optional", "a?"), ("repeat_of_group", "(?:ab)+"), ("capture", "(a)"), ("named_capture", "(?<n>a)"), ("atomic", "(?>ab)"), ("mode", "(?i)a"), ("backreference", None)]

HEAD = "#include <%s>\n#include <string_view>\n#include <list>\n"
USE = {"search": "bool f%d(std::string_view s) { return bool(ctre::search<%s>(s)); }",
       "match": "bool f%d(std::string_view s) { return bool(ctre::match<%s>(s)); }",
       "multiline": "bool f%d(std::string_view s) { return bool(ctre::multiline_starts_with<%s, ctre::case_insensitive>(s)); }",
       "utf8": "bool f%d(std::u8string_view s) { return bool(ctre::search<%s>(s)); }",
       "wide": "bool f%d(std::wstring_view s) { return bool(ctre::search<%s>(s)); }",
       "list": "bool f%d(const std::list<char> & s) { return bool(ctre::search<%s>(s.begin(), s.end())); }",
       "iterate": "int f%d(std::string_view s) { int n = 0; for (auto && m : ctre::search_all<%s>(s)) n += m ? 1 : 2; return n; }",
       "split": "int f%d(std::string_view s) { int n = 0; for (auto && m : ctre::split<%s>(s)) n += m ? 1 : 2; return n; }",
       "tokenize": "int f%d(std::u8string_view s) { int n = 0; for (auto && m : ctre::tokenize<%s>(s)) n += m ? 1 : 2; return n; }"}


def into(c, x):
    """x at the place in c"""
    if "|" in x and not c.startswith(("(?:%s", "(%s", "(?<n>%s", "(?>%s", "(?=%s", "(?!%s", "(?<=%s", "(?<!%s")): x = "(?:" + x + ")"
    if c.startswith("(?<n>") and "(?<n>" in x: c = c.replace("(?<n>", "(?<m>")
    if x.startswith("(?") and x[2] in "imsc" and c.startswith(("x", "(?:x")): x = "(?:" + x + ")"
    return c.replace("%s", x)


def patterns(tier):
    """[(pattern, use)]"""
    out = []
    uses = list(USE)
    k = 0
    for x in LEAVES + WITH_CONTENT:
        for u in uses: out.append((x, u))
    for i, c in enumerate(IN):
        for j, x in enumerate(LEAVES):
            k += 1
            out.append((into(c, x), uses[(i + j) % len(uses)]))
        for j, x in enumerate(WITH_CONTENT):
            out.append((into(c, x), "search"))
            if tier == "thorough" or (i + j) % 3 == 0: out.append((into(c, x), uses[1 + (i + j) % (len(uses) - 1)]))
    for b in BEHIND:
        for j, x in enumerate(MIRRORED):
            out.append((into(b, x), "search"))
            out.append((into(b, x) + "z", uses[j % len(uses)]))
            for i, c in enumerate(IN):
                if (i + j) % (1 if tier == "thorough" else 5) == 0: out.append((into(c, into(b, x)), uses[(i + j) % len(uses)]))
    for i, c in enumerate(IN):
        for j, d in enumerate(IN):
            for l, x in enumerate(WITH_CONTENT):
                if (i * 7 + j * 3 + l) % (4 if tier == "thorough" else 23) == 0: out.append((into(c, into(d, x)), uses[(i + j + l) % len(uses)]))
    # an empty alternative between two others is not part of the syntax
    return [x for x in dict.fromkeys(out) if "||" not in x[0]]


def unicode_patterns():
    out = []
    for j, x in enumerate(UNICODE):
        for i, c in enumerate(["%s"] + IN + BEHIND): out.append((into(c, x), "utf8" if (i + j) % 2 else "search"))
    return out


def compiles(ctx, cases, header, rule, tag):
    """cases: [(name, pattern, use)]: the function that uses the pattern can be instantiated"""
    if ctx.only: cases = [c for c in cases if ctx.only in c[0]]

    def go(cs, tg):
        src = os.path.join(ctx.tmp, tg + ".cpp")
        with open(src, "w") as f:
            f.write(HEAD % header + "\n".join(USE[u] % (i, ('u8' if u in () else '') + literal(p)) for i, (n, p, u) in enumerate(cs)) + "\n")
        r = valg.run([valg.CLANG] + valg.CXX + ["-fsyntax-only", src])
        return r.returncode, [l for l in r.stderr.split("\n") if "error" in l][:3]
    # a program without any pattern must compile
    rc, err = go([], tag + "_none")
    if rc: ctx.add(tag, "instantiation", "broken", err, rule=rule); return
    with ThreadPoolExecutor(8) as ex:
        work = [cases[i::48] for i in range(48) if cases[i::48]]
        level = 0
        while work:
            nxt = []
            for ch, (rc, err) in zip(work, ex.map(lambda a: go(a[1], "%s_%d_%d" % (tag, level, a[0])), list(enumerate(work)))):
                if not rc or len(ch) == 1:
                    for n, p, u in ch: ctx.add(n, "instantiation", rc == 0, [] if rc == 0 else ["the pattern is accepted but cannot be used:"] + err, where="%r with %s" % (p, u), rule=rule)
                else:
                    m = max(1, len(ch) // 4)
                    nxt += [ch[i:i + m] for i in range(0, len(ch), m)]
            work, level = nxt, level + 1
            if sum(map(len, work)) > 600:        # the whole pass is missing: some of them show it
                work = [[c] for w in work for c in w][:64]


def run(ctx):
    rule = "every construct can be instantiated wherever it stands"
    compiles(ctx, [("use_%d" % i, p, u) for i, (p, u) in enumerate(patterns(ctx.tier))], "ctre.hpp", rule, "use")
    compiles(ctx, [("use_unicode_%d" % i, p, u) for i, (p, u) in enumerate(unicode_patterns())], "ctre-unicode.hpp", rule, "useu")
    compiles(ctx, [("behind_" + n, "(?<=%s)z" % p if p else "(a)(?<=\\1)z", "search") for n, p in NOT_MIRRORED], "ctre.hpp", rule, "behind")
    # groups
    ws = []
    for i, t in enumerate(dict.fromkeys(GP.texts("quick")[:len(GP.CONTEXTS) * len(GP.CORES)] + [into(c, into(d, "(a)")) for c in IN for d in IN if "(?<n>" not in c + d])):
        g = GP.groups(t)
        ws.append(("groups_%d" % i, "has<M<%s>, %d>" % (literal(t), len(g)), "%r has %d groups" % (t, len(g))))
    GP.ask_types(ctx, [("no_groups", 'has<M<"a">, 0>', "a pattern without groups")], GP.PRELUDE, "discovery of groups sees the content of every construct", broken="broken")
    if not any(r.name == "no_groups" and r.verdict == "broken" for r in ctx.results): GP.ask_types(ctx, ws, GP.PRELUDE, "discovery of groups sees the content of every construct")
    # first characters
    obs = [o for o, (b, t) in zip(G.shortcut(ctx.tier), G.pairs(ctx.tier)) if b == "a" or t in ("a", "b") or ctx.thorough]
    ctx.valg(obs, G.PRELUDE, what="equal", defines=["-DPROBE_CHAR=unsigned char"], rule="the calculation of first characters sees the content of every construct: a repetition before it, or of it, matches as it is defined")
    # mirroring
    cs = []
    for b in BEHIND:
        for x in MIRRORED:
            t = into(b, x)
            cs.append(t)
    out = []
    for i, t in enumerate(dict.fromkeys(cs)):
        ast = SY.cpp(SY.Tr(t).top())
        out.append(("mirror_%d" % i, literal(t), ast, repr(t), SY.ob("mirror_%d" % i, t, ast, ctx.tier)))
    ctx.same(out, SY.PRELUDE, "the content of a lookbehind is the mirrored one")
