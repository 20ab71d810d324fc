"""C25: Unicode property classes.

data/unicode.txt holds, per property, the code points that have it in Unicode 14.0 (from an independent copy of the character database).
The code point is opaque (32 bits); the diagram of the class is compared with the diagram of the set, so all code points are decided at
once, whatever tables and searches the library uses.  Reads outside of a table are violations of their own."""
import os
from . import valg, dd
from .dd import TRUE, FALSE, NOT, OR, ite
from .ob_gram import literal

PRELUDE = """#include <ctre-unicode.hpp>
template <ctll::fixed_string P> using T = typename ctre::regex_builder<P>::type;
template <ctll::fixed_string X> constexpr bool OK = [] { constexpr auto _input = X; return (bool)ctll::parser<ctre::pcre, _input, ctre::pcre_actions>::template correct_with<ctre::pcre_context<>>; }();
"""
PREFIX = {"binary": [""], "gc": [""], "sc": ["script=", "sc="], "scx": ["script_extension=", "scx="], "age": ["age="], "blk": ["block="]}


def data():
    out = []
    for l in open(os.path.join(valg.HERE, "data", "unicode.txt")):
        k, names, yes, maybe = l.rstrip("\n").split("\t")
        rng = lambda s: [tuple(int(x, 16) for x in r.split("-")) for r in s.split()]
        out.append((k, names.split(","), rng(yes), rng(maybe)))
    return out


def diagram(bits, ranges):
    """the set as a diagram over the bits of a code point (most significant first)"""
    def go(i, lo, rs):
        hi = lo + (1 << i) - 1
        rs = [r for r in rs if r[1] >= lo and r[0] <= hi]
        if not rs: return FALSE
        if any(r[0] <= lo and r[1] >= hi for r in rs): return TRUE
        return ite(bits[i - 1], go(i - 1, lo + (1 << (i - 1)), rs), go(i - 1, lo, rs))
    n = go(21, 0, ranges)
    for b in bits[21:]: n = ite(b, FALSE, n)
    return n


def ob(name, expr, yes, maybe, where, cost):
    def pyref(vals):
        return [diagram(vals[0], yes)], dd.AND(diagram(vals[0], [(0, 0x10FFFF)]), NOT(diagram(vals[0], maybe)))
    return valg.Ob(name, "return %s;" % expr, None, sig="cp", raw=True, unroll=26, where=where, pyref=pyref, cost=cost)


COST = {"scx": 4, "age": 2, "sc": 1, "blk": 0.5, "gc": 0.3, "binary": 0.3}


def shown(k, n): return "\\p{%s%s}" % (PREFIX[k][0], n)


def values(tier):
    o = []
    for k, names, yes, maybe in data():
        n = names[0]
        text = literal(shown(k, n))
        o.append(ob("%s_%s" % (k, n.replace(".", "_")), "T<%s>::match_char(c, ctre::flags{})" % text, yes, maybe, "pattern %s" % shown(k, n), COST[k]))
        if n in ("lu", "pd", "latn", "dash", "nb", "cyrillic", "3.0", "deva", "grek", "c", "cn") or tier != "quick":
            out = []
            at = 0
            for a, b in yes:
                if a > at: out.append((at, a - 1))
                at = b + 1
            if at <= 0x10FFFF: out.append((at, 0x10FFFF))
            for kind, t in (("negated", "\\P{%s%s}"), ("set", "[\\p{%s%s}]"), ("negated_set", "[^\\p{%s%s}]"), ("negated_in_set", "[\\P{%s%s}]")):
                if kind != "negated" and k in ("scx", "age", "sc") and n not in ("deva", "3.0", "latn"): continue
                t = t % (PREFIX[k][0], n)
                o.append(ob("%s_%s_%s" % (kind, k, n.replace(".", "_")), "T<%s>::match_char(c, ctre::flags{})" % literal(t), yes if kind == "set" else out, maybe, "pattern %s" % t, COST[k]))
    # the same for the types of the characters of a subject
    for n in ("lu", "alpha", "any", "ascii"):
        k, names, yes, maybe = next(r for r in data() if n in r[1])
        for t, top in (("char8_t", 0x7F), ("char16_t", 0xFFFF), ("wchar_t", 0x10FFFF), ("char", 0x7F)):
            o.append(ob("%s_%s" % (t, n), "c <= 0x%Xu ? T<%s>::match_char(static_cast<%s>(c), ctre::flags{}) : false" % (top, literal("\\p{%s}" % n), t),
                        [(a, min(b, top)) for a, b in yes if a <= top], [(a, min(b, top)) for a, b in maybe if a <= top], "pattern \\p{%s} on %s" % (n, t), 0.3))
    return o


def names(ctx):
    rule = "every name of a property selects that property, in upper and in lower case, and in the negated form"
    cases, known = [], {}
    for k, ns, _, _ in data():
        for p in PREFIX[k]:
            for n in ns: known.setdefault("bin" if k in ("binary", "gc") else k, set()).add(n)
    for i, (k, ns, yes, maybe) in enumerate(data()):
        base = "T<%s>" % literal(shown(k, ns[0]))
        for q, p in enumerate(PREFIX[k]):
            for r, n in enumerate(ns):
                forms = list(dict.fromkeys([p + n, (p + n).title(), (p + n).upper()]))
                if not ctx.thorough:
                    if q and (i + r) % 4: continue
                    forms = [forms[(i + r + q) % len(forms)]]
                for j, f in enumerate(forms):
                    if "\\p{%s}" % f == shown(k, ns[0]): continue
                    t = literal("\\p{%s}" % f)
                    name = "name_%d_%d_%d_%d" % (i, q, r, j)
                    cases.append((name, t, base, "\\p{%s}, which is %s" % (f, shown(k, ns[0])), ob(name, "T<%s>::match_char(c, ctre::flags{})" % t, yes, maybe, "pattern \\p{%s}" % f, COST[k])))
        if ctx.thorough or i % 4 == 0:
            t = literal("\\P{%s%s}" % (PREFIX[k][0], ns[-1]))
            name = "negated_name_%d" % i
            cases.append((name, t, "ctre::negate<std::conditional_t<%s, const %s, %s>>" % ("true" if k not in ("binary", "gc") else "false", base, base), "\\P{%s}" % ns[-1],
                          ob(name, "!T<%s>::match_char(c, ctre::flags{})" % t, yes, maybe, "pattern \\P{%s}" % ns[-1], COST[k])))
    ctx.same(cases, PRELUDE, rule)
    # names of scripts alone
    obs = [ob("bare_%s" % n, "T<%s>::match_char(c, ctre::flags{})" % literal("\\p{%s}" % n), yes, maybe, "pattern \\p{%s}" % n, 1)
           for k, ns, yes, maybe in data() if k == "sc" for n in (ns if ctx.thorough else ns[:1])]
    ctx.valg(obs, PRELUDE, what="both", noncompiling="violated", rule="the class accepts exactly the code points that have the property in Unicode 14.0")
    # no other names
    from .ob_reject import accepts
    texts = []
    allbin = known["bin"] | known["sc"] | {"hrkt", "katakana_or_hiragana", "unknown", "zzzz", "nb"}
    for i, (k, ns, _, _) in enumerate(data()):
        for n in ns[:1] if ctx.tier == "quick" else ns:
            for v in [n + "x", n[:-1], "x" + n, n + "_", n[1:], n + "."][i % 6 if ctx.tier == "quick" else 0:][:1 if ctx.tier == "quick" else 6]:
                names_ = allbin if k in ("binary", "gc") else known[k] | {"hrkt", "katakana_or_hiragana", "unknown", "zzzz", "nb"}
                if not v or v in names_: continue
                texts.append("\\p{%s%s}" % (PREFIX[k][0], v))
    texts += ["\\p{%s%s}" % (p, v) for p in ("scripts=", "scrip=", "s=", "scxx=", "ages=", "ag=", "blocks=", "bloc=", "x=", "script_extensionx=") for v in ("latn", "3.0", "cyrillic")]
    texts += ["\\p{sc=3.0}", "\\p{age=latn}", "\\p{block=latn}", "\\p{age=unassigned}", "\\p{age=4}", "\\p{age=3}", "\\p{age=3.00}", "\\p{age=99.0}", "\\p{script=lu}", "\\p{lu=latn}", "\\p{latn=lu}", "\\p{scx=lu}", "\\p{block=lu}", "\\p{unknown_property}"]
    texts = list(dict.fromkeys(texts))
    accepts(ctx, [("unknown_%d" % i, "!OK<%s>" % literal(t), "%r" % t) for i, t in enumerate(texts)], PRELUDE, "a name that is not the name of a property is rejected")
