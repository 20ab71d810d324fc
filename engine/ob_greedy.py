"""A greedy repetition of real content before a real tail gives back what the tail needs."""
from .valg import Ob

PRELUDE = '#include "real.hpp"\nusing namespace probe;\n'

BODIES = ["a", "[a-f]", "[abx]", "[^b]", "[^a-f]", "\\d", "\\w", "\\S", ".", "\\N", "(?:ab)", "(?:a|b)", "(?:[a-c]|x)", "(?:ab|cd)", "(?:a?b)", "(?:(a)b?)", "[^\\d]", "[\\da-c]", "[^\\n]", "\\n", "(?:x?y?z)", "[[:alpha:]]", "[^[:^digit:]]", "(?:\\ba)"]
TAILS = ["a", "b", "c", "[a-f]", "[^b]", "[^a-f]", "\\d", "\\D", "\\w", ".", "ab", "(?:a|b)", "(?:c|)", "x?y", "x*a", "(?:x*?)b", "x++b", "(b)", "(?<n>a)", "\\ba", "\\Ba", "$", "\\Z", "\\z", "^b", "\\Ab", "(?=a)", "(?!b)", "(?<=a)", "(?<!b)", "(?>b)", "(?>b?)a", "(?i)B", "(?:)b", "(?:x{0}a)", "(?:x{2}b)", "(?:x{0,2}b)", "[^\\n]", "\\n", "[[:digit:]]", "(?:[xy]|b+c)"]


def pairs(tier):
    if tier == "thorough": return [(b, t) for b in BODIES for t in TAILS if not ("(a)" in b and "*" in t)]
    out = []
    for i, b in enumerate(BODIES):
        for j, t in enumerate(TAILS):
            loops = any(x in t for x in ("*", "+", "{0,"))
            if len(b) > 6 and loops: continue
            if i < 5 or j < 8 and i < 16 or (i + j) % 4 == 0: out.append((b, t))
    return out


def q(s): return '"' + s.replace("\\", "\\\\") + '"'


def shortcut(tier):
    o = []
    for k, (b, t) in enumerate(pairs(tier)):
        bt, tt = "T<%s>" % q(b), "T<%s>" % q(t)
        lo, hi = ((0, 2), (1, 2), (0, 1), (2, 3))[k % 4]
        loops = any(x in t for x in ("*", "+")) or "{0," in t
        if loops: lo, hi = 0, 1
        endless = b in ("a", "\\d", "(?:ab)") and t in ("a", "b", "c", "ab")
        if endless: lo, hi = (0, 0) if k % 2 else (1, 0)
        elif "x?y?" in b: lo, hi = 0, 1
        elif "?" in b and lo == 2: lo, hi = 1, 2
        nm = "greedy_%s_%s" % (b, t)
        name = "shortcut_%d" % k
        impl = "return ctre::evaluate(It{b}, It{c}, It{l}, make_flags(blk, ml, ci), R{R::raw{r}}, ctll::list<ctre::repeat<%d, %d, %s>, %s, KA<>, KB>()).h;" % (lo, hi, bt, tt)
        ref = "return ref::greedy<ref::Then<%s>, ref::real_loop<%s>, %d, %d>(ref::S{b, l}, c, ref::F{blk, ml, ci}, r);" % (tt, bt, lo, hi)
        o.append(Ob(name, impl, ref, unroll=(2 if loops else 3) if tier == "quick" else (3 if loops else 4), where="repeat<%d, %d> of %s followed by %s" % (lo, hi, b, t), bounds=False, flags=[{"blk": 0, "ml": 0, "ci": 0}, {"blk": 0, "ml": 0, "ci": 1}, {"blk": 0, "ml": 1, "ci": 0}]))
    return o


def wide(tier):
    o = []
    bodies = ["[\\u0100-\\u0200]", "\\u{FFFF}", "[^\\u0100]", "[^\\u0100-\\u0200\\d]", "[a\\u0100]", "\\u0000"]
    tails = ["\\u0150", "[\\u0200-\\u0300]", "[^\\u0100-\\u0200]", "\\w", "[^\\u0000-\\uFFFE]", "\\u{0}", "a"]
    k = 0
    for b in bodies:
        for t in tails:
            bt, tt = "T<%s>" % q(b), "T<%s>" % q(t)
            lo, hi = ((0, 2), (1, 2), (0, 1))[k % 3]
            impl = "return ctre::evaluate(It{b}, It{c}, It{l}, make_flags(blk, ml, ci), R{R::raw{r}}, ctll::list<ctre::repeat<%d, %d, %s>, %s, KA<>, KB>()).h;" % (lo, hi, bt, tt)
            ref = "return ref::greedy<ref::Then<%s>, ref::real_loop<%s>, %d, %d>(ref::S{b, l}, c, ref::F{blk, ml, ci}, r);" % (tt, bt, lo, hi)
            o.append(Ob("shortcut_wide_%d" % k, impl, ref, unroll=3, where="repeat<%d, %d> of %s followed by %s" % (lo, hi, b, t), bounds=False, flags=[{"blk": 0, "ml": 0, "ci": 0}, {"blk": 0, "ml": 0, "ci": 1}]))
            k += 1
    return o
