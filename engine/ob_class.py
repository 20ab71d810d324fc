"""Which characters one element of a pattern accepts."""
from . import valg

PRELUDE = '#include "api.hpp"\nusing namespace probe;\n'
TOP = 0xFFFFFFFF


# ---- sets of code points as sorted disjoint intervals
def norm(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + 1: out[-1] = (out[-1][0], max(out[-1][1], b))
        else: out.append((a, b))
    return tuple(out)


def complement(iv):
    out, at = [], 0
    for a, b in norm(iv):
        if a > at: out.append((at, a - 1))
        at = b + 1
    if at <= TOP: out.append((at, TOP))
    return tuple(out)


def fold(iv):
    out = list(iv)
    for a, b in iv:
        for base, other in ((0x41, 0x61), (0x61, 0x41)):
            lo, hi = max(a, base), min(b, base + 25)
            if lo <= hi: out.append((lo - base + other, hi - base + other))
    return norm(out)


# ---- descriptions: functions of (ml, ci)
def chars(s): return lambda ml, ci: fold([(ord(c), ord(c)) for c in s]) if ci else norm([(ord(c), ord(c)) for c in s])
def rng(a, b): return lambda ml, ci: fold([(a, b)]) if ci else ((a, b),)
def union(*d): return lambda ml, ci: norm([i for x in d for i in x(ml, ci)])
def neg(d): return lambda ml, ci: complement(d(ml, ci))
def dot(ml, ci): return complement(((10, 10),)) if ml else ((0, TOP),)


digit = rng(0x30, 0x39)
upper, lower = rng(0x41, 0x5A), rng(0x61, 0x7A)
alpha = union(upper, lower)
alnum = union(alpha, digit)
word = union(alnum, chars("_"))
space = chars(" \t\n\v\f\r")
vspace = union(rng(10, 13), chars("\u0085\u2028\u2029"))
hspace = union(chars("\t \u00a0\u1680\u180e"), rng(0x2000, 0x200A), chars("\u202f\u205f\u3000"))
xdigit = union(rng(0x41, 0x46), rng(0x61, 0x66), digit)
punct = union(rng(33, 47), rng(58, 64), rng(91, 96), rng(123, 126))
posix = {"alnum": alnum, "alpha": alpha, "ascii": rng(0, 127), "blank": chars(" \t"), "cntrl": union(rng(0, 31), rng(127, 127)), "digit": digit,
         "graph": rng(33, 126), "lower": lower, "print": rng(32, 126), "punct": punct, "space": space, "upper": upper, "word": word, "xdigit": xdigit}
esc = {"\\d": digit, "\\D": neg(digit), "\\w": word, "\\W": neg(word), "\\s": space, "\\S": neg(space), "\\h": hspace, "\\H": neg(hspace),
       "\\v": vspace, "\\V": neg(vspace), "\\N": neg(chars("\n"))}


def classes():
    p = [(k, [v]) for k, v in esc.items()] + [(".", [dot])]
    for k, v in posix.items():
        p += [("[[:%s:]]" % k, [v]), ("[[:^%s:]]" % k, [neg(v)]), ("[^[:%s:]]" % k, [neg(v)]), ("[^[:^%s:]]" % k, [v])]
    for k, v in esc.items():
        p += [("[%s]" % k, [v]), ("[^%s]" % k, [neg(v)]), ("[x%s]" % k, [union(chars("x"), v)])]
    p += [("[\\d\\s]", [union(digit, space)]), ("[^\\d\\s]", [neg(union(digit, space))]), ("[\\D\\d]", [lambda ml, ci: ((0, TOP),)]), ("[^\\D\\d]", [lambda ml, ci: ()]),
          ("[\\W\\d]", [union(neg(word), digit)]), ("[^\\W\\d]", [neg(union(neg(word), digit))]), ("[[:alpha:][:digit:]_]", [word]), ("[^\\S ]", [neg(union(neg(space), chars(" ")))]),
          ("[[:^upper:]A-F]", [union(neg(upper), rng(0x41, 0x46))])]
    return p


def sets():
    r = rng
    return [("[abc]", [chars("abc")]), ("[^abc]", [neg(chars("abc"))]), ("[a-f]", [r(97, 102)]), ("[^a-f]", [neg(r(97, 102))]), ("[A-Z]", [upper]), ("[Z-a]", [r(90, 97)]), ("[@-`]", [r(64, 96)]), ("[ -~]", [r(32, 126)]),
            ("[a-cx-z]", [union(r(97, 99), r(120, 122))]), ("[^a-cx-z]", [neg(union(r(97, 99), r(120, 122)))]), ("[a-a]", [chars("a")]), ("[-a]", None), ("[b-yB]", [union(r(98, 121), chars("B"))]),
            ("[0-9a-fA-F_.]", [union(xdigit, chars("_."))]), ("[\\u0100-\\u017F]", [r(0x100, 0x17F)]), ("[^\\u0100-\\u017F]", [neg(r(0x100, 0x17F))]), ("[\\x41-\\x5a]", [upper]), ("[\\x{61}-\\x{10FFFF}]", [r(0x61, 0x10FFFF)]),
            ("[\\u{1F600}-\\u{1F64F}a]", [union(r(0x1F600, 0x1F64F), chars("a"))]), ("[\\n\\t\\r]", [chars("\n\t\r")]), ("[\\x00-\\x1f]", [r(0, 31)]), ("[.]", [chars(".")]), ("[^.]", [neg(chars("."))]), ("[*+?]", [chars("*+?")]), ("[\\]\\[\\\\]", [chars("][\\")]),
            ("[a^]", [chars("a^")]), ("[\\^a]", [chars("^a")]), ("[a\\-z]", [chars("a-z")]), ("[k]", [chars("k")]), ("[s]", [chars("s")]), ("[^k]", [neg(chars("k"))]), ("[\\u212A]", [chars("\u212a")]), ("[\\u0130\\u0131]", [chars("\u0130\u0131")]),
            ("[(-+]", [r(40, 43)]), ("[!--]", None), ("[a-\\x7a]", [lower]), ("[\\x61-z]", [lower]), ("[\\0-a]", [r(0, 97)]), ("[\\a\\e\\f]", [chars("\a\x1b\f")]), ("[$]", [chars("$")]), ("[|]", [chars("|")]), ("[/-9]", [r(0x2f, 0x39)]), ("[<->]", [r(0x3c, 0x3e)])]


SPECIAL = set("\\.[](){}*+?|^$")


def literals():
    out = []
    for c in range(1, 127):
        ch = chr(c)
        if c < 32: t = "\\x%02x" % c
        elif ch in SPECIAL: t = "\\" + ch
        else: t = ch
        out.append((t, [chars(ch)]))
    out += [("\\x{%x}" % c, [chars(chr(c))]) for c in (0, 1, 9, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x212a, 0x17f, 0x130, 0x41, 0x7a)]
    out += [("\\u%04x" % c, [chars(chr(c))]) for c in (0, 0x41, 0x7b, 0xff, 0xabcd, 0xffff)]
    out += [("\\u%04X" % c, [chars(chr(c))]) for c in (0xabcd, 0xCDEF)]
    out += [("\\x%02X" % c, [chars(chr(c))]) for c in (0x6B, 0xAF, 0xff, 0)]
    out += [("\\n", [chars("\n")]), ("\\t", [chars("\t")]), ("\\r", [chars("\r")]), ("\\0", [chars("\0")]), ("\\a", [chars("\a")]), ("\\e", [chars("\x1b")]), ("\\f", [chars("\f")]), ("\\/", [chars("/")]), ("\\-", [chars("-")]), ('\\"', [chars('"')]), ("\\<", [chars("<")]), ("\\>", [chars(">")])]
    seen = set()
    return [x for x in out if not (x[0] in seen or seen.add(x[0]))]


def runs():
    return [("aZ@\\[", [chars(c) for c in "aZ@["]), ("`\\{kK", [chars(c) for c in "`{kK"]), ("x\\x{e9}", [chars("x"), chars("\xe9")]), ("a[b-d]e", [chars("a"), rng(98, 100), chars("e")]), (".a", [dot, chars("a")]), ("\\da\\W", [digit, chars("a"), neg(word)]), ("s\\u212a", [chars("s"), chars("\u212a")])]


def cstr(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def obligations(pats, combos, tag, limit=None):
    o = []
    for k, (t, els) in enumerate(pats):
        if els is None: continue
        for ml, ci in combos:
            steps, code = "", "ref::I p = c; "
            for d in els:
                iv = d(ml, ci)
                cond = " || ".join(("(v >= 0x%xu && v <= 0x%xu)" % (a, b)) if a else ("(v <= 0x%xu)" % b) for a, b in iv) or "false"
                code += "{ if (it_eq(p, l)) return ref::no(); const uint32_t v = static_cast<uint32_t>(it_deref(p)); (void)v; %sif (!(%s)) return ref::no(); p = it_next(p); } " % ("if (it_deref(p) < 0) return ref::no(); " if limit else "", cond)
            code += "return ref::pack(c, p);"
            pre = ""
            if limit:
                pre = "ref::I q = c; " + "if (!it_eq(q, l)) { if (it_deref(q) < 0) return ref::no(); q = it_next(q); } " * len(els)
                code = pre + code
            fn = "ctre::%sstarts_with<%s%s>" % ("multiline_" if ml else "", cstr(t), ", ctre::case_insensitive" if ci else "")
            o.append(valg.Ob("%s_%d_%d%d" % (tag, k, ml, ci), pre + "return whole(%s(It{c}, End{l}));" % fn, code, sig="api", raw=True, unroll=2, bounds=False, where="pattern %s%s%s" % (t, " in multiline mode" if ml else "", ", case-insensitive" if ci else "")))
    return o
