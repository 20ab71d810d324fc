"""C13: what a pattern text denotes.

A second, independent reading of the syntax (a recursive descent translator written from the documented meaning) gives for every
text the construct it denotes.  The compiler says whether the library's translation is the same type; where it is a different type,
the value graphs of matching the two before an opaque rest of the pattern decide."""
from . import valg
from .ob_gram import literal

CLASS = {"d": ("set", "digit_chars"), "w": ("set", "word_chars"), "s": ("set", "space_chars"), "h": ("set", "horizontal_space_chars"), "v": ("set", "vertical_space_chars")}
NAMED = {"alnum": "ctre::set<ctre::char_range<'A','Z'>, ctre::char_range<'a','z'>, ctre::char_range<'0','9'>>", "alpha": "ctre::set<ctre::char_range<'A','Z'>, ctre::char_range<'a','z'>>",
         "ascii": "ctre::char_range<char(0), char(127)>", "blank": "ctre::enumeration<' ','\\t'>", "cntrl": "ctre::set<ctre::char_range<char(0),char(31)>, ctre::character<char(127)>>",
         "digit": "ctre::char_range<'0','9'>", "graph": "ctre::char_range<char(33),char(126)>", "lower": "ctre::char_range<'a','z'>", "print": "ctre::char_range<char(32),char(126)>", "punct": "ctre::punct_chars",
         "space": "ctre::space_chars", "upper": "ctre::char_range<'A','Z'>", "word": "ctre::word_chars", "xdigit": "ctre::set<ctre::char_range<'A','F'>, ctre::char_range<'a','f'>, ctre::char_range<'0','9'>>"}
ESC = {"n": 10, "t": 9, "r": 13, "0": 0, "a": 7, "e": 27, "f": 12}
MODE = {"i": "mode_case_insensitive", "c": "mode_case_sensitive", "s": "mode_singleline", "m": "mode_multiline"}


def cv(c): return "char(%d)" % c if c < 128 else "char32_t(%d)" % c


class Tr:
    """nodes: ('ch',c) ('str',[c]) ('seq',[n]) ('raw',cpp) ('sel',[n]) ('cap',id,name,[n]) ('rep',kind,a,b,[n]) ('set',neg,[cpp]) ('look',name,[n]) ('atomic',[n])"""

    def __init__(self, text):
        self.s, self.i, self.n = text, 0, 0
        self.fused = False

    def peek(self, k=0): return self.s[self.i + k] if self.i + k < len(self.s) else ""

    def eat(self, t):
        assert self.s.startswith(t, self.i), (self.s, self.i, t)
        self.i += len(t)

    def top(self):
        n = self.alternatives()
        assert self.i == len(self.s), self.s
        return n

    def alternatives(self):
        alts = [self.sequence()]
        while self.peek() == "|":
            self.eat("|")
            alts.append(self.sequence())
        r = alts[-1]
        for a in reversed(alts[:-1]):
            r = ("sel", [a] + r[1]) if r[0] == "sel" else ("sel", [a, r])
        return r

    def sequence(self):
        items = []
        while self.peek() not in ("", "|", ")"): items.append(self.repeated())
        if not items: return ("raw", "ctre::empty")
        r = items[-1]
        for a in reversed(items[:-1]): r = self.combine(a, r)
        return r

    def combine(self, a, b):
        if a[0] == "ch" and b[0] == "ch": return ("str", [a[1], b[1]])
        if a[0] == "ch" and b[0] == "str": return ("str", [a[1]] + b[1])
        if b[0] == "seq":
            h, t = b[1][0], b[1][1:]
            if a[0] == "ch" and h[0] == "ch": return ("seq", [("str", [a[1], h[1]])] + t)
            if a[0] == "ch" and h[0] == "str": return ("seq", [("str", [a[1]] + h[1])] + t)
            if a[0] == "rep" and h[0] == "rep" and a[1] == h[1] and a[4] == h[4]: self.fused = True
            return ("seq", [a] + b[1])
        if a[0] == "rep" and b[0] == "rep" and a[1] == b[1] and a[4] == b[4]: self.fused = True
        return ("seq", [a, b])

    def content(self, n): return n[1] if n[0] == "seq" else [n]

    def repeated(self):
        n = self.atom()
        c = self.peek()
        if c in "*+?" and c:
            self.eat(c)
            a, b = {"*": (0, 0), "+": (1, 0), "?": (0, 1)}[c]
            if c == "?" and n[0] == "rep" and n[2:4] == (0, 1) and len(n[4]) == 1 and n[1] in ("greedy", "lazy"):
                kind = self.mod()
                if n[1] == "lazy" and kind == "possessive": return ("rep", kind, 0, 1, [n])
                return ("rep", n[1] if kind == "greedy" else kind, 0, 1, n[4])
            return ("rep", self.mod(), a, b, self.content(n))
        if c == "{":
            self.eat("{")
            a = self.number()
            if self.peek() == "}":
                self.eat("}")
                return ("rep", "greedy", a, a, self.content(n)) if a else ("rep", "greedy", 0, 1, [("raw", "ctre::reject")] + self.content(n))
            self.eat(",")
            b = 0 if self.peek() == "}" else self.number()
            self.eat("}")
            return ("rep", self.mod(), a, b, self.content(n))
        return n

    def mod(self):
        if self.peek() == "?": self.eat("?"); return "lazy"
        if self.peek() == "+": self.eat("+"); return "possessive"
        return "greedy"

    def number(self):
        j = self.i
        while self.peek().isdigit() and self.peek(): self.i += 1
        return int(self.s[j:self.i])

    def name(self):
        j = self.i
        while self.peek() and (self.peek().isalnum() or self.peek() == "_"): self.i += 1
        return self.s[j:self.i]

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == "^": return ("raw", "ctre::assert_line_begin")
        if c == "$": return ("raw", "ctre::assert_line_end")
        if c == ".": return ("raw", "ctre::any")
        if c == "(": return self.group()
        if c == "[": return self.cls()
        if c == "\\": return self.escape()
        return ("ch", ord(c))

    def group(self):
        if self.peek() != "?":
            self.n += 1
            k = self.n
            n = self.alternatives(); self.eat(")")
            return ("cap", k, None, self.content(n))
        self.eat("?")
        for p, f in ((":", None), (">", "atomic"), ("=", "lookahead_positive"), ("!", "lookahead_negative"), ("<=", "lookbehind_positive"), ("<!", "lookbehind_negative")):
            if self.s.startswith(p, self.i):
                self.eat(p)
                n = self.alternatives(); self.eat(")")
                if f is None: return n
                if f == "atomic": return ("atomic", self.content(n))
                return ("look", f, self.content(n))
        if self.peek() == "<":
            self.eat("<"); nm = self.name(); self.eat(">")
            self.n += 1
            k = self.n
            n = self.alternatives(); self.eat(")")
            return ("cap", k, nm, self.content(n))
        ms = []
        while self.peek() != ")": ms.append(("raw", "ctre::mode_switch<ctre::pcre::%s>" % MODE[self.peek()])); self.i += 1
        self.eat(")")
        return ms[0] if len(ms) == 1 else ("seq", ms)

    def hexa(self, n):
        if self.peek() == "{":
            j = self.s.index("}", self.i)
            v = int(self.s[self.i + 1:j], 16)
            self.i = j + 1
            return v
        v = int(self.s[self.i:self.i + n], 16)
        self.i += n
        return v

    def escape(self, in_class=False):
        c = self.peek()
        self.i += 1
        if c in ESC: return ("ch", ESC[c])
        if c == "x": return ("ch", self.hexa(2))
        if c == "u": return ("ch", self.hexa(4))
        if c in "dwshv": return ("set", False, ["ctre::" + CLASS[c][1]])
        if c in "DWSHV": return ("set", True, ["ctre::" + CLASS[c.lower()][1]])
        if c == "N": return ("set", True, ["ctre::character<'\\n'>"])
        if c.isdigit(): return ("raw", "ctre::back_reference<%s>" % c)
        if c == "g":
            self.eat("{")
            if self.peek() == "-": self.eat("-"); k = self.number(); r = ("raw", "ctre::back_reference<%d>" % (self.n + 1 - k))
            elif self.peek().isdigit(): r = ("raw", "ctre::back_reference<%d>" % self.number())
            else: r = ("raw", "ctre::back_reference_with_name<ctre::id<%s>>" % ", ".join("'%s'" % x for x in self.name()))
            self.eat("}")
            return r
        A = {"A": "assert_subject_begin", "z": "assert_subject_end", "Z": "assert_subject_end_line", "b": "boundary<ctre::word_chars>", "B": "not_boundary<ctre::word_chars>"}
        if c in A: return ("raw", "ctre::" + A[c])
        return ("ch", ord(c))

    def cls(self):
        neg = self.peek() == "^"
        if neg: self.eat("^")
        items = []

        def one():
            if self.s.startswith("[:", self.i):
                self.eat("[:")
                no = self.peek() == "^"
                if no: self.eat("^")
                nm = self.name(); self.eat(":]")
                return ("raw", "ctre::negate<%s>" % NAMED[nm] if no else NAMED[nm])
            c = self.peek()
            self.i += 1
            if c == "\\": return self.escape(True)
            return ("ch", ord(c))
        while self.peek() != "]":
            n = one()
            if n[0] == "ch" and self.peek() == "-":
                self.eat("-")
                m = one()
                t = "ctre::char_range<%s, %s>" % (cv(n[1]), cv(m[1]))
            else: t = cpp(n)
            if t not in items: items.append(t)
        self.eat("]")
        return ("set", neg, items)


REP = {"greedy": "repeat", "lazy": "lazy_repeat", "possessive": "possessive_repeat"}


def cpp(n):
    k = n[0]
    if k == "ch": return "ctre::character<%s>" % cv(n[1])
    if k == "str": return "ctre::string<%s>" % ", ".join(map(cv, n[1]))
    if k == "raw": return n[1]
    if k == "seq": return "ctre::sequence<%s>" % ", ".join(map(cpp, n[1]))
    if k == "sel": return "ctre::select<%s>" % ", ".join(map(cpp, n[1]))
    if k == "cap": return "ctre::capture<%d, %s>" % (n[1], ", ".join(map(cpp, n[3]))) if n[2] is None else "ctre::capture_with_name<%d, ctre::id<%s>, %s>" % (n[1], ", ".join("'%s'" % c for c in n[2]), ", ".join(map(cpp, n[3])))
    if k == "rep": return "ctre::%s<%d, %d, %s>" % (REP[n[1]], n[2], n[3], ", ".join(map(cpp, n[4])))
    if k == "set": return "ctre::%s<%s>" % ("negative_set" if n[1] else "set", ", ".join(n[2]))
    if k == "atomic": return "ctre::atomic_group<%s>" % ", ".join(map(cpp, n[1]))
    if k == "look": return "ctre::%s<%s>" % (n[1], ", ".join(map(cpp, rot(n[2]) if "behind" in n[1] else n[2])))
    if k == "turned": return "ctre::%s<%s>" % (n[1], ", ".join(map(cpp, n[2])))
    raise AssertionError(n)


SWAP = {"assert_line_begin": "assert_line_end", "assert_line_end": "assert_line_begin", "assert_subject_begin": "assert_subject_end", "assert_subject_end": "assert_subject_begin"}


def rot(ns): return [rot1(n) for n in reversed(ns)]


def rot1(n):
    if n[0] == "str": return ("str", n[1][::-1])
    if n[0] == "seq": return ("seq", rot(n[1]))
    if n[0] == "sel": return ("sel", [rot1(x) for x in n[1]])
    if n[0] == "raw": return ("raw", "ctre::" + SWAP[n[1][6:]] if n[1][6:] in SWAP else n[1])
    if n[0] == "rep": return ("rep", n[1], n[2], n[3], rot(n[4]))
    # text read backwards: what lies ahead is now behind and the other way round; the content of each already
    # has the order it is read in
    if n[0] == "look": return ("turned", TURN[n[1]], rot(n[2]) if "behind" in n[1] else n[2])
    if n[0] == "turned": return ("turned", TURN[n[1]], n[2])
    return n


TURN = {"look%s_%s" % (a, s): "look%s_%s" % (b, s) for a, b in (("ahead", "behind"), ("behind", "ahead")) for s in ("positive", "negative")}


def texts():
    t = []
    add = t.extend
    # every printable character that stands for itself, and the ones that need an escape
    add([c for c in map(chr, range(32, 127)) if c not in "\\[(^$.|)*+?{}"])
    add(["\\" + c for c in "$()*+-./<>?[\\\"]^{|}"])
    add(["\\n", "\\t", "\\r", "\\0", "\\a", "\\e", "\\f", "\t", "\n", "\u00e9", "\u0416", "\u2028", "\U0001F600", "a\u00e9\U0001F600b", "\u007f", "\u0080", "\u00ff", "\u0100", "\uffff", "\U00010000", "\U0010ffff"])
    # code points
    hd = "0123456789abcdefABCDEF"
    add(["\\x%s%s" % (a, b) for a, b in zip(hd, hd[::-1])] + ["\\x0%s" % a for a in hd] + ["\\x%s0" % a for a in hd] + ["\\x41", "\\x7f", "\\x80", "\\xff", "\\x00"])
    add(["\\u%s123" % a for a in hd] + ["\\u0%s00" % a for a in hd] + ["\\u00%s1" % a for a in hd] + ["\\u123%s" % a for a in hd] + ["\\u0041", "\\u007F", "\\u0080", "\\uFFFF", "\\uD83D", "\\u00411", "\\x411"])
    add(["\\x{%s}" % v for v in ("0", "7", "41", "7f", "80", "0041", "00000041", "1F600", "10ffff", "10FFFF", "aBcD", "110000", "ffffffff", "7fffffff", "00000000000000000041")])
    add(["\\u{%s}" % v for v in ("0", "41", "e9", "1F600", "10ffff", "000000000041", "DEAD", "deadbeef")])
    # classes outside and inside a set
    esc = "dDwWsShHvVN"
    add(["\\" + c for c in esc] + ["[\\%s]" % c for c in esc] + ["[^\\%s]" % c for c in esc] + ["[a\\%sz]" % c for c in esc])
    add(["[%s[:%s:]]" % (a, n) for n in NAMED for a in ("", "^")] + ["[[:^%s:]]" % n for n in NAMED] + ["[^a[:%s:][:^%s:]b]" % (n, m) for n, m in zip(NAMED, list(NAMED)[3:])])
    add(["[a]", "[ab]", "[ba]", "[a-z]", "[^a-z]", "[a-cx-z]", "[aa]", "[a-za-z]", "[^]", "[abcabc]", "[^^]", "[^a^]", "[a^]", "[\\]]", "[\\^]", "[\\-]", "[a\\-z]", "[\\[]", "[\\\\]", "[\\]-a]", "[!-\\/]", "[!-~]", "[ -~]", "[+-\\-]", "[()*+?.|$]", "[{}]", "[/]", "[<>=!,:_\"]", "[.-9]", "[*-\\]]", "[^\\n]", "[\\n-\\r]", "[\\0-\\x{10ffff}]", "[\\x41-\\u005A]",
         "[\\x{41}-\\u{5a}]", "[\u00e9-\u0416]", "[a\u00e9]", "[^\u00e9]", "[\\x7f-\\x80]", "[\\t\\e\\a\\f]", "[0-9a-fA-F]", "[^0-9a-fA-F]", "[\\d\\w]", "[\\d.]", "[.\\d]", "[^\\s,]", "[a-]".replace("-]", "\\-]"), "[#%&';@`~]", "[\t-\r]", "[--a]".replace("--", "\\--"), "[&-+]", "[Z-a]", "[a-a]", "[\\\\-a]", "[!-^]"])
    # assertions
    add(["^", "$", "\\A", "\\z", "\\Z", "\\b", "\\B", "^a", "a$", "^a$", "\\Aa\\z", "a\\Z", "\\bab\\b", "a\\Bb", "a^b", "a$b", "^^", "$$", "^*", "$?"])
    # concatenation, alternation and their precedence
    add(["", "a", "ab", "abc", "abcdefghijklmnopqrstuvwxyz", "a|b", "a|b|c", "ab|cd", "ab|cd|ef", "|a", "a|", "|", "a|b|", "|a|b", "ab*|c+d", "a(?:b|c)d", "(?:a|b)|c", "a|(?:b|c)", "(?:a|b)(?:c|d)", "(?:|a)", "(?:a|)", "(?:)", "()", "(|)", "a(?:)b", "(?:ab)c", "a(?:bc)", "(?:ab)(?:cd)", "(?:a)b", "(?:a.)b", "a(?:b.)", "(?:a.)(?:b.)", ".a", "a.", "a.b", "a.b.c", "ab.cd", "a[b]c", "ab\\dcd", "(?:a|bc)", "(?:ab|c)d|e"])
    # repetition
    sufs = ["*", "+", "?", "*?", "+?", "??", "*+", "++", "?+", "{1}", "{2}", "{12}", "{0}", "{1,}", "{0,}", "{3,}", "{1,2}", "{0,1}", "{0,3}", "{2,2}", "{10,123}", "{1,}?", "{1,}+", "{2,3}?", "{2,3}+", "{0,1}?", "{0,1}+", "{0,}?", "{0,}+", "{007}", "{1,01}", "{99999}", "{18446744073709551615}"]
    add(["a" + s for s in sufs] + ["(?:ab)" + s for s in sufs] + ["(?:a.)" + s for s in sufs[:24]] + ["(a)" + s for s in sufs[:20]] + ["(?:a|b)" + s for s in sufs[:24]] + ["[ab]" + s for s in sufs[:10]] + ["\\d" + s for s in sufs[:10]] + ["." + s for s in sufs[:10]] + ["\\x41" + s for s in sufs[:12]] + ["(?=a)" + s for s in sufs[:4]] + ["(?>a)" + s for s in sufs[:4]])
    add(["ab*", "ab+c", "abc?", "ab{2}c", "a*b", "a*b*", "a?b?c?", "a+b+?c++", "x*(?:y*)z*", "a*ab", "(?:a*)*", "(?:a+)+", "(?:a{2}){3}", "(?:a*)?", "(?:a?)*", "(?:a??)*", "(?:a?)?", "(?:a??)?", "(?:a?)??", "(?:a??)??", "(?:a?)?+", "(?:a??)?+", "(?:a?+)?", "(?:a+?)?", "(?:a*+)*", "(?:(?:a?)?)?", "(?:(a)?)?", "(?:ab?)?", "(?:(?:ab)?)?", "(?:(?:a.)?)?", "(?:(?:a.)??)?+", "(a*)*", "(?:(?:a*)?){2}"])
    # groups and references
    add(["(a)", "(ab)", "(a.)", "(a|b)", "(a)(b)", "((a)b)", "(a(b(c)))(d)", "(?:(a)(?:(b)))", "(a)|(b)", "(?:a)(b)", "(?=(a))(b)", "(?!(a))(b)", "(?>(a))(b)", "(?>(a)|(b))(c)", "(a)*(b)", "(?<x>a)", "(?<abc_1>ab)", "(?<x>a)(?<y>b)", "(?<x>(?<y>a)b)(c)", "(?<x>a|b)", "(?<x>)", "(a)(?:b)(?<n>c)(d)", "(?i)(a)", "((?i)a)", "(?:(?s)(a))(b)", "((((((((((a))))))))))",
         "(a)\\1", "(a)(b)\\2\\1", "(a)\\10", "((((((((((a))))))))))\\g{10}", "(a)\\g{1}", "(a)\\g{-1}", "(a)(b)\\g{-1}\\g{-2}", "(a)(\\g{-1})", "(a)(\\g{-2})", "(a\\1)", "(?<x>a)\\g{x}", "(?<x>a)(?<y>\\g{x})", "(?<x>a)(?<y>(?<z>\\g{x})\\g{y})", "(?<x>a)(?<y>b\\g{x})", "(?<x>a)\\1", "(a)\\g{1}2", "(a)\\12", "(?<ab>a)\\g{ab}c", "(a)\\1*", "(a)(?:\\1){2}"])
    add(["(?>a)", "(?>ab)", "(?>a.)", "(?>a|b)", "(?>a*)a", "(?>)", "(?:(?>a)b)", "(?=a)", "(?=ab)", "(?=a.)", "(?=a|b)", "(?=)", "(?!a)", "(?!ab.)", "(?!a|b)", "(?!)", "(?<=a)", "(?<=ab)", "(?<=a.)", "(?<=a|b)", "(?<=ab|cd)", "(?<!a)", "(?<!ab)", "(?<!a.b)", "(?<!a|bc.)", "(?<=^a)", "(?<!a\\bb)", "(?<=\\Aa)", "(?<=a[b-d]c)", "(?<=[^a])", "a(?=b)c(?!d)(?<=c)(?<!e)f", "(?<=)", "(?<!)"])
    # modes
    add(["(?i)", "(?i)a", "(?c)a", "(?s)a", "(?m)a", "a(?i)b", "ab(?i)cd", "(?i)a(?c)b", "(?is)a", "(?ms)", "(?icsm)a.", "a(?im)b", "((?im)b)", "(?i)|a", "a|(?i)b", "(?:(?i)a)b", "(?i)a|b"])
    # longer ones
    add(["^(?:[a-z]+|\\d{2,3}?)$", "(?<year>\\d{4})/(?<month>\\d{1,2})/(?<day>\\d{1,2})", "([^\\\\\\]]*)", "^([a-z_]+[a-z0-9_]*)\\((.*?)\\);$", "a\\|b|c\\*", "[\\w.%+\\-]+@[\\w.\\-]+\\.[a-zA-Z]{2,}", "(?:(?:25[0-5]|2[0-4]\\d|1?\\d?\\d)\\.){3}(?:25[0-5])", "\"(?:[^\"\\\\]|\\\\.)*\"", "(?i)h(?c)e(?s)l(?m)lo", "(a(b(c|d)*)+|e(?:f|(g)))?h"])
    return t


def fusions():
    out = []
    for x in ("a", "[ab]", "(?:ab)", "(?:a|b)"):
        sufs = ["{1,3}", "{2,4}", "*", "+", "?", "{2}", "{0,2}", "{3,}", "{1,1}"] if x == "a" else ["{1,2}", "*", "?", "{2}"]
        for kind, m in (("greedy", ""), ("lazy", "?"), ("possessive", "+")):
            for s in sufs:
                for r in sufs:
                    if m and (s == "{2}" or r == "{2}"): continue
                    if x != "a" and kind == "greedy" and s == r and s == "*": continue
                    out.append(x + s + m + x + r + m)
    out += ["a*a*b", "a?a?a?", "a{1,2}a{1,2}a{1,2}b", "a*?a+?b", "a++a?+b", "a?+a++b", "a{1,2}+a*+b", "a+a*a?", "a{2}a{3}", "a{0}a{0}", "a{0}a*", "(?:a*)a*", "a*(?:a+b)", "a?+a{0,1}+a?+", "a{2}a?a", "a?aa?"]
    return out


PRELUDE = """#include "real.hpp"
using namespace probe;
"""


def cases():
    out, seen = [], set()
    for i, t in enumerate(texts()):
        if t in seen: continue
        seen.add(t)
        tr = Tr(t)
        n = tr.top()
        out.append((t, cpp(n), tr.fused))
    for t in fusions():
        if t in seen: continue
        seen.add(t)
        out.append((t, cpp(Tr(t).top()), True))
    return out


def ob(name, text, ast, tier):
    wide = ast.count("repeat<") > 1
    impl = "return ctre::evaluate(It{b}, It{c}, It{l}, make_flags(blk, ml, ci), R{R::raw{r}}, ctll::list<T<%s>, KA<>, KB>()).h;"
    return valg.Ob(name, impl % literal(text), (impl % "@").replace("T<@>", ast), bounds=False, unroll=3 if not wide else 2 if tier == "quick" else 3, where="pattern text " + repr(text), flags=[{"blk": 0, "ml": 0, "ci": 0}])


def run(ctx):
    rule = "the text is translated to the construct its syntax denotes (the same type, or the same value graph before an opaque rest)"
    same, fuse = [], []
    for i, (t, ast, fused) in enumerate(cases()): (fuse if fused else same).append((i, t, ast))
    ctx.same([("syntax_%d" % i, literal(t), ast, repr(t), ob("syntax_%d" % i, t, ast, ctx.tier)) for i, t, ast in same], PRELUDE, rule)
    ctx.valg([ob("fusion_%d" % i, t, ast, ctx.tier) for i, t, ast in fuse], PRELUDE, what="equal", defines=["-DPROBE_CHAR=unsigned char"], rule="neighbouring repetitions of the same content match as one after the other", noncompiling="violated")
    ctx.same([("zero_upper_bound", '"a{0,0}"', "ctre::repeat<0, 1, ctre::reject, ctre::character<'a'>>", "'a{0,0}'", ob("zero_upper_bound", "a{0,0}", "ctre::repeat<0, 1, ctre::reject, ctre::character<'a'>>", ctx.tier))], PRELUDE, rule)
