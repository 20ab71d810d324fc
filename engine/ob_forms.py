"""C28: all the ways to state a pattern and a subject.

The units of the subject are opaque, its length is enumerated.  Every entry point on every form of subject is held to what the operation
does with one pattern that shows the mode of lines, the mode of case and the bounds of the subject; written down by hand in probes/forms.hpp."""
from . import valg

PRELUDE = '#include "forms.hpp"\nusing namespace ctre::literals;\n'
PAT = {False: '"^(a)b?"', True: 'u8"^(\\u00e1)b?"'}
ONE = ["match", "starts_with", "search"]
MANY = ["search_all", "range", "tokenize", "split"]
METHODS = ONE + MANY + ["iterator"]


def ob(name, impl, unit, m, n, ml, ci, wide=False, where="", cstr=False, cost=1, pre="", lo=0):
    p = "const auto s = reinterpret_cast<const %s *>(p); " % unit
    r = "return form::%s::ref<%s, %s, %s>(form::Sub<%s>{s, %s});" % (m, str(ml).lower(), str(ci).lower(), str(wide).lower(), unit, "%d" % n)
    if cstr: p += "".join("if (s[%d] == 0) return 0; " % i for i in range(n)) + "if (s[%d] != 0) return 0; " % n
    size = {"char": 1, "char8_t": 1, "unsigned char": 1, "char16_t": 2, "wchar_t": 4, "char32_t": 4}[unit]
    return valg.Ob(name, p + pre + impl, p + pre + r, sig="mem", raw=True, unroll=8, bounds=True, reads=(0, (n + cstr) * size), where=where, cost=cost)


def show(m, call): return "return form::%s(s, %s);" % ("seen" if m in ONE else "from" if m == "iterator" else "all", call)


def name_of(m, ml): return ("multiline_" if ml else "") + m


def entries(tier):
    """every entry point, over two pointers"""
    o = []
    top = 3 if tier == "quick" else 5
    for m in METHODS:
        for n in range(0, top + 1):
            a = "s, s + %d" % n
            for ml in (False, True):
                full = name_of(m, ml)
                P = PAT[False]
                ways = {
                    "template": ("ctre::%s<%s>(%s)" % (full, P, a), False),
                    "exec": ("ctre::%s<%s>.exec(%s)" % (full, P, a), False),
                    "extract": ("ctre::%s<%s>.try_extract(%s)" % (full, P, a), False),
                    "ci": ("ctre::%s<%s, ctre::case_insensitive>(%s)" % (full, P, a), True),
                    "cs": ("ctre::%s<%s, ctre::case_sensitive>(%s)" % (full, P, a), False),
                }
                if ml: ways["modifier"] = ("ctre::%s<%s, ctre::multiline>(%s)" % (m, P, a), False); ways["modifiers"] = ("ctre::%s<%s, ctre::multiline, ctre::case_insensitive>(%s)" % (m, P, a), True)
                else: ways["modifier"] = ("ctre::multiline_%s<%s, ctre::singleline>(%s)" % (m, P, a), False)
                if m != "search_all":
                    ways["literal"] = ("%s_ctre.%s(%s)" % (P, full, a), False)
                    ways["re"] = ("ctre::re<%s>().%s(%s)" % (P, full, a), False)
                    ways["object"] = ("ctre::regular_expression(T<%s>{}).%s(%s)" % (P, full, a), False)
                for w, (call, ci) in ways.items():
                    if tier == "quick" and w in ("exec", "extract", "cs", "object") and n != 3: continue
                    o.append(ob("%s_%s_%d" % (w, full, n), show(m, call), "char", m, n, ml, ci, where=call, cost=n * (3 if m in MANY else 1)))
    return o


def subjects(tier):
    """every form of subject, for every operation"""
    o = []
    top = (2, 3) if tier == "quick" else (0, 1, 2, 3, 4, 5)
    CHARS = {"char": "", "wchar_t": "w", "char16_t": "u16", "char32_t": "u32", "char8_t": "u8"}
    for unit, pre in CHARS.items():
        wide = unit == "char8_t"
        S, V = "std::%sstring" % pre, "std::%sstring_view" % pre
        for n in top:
            if wide: n += 1
            forms = {
                "view": ("", "%s(s, %d)" % (V, n)),
                "string": ("form::string_at<%s, %s> h(s, %d); " % (S, unit, n), "std::as_const(*h)"),
                "string_lvalue": ("form::string_at<%s, %s> h(s, %d); " % (S, unit, n), "*h"),
                "string_rvalue": ("form::string_at<%s, %s> h(s, %d); " % (S, unit, n), "std::move(*h)"),
                "view_lvalue": ("%s v(s, %d); " % (V, n), "v"),
                "view_const": ("const %s v(s, %d); " % (V, n), "v"),
            }
            if not wide: forms.update({
                "pointers": ("", "s, s + %d" % n),
                "view_iterators": ("%s v(s, %d); " % (V, n), "v.begin(), v.end()"),
                "string_iterators": ("form::string_at<%s, %s> h(s, %d); " % (S, unit, n), "(*h).begin(), (*h).end()"),
                "vector": ("form::vector_at<std::vector<%s>, %s> h(s, %d); " % (unit, unit, n), "std::as_const(*h)"),
                "vector_lvalue": ("form::vector_at<std::vector<%s>, %s> h(s, %d); " % (unit, unit, n), "*h"),
                "mine": ("form::Mine<%s> h{s, %d}; " % (unit, n), "h"),
                "span": ("", "std::span<const %s>(s, %d)" % (unit, n)),
                "pointer_end": ("form::Mine<%s> h{s, %d}; " % (unit, n), "h.begin(), h.end()"),
            })
            else: forms["range"] = ("const ctre::utf8_range h{std::u8string_view(s, %d)}; " % n, "h")
            if unit != "wchar_t": forms["wrapped"] = ("struct W { %s v; operator %s() const { return v; } } h{%s(s, %d)}; " % (V, V, V, n), "h")
            cforms = {}
            if unit in ("char", "wchar_t"): cforms = {"cstring": ("", "s"), "array": ("const auto & h = reinterpret_cast<const %s (&)[%d]>(*s); " % (unit, n + 1), "h"), "buffer": ("auto & h = reinterpret_cast<%s (&)[%d]>(*const_cast<%s *>(s)); " % (unit, n + 1, unit), "h")}
            else: cforms = {"cstring": ("", "s"), "array": ("const auto & h = reinterpret_cast<const %s (&)[%d]>(*s); " % (unit, n + 1), "h")}
            for m in METHODS:
                for ml in (False, True):
                    if ml and tier == "quick" and m not in ("search", "split"): continue
                    full = name_of(m, ml)
                    for cs, fs in ((False, forms), (True, cforms)):
                        for f, (mk, arg) in fs.items():
                            if m == "range": continue
                            if tier == "quick" and unit not in ("char", "char8_t") and f in ("string_lvalue", "view_lvalue", "view_const", "string_rvalue", "vector_lvalue", "pointer_end", "view_iterators", "wrapped") and m not in ("match",): continue
                            if tier == "quick" and n == top[0] and m not in ("match", "search"): continue
                            pre_ = mk
                            if wide: pre_ += "if (!enc::text(enc::F8{}, s, %d).ok) return 0; " % n
                            call = "ctre::%s<%s>(%s)" % (full, PAT[wide], arg)
                            o.append(ob("%s_%s_%s_%d" % (f, unit, full, n), show(m, call), unit, m, n, ml, False, wide=wide, cstr=cs, pre=pre_, where="%s with %s of %s" % (call, f, unit), cost=n * (3 if m in MANY else 1) + wide * 3))
    return o


def pipes(tier):
    o = []
    n = 3 if tier == "quick" else 4
    for unit, pre in (("char", ""), ("char8_t", "u8"), ("char16_t", "u16")):
        wide = unit == "char8_t"
        S, V = "std::%sstring" % pre, "std::%sstring_view" % pre
        forms = {"view": ("", "%s(s, %d)" % (V, n), False), "string": ("form::string_at<%s, %s> h(s, %d); " % (S, unit, n), "*h", False), "view_lvalue": ("const %s h(s, %d); " % (V, n), "h", False)}
        if not wide: forms["vector"] = ("form::vector_at<std::vector<%s>, %s> h(s, %d); " % (unit, unit, n), "*h", False); forms["mine"] = ("form::Mine<%s> h{s, %d}; " % (unit, n), "h", False)
        if unit == "char": forms["array"] = ("const auto & h = reinterpret_cast<const char (&)[%d]>(*s); " % (n + 1), "h", True)
        for f, (mk, arg, cs) in forms.items():
            for m in MANY:
                for ml in (False, True):
                    for ci in (False, True):
                        if (ml, ci) in ((True, True), (False, True)) and f != "view": continue
                        if ci and wide: continue
                        P = PAT[wide] + (", ctre::case_insensitive" if ci else "")
                        call = "%s | ctre::%s<%s>" % (arg, name_of(m, ml), P)
                        pr = mk + ("if (!enc::text(enc::F8{}, s, %d).ok) return 0; " % n if wide else "")
                        o.append(ob("pipe_%s_%s_%s_%d" % (f, unit, name_of(m, ml), ci), show(m, call), unit, m, n, ml, ci, wide=wide, cstr=cs, pre=pr, where=call, cost=9))
    # from a range of subjects: the operation on each of them
    for m in ONE:
        for ml in (False, True):
            for ci in (False, True):
                P = PAT[False] + (", ctre::case_insensitive" if ci else "")
                for k, (a, b) in enumerate(((2, 1), (0, 3), (1, 0))):
                    mk = "const std::array<std::string_view, 2> h{std::string_view(s, %d), std::string_view(s + %d, %d)}; " % (a, a, b)
                    call = "h | ctre::%s<%s>" % (name_of(m, ml), P)
                    # subjects that do not match are left out
                    impl = "uint64_t r = 1; for (const auto & m : %s) r = r << 24 | form::seen(s, m); return r;" % call
                    o1 = ob("pipe_subjects_%s_%d_%d" % (name_of(m, ml), ci, k), impl, "char", m, a + b, ml, ci, where=call + " on a range of subjects", cost=9)
                    t = ", ".join(str(x).lower() for x in (ml, ci, False))
                    o1.ref = ("const auto s = reinterpret_cast<const char *>(p); " + mk + "uint64_t r = 1; const uint64_t f1 = form::%s::ref<%s>(form::Sub<char>{s, %d}), f2 = form::%s::ref<%s>(form::Sub<char>{s + %d, %d}); "
                              "if (f1) r = r << 24 | f1; if (f2) r = r << 24 | (f2 + (%dull << 4) + (%dull << 8) + (%dull << 16) + (%dull << 20)); return r;") % (m, t, a, m, t, a, b, a, a, a, a)
                    o1.impl = o1.impl.replace("uint64_t r = 1;", mk + "uint64_t r = 1;", 1)
                    o.append(o1)
    return o


PRELUDE17 = """#include <ctre.hpp>
#include "forms.hpp"
using namespace ctre::literals;
static constexpr auto fixed = ctll::fixed_string{"^(a)b?"};
static constexpr auto pattern = ctre::pattern{"^(a)b?"};
static constexpr auto named = ctre::fixed_string{"^(a)b?"};
"""


def older(tier):
    """C++17: the pattern is a named object"""
    o = []
    for m in METHODS:
        for ml in (False, True):
            full = name_of(m, ml)
            for n in (0, 2, 3) if tier == "quick" else range(6):
                ways = {w: ("ctre::%s<%s>(std::string_view(s, %d))" % (full, w, n), False) for w in ("fixed", "pattern", "named")}
                ways["ci"] = ("ctre::%s<pattern, ctre::case_insensitive>(std::string_view(s, %d))" % (full, n), True)
                ways["exec"] = ("ctre::%s<pattern>.exec(s, s + %d)" % (full, n), False)
                if m in MANY: ways["pipe"] = ("std::string_view(s, %d) | ctre::%s<pattern>" % (n, full), False)
                if m != "search_all":
                    ways["literal"] = ("%s_ctre.%s(std::string_view(s, %d))" % (PAT[False], full, n), False)
                    ways["re"] = ("ctre::re<pattern>().%s(std::string_view(s, %d))" % (full, n), False)
                for w, (call, ci) in ways.items():
                    x = ob("older_%s_%s_%d" % (w, full, n), show(m, call), "char", m, n, ml, ci, where="C++17: " + call, cost=n)
                    x.sig = "memc"
                    o.append(x)
    return o
