"""A search finds what trying every position finds, however the pattern begins."""
from . import valg

PRELUDE = '#include "probe.hpp"\n#include "ref.hpp"\n#include "api.hpp"\n#include "real.hpp"\nusing namespace probe;\n'
Y = "Y<1, 1>"
BEG, LIN, SEND, LEND, EL = "ctre::assert_subject_begin", "ctre::assert_line_begin", "ctre::assert_subject_end", "ctre::assert_line_end", "ctre::assert_subject_end_line"
B, NB = "ctre::boundary<Ch<1>>", "ctre::not_boundary<Ch<1>>"
S = lambda *a: "ctre::sequence<%s>" % ", ".join(a)
C = "ctre::"


def shapes(tier):
    out = {}

    def add(*a): out[S(*a)] = None
    for a in (BEG, LIN):
        add(a, Y); add(Y, a); add(B, a, Y); add(NB, a, Y); add(a, B, Y)
        add(a, a, Y); add(C + "empty", a, Y); add(a); add(Y, a, Y)
        for o in (Y, BEG, LIN, C + "empty", S(a, Y), S(Y, a)):
            add("ctre::select<%s, %s>" % (S(a, Y), o)); add("ctre::select<%s, %s>" % (o, S(a, Y)))
            add("ctre::select<%s, %s>" % (a, o), Y); add("ctre::select<%s, %s>" % (o, a), Y)
            add("ctre::select<%s, %s, %s>" % (a, a, o), Y)
            add("ctre::select<%s, %s>" % (o, C + "empty"), a, Y)
        for k in ("repeat", "lazy_repeat", "possessive_repeat"):
            for lo, hi in ((0, 1), (1, 1), (0, 2), (1, 2), (2, 2)):
                r = "ctre::%s<%d, %d, %%s>" % (k, lo, hi)
                add(r % a, Y); add(r % (a + ", " + Y)); add(r % Y, a)
                if hi == 1 or tier == "thorough":
                    add(r % (a + ", " + Y), a, Y); add(r % B, a, Y); add(r % ("ctre::select<%s, %s>" % (a, Y)))
            add("ctre::%s<0, 0, %s>" % (k, a), Y); add("ctre::%s<1, 0, %s>" % (k, a), Y)
        for k in ("optional", "lazy_optional"):
            add("ctre::%s<%s>" % (k, a), Y); add("ctre::%s<%s, %s>" % (k, a, Y)); add("ctre::%s<%s>" % (k, Y), a); add("ctre::%s<%s, %s>" % (k, a, Y), a, Y); add("ctre::%s<%s>" % (k, B), a, Y)
        add("ctre::star<%s>" % a, Y); add("ctre::plus<%s>" % a, Y); add("ctre::lazy_plus<%s, %s>" % (a, B), Y)
        add("ctre::capture<1, %s>" % a, Y); add("ctre::capture<1, %s, %s>" % (a, Y)); add("ctre::capture<1, %s>" % Y, a); add("ctre::capture<1, ctre::optional<%s>>" % a, Y)
        add("ctre::capture_with_name<1, ctre::id<'a'>, %s, %s>" % (a, Y)); add("ctre::capture_with_name<1, ctre::id<'a'>, %s>" % Y, a)
        add("ctre::atomic_group<%s, %s>" % (a, Y)); add("ctre::atomic_group<%s>" % Y, a); add("ctre::atomic_group<ctre::optional<%s>>" % a, Y)
        for n in ("lookahead_positive", "lookahead_negative", "lookbehind_positive", "lookbehind_negative"):
            add("ctre::%s<%s>" % (n, a), Y)
        add("ctre::lookahead_negative<%s>" % Y, a, Y)
        for m in ("multiline", "singleline", "case_insensitive"):
            add("ctre::mode_switch<ctre::pcre::mode_%s>" % m, a, Y)
            add("ctre::select<%s, %s>" % (S("ctre::mode_switch<ctre::pcre::mode_%s>" % m, a), a), Y)
        for e in (SEND, LEND, EL): add(e, a); add("ctre::select<%s, %s>" % (a, e), Y)
    for m in ("multiline", "singleline"):
        add("ctre::mode_switch<ctre::pcre::mode_%s>" % m, "ctre::optional<%s>" % LIN, Y)
    for e in (SEND, LEND, EL, B, NB): add(e, Y); add(Y, e)
    add("ctre::select<>"); add("ctre::empty"); add(Y); add("ctre::select<%s>" % Y)
    return list(out)


def searches(tier):
    o = []
    k = 0
    for t in shapes(tier):
        for ml in (0, 1):
            if ml and "line" not in t: continue
            mod = "ctll::list<ctre::%s, ctre::case_sensitive>" % ("singleline", "multiline")[ml]
            if ml and "repeat<0, 2, Y" in t or ml and "repeat<1, 2, Y" in t: continue
            heavy = t.count("Y<") + t.count("repeat") > 3
            impl = "return whole(ctre::search_method::exec<%s>(It{b}, It{c}, It{l}, %s{}));" % (mod, t)
            ref = ("for (ref::I i = c;; i = it_next(i)) { auto x = ctre::evaluate(It{b}, It{i}, It{l}, ctre::flags{%s{}}, ctre::return_type<It, %s>{}, ctll::list<ctre::start_mark, %s, ctre::end_mark, ctre::accept>()); if (x) return whole(x); if (it_eq(i, l)) return ref::no(); }" % (mod, t, t))
            o.append(valg.Ob("search_%d" % k, impl, ref, sig="api", raw=True, unroll=1 if ml and t.find("Y<") < t.rfind("line_begin") else 2 if heavy or ml else 3, where="search for " + t.replace("ctre::", "") + (" in multiline mode" if ml else "")))
            k += 1
    return o
