"""Obligations about the matching of each construct."""
from .valg import Ob

PRELUDE = '#include "probe.hpp"\n#include "ref.hpp"\nusing namespace probe;\n'
REF = "return ref::%s(ref::S{b, l}, c, ref::F{blk, ml, ci}, r%s);"


def fwd(types, last="End"):
    return ("return ctre::evaluate(It{b}, It{c}, %s{l}, make_flags(blk, ml, ci), R{R::raw{r}}, ctll::list<%s>()).h;" % (last, types))


def rev(types):
    return ("return ctre::evaluate(std::make_reverse_iterator(It{l}), std::make_reverse_iterator(It{c}), std::make_reverse_iterator(It{b}), make_flags(blk, ml, ci), R{R::raw{r}}, ctll::list<%s>()).h;" % types)


def pair(name, types, ref, refargs="", both=True, **kw):
    out = [Ob(name, fwd(types), REF % (ref % "ref::Fwd" if "%s" in ref else ref, refargs), where="evaluate(%s)" % types, **kw)]
    if both: out.append(Ob(name + "_behind", rev(types), REF % (ref % "ref::Rev", refargs), where="evaluate(%s), walking backwards" % types, **kw))
    return out


KK = ", KA<>, KB"


def anchors():
    o = []
    o += pair("subject_begin", "ctre::assert_subject_begin" + KK, "subject_begin<%s>")
    o += pair("subject_end", "ctre::assert_subject_end" + KK, "subject_end<%s>")
    o += pair("subject_end_line", "ctre::assert_subject_end_line" + KK, "subject_end_line<%s>")
    o += pair("line_begin", "ctre::assert_line_begin" + KK, "line_begin<%s>")
    o += pair("line_end", "ctre::assert_line_end" + KK, "line_end<%s>")
    o += pair("boundary", "ctre::boundary<Ch<1>>" + KK, "word_boundary<%s, false>")
    o += pair("not_boundary", "ctre::not_boundary<Ch<1>>" + KK, "word_boundary<%s, true>")
    return o


def characters():
    o = []
    o += pair("character", "Ch<1>" + KK, "one<%s>")
    o += pair("any", "ctre::any" + KK, "any<%s>")
    return o


def texts():
    o = []
    o += pair("string", "ctre::string<'a', '1', 'Z'>" + KK, "text<%s, U'a', U'1', U'Z'>", flags=[{"ci": 0}, {"ci": 1}])
    o += pair("string_one", "ctre::string<'k'>" + KK, "text<%s, U'k'>")
    o += pair("string_none", "ctre::string<>" + KK, "text<%s>")
    o += pair("string_wide", "ctre::string<U'\\x10FFFF', U'\\xE9', U'['>" + KK, "text<%s, U'\\x10FFFF', U'\\xE9', U'['>")
    return o


def groups():
    o = []
    X = "ref::%s::X<%s>(ref::S{b, l}, c, ref::F{blk, ml, ci}, %s)"

    def alts(n):
        def f(d):
            s = ""
            for i in range(1, n + 1): s += "{ auto x = ref::%s::X<%d, KA<>, KB>(ref::S{b, l}, c, ref::F{blk, ml, ci}, r); if (ref::ok(x)) return x; } " % (d, i)
            return s + "return ref::nm();"
        return f
    for n in (0, 1, 2, 3, 5):
        t = "ctre::select<%s>" % ", ".join("X<%d>" % i for i in range(1, n + 1)) + KK
        o.append(Ob("select_%d" % n, fwd(t), alts(n)("Fwd"), where="evaluate(select of %d)" % n))
        o.append(Ob("select_%d_behind" % n, rev(t), alts(n)("Rev"), where="evaluate(select of %d), walking backwards" % n))
    for n in (1, 2, 3, 5):
        xs = ["X<%d>" % i for i in range(1, n + 1)]
        for d, mk in (("Fwd", fwd), ("Rev", rev)):
            rest = ", ".join(["1"] + xs[1:] + ["KA<>", "KB"])
            o.append(Ob("sequence_%d%s" % (n, "_behind" if d == "Rev" else ""), mk("ctre::sequence<%s>" % ", ".join(xs) + KK),
                        "return ref::%s::X<%s>(ref::S{b, l}, c, ref::F{blk, ml, ci}, r);" % (d, rest), where="evaluate(sequence of %d)" % n))
    for d, mk in (("Fwd", fwd), ("Rev", rev)):
        sfx = "_behind" if d == "Rev" else ""
        K = "return ref::%s::K(ref::S{b, l}, c, ref::F{blk, ml, ci}, %%s);" % d
        o.append(Ob("empty" + sfx, mk("ctre::empty" + KK), K % "r", where="evaluate(empty)"))
        # an alternative among others: what an abandoned option did is forgotten
        o.append(Ob("select_nested" + sfx, mk("ctre::select<ctre::sequence<X<1>, X<2>>, ctre::empty, X<3>>" + KK),
                    "{ auto x = ref::%s::X<1, X<2>, KA<>, KB>(ref::S{b, l}, c, ref::F{blk, ml, ci}, r); if (ref::ok(x)) return x; } { auto x = ref::%s::K(ref::S{b, l}, c, ref::F{blk, ml, ci}, r); if (ref::ok(x)) return x; } return ref::%s::X<3, KA<>, KB>(ref::S{b, l}, c, ref::F{blk, ml, ci}, r);" % (d, d, d), where="evaluate(select)"))
        o.append(Ob("select_chars" + sfx, mk("ctre::select<Ch<1>, Ch<2>>" + KK),
                    "{ const auto x = [&](size_t id) { using D = ref::%s; ref::S s{b, l}; if (D::at_end(s, c)) return ref::nm(); if (!ch_match(id, D::get(c), ml, ci)) return ref::nm(); return D::K(s, D::next(c), ref::F{false, ml, ci}, r); }; auto y = x(1); if (ref::ok(y)) return y; return x(2); }" % d, where="evaluate(select of characters)"))
    return o


def repeats(tier):
    pairs = [(0, 0), (1, 0), (2, 0), (0, 1), (0, 2), (1, 1), (1, 3), (2, 2), (2, 4), (3, 2), (3, 0)]
    if tier == "thorough": pairs += [(0, 3), (3, 3), (4, 6), (5, 0), (1, 2), (5, 1)]
    return pairs


LOOP = "ref::loop<%s, X<1>>"


def loops(kind, tier, body="X<1>"):
    o = []
    cls = {"greedy": "repeat", "lazy": "lazy_repeat", "possessive": "possessive_repeat"}[kind]
    for a, b in repeats(tier):
        o += pair("%s_%d_%d" % (kind, a, b), "ctre::%s<%d, %d, X<1>>%s" % (cls, a, b, KK),
                  kind + "<%%s, ref::loop<ref::Fwd, X<1>>, %d, %d>" % (a, b), both=False,
                  unroll=max(a, b) + (3 if tier == "quick" else 6))
    for a, b in ((0, 0), (2, 3)):
        o += pair("%s_%d_%d_two" % (kind, a, b), "ctre::%s<%d, %d, X<1>, X<2>>%s" % (cls, a, b, KK),
                  kind + "<%%s, ref::loop<ref::Fwd, X<1>, X<2>>, %d, %d>" % (a, b), both=False, unroll=b + 2)
    return o


def atomics():
    return (pair("atomic", "ctre::atomic_group<X<1>>" + KK, "atomic<%s, ref::loop<ref::Fwd, X<1>>>", both=False)
            + pair("atomic_two", "ctre::atomic_group<X<1>, X<2>>" + KK, "atomic<%s, ref::loop<ref::Fwd, X<1>, X<2>>>", both=False))


def lookarounds():
    o = []
    for neg in (0, 1):
        n = ("negative" if neg else "positive")
        t = "ctre::lookahead_%s<X<1>, X<2>>%s" % (n, KK)
        o += pair("lookahead_" + n, t, "ahead<%%s, %s>" % ("true" if neg else "false"), both=True)
        t = "ctre::lookbehind_%s<X<1>, X<2>>%s" % (n, KK)
        o.append(Ob("lookbehind_" + n, fwd(t, "It"), REF % ("behind<%s>" % ("true" if neg else "false"), ""), where="evaluate(%s)" % t))
    return o


def marks():
    o = []
    K = "return ref::Fwd::K(ref::S{b, l}, c, ref::F{blk, ml, ci}, %s);"
    o.append(Ob("start_mark", fwd("ctre::start_mark" + KK), K % "r_set_start(r, c)"))
    o.append(Ob("end_mark", fwd("ctre::end_mark" + KK), K % "r_set_end(r, c)"))
    o.append(Ob("accept", fwd("ctre::accept"), "return r_matched(r);"))
    o.append(Ob("reject", fwd("ctre::reject" + KK), "return r_nm();"))
    o.append(Ob("numeric_mark", fwd("ctre::numeric_mark<3>" + KK), K % "r_end_capture(r, 3, c)"))
    o.append(Ob("capture", fwd("ctre::capture<3, X<1>>" + KK), "return ref::Fwd::X<1, ctre::numeric_mark<3>, KA<>, KB>(ref::S{b, l}, c, ref::F{blk, ml, ci}, r_start_capture(r, 3, c));"))
    o.append(Ob("capture_two", fwd("ctre::capture<2, X<1>, X<2>>" + KK), "return ref::Fwd::X<1, X<2>, ctre::numeric_mark<2>, KA<>, KB>(ref::S{b, l}, c, ref::F{blk, ml, ci}, r_start_capture(r, 2, c));"))
    o.append(Ob("capture_named", fwd("ctre::capture_with_name<3, name_of<5>, X<1>>" + KK), "return ref::Fwd::X<1, ctre::numeric_mark<3>, KA<>, KB>(ref::S{b, l}, c, ref::F{blk, ml, ci}, r_start_capture(r, 3, c));"))
    return o


def inner_marks():
    o = []
    o.append(Ob("end_cycle", fwd("ctre::end_cycle_mark"), "return blk ? r_nm() : r_matched(r_set_end(r, c));"))
    o.append(Ob("end_lookahead", fwd("ctre::end_lookahead_mark"), "return r_matched(r);"))
    o.append(Ob("end_lookbehind", rev("ctre::end_lookbehind_mark"), "return r_matched(r);"))
    o.append(Ob("end_lookahead_behind", rev("ctre::end_lookahead_mark"), "return r_matched(r);"))
    return o


def backrefs():
    o = []
    for last in ("End", "It"):
        sfx = "" if last == "End" else "_same_type"
        o.append(Ob("backref" + sfx, fwd("ctre::back_reference<2>" + KK, last), REF % ("backref", ", 2"), unroll=2, flags=[{"ci": 0, "ml": 0}, {"ci": 1, "ml": 1}]))
    o.append(Ob("backref_named", fwd("ctre::back_reference_with_name<name_of<4>>" + KK), REF % ("backref", ", 4"), unroll=2, flags=[{"ci": 0, "ml": 0}, {"ci": 1, "ml": 1}]))
    return o


def modes():
    o = []
    for d, mk in (("Fwd", fwd), ("Rev", rev)):
        sfx = "_behind" if d == "Rev" else ""
        for n, f in (("case_insensitive", "blk, ml, true"), ("case_sensitive", "blk, ml, false"), ("singleline", "blk, false, ci"), ("multiline", "blk, true, ci")):
            o.append(Ob("switch_" + n + sfx, mk("ctre::mode_switch<ctre::pcre::mode_%s>" % n + KK), "return ref::%s::K(ref::S{b, l}, c, ref::F{%s}, r);" % (d, f)))
    return o
