"""Obligations about results: access, comparison, conversion."""
from . import valg
from .ob_api import LIST

PRELUDE = '#include "results.hpp"\nusing namespace probe;\nusing namespace std;\n'


def Res(name, impl, ref, **kw): return valg.Ob(name, impl, ref, sig="res", raw=True, bounds=False, **kw)


MK = "const auto r = make<const %s *>(%s(b), %s(e), %s(gb), %s(ge), %s(hb), %s(he), ok, gok, hok); "


def mk(t, f): return MK % ((t,) + (f,) * 6)


def access():
    """every way to name a group and to look at it gives the same range"""
    o = []
    m = mk("Unit", "U")
    want = {0: ("b", "e", "ok"), 1: ("gb", "ge", "gok"), 2: ("hb", "he", "hok")}

    def show(n):
        b, e, k = want[n]
        return "return %s ? o_list(o_list(o_ptr(%s), o_ptr(%s)), o_list(o_ptr(%s), o_int((size_t)(U(%s) - U(%s))))) : o_no();" % (k, b, e, b, e, b)
    L = "return g ? look(g) : o_no();"
    for n in want:
        o.append(Res("get_%d" % n, m + "const auto g = r.get<%d>(); " % n + L, show(n), where="regex_results::get<%d>" % n))
        o.append(Res("free_get_%d" % n, m + "const auto g = ctre::get<%d>(r); " % n + L, show(n), where="ctre::get<%d>" % n))
        o.append(Res("adl_get_%d" % n, m + "const auto g = get<%d>(r); " % n + L, show(n), where="get<%d>" % n))
        o.append(Res("binding_%d" % n, m + "const auto [g0, g1, g2] = r; const auto & g = g%d; " % n + L, show(n), where="structured binding %d" % n))
        b, e, k = want[n]
        for f in ("to_view().t", "view().t", "to_string().t", "str().t"):
            o.append(Res("get_%d_%s" % (n, f.split("(")[0]), m + "const auto g = r.get<%d>(); return g ? g.%s : o_no();" % (n, f), "return %s ? o_text(%s, (size_t)(U(%s) - U(%s))) : o_no();" % (k, b, e, b), where="storage::" + f))
        o.append(Res("get_%d_unsafe" % n, m + "const auto g = r.get<%d>(); return g ? o_list(o_ptr(g.data_unsafe()), o_int(g.unit_size())) : o_no();" % n, "return %s ? o_list(o_ptr(%s), o_int((size_t)(U(%s) - U(%s)))) : o_no();" % (k, b, e, b), where="storage::data_unsafe"))
    o.append(Res("get_named", m + "const auto g = r.get<named>(); " + L, show(2), where="get<Name>"))
    o.append(Res("get_literal", m + 'const auto g = r.get<"name">(); ' + L, show(2), where="get<\"name\">"))
    o.append(Res("whole", m + "return r ? look(r) : o_no();", show(0), where="regex_results::begin/end/data/size"))
    for f in ("to_view().t", "view().t", "to_string().t", "str().t"):
        o.append(Res("whole_" + f.split("(")[0], m + "return r ? r.%s : o_no();" % f, "return ok ? o_text(b, (size_t)(U(e) - U(b))) : o_no();", where="regex_results::" + f))
    o.append(Res("end_position", m + "return o_ptr(r.get_end_position());", "return o_ptr(e);", where="get_end_position"))
    return o


def truth():
    o = []
    m = mk("Unit", "U")
    for n, k in ((0, "ok"), (1, "gok"), (2, "hok")):
        o.append(Res("bool_%d" % n, m + "return o_bool(bool(r.get<%d>()));" % n, "return o_bool(%s);" % k, where="storage::operator bool"))
    o.append(Res("bool", m + "return o_bool(bool(r));", "return o_bool(ok);", where="regex_results::operator bool"))
    o.append(Res("not_matched", "const Res<const Unit *> r{ctre::not_matched}; return o_list(o_bool(bool(r)), o_list(o_bool(bool(r.get<1>())), o_bool(bool(r.get<2>()))));", "return o_list(o_bool(false), o_list(o_bool(false), o_bool(false)));", where="regex_results(not_matched)"))
    o.append(Res("default", "const Res<const Unit *> r{}; return o_list(o_bool(bool(r)), o_list(o_bool(bool(r.get<1>())), o_bool(bool(r.get<2>()))));", "return o_list(o_bool(false), o_list(o_bool(false), o_bool(false)));", where="regex_results()"))
    o.append(Res("unmatch", "auto " + m[len("const auto "):] + "r.unmatch(); return o_list(o_bool(bool(r)), o_list(o_bool(bool(r.get<1>())), o_bool(bool(r.get<2>()))));", "return o_list(o_bool(false), o_list(o_bool(gok), o_bool(hok)));", where="regex_results::unmatch"))
    o.append(Res("matched", "auto " + m[len("const auto "):] + "r.matched(); return o_list(o_bool(bool(r)), o_list(o_bool(bool(r.get<1>())), o_bool(bool(r.get<2>()))));", "return o_list(o_bool(true), o_list(o_bool(gok), o_bool(hok)));", where="regex_results::matched"))
    # a group which is started again is still what it was
    o.append(Res("restart", "auto " + m[len("const auto "):] + "r.start_capture<1>(U(td)); const auto g = r.get<1>(); return g ? o_list(o_ptr(g.begin()), o_ptr(g.end())) : o_no();", "return gok ? o_list(o_ptr(gb), o_ptr(ge)) : o_no();", where="start_capture"))
    o.append(Res("again", "auto " + m[len("const auto "):] + "r.start_capture<1>(U(td)); r.end_capture<1>(U(b)); const auto g = r.get<1>(); return g ? o_list(o_ptr(g.begin()), o_ptr(g.end())) : o_no();", "return o_list(o_ptr(td), o_ptr(b));", where="end_capture"))
    return o


def compares():
    o = []
    for nm, t, f in (("char", "char", "T"), ("wchar", "wchar_t", "W")):
        m = mk(t, f)
        txt = "const std::basic_string_view<%s> t{%s(td), tn}; " % (t, f)
        for what, sel, b, e, k in (("whole", "r", "b", "e", "ok"), ("group", "r.get<1>()", "gb", "ge", "gok"), ("named", "r.get<named>()", "hb", "he", "hok")):
            mine = "std::basic_string_view<%s>{%s(%s), (size_t)(%s(%s) - %s(%s))}" % (t, f, b, f, e, f, b)
            for op, eq in (("==", True), ("!=", False)):
                for side in ("l", "r"):
                    ex = "g %s t" % op if side == "l" else "t %s g" % op
                    o.append(Res("%s_%s_%s_%s" % (what, "eq" if eq else "ne", side, nm), m + txt + "const auto g = %s; return o_bool(%s);" % (sel, ex),
                                 txt + "const bool same = %s && %s == t; return o_bool(%s);" % (k, mine, "same" if eq else "!same"),
                                 allow={"0": txt + "const bool same = %s && t == %s; return o_bool(%s);" % (k, mine, "same" if eq else "!same")}, where="operator%s of %s" % (op, what)))
    return o


def conversions():
    o = []
    m = mk("Unit", "U")
    V, S = "std::basic_string_view<Unit>", "std::basic_string<Unit>"
    for what, sel, b, e, k in (("whole", "r", "b", "e", "ok"), ("group", "r.get<1>()", "gb", "ge", "gok"), ("named", "r.get<named>()", "hb", "he", "hok")):
        txt = "return %s ? o_text(%s, (size_t)(U(%s) - U(%s))) : o_no();" % (k, b, e, b)
        g = m + "const auto & g = %s; " % sel
        o.append(Res(what + "_as_view", g + "const %s v = g; return g ? v.t : o_no();" % V, txt, where="operator string_view"))
        o.append(Res(what + "_as_string", g + "const %s v = static_cast<%s>(g); return g ? v.t : o_no();" % (S, S), txt, where="operator string"))
        o.append(Res(what + "_as_optional_view", g + "const std::optional<%s> v = g; return v ? v->t : o_no();" % V, txt, where="conversion to optional<string_view>"))
        o.append(Res(what + "_operator_optional_view", g + "const auto v = g.operator std::optional<%s>(); return v ? v->t : o_no();" % V, txt, where="operator optional<string_view>"))
        o.append(Res(what + "_as_optional_string", g + "const auto v = g.operator std::optional<%s>(); return v ? v->t : o_no();" % S, txt, where="operator optional<string>"))
        o.append(Res(what + "_to_optional_view", g + "const auto v = g.to_optional_view(); return v ? v->t : o_no();", txt, where="to_optional_view"))
        o.append(Res(what + "_to_optional_string", g + "const auto v = g.to_optional_string(); return v ? v->t : o_no();", txt, where="to_optional_string"))
        c = mk("char", "T") + "const auto & g = %s; " % sel
        o.append(Res(what + "_to_number", c + "return g ? g.template to_number<Num>().n : o_no();", "return %s ? o_number(%s, T(%s) + (T(%s) - T(%s)), 10) : o_no();" % (k, b, b, e, b), where="to_number"))
        o.append(Res(what + "_to_number_base", c + "return g ? g.template to_number<Num>(Base{16}).n : o_no();", "return %s ? o_number(%s, T(%s) + (T(%s) - T(%s)), 16) : o_no();" % (k, b, b, e, b), where="to_number with base"))
        o.append(Res(what + "_to_optional_number", c + "const auto v = g.template to_optional_number<Num>(); return v ? v->n : o_no();", "return %s ? o_number(%s, T(%s) + (T(%s) - T(%s)), 10) : o_no();" % (k, b, b, e, b), where="to_optional_number"))
        o.append(Res(what + "_to_optional_number_base", c + "const auto v = g.template to_optional_number<Num>(Base{8}); return v ? v->n : o_no();", "return %s ? o_number(%s, T(%s) + (T(%s) - T(%s)), 8) : o_no();" % (k, b, b, e, b), where="to_optional_number with base"))
    return o
