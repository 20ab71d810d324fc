"""Obligations about everything around the matcher."""
from . import valg
from .ob_eval import PRELUDE as P0

PRELUDE = '#include "probe.hpp"\n#include "ref.hpp"\n#include "api.hpp"\nusing namespace probe;\n'


def Ob(name, impl, ref, **kw): return valg.Ob(name, impl, ref, sig="api", raw=True, **kw)


LIST = "ctll::list<ctre::%s, ctre::%s>"


def methods(tier):
    """match, search, starts-with of a two-way pattern, in every mode, through the method and the wrapper"""
    o = []
    un = 3 if tier == "quick" else 5
    for ml in (0, 1):
        for ci in (0, 1):
            mod = LIST % (("singleline", "multiline")[ml], ("case_sensitive", "case_insensitive")[ci])
            f = "%s, %s" % (("false", "true")[ml], ("false", "true")[ci])
            sfx = "_%d%d" % (ml, ci)
            W = "return whole(%s);"
            refs = {
                "match": "return ref::or_no(ref::two<1>(ref::S{b, l}, c, %s, [&](ref::I e) -> O { return it_eq(e, l) ? ref::pack(c, e) : nullptr; }));" % f,
                "starts_with": "return ref::or_no(ref::two<1>(ref::S{b, l}, c, %s, [&](ref::I e) -> O { return ref::pack(c, e); }));" % f,
                "search": "for (ref::I i = c;; i = it_next(i)) { O x = ref::two<1>(ref::S{b, l}, i, %s, [&](ref::I e) -> O { return ref::pack(i, e); }); if (x) return x; if (it_eq(i, l)) return ref::no(); }" % f,
                "search_end": "for (ref::I i = c;; i = it_next(i)) { O x = ref::two<1>(ref::S{b, l}, i, %s, [&](ref::I e) -> O { return it_eq(e, l) ? ref::pack(i, e) : nullptr; }); if (x) return x; if (it_eq(i, l)) return ref::no(); }" % f,
                "search_anchored": "for (ref::I i = c;; i = it_next(i)) { O x = !it_eq(b, i) ? nullptr : ref::two<1>(ref::S{b, l}, i, %s, [&](ref::I e) -> O { return ref::pack(i, e); }); if (x) return x; if (it_eq(i, l)) return ref::no(); }" % f,
                "search_line": "for (ref::I i = c;; i = it_next(i)) { O x = !(it_eq(b, i) || (%s && it_deref(it_prev(i)) == ref::eol)) ? nullptr : ref::two<1>(ref::S{b, l}, i, %s, [&](ref::I e) -> O { return ref::pack(i, e); }); if (x) return x; if (it_eq(i, l)) return ref::no(); }" % (("false", "true")[ml], f),
            }
            pats = {"search_end": "ctre::sequence<Y<1>, ctre::assert_subject_end>", "search_anchored": "ctre::sequence<ctre::assert_subject_begin, Y<1>>", "search_line": "ctre::sequence<ctre::assert_line_begin, Y<1>>"}
            for m, ref in refs.items():
                pat = pats.get(m, "Y<1>")
                meth = "ctre::%s_method" % ("search" if m.startswith("search") else m)
                call = "%s::exec<%s>(It{b}, It{c}, End{l}, %s{})" % (meth, mod, pat)
                o.append(Ob(m + sfx, W % call, ref, unroll=un, where=call, cost=3))
                refb = ref.replace("ref::S{b, l}", "ref::S{c, l}").replace("it_eq(b, i)", "it_eq(c, i)")
                call = "%s::exec<%s>(It{c}, End{l}, %s{})" % (meth, mod, pat)
                o.append(Ob(m + "_short" + sfx, W % call, refb, unroll=un, where=call, cost=3))
                call = "ctre::regular_expression<%s, %s, %s>::exec_with_result_iterator<It>(It{b}, It{c}, End{l})" % (pat, meth, mod)
                if not m.startswith("search_"):
                    o.append(Ob(m + "_re3" + sfx, W % call, ref, unroll=un, where=call, cost=3))
                    call = "ctre::regular_expression<%s, %s, %s>::exec_with_result_iterator<It>(It{c}, End{l})" % (pat, meth, mod)
                    o.append(Ob(m + "_re2" + sfx, W % call, refb, unroll=un, where=call, cost=3))
                    call = "ctre::regular_expression<%s, %s, %s>::exec(It{c}, End{l})" % (pat, meth, mod)
                    o.append(Ob(m + "_exec" + sfx, W % call, refb, unroll=un, where=call, cost=3))
    return o


def regex_iteration(tier): return iteration("RegexIt", "Iteration", tier)
def split_iteration(tier): return iteration("SplitIt", "Split", tier)


def iteration(cls, refcls, tier):
    """an iterator driven by hand: after n steps it shows what the definition says"""
    o = []
    depth = 4 if tier == "quick" else 6
    un = 4 if tier == "quick" else 6
    pre = "regex_" if cls == "RegexIt" else "split_"
    for e in ("End", "It"):
        sfx = "" if e == "End" else "_same_type"
        for n in range(depth):
            adv = "i.advance(); " * n
            inc = "++i; " * n
            ref = "ref::%s i(c, l); %sreturn i.seen();" % (refcls, adv)
            o.append(Ob("%sstep_%d%s" % (pre, n, sfx), "%s<%s> i(It{c}, %s{l}); %sreturn seen(i);" % (cls, e, e, inc), ref, unroll=un, where="%s after %d increments" % (cls, n), cost=n + 1))
        ref2 = "ref::%s i(c, l); %sreturn i.seen();"
        o.append(Ob(pre + "post_old" + sfx, "%s<%s> i(It{c}, %s{l}); ++i; auto old = i++; return seen(old);" % (cls, e, e), ref2 % (refcls, "i.advance(); "), unroll=un, ends=False, where="post-increment of " + cls))
        o.append(Ob(pre + "post_new" + sfx, "%s<%s> i(It{c}, %s{l}); ++i; i++; return seen(i);" % (cls, e, e), ref2 % (refcls, "i.advance(); i.advance(); "), unroll=un, where="post-increment of " + cls))
        o.append(Ob(pre + "pre_result" + sfx, "%s<%s> i(It{c}, %s{l}); return seen(++i);" % (cls, e, e), ref2 % (refcls, "i.advance(); "), unroll=un, where="pre-increment of " + cls))
        o.append(Ob(pre + "copy" + sfx, "%s<%s> i(It{c}, %s{l}); ++i; auto j = i; %s<%s> k{}; k = j; ++i; ++k; return seen(k);" % (cls, e, e, cls, e), ref2 % (refcls, "i.advance(); i.advance(); "), unroll=un, where="copy of " + cls))
        o.append(Ob(pre + "default" + sfx, "%s<%s> i{}; return o_bool(i == ctre::regex_end_iterator{} && !(i != ctre::regex_end_iterator{}));" % (cls, e), "return o_bool(true);", unroll=un, where="default constructed " + cls, bounds=False))
        rng = "ctre::regex_range" if cls == "RegexIt" else "ctre::regex_split_range"
        o.append(Ob(pre + "range" + sfx, "%s<It, %s, RE> r(It{c}, %s{l}); auto i = r.begin(); ++i; static_assert(std::is_same_v<decltype(r.end()), ctre::regex_end_iterator>); return seen(i);" % (rng, e, e), ref2 % (refcls, "i.advance(); "), unroll=un, where=rng))
    return o


def whole_iteration(tier):
    """ranges built by the methods, over a one-way pattern: which kind of attempt is made, and from where"""
    o = []
    un = 2 if tier == "quick" else 3
    for ml in (0, 1):
        mod = LIST % (("singleline", "multiline")[ml], "case_insensitive")
        f = "%s, true" % ("false", "true")[ml]
        find = {"range": "for (ref::I i = from;; i = it_next(i)) { if (y_ok(1, 0, c, i, l, %s)) return {true, i, y_pos(1, 0, c, i, l, %s)}; if (it_eq(i, l)) return {}; }" % (f, f),
                "tokenize": "if (y_ok(1, 0, c, from, l, %s)) return {true, from, y_pos(1, 0, c, from, l, %s)}; return {};" % (f, f)}
        find["iterator"] = find["split"] = find["range"]
        lam = "struct A { bool ok; ref::I b, e; }; const auto find = [&](ref::I from) -> A { %s }; "
        for m in ("range", "tokenize", "iterator"):
            for n in (0, 1):
                ref = lam % find[m] + "A m = find(c); " + "if (!m.ok) return ref::no(); if (it_eq(m.e, l)) return ref::no(); m = find(it_eq(m.b, m.e) ? it_next(m.e) : m.e); " * n + "return m.ok ? ref::pack(m.b, m.e) : ref::no();"
                impl = "auto r = ctre::%s_method::exec<%s>(It{c}, End{l}, Y<1, 1>{}); auto i = r%s; %sreturn seen_whole(i);" % (m, mod, "" if m == "iterator" else ".begin()", "++i; " * n)
                o.append(Ob("%s_%d_%d" % (m, n, ml), impl, ref, unroll=un + 1 - n, where=m + "_method", cost=9 * n + 1))
                re = "ctre::regular_expression<Y<1, 1>, ctre::%s_method, %s>" % (m, mod)
                o.append(Ob("%s_re_%d_%d" % (m, n, ml), "auto r = %s::exec(It{c}, End{l}); auto i = r%s; %sreturn seen_whole(i);" % (re, "" if m == "iterator" else ".begin()", "++i; " * n), ref, unroll=un + 1 - n, where=re, cost=9 * n + 1))
        for n in (0, 1):
            ref = lam % find["split"] + "const auto rest = [&](ref::I p) { ref::I e = p; while (!it_eq(e, l)) e = it_next(e); return ref::pack(p, e); }; ref::I p = c; A m = find(c); "
            if n: ref += "if (!m.ok) return ref::no(); p = m.e; if (it_eq(m.b, m.e)) { if (it_eq(p, l)) return rest(p); m = find(it_next(p)); } else m = find(p); "
            ref += "return m.ok ? ref::pack(p, m.b) : rest(p);"
            impl = "auto r = ctre::split_method::exec<%s>(It{c}, End{l}, Y<1, 1>{}); auto i = r.begin(); %sreturn seen_whole(i);" % (mod, "++i; " * n)
            o.append(Ob("split_%d_%d" % (n, ml), impl, ref, unroll=un + 1 - n, where="split_method", cost=9 * n + 1))
    return o


def subjects(tier):
    o = []
    depth = 4 if tier == "quick" else 6
    un = depth
    mk = "Subjects s{c, l}; Multi r{s}; auto i = r.begin(); static_assert(std::is_same_v<decltype(r.end()), Multi::end_iterator>); "
    # advancing is defined while there is something left
    for n in range(depth):
        guard = lambda end, step: (("if (%s) return nullptr; %s; " % (end, step)) * n)
        o.append(Ob("subjects_%d" % n, mk + guard("it_eq(i.first.p, l)", "++i") + "return seen_multi(i);", "ref::Subjects i(c, l); " + guard("it_eq(i.pos, l)", "i.advance()") + "return i.seen();", unroll=un, where="multi_subject_range after %d increments" % n))
    g = "if (it_eq(i.first.p, l)) return nullptr; "
    gr = "if (it_eq(i.pos, l)) return nullptr; "
    o.append(Ob("subjects_post_old", mk + g + "auto old = i++; return seen_multi(old);", "ref::Subjects i(c, l); " + gr + "return i.seen();", unroll=un, ends=False, where="multi_subject_range post-increment"))
    o.append(Ob("subjects_post_new", mk + g + "i++; return seen_multi(i);", "ref::Subjects i(c, l); " + gr + "i.advance(); return i.seen();", unroll=un, where="multi_subject_range post-increment"))
    o.append(Ob("subjects_arrow", mk + "return whole(*i.operator->());", "ref::Subjects i(c, l); return it_eq(i.pos, l) ? ref::no() : ref::pack(ex_b(i.pos, i.pos, i.pos), ex_e(i.pos, i.pos, i.pos));", unroll=un, where="multi_subject_range ->"))
    o.append(Ob("subjects_equal", mk + "auto j = r.begin(); return o_list(o_bool(i == j), o_bool(i != j));", "return o_list(o_bool(true), o_bool(false));", unroll=un, ends=False, where="multi_subject_range iterators compared", bounds=False))
    o.append(Ob("subjects_unequal", mk + g + "auto j = i; ++j; return o_list(o_bool(i == j), o_bool(i != j));", "ref::Subjects i(c, l); " + gr + "return o_list(o_bool(false), o_bool(true));", unroll=un, ends=False, where="multi_subject_range iterators compared", bounds=False))
    return o


def taking_part(tier):
    """which range a group reports, with the library's own results"""
    o = []
    SHOW = "if (!bool(res)) return o_no(); return o_list(whole(res), o_list(group<1>(res), group<2>(res)));"
    RES = "ctre::regex_results<It, ctre::captured_content<1>, ctre::captured_content<2>>"

    def start(types): return "const auto res = ctre::starts_with_method::exec<ctre::singleline>(It{b}, It{c}, End{l}, %s{}); " % types + SHOW
    PRE = ("struct G { bool ok; ref::I b, e; }; const ref::S s{b, l}; const auto one = [&](G g) { return g.ok ? ref::pack(g.b, g.e) : ref::no(); }; "
           "const auto fin = [&](ref::I e, G g1, G g2) -> O { return o_list(ref::pack(c, e), o_list(one(g1), one(g2))); }; const G none{false, nullptr, nullptr}; (void)none; (void)fin; ")
    # body(id, from, continuation)
    ONE = lambda i, frm, var, rest: "ref::two<%d, %d>(s, %s, false, false, [&](ref::I %s) -> O { %s })" % (i, 2 if i > 1 else 1, frm, var, rest)
    Yn = lambda i: "Y<%d, %d>" % (i, 2 if i > 1 else 1)
    cases = {
        "sequence": ("ctre::sequence<ctre::capture<1, %s>, ctre::capture<2, %s>>" % (Yn(2), Yn(3)),
                     "return ref::or_no(%s);" % ONE(2, "c", "p", "return " + ONE(3, "p", "q", "return fin(q, G{true, c, p}, G{true, p, q});") + ";")),
        "nested": ("ctre::capture<1, %s, ctre::capture<2, %s>>" % (Yn(2), Yn(3)),
                   "return ref::or_no(%s);" % ONE(2, "c", "p", "return " + ONE(3, "p", "q", "return fin(q, G{true, c, q}, G{true, p, q});") + ";")),
        "options": ("ctre::select<ctre::capture<1, %s>, ctre::capture<2, %s>>" % (Yn(2), Yn(3)),
                    "O x = %s; if (x) return x; return ref::or_no(%s);" % (ONE(2, "c", "p", "return fin(p, G{true, c, p}, none);"), ONE(3, "c", "p", "return fin(p, none, G{true, c, p});"))),
        "abandoned": ("ctre::select<ctre::sequence<ctre::capture<1, %s>, %s>, ctre::capture<2, %s>>" % (Yn(2), Yn(4), Yn(3)),
                      "O x = %s; if (x) return x; return ref::or_no(%s);" % (ONE(2, "c", "p", "return " + ONE(4, "p", "q", "return fin(q, G{true, c, p}, none);") + ";"), ONE(3, "c", "p", "return fin(p, none, G{true, c, p});"))),
        "optional_given_back": ("ctre::sequence<ctre::repeat<0, 1, ctre::capture<1, %s>>, %s>" % (Yn(1), Yn(3)),
                                "O x = %s; if (x) return x; return ref::or_no(%s);" % (ONE(1, "c", "p", "if (it_eq(p, c)) return nullptr; return " + ONE(3, "p", "q", "return fin(q, G{true, c, p}, none);") + ";"), ONE(3, "c", "q", "return fin(q, none, none);"))),
        "lazy_optional": ("ctre::sequence<ctre::lazy_repeat<0, 1, ctre::capture<1, %s>>, %s>" % (Yn(1), Yn(3)),
                          "O x = %s; if (x) return x; return ref::or_no(%s);" % (ONE(3, "c", "q", "return fin(q, none, none);"), ONE(1, "c", "p", "if (it_eq(p, c)) return nullptr; return " + ONE(3, "p", "q", "return fin(q, G{true, c, p}, none);") + ";"))),
        "last_iteration": ("ctre::sequence<ctre::repeat<2, 2, ctre::capture<1, %s>>, %s>" % (Yn(1), Yn(3)), None),
        "possessive": ("ctre::sequence<ctre::possessive_repeat<0, 1, ctre::capture<1, %s>>, %s>" % (Yn(1), Yn(3)),
                       "const bool some = y_ok(1, 0, b, c, l, false, false) && !it_eq(y_pos(1, 0, b, c, l, false, false), c); const ref::I p = some ? y_pos(1, 0, b, c, l, false, false) : c; return ref::or_no(%s);" % ONE(3, "p", "q", "return fin(q, some ? G{true, c, p} : none, none);")),
        "atomic": ("ctre::sequence<ctre::atomic_group<ctre::capture<1, %s>>, %s>" % (Yn(1), Yn(3)),
                   "return ref::or_no(%s);" % ONE(1, "c", "p", "return " + ONE(3, "p", "q", "return fin(q, G{true, c, p}, none);") + ";")),
        "lookahead": ("ctre::sequence<ctre::lookahead_positive<ctre::capture<1, %s>>, ctre::capture<2, %s>>" % (Yn(1), Yn(3)),
                      "return ref::or_no(%s);" % ONE(1, "c", "p", "return " + ONE(3, "c", "q", "return fin(q, G{true, c, p}, G{true, c, q});") + ";")),
        "not_lookahead": ("ctre::sequence<ctre::lookahead_negative<ctre::capture<1, %s>>, ctre::capture<2, %s>>" % (Yn(1), Yn(3)),
                          "if (y_ok(1, 0, b, c, l, false, false)) return ref::no(); return ref::or_no(%s);" % ONE(3, "c", "q", "return fin(q, none, G{true, c, q});")),
    }
    # two iterations: the group is the second one (an empty iteration ends the mandatory part)
    cases["last_iteration"] = (cases["last_iteration"][0],
                               "if (!y_ok(1, 0, b, c, l, false, false)) return ref::no(); const ref::I p = y_pos(1, 0, b, c, l, false, false); ref::I f = c, t = p; "
                               "if (!it_eq(p, c)) { if (!y_ok(1, 0, b, p, l, false, false)) return ref::no(); f = p; t = y_pos(1, 0, b, p, l, false, false); } return ref::or_no(%s);" % ONE(3, "t", "q", "return fin(q, G{true, f, t}, none);"))
    for n, (types, ref) in cases.items():
        # every group has its entry, also when the pattern has only one
        t = types if "capture<2" in types else "ctre::sequence<%s, ctre::select<ctre::empty, ctre::capture<2, Y<9>>>>" % types
        o.append(Ob("group_" + n, start(t), PRE + ref, unroll=3, where="groups in " + types))
    named = "ctre::sequence<ctre::capture_with_name<1, ctre::id<'a'>, Y<2>>, ctre::capture_with_name<2, ctre::id<'b', 'c'>, Y<3>>>"
    seq = cases["sequence"][1]
    for nm, gets in (("number", "o_list(group<1>(res), group<2>(res))"), ("type", "o_list(show(res.template get<ctre::id<'a'>>()), show(res.template get<ctre::id<'b', 'c'>>()))"), ("literal", 'o_list(show(res.template get<"a">()), show(res.template get<"bc">()))')):
        o.append(Ob("group_named_by_" + nm, "const auto show = [](const auto & g) -> O { return g ? o_pack(g.begin().p, g.end().p) : o_no(); }; (void)show; const auto res = ctre::starts_with_method::exec<ctre::singleline>(It{b}, It{c}, End{l}, %s{}); if (!bool(res)) return o_no(); return o_list(whole(res), %s);" % (named, gets), PRE + seq, unroll=3, where="named groups by " + nm))
    # a failed attempt gives an empty result
    for m, t in (("match", "Y<2>"), ("starts_with", "ctre::capture<1, Y<2>>")):
        pass
    return o


# what the first result of each operation is, for a one-way pattern applied to [c, l)
FIRST = {
    "match": "if (y_ok(1, 0, c, c, l, {f}) && it_eq(y_pos(1, 0, c, c, l, {f}), l)) return ref::pack(c, y_pos(1, 0, c, c, l, {f})); return ref::no();",
    "starts_with": "return y_ok(1, 0, c, c, l, {f}) ? ref::pack(c, y_pos(1, 0, c, c, l, {f})) : ref::no();",
    "search": "for (ref::I i = c;; i = it_next(i)) {{ if (y_ok(1, 0, c, i, l, {f})) return ref::pack(i, y_pos(1, 0, c, i, l, {f})); if (it_eq(i, l)) return ref::no(); }}",
    "split": "for (ref::I i = c;; i = it_next(i)) {{ if (y_ok(1, 0, c, i, l, {f})) return ref::pack(c, i); if (it_eq(i, l)) return ref::pack(c, i); }}",
}
FIRST["tokenize"] = FIRST["starts_with"]
FIRST["range"] = FIRST["search_all"] = FIRST["iterator"] = FIRST["search"]
ML = {"ctre::singleline": ("ml", 0), "ctre::multiline": ("ml", 1), "ctre::case_sensitive": ("ci", 0), "ctre::case_insensitive": ("ci", 1), "ctre::ci": ("ci", 1), "ctre::cs": ("ci", 0)}
MODS = [(), ("ctre::case_insensitive",), ("ctre::case_sensitive",), ("ctre::multiline",), ("ctre::singleline",), ("ctre::ci",), ("ctre::case_insensitive", "ctre::case_sensitive"), ("ctre::cs", "ctre::ci"),
        ("ctre::multiline", "ctre::singleline"), ("ctre::case_insensitive", "ctre::multiline"), ("ctre::singleline", "ctre::case_insensitive", "ctre::multiline", "ctre::case_sensitive")]

KINDS = ["ctre::singleline", "ctre::multiline", "ctre::case_sensitive", "ctre::case_insensitive"]
# every list of up to two (aliases included), every list of three
EVERY = MODS + [x for x in [()] + [(a,) for a in ML] + [(a, b) for a in ML for b in ML] + [(a, b, c) for a in KINDS for b in KINDS for c in KINDS] if x not in MODS]


def flags_of(base_ml, mods):
    f = {"ml": base_ml, "ci": 0}
    for m in mods: f[ML[m][0]] = ML[m][1]
    return "%s, %s" % (("false", "true")[f["ml"]], ("false", "true")[f["ci"]])


def entry_points(tier):
    o = []
    un = 2
    for m in ("match", "search", "starts_with", "search_all", "range", "split", "tokenize", "iterator"):
        for ml in (0, 1):
            name = ("multiline_" if ml else "") + m
            for i, mods in enumerate(EVERY if m in ("match", "search") or tier == "thorough" else MODS[:3] + MODS[7:8] + MODS[9:10] + [(KINDS[3], KINDS[0]), (KINDS[2], KINDS[1])]):
                args = "".join(", " + x for x in mods)
                ref = FIRST[m].format(f=flags_of(ml, mods))
                o.append(Ob("entry_%s_%d" % (name, i), 'return shown(planted<Y<1, 1>, decltype(ctre::%s<"x"%s>)>{}(It{c}, End{l}));' % (name, args), ref, unroll=un, where="ctre::%s<pattern%s>" % (name, args)))
            if m != "search_all":
                ref = FIRST[m].format(f=flags_of(ml, ()))
                o.append(Ob("literal_%s" % name, "return shown(ctre::regular_expression(Y<1, 1>{}).%s(It{c}, End{l}));" % name, ref, unroll=un, where="regular_expression::" + name))
    # no modifier at all, a single modifier instead of a list
    for i, (mod, f) in enumerate((("", "false, false"), (", ctre::singleline", "false, false"), (", ctre::multiline", "true, false"), (", ctre::case_insensitive", "false, true"), (", ctre::case_sensitive", "false, false"), (", ctll::list<>", "false, false"))):
        for m in ("match", "search", "starts_with"):
            o.append(Ob("modifier_%s_%d" % (m, i), "return shown(ctre::regular_expression<Y<1, 1>, ctre::%s_method%s>::exec(It{c}, End{l}));" % (m, mod), FIRST[m].format(f=f), unroll=un, where="regular_expression<, %s_method%s>" % (m, mod)))
            if not mod: o.append(Ob("modifier_default_%s" % m, "return shown(ctre::%s_method::exec(It{c}, End{l}, Y<1, 1>{}));" % m, FIRST[m].format(f=f), unroll=un, where="%s_method::exec" % m))
    return o


def pattern_modes():
    """inline switches in pattern texts"""
    o = []
    S = "const auto at = [&](ref::I p, char32_t k, bool ci) { return !it_eq(p, l) && ref::same_char(it_deref(p), k, ref::F{false, false, ci}); }; "
    for i, (pat, mods, cis) in enumerate((
            ("(?i)a(?c)b", "", (1, 0)), ("a(?i)b", "", (0, 1)), ("a(?c)b", ", ctre::case_insensitive", (1, 0)), ("(?i)a(?m)b", "", (1, 1)), ("(?m)a(?i)b", "", (0, 1)), ("(?i)a(?s)b", "", (1, 1)),
            ("(?im)ab", "", (1, 1)), ("(?mi)ab", "", (1, 1)), ("a(?ims)b", "", (0, 1)), ("(a(?ci)b)", "", (0, 1)), ("(?ic)ab", "", (0, 0)), ("(?:(?sic)a)(?mci)b", "", (0, 1)), ("(?cim)ab", ", ctre::case_sensitive", (1, 1)),
            ("(?i)ab", "", (1, 1)), ("(?c)ab", ", ctre::case_insensitive", (0, 0)), ("ab", ", ctre::case_insensitive", (1, 1)), ("ab", "", (0, 0)))):
        ref = S + "ref::I p = c; if (!at(p, U'a', %d)) return ref::no(); p = it_next(p); if (!at(p, U'b', %d)) return ref::no(); p = it_next(p); return ref::pack(c, p);" % cis
        o.append(Ob("switch_text_%d" % i, 'return whole(ctre::starts_with<"%s"%s>(It{c}, End{l}));' % (pat, mods), ref, where="pattern " + pat + mods))
    for i, (pat, cis) in enumerate((("x|(?im)a", (0, 1)), ("(?im)x|a", (1, 0)), ("(?:x|(?mi)a)", (0, 1)), ("(?i)x|(?c)a", (1, 0)))):
        o.append(Ob("switch_option_%d" % i, 'return whole(ctre::starts_with<"%s">(It{c}, End{l}));' % pat, S + "if (at(c, U'x', %d) || at(c, U'a', %d)) return ref::pack(c, it_next(c)); return ref::no();" % cis, where="pattern " + pat))
    D = "const auto dot = [&](ref::I p, bool ml) { return !it_eq(p, l) && !(ml && it_deref(p) == ref::eol); }; "
    for i, (pat, ep, mls) in enumerate(((".(?m).", "starts_with", (0, 1)), ("(?im).(?is).", "starts_with", (1, 0)), (".(?sim).", "starts_with", (0, 1)), ("(?ics)..", "multiline_starts_with", (0, 0)), (".(?:(?mi).)", "starts_with", (0, 1)), ("(?m).(?s).", "starts_with", (1, 0)), (".(?s).", "multiline_starts_with", (1, 0)), (".(?i).", "multiline_starts_with", (1, 1)), ("..", "multiline_starts_with", (1, 1)), ("..", "starts_with", (0, 0)), ("(?i).(?c).", "starts_with", (0, 0)))):
        ref = D + "ref::I p = c; if (!dot(p, %d)) return ref::no(); p = it_next(p); if (!dot(p, %d)) return ref::no(); p = it_next(p); return ref::pack(c, p);" % mls
        o.append(Ob("line_text_%d" % i, 'return whole(ctre::%s<"%s">(It{c}, End{l}));' % (ep, pat), ref, where="pattern " + pat + " in " + ep))
    return o
