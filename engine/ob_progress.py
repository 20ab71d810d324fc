"""C27: nothing is done again where nothing has been consumed."""
from . import ob_api as A, ob_eval as E, ob_utf as UT, valg

LIST = "ctll::list<ctre::%s, ctre::%s>"
END = "ctre::regex_end_iterator{}"


def Ob(name, impl, **kw): return valg.Ob(name, impl, None, sig="api", raw=True, **kw)


def sequences(tier):
    """programs that walk a sequence of results to its end"""
    o = []
    un = 4
    for e in ("End", "It"):
        sfx = "" if e == "End" else "_same_type"
        for cls, rng in (("RegexIt", "regex_range"), ("SplitIt", "regex_split_range")):
            n = cls.lower() + sfx
            o.append(Ob("walk_" + n, "for (%s<%s> i(It{c}, %s{l}); i != %s; ++i) { } return nullptr;" % (cls, e, e, END), unroll=un, where="++ of %s in a loop to its end" % cls))
            o.append(Ob("walk_post_" + n, "for (%s<%s> i(It{c}, %s{l}); %s != i; i++) { } return nullptr;" % (cls, e, e, END), unroll=un, where="post ++ of %s in a loop to its end" % cls))
            o.append(Ob("walk_range_" + n, "ctre::%s<It, %s, RE> r(It{c}, %s{l}); for (auto && x: r) (void)x; return nullptr;" % (rng, e, e), unroll=un, where="for over " + rng))
    o.append(Ob("walk_subjects", "Subjects s{c, l}; Multi r{s}; for (auto && x: r) (void)x; return nullptr;", unroll=un, where="for over multi_subject_range"))
    o.append(Ob("walk_subjects_post", "Subjects s{c, l}; Multi r{s}; for (auto i = r.begin(); r.end() != i; i++) { } return nullptr;", unroll=un, where="post ++ of multi_subject_range"))
    for ml in (0, 1):
        mod = LIST % (("singleline", "multiline")[ml], "case_insensitive")
        for m in ("range", "tokenize", "split", "iterator"):
            for ways in (1,):
                re = "ctre::regular_expression<Y<1, %d>, ctre::%s_method, %s>" % (ways, m, mod)
                loop = "for (auto i = %s::exec(It{c}, End{l}); i != %s; ++i) { } return nullptr;" if m == "iterator" else "for (auto && x: %s::exec(It{c}, End{l})) (void)x; return nullptr;"
                o.append(Ob("walk_%s_%d_%d" % (m, ml, ways), loop % ((re, END) if m == "iterator" else re), unroll=2, where="for over what %s_method gives" % m, cost=5))
    return o


def run(ctx):
    import copy
    tier = ctx.tier
    ev = (E.anchors() + E.characters() + E.texts() + E.groups() + E.loops("greedy", tier) + E.loops("lazy", tier) + E.loops("possessive", tier)
          + E.atomics() + E.lookarounds() + E.marks() + E.modes())
    ctx.progress(ev, E.PRELUDE)
    ctx.progress(E.backrefs(), E.PRELUDE, defines=["-DPROBE_CHAR=unsigned char"])
    ctx.valg([valg.Ob("end_cycle_blocked", "return r_ok(" + E.fwd("ctre::end_cycle_mark")[len("return "):-1] + ") ? r : r_nm();", "return r_nm();", flags=[{"blk": 1}], where="evaluate(end_cycle_mark) of an iteration that consumed nothing")], E.PRELUDE, what="equal", rule="an iteration that must not be empty fails when it is empty")
    ctx.progress(sequences(tier) + [o for o in A.methods(tier) if o.name.startswith("search")], A.PRELUDE)
    ctx.valg([o for o in UT.subject(tier) if "_in_" in o.name], UT.PRELUDE, what="equal", rule="the iterator moves, and not over the end")
