"""Which obligations decide which property."""
from engine import ob_eval as E, ob_api as A, ob_res as RS, ob_search as SE, ob_greedy as G, ob_class as K, ob_gram as GR, ob_syntax as SY, ob_reject as RJ, ob_groups as GP, ob_utf as UT, ob_unicode as UN, ob_forms as FO, ob_effects as EF, ob_progress as PG, ob_every as EV, ob_counts as CO

PROPS = {}
V = "Value graphs of the library's code over an opaque vocabulary of iterators, results, nested patterns and characters are built from the compiler's IR and compared with those of reference definitions."
ASSUME_V = ["iterators, captured ranges and nested patterns behave as their concepts say (equality is an equivalence, stepping back undoes stepping forward)",
            "clang 18 lowers the sources faithfully to IR", "the references in probes/ and engine/ state the property"]


def prop(pid, floor, explain=V, assumptions=ASSUME_V, **kw):
    def deco(f):
        PROPS[pid] = dict(run=f, floor=floor, explain=explain, assumptions=assumptions, **kw)
        return f
    return deco


@prop("C02", 14)
def c02(ctx):
    ctx.valg(E.anchors(), E.PRELUDE, what="both")


@prop("C03", 30)
def c03(ctx):
    ctx.valg(E.groups() + E.texts(), E.PRELUDE, what="equal")


COUNTS = " The counters of the repetitions are followed through the IR of instantiations with bounds beyond 32 bits: none is narrower than size_t, and what they start from and are compared with are the bounds."


@prop("C04", 40, explain=V + COUNTS, technique="symbolic value graphs of the library's code, extracted from compiler IR and compared with reference definitions; dataflow of the iteration counters")
def c04(ctx):
    ctx.valg(E.loops("greedy", ctx.tier) + E.loops("lazy", ctx.tier) + E.inner_marks()[:1], E.PRELUDE)
    CO.run(ctx, ("greedy", "lazy"))


@prop("C05", 20, explain=V + COUNTS, technique="symbolic value graphs of the library's code, extracted from compiler IR and compared with reference definitions; dataflow of the iteration counters")
def c05(ctx):
    ctx.valg(E.loops("possessive", ctx.tier) + E.atomics() + E.inner_marks()[:1], E.PRELUDE)
    CO.run(ctx, ("possessive",))


@prop("C06", 9)
def c06(ctx):
    ctx.valg(E.lookarounds() + E.inner_marks()[1:], E.PRELUDE)


def all_eval(tier):
    return (E.anchors() + E.characters() + E.texts() + E.groups() + E.loops("greedy", tier) + E.loops("lazy", tier) + E.loops("possessive", tier)
            + E.atomics() + E.lookarounds() + E.inner_marks() + E.marks() + E.modes())


BYTE = ["-DPROBE_CHAR=unsigned char"]


@prop("C01", 110, explain="Every path of the value graphs of matching, searching, iterating, splitting and filtering is followed with the set of comparisons known on it; every read, step forward and step back must be reached only where a comparison excludes the end (the beginning).")
def c01(ctx):
    ctx.valg(all_eval(ctx.tier), E.PRELUDE, what="bounds")
    ctx.valg(E.backrefs(), E.PRELUDE, what="bounds", defines=BYTE)
    ctx.valg(A.methods(ctx.tier) + A.regex_iteration(ctx.tier) + A.split_iteration(ctx.tier) + A.whole_iteration(ctx.tier) + A.subjects(ctx.tier) + A.taking_part(ctx.tier), A.PRELUDE, what="bounds")


@prop("C07", 100)
def c07(ctx):
    # what a construct hands on as captures: its own groups and those of everything it goes through
    ctx.valg(E.marks() + E.groups() + E.loops("greedy", ctx.tier) + E.loops("lazy", ctx.tier) + E.loops("possessive", ctx.tier) + E.atomics() + E.lookarounds() + E.modes(), E.PRELUDE, what="equal")
    ctx.valg(A.taking_part(ctx.tier), A.PRELUDE, what="equal")
    ctx.valg(RS.access() + RS.truth(), RS.PRELUDE, what="equal")


@prop("C08", 3)
def c08(ctx):
    ctx.valg(E.backrefs(), E.PRELUDE, what="both", defines=BYTE)
    if ctx.thorough: ctx.valg(E.backrefs(), E.PRELUDE, what="both")


@prop("C11", 150)
def c11(ctx):
    ctx.valg(E.modes(), E.PRELUDE, what="equal")
    ctx.valg(A.entry_points(ctx.tier) + A.pattern_modes(), A.PRELUDE, what="equal")


@prop("C18", 80)
def c18(ctx):
    ctx.valg([o for o in A.methods(ctx.tier)], A.PRELUDE, what="equal")


@prop("C19", 30)
def c19(ctx):
    ctx.valg(A.regex_iteration(ctx.tier) + [o for o in A.whole_iteration(ctx.tier) if not o.name.startswith("split")], A.PRELUDE, what="both")


@prop("C20", 20)
def c20(ctx):
    ctx.valg(A.split_iteration(ctx.tier) + [o for o in A.whole_iteration(ctx.tier) if o.name.startswith("split")], A.PRELUDE, what="both")


@prop("C21", 9)
def c21(ctx):
    ctx.valg(A.subjects(ctx.tier), A.PRELUDE, what="both")


@prop("C22", 60)
def c22(ctx):
    ctx.valg(RS.truth() + RS.compares() + RS.conversions(), RS.PRELUDE, what="equal")


@prop("C16", 400)
def c16(ctx):
    ctx.valg(SE.searches(ctx.tier), SE.PRELUDE, what="equal", defines=BYTE)
    ctx.valg([o for o in A.methods(ctx.tier) if o.name.startswith("search")], A.PRELUDE, what="equal")


@prop("C17", 450)
def c17(ctx):
    ctx.valg(G.shortcut(ctx.tier), G.PRELUDE, what="equal", defines=BYTE)
    ctx.valg(G.wide(ctx.tier), G.PRELUDE, what="equal", defines=["-DPROBE_CHAR=char16_t"])


CHARS = ["char32_t", "char", "unsigned char", "char8_t", "char16_t", "wchar_t"]


def class_checks(ctx, ci):
    for ct in CHARS:
        sfx = "_" + ct.replace(" ", "_")
        lim = ct == "char"
        obs = []
        for pats, tag in ((K.classes(), "class"), (K.sets(), "set"), (K.runs(), "run"), (K.literals(), "literal")):
            combos = [(0, ci), (1, ci)] if tag != "literal" else [(0, ci)]
            if tag == "literal" and ct in ("char8_t", "wchar_t", "unsigned char") and not ctx.thorough: continue
            obs += K.obligations(pats, combos, tag + sfx, limit=lim)
        ctx.valg(obs, K.PRELUDE, what="equal", defines=["-DPROBE_CHAR=" + ct])


@prop("C09", 2000)
def c09(ctx):
    class_checks(ctx, 0)
    ctx.valg(E.characters(), E.PRELUDE, what="equal")


@prop("C10", 2000)
def c10(ctx):
    class_checks(ctx, 1)
    ctx.valg(E.texts() + E.characters(), E.PRELUDE, what="equal")
    ctx.valg(E.backrefs(), E.PRELUDE, what="equal", defines=BYTE)


@prop("C12", 400, explain="The parser table is read out of the type-checked library (an ambiguous entry does not compile) and driven in lock step with the grammar file over every character from every reachable pair of stacks; ctll::parser is then held by type witnesses to the traces the grammar derives.",
      assumptions=["clang 18 type-checks the library faithfully", "characters outside ASCII are all treated as the samples U+80, U+E9, U+FF, U+100, U+2028, U+FFFF, U+10FFFF are"])
def c12(ctx):
    GR.run(ctx)


@prop("C13", 700, explain="For every text a second reading of the syntax gives the construct it denotes; the compiler says whether the library's translation is that type, and where it is another type the value graphs of matching the two decide.")
def c13(ctx):
    SY.run(ctx)


@prop("C14", 1000, technique="compile-fail witnesses: texts whose verdict the documented syntax fixes, in bulk and through every entry point", explain="For every listed text the compiler says whether the library's translation accepts it; whole programs using an invalid pattern must fail to compile through every entry point, and their valid twins must compile.",
      assumptions=["clang 18 type-checks the library faithfully", "the list in engine/ob_reject.py samples every way a text can be invalid; texts outside it are covered by the parser table (C12)"])
def c14(ctx):
    RJ.run(ctx)


@prop("C15", 500, technique="type witnesses over the result types of real entry points, compile-fail witnesses for groups that do not exist, value graphs of access", explain="The groups of a text are counted by reading its opening parentheses; static assertions over the types the library's entry points return must agree, names and numbers must lead to the same group, and asking for another group must not compile.",
      assumptions=["clang 18 type-checks the library faithfully"])
def c15(ctx):
    GP.run(ctx)
    ctx.valg(RS.access(), RS.PRELUDE, what="equal")


@prop("C23", 200, explain="The bytes of a subject are opaque; every bit of what utf8_iterator and utf8_range compute from them, and the address of every byte they read, is compared with the Unicode definition of UTF-8.",
      assumptions=["clang 18 lowers the sources faithfully to IR", "the reference decoder in probes/utf.hpp is table 3-7 of the Unicode standard", "sequences further from the end than the enumerated lengths behave as at the largest one (no access reaches further than four bytes)"])
def c23(ctx):
    ctx.valg(UT.subject(ctx.tier), UT.PRELUDE, what="both")
    # where comparisons are not rewritten the other operators are written out
    ctx.valg(UT.older(ctx.tier), UT.PRELUDE, what="both", defines=["-std=c++17", "-fchar8_t"])


@prop("C24", 100, explain="The units of a pattern text are opaque; every bit of the decoded text is compared with the definition of the encoding.",
      assumptions=["clang 18 lowers the sources faithfully to IR", "the reference decoders in probes/utf.hpp are those of the Unicode standard", "longer texts behave as the enumerated lengths: decoding goes from one code point to the next"])
def c24(ctx):
    for k in UT.UNITS: ctx.valg(UT.patterns(k, ctx.tier), UT.PRELUDE, what="equal", defines=["-DCTRE_STRING_IS_UTF8"] if k == "char_utf8" else [])


@prop("C25", 900, technique="symbolic value graphs (binary decision diagrams) of the class lookups against the Unicode 14.0 sets; type witnesses for the names", explain="The code point is opaque (all 32 bits): the diagram of what a property class computes from it, tables and searches included, is compared with the diagram of the set of code points that have the property.",
      assumptions=["clang 18 lowers the sources faithfully to IR", "data/unicode.txt is the Unicode 14.0 character database (extracted from an independent implementation)"])
def c25(ctx):
    ctx.valg(UN.values(ctx.tier), UN.PRELUDE, what="both", noncompiling="violated", rule="the class accepts exactly the code points that have the property in Unicode 14.0")
    UN.names(ctx)


@prop("C26", 450, technique="effect analysis: inclusion-based points-to analysis and call graph over compiler IR", explain="Programs that use every construct, operation, form of subject and access to a result are compiled; from each the call graph is followed, a field-sensitive points-to analysis says what every store may write, and every variable, unknown callee and throwing call that can be reached is reported with the path to it.",
      assumptions=["clang 18 lowers the sources faithfully to IR", "memcmp, strlen and their like have no effect besides their result", "constructs not instantiated by the programs are those of no documented syntax"])
def c26(ctx):
    EF.run(ctx)


@prop("C27", 230, technique="progress rule over value graphs: every call of a nested pattern, of the rest and of an attempt is compared with the position it came from", explain="In the value graph of each construct every call of nested content, of the rest of the pattern and of an attempt is found with its path condition. A way into the rest may lift the mark 'nothing consumed yet' only where the position is known to differ; iterations that may be empty are started at most as often as required; an attempt is followed only by one that is known to be further on; a step of the UTF-8 iterator moves.",
      assumptions=ASSUME_V[:2] + ["an iteration, or an attempt, does not end before its beginning (C01 holds steps to the subject; lookarounds continue from where they were entered, C06)", "the recursion over the pattern itself is finite: patterns are types, which are not recursive"])
def c27(ctx):
    PG.run(ctx)


@prop("C28", 1800, explain="The units of the subject are opaque, its length is enumerated. Every entry point, on every form of subject, is held to what the operation does with one pattern that shows the mode of lines, the mode of case, the group and both bounds of the subject.",
      assumptions=["clang 18 lowers the sources faithfully to IR", "the object layouts of std::string and std::vector are those of the libstdc++ that is installed", "an entry point treats every pattern alike (it is a template over the type the pattern translates to), so one pattern that shows every mode and bound stands for all", "longer subjects behave as the enumerated lengths: entry points pass bounds on, they do not read"])
def c28(ctx):
    rule = "the entry point does what the operation does with this pattern, these modes and exactly this subject"
    ctx.valg(FO.entries(ctx.tier) + FO.subjects(ctx.tier) + FO.pipes(ctx.tier), FO.PRELUDE, what="both", rule=rule)
    ctx.valg(FO.older(ctx.tier), FO.PRELUDE17, what="both", rule=rule, defines=["-std=c++17"])


@prop("C29", 6500, technique="compile witnesses: every construct nested in every construct is used; type witnesses and symbolic value graphs for what the passes find in it", explain="Matching: every construct, nested in every other one up to two deep, is instantiated through an entry point. Group discovery: the list of groups found is compared with the groups of the text. First characters: with each construct before, inside and after a repetition the repetition stays what it is defined to be. Mirroring: the translated content of a lookbehind is compared with the mirrored one.",
      assumptions=["clang 18 type-checks and lowers the sources faithfully", "deeper nesting instantiates the same functions: each takes its content as a pack of types"])
def c29(ctx):
    EV.run(ctx)
