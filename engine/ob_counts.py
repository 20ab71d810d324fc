"""The number of iterations is compared with the bounds of the repetition in full width: dataflow over compiler IR.

Repetitions with distinctive bounds beyond 32 bits are instantiated. In the IR, counters are the integers a loop (or a
recursion) steps; none may be narrower than size_t or be truncated, and the constants they start from and are compared
with have to be the bounds."""
import os
from . import valg, llir
from .ob_eval import PRELUDE, KK, fwd

N, M = (1 << 40) + 0x5300, (1 << 52) + 0x7900000000
MASK = (1 << 64) - 1
CLS = {"greedy": "repeat", "lazy": "lazy_repeat", "possessive": "possessive_repeat"}
RULE = "the number of iterations is counted and compared with the bounds in the full width of size_t"


def const(v):
    return v[1] if isinstance(v, tuple) and v[0] in ("int", "const") and isinstance(v[1], int) else None


def width(t): return t[1] if t[0] == "int" else None


def analyse(mod, bounds):
    """-> (violations, comparisons with a bound, counters)"""
    near = lambda c: any(abs(((c - b + (1 << 63)) & MASK) - (1 << 63)) <= 2 for b in bounds)
    allowed = lambda c: near(c) or c in (0, 1, MASK, MASK - 1)
    bad, seen, counters = [], set(), 0
    for f in mod.funcs.values():
        if not f.defined: continue
        ins = [i for _, b in f.blocks for i in b]
        defs = {i[1]: i for i in ins if i[1]}

        loc = lambda v: isinstance(v, tuple) and v[0] == "loc"
        OPS = {"bin": lambda i: i[4:6], "cast": lambda i: i[4:5], "copy": lambda i: i[3:4], "select": lambda i: i[4:6], "phi": lambda i: [v for v, _ in i[3]]}

        def stepped_from(v):
            """what v is made of, and whether there is a step on the way: {(name, stepped)}"""
            got, todo = set(), [(v[1], False)] if loc(v) else []
            while todo:
                n, st = todo.pop()
                if (n, st) in got: continue
                got.add((n, st))
                i = defs.get(n)
                if i is None or i[0] not in OPS: continue
                st = st or (i[0] == "bin" and i[2] in ("add", "sub"))
                todo += [(o[1], st) for o in OPS[i[0]](i) if loc(o)]
            return got
        tainted = {}
        # counters: a phi that steps from itself, an integer parameter of a function that calls itself with a step
        for p in ins:
            if p[0] == "phi" and p[2][0] == "int" and p[2][1] > 1 and any((p[1], True) in stepped_from(v) for v, _ in p[3]): tainted[p[1]] = p[2][1]
        rec = [i for i in ins if i[0] == "call" and i[3] == f.name]
        for k, (t, n) in enumerate(f.params):
            if rec and t[0] == "int" and t[1] > 1 and any((n, True) in stepped_from(c[4][k][1]) for c in rec): tainted[n] = t[1]
        counters += len(tainted)
        for n, w in tainted.items():
            if w < 64: bad.append("a number of iterations is kept in %d bits (%s in %s)" % (w, n, f.name))
        # what is computed from a counter
        more = True
        while more:
            more = False
            for i in ins:
                if not i[1] or i[1] in tainted: continue
                if i[0] in OPS and any(loc(o) and o[1] in tainted for o in OPS[i[0]](i)):
                    tainted[i[1]] = 0; more = True
        for i in ins:
            if i[0] == "cast" and i[2] == "trunc" and loc(i[4]) and i[4][1] in tainted:
                bad.append("the number of iterations is narrowed to %d bits (in %s)" % (width(i[5]), f.name))
            if i[0] == "bin" and i[2] not in ("add", "sub") and i[3] == ("int", 64) and any(loc(o) and o[1] in tainted for o in i[4:6]):
                c = [const(o) for o in i[4:6] if const(o) is not None]
                bad.append("the number of iterations is reduced by %s %s (in %s)" % (i[2], c[0] if c else "", f.name))
            cs = []
            if i[0] == "icmp" and any(loc(o) and o[1] in tainted for o in i[4:6]): cs = [const(o) for o in i[4:6]]
            if i[0] == "phi" and i[1] in tainted: cs = [const(v) for v, _ in i[3]]
            for c in cs:
                if c is None: continue
                if width(i[3] if i[0] == "icmp" else i[2]) not in (64,): continue
                c &= MASK
                if near(c) : seen.add(next(b for b in bounds if abs(((c - b + (1 << 63)) & MASK) - (1 << 63)) <= 2))
                elif not allowed(c): bad.append("the number of iterations is held against %d (in %s)" % (c, f.name))
    return bad, seen, counters


def run(ctx, kinds):
    for kind in kinds:
        for a, b in ((0, N), (N, 0), (N, N), (N, M)):
            for dn, d in (("", []), ("_workaround", ["-DCTRE_MSVC_GREEDY_WORKAROUND"])):
                if dn and kind != "greedy": continue
                for body in ("X<1>", "X<1>, X<2>"):
                    if body != "X<1>" and (a, b) != (N, M): continue
                    name = "count_%s_%s%s%s" % (kind, {(0, N): "at_most", (N, 0): "at_least", (N, N): "exact", (N, M): "between"}[(a, b)], "_two" if "2" in body else "", dn)
                    if ctx.only and ctx.only not in name: continue
                    t = "ctre::%s<%dull, %dull, %s>%s" % (CLS[kind], a, b, body, KK)
                    o = valg.Ob(name, fwd(t))
                    m, err = valg.compile_unit(valg.Unit(PRELUDE, d), [o], ctx.tmp, name)
                    where = "evaluate(%s)" % t
                    if m is None:
                        ctx.add(name, "dataflow of the counters", "broken", ["the probe does not compile:"] + err.split("\n")[:3], where=where, rule=RULE); continue
                    bounds = [x for x in {a, b, b - a if b else 0} if x] + [-x & MASK for x in {a, b} if x]
                    bad, seen, n = analyse(m, bounds)
                    for x, side in ((a, "least"), (b, "greatest")):
                        if x and not {x, -x & MASK, b - a if b > a else x} & seen: bad.append("nothing is compared with the %s number of iterations, %d" % (side, x))
                    ctx.add(name, "dataflow of the counters", not bad, bad, where=where, rule=RULE, stats={"functions": [f.name for f in m.funcs.values() if f.defined], "blocks": sum(len(f.blocks) for f in m.funcs.values())})
