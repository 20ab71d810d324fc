"""Obligations decided on value graphs: compile probe functions together with
their references, build both value graphs, compare them."""
import os, re, subprocess, tempfile, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import dd, llir, vgraph
from .dd import Term, leaf, atom, TRUE, FALSE, AND, OR, NOT
from .vgraph import Analysis, Vocab

REPO = os.environ.get("CTRE_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "clang++-18"
OPT = "/usr/lib/llvm-18/bin/opt"
PASSES = ("internalize,globaldce,forceattrs,always-inline,function(sroa,early-cse),cgscc(inline),"
          "function(sroa,early-cse<memssa>,instsimplify,simplifycfg),cgscc(argpromotion),deadargelim,"
          "function(sroa,early-cse<memssa>,instsimplify,simplifycfg,adce,loop-simplify,lcssa),globaldce")
CXX = ["-std=c++20", "-I" + REPO + "/include", "-I" + HERE + "/probes", "-O1", "-Xclang", "-disable-llvm-passes",
       "-fno-exceptions", "-fno-strict-aliasing", "-fbracket-depth=2048", "-ftemplate-depth=2048", "-w"]


class Broken(Exception):
    """the analysis can not be done (not a verdict about the property)"""


class Ob:
    """one obligation: impl_<name> and ref_<name> are the same function of the opaque vocabulary"""

    def __init__(self, name, impl, ref=None, sig="eval", unroll=None, bounds=True, raw=False, flags=None, allow=None, note="", where="", cond=None, includes=(), body=None, reads=None, thorough=None, cost=1, pyref=None, ends=True):
        self.pyref = pyref
        self.cost, self.reads = cost, reads
        self.name, self.impl, self.ref, self.sig = name, impl, ref, sig
        self.unroll, self.bounds, self.raw, self.flags, self.allow = unroll, bounds, raw, flags, allow
        self.note, self.where, self.cond, self.thorough = note, where, cond, thorough
        self.progress, self.minimum, self.ends = False, None, ends


# name -> (C++ return type, parameters [(C++ type, name)], prologue)
IT = "const probe::itobj *"
SIGS = {
    "res": ("const probe::robj *", [(IT, "b"), (IT, "e"), (IT, "gb"), (IT, "ge"), (IT, "hb"), (IT, "he"), ("bool", "ok"), ("bool", "gok"), ("bool", "hok"), (IT, "td"), ("size_t", "tn")]),
    "mem": ("uint64_t", [("const char8_t *", "p"), ("size_t", "x")]),
    "memc": ("uint64_t", [("const char *", "p"), ("size_t", "x")]),
    "cp": ("bool", [("char32_t", "c")]),
    "units8": ("uint64_t", [("unsigned char", "u%d" % i) for i in range(6)]),
    "units16": ("uint64_t", [("char16_t", "u%d" % i) for i in range(5)]),
    "units32": ("uint64_t", [("char32_t", "u%d" % i) for i in range(5)]),
    "api": ("const probe::robj *", [(IT, "b"), (IT, "c"), (IT, "l")]),
    "eval": ("const probe::robj *", [("const probe::itobj *", "b"), ("const probe::itobj *", "c"), ("const probe::itobj *", "l"), ("bool", "blk"), ("bool", "ml"), ("bool", "ci"), ("const probe::robj *", "r")]),
}


def run(cmd, **kw):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=max(20, min(400, BUDGET - (time.time() - START))), **kw)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(cmd, 124, "", "error: the compiler was stopped, it took too long")


class Unit:
    """a translation unit of probe functions"""

    def __init__(self, prelude="", defines=()):
        self.prelude, self.defines = prelude, list(defines)
        self.obs = []

    def source(self, obs):
        out = [self.prelude]
        for o in obs:
            ret, params = SIGS[o.sig]
            ps = ", ".join("%s %s" % p for p in params)
            for kind, body in (("impl", o.impl), ("ref", o.ref)):
                if body is None: continue
                out.append('extern "C" %s %s_%s(%s) { %s }' % (ret, kind, o.name, ps, body))
                if kind == "ref" and isinstance(o.allow, dict):
                    for k, v in o.allow.items():
                        out.append('extern "C" %s alt%s_%s(%s) { %s }' % (ret, k, o.name, ps, v))
        return "\n".join(out) + "\n"

    def public(self, obs):
        n = []
        for o in obs:
            n.append("impl_" + o.name)
            if o.ref is not None: n.append("ref_" + o.name)
            if isinstance(o.allow, dict): n += ["alt%s_%s" % (k, o.name) for k in o.allow]
        return n


def compile_unit(unit, obs, tmp, tag):
    """-> (Module | None, error text)"""
    src = os.path.join(tmp, tag + ".cpp")
    with open(src, "w") as f: f.write(unit.source(obs))
    ll = os.path.join(tmp, tag + ".ll")
    r = run([CLANG] + CXX + list(unit.defines) + ["-S", "-emit-llvm", src, "-o", ll])
    if r.returncode: return None, r.stderr
    o = os.path.join(tmp, tag + ".o.ll")
    lst = os.path.join(tmp, tag + ".pub")
    with open(lst, "w") as f: f.write("\n".join(unit.public(obs)) + "\n")
    r = run([OPT, "-S", "-passes=" + PASSES, "-internalize-public-api-file=" + lst, "-inline-threshold=1000000", ll, "-o", o])
    if r.returncode: return None, r.stderr
    return llir.Module(open(o).read()), ""


def compile_all(unit, obs, tmp, tag):
    """compile everything at once; if that fails compile one by one to find the offending probes.
    -> ([(Module, [ob])], {ob name: error})"""
    parts = [obs] if len(obs) < 160 else [obs[i::8] for i in range(8)]
    mods, errors = [], {}
    with ThreadPoolExecutor(8) as ex:
        again = []
        for os_, (m, err) in zip(parts, ex.map(lambda a: compile_unit(unit, a[1], tmp, "%s_p%d" % (tag, a[0])), enumerate(parts))):
            if m is not None: mods.append((m, os_))
            else: again += os_
        for i, (m, err) in enumerate(ex.map(lambda a: compile_unit(unit, [a[1]], tmp, "%s_%d" % (tag, a[0])), enumerate(again))):
            if m is None: errors[again[i].name] = err
            else: mods.append((m, [again[i]]))
    return mods, errors


class Outcome:
    def __init__(self, ob): 
        self.ob, self.verdict, self.text, self.stats = ob, None, [], {}


def args_of(ob, concrete):
    vals, names = [], {}
    for t, n in SIGS[ob.sig][1]:
        term = Term(n)
        names[n] = term
        if t == "bool":
            vals.append((TRUE if concrete[n] else FALSE,) if n in concrete else (atom(term),))
        elif "*" in t: vals.append(leaf(term))
        else:
            w = {"char32_t": 32, "unsigned": 32, "int": 32, "size_t": 64, "unsigned char": 8, "char": 8, "char16_t": 16, "uint8_t": 8, "signed char": 8, "wchar_t": 32, "unsigned long": 64, "char8_t": 8}[t]
            vals.append(vgraph.const_bits(concrete[n], w) if n in concrete else vgraph.term_bits(term, w))
    return vals, names


def vocab_for(ob):
    v = Vocab(Term("b"), Term("l"))
    return v


def build(mod, fn, ob, unroll, concrete):
    vals, _ = args_of(ob, concrete)
    an = Analysis(mod, vocab_for(ob), unroll=unroll)
    r, mem = an.run(fn, vals)
    if isinstance(r, tuple):
        if len(r) == 1: r = r[0]
        else: r = list(r)
    return r, an


def flatten(v):
    if isinstance(v, (list, tuple)):
        out = []
        for x in v: out += flatten(x)
        return out
    return [] if v is None else [v]


def source_line(mod, name): return name


def check_bounds(ob, an):
    """every step and every read happens at a position which allows it"""
    v = an.vocab
    B, L = Term("b"), Term("l")
    bad = []
    n = 0
    care = TRUE         # what happens on a way that goes on beyond the expansion happens as well
    if ob.reads:
        lo, hi = ob.reads
        for e in an.events:
            if e.op != "load" or e.guard == FALSE: continue
            n += 1
            t = dd._val[e.args[0]]
            base, off = t.args if t.op == "addr" else (t, 0)
            if base is Term("p") and lo <= off < hi: continue
            diff, _ = vgraph.satisfiable(e.guard, care)
            if diff is not None: bad.append(("reads byte %s of a subject that has the bytes %d to %d," % (off, lo, hi - 1), base, dd.describe_path(diff[0]), e.where))
    for e in an.events:
        if e.op == "oob":
            diff, _ = vgraph.satisfiable(e.guard, care)
            if diff is not None: bad.append(("reads outside of a table at", dd._val[e.args[0]], dd.describe_path(diff[0]), e.where))
    for e in an.events:
        if e.op not in ("it_deref", "it_next", "it_prev"): continue
        n += 1
        for l in dd.leaves(e.args[0]):
            t = dd._val[l]
            if t.op == "undef": continue
            g = AND(e.guard, TRUE if len(dd.leaves(e.args[0])) == 1 else dd.mapn((e.args[0],), lambda x, l=l: TRUE if x == l else FALSE))
            if g == FALSE: continue
            if e.op == "it_prev":
                cond = v.f_it_eq(an, t, B)
                conds = [cond]
                what = "steps back from the beginning"
            else:
                conds = [v.f_it_eq(an, t, L)]
                root, k = vgraph.steps(t)
                if root.op == "r_cap_begin" and k >= 0: conds.append(v.f_it_eq(an, t, Term("r_cap_end", *root.args)))
                what = "reads the end" if e.op == "it_deref" else "steps over the end"
            diff = None
            for c in conds:
                diff, _ = vgraph.satisfiable(AND(g, c), care)
                if diff is None: break
            if diff is not None:
                bad.append((what, t, dd.describe_path(diff[0]), e.where))
                break
    return n, bad


def check_progress(ob, an):
    """no way leads back to where it came from without anything consumed"""
    v = an.vocab
    care = TRUE         # what happens on a way that goes on beyond the expansion happens as well
    bad, n = [], 0
    start, blocked = Term("c"), atom(Term("blk"))

    def tell(what, diff, e): bad.append((what, "", dd.describe_path(diff[0]), e.where))

    def options(node, g):
        for l in dd.leaves(node):
            if dd._val[l].op == "undef": continue
            h = AND(g, TRUE if len(dd.leaves(node)) == 1 else dd.mapn((node,), lambda x, l=l: TRUE if x == l else FALSE))
            if h != FALSE: yield dd._val[l], h
    bodies, attempts = {}, []
    for e in an.events:
        if e.guard == FALSE: continue
        if e.op in ("x_eval", "k_eval"):
            at = 3 if e.op == "x_eval" else 2
            for tag, g0 in (options(e.args[1], e.guard) if e.op == "x_eval" else [(None, e.guard)]):
                t = "KB" if tag is None else repr(tag)
                for pos, g1 in options(e.args[at], g0):
                    for blk, g in options(e.args[at + 2], g1):
                        n += 1
                        free = blk.op == "#" and blk.args[0] == 0
                        if "end_cycle_mark" in t:
                            key = (dd._val[dd.leaves(e.args[0])[0]], tag)
                            bodies.setdefault(key, []).append((pos, free, g, e))
                        elif "KB" in t or "probe2KB" in t:
                            if not free: continue
                            g = AND(g, blocked)
                            diff, _ = vgraph.satisfiable(AND(g, v.f_it_eq(an, pos, start)), care)
                            if diff is not None: tell("an empty iteration goes on as if something had been consumed: the rest is tried from %r" % pos, diff, e)
        elif e.op in ("y_ok", "ex_ok"):
            if e.op == "y_ok" and dd._val[dd.leaves(e.args[1])[0]].args[0] != 0: continue      # another way of the same attempt
            at = 3 if e.op == "y_ok" else 1
            attempts.append(e)
            n += 1
    m = ob.minimum if getattr(ob, "minimum", None) is not None else 1
    for key, cs in bodies.items():
        least = [TRUE] + [FALSE] * (max(1, m) + 1)
        for pos, free, g, e in cs:
            if not free: continue
            for k in range(len(least) - 1, 0, -1): least[k] = OR(least[k], AND(least[k - 1], g))
        diff, _ = vgraph.satisfiable(least[-1], care)
        if diff is not None: tell("iterations that may be empty are started more often than the %d that are required" % m, diff, cs[-1][3])
        per = {}
        for pos, free, g, e in cs: per.setdefault(pos, []).append((g, e))
        for pos, gs in per.items():
            least = [TRUE] + [FALSE] * 3
            for g, e in gs:
                for k in range(3, 0, -1): least[k] = OR(least[k], AND(least[k - 1], g))
            diff, _ = vgraph.satisfiable(least[3], care)
            if diff is not None: tell("iterations are started again and again from the same position %r" % pos, diff, gs[-1][1])
    if attempts:
        seen = []
        for e in attempts:
            at = 3 if e.op == "y_ok" else 1
            for pos, g in options(e.args[at], e.guard): seen.append((pos, g, e))
        for j in range(len(seen)):
            pj, gj, e = seen[j]
            between = FALSE
            for i in range(j - 1, -1, -1):
                pi, gi, _ = seen[i]
                G = AND(AND(gi, gj), NOT(between))
                between = OR(between, gi)
                if G == FALSE: continue
                rj, nj = vgraph.steps(pj)
                ri, ni = vgraph.steps(pi)
                if rj == ri:
                    if nj > ni: continue
                    diff, _ = vgraph.satisfiable(G, care)
                elif rj.op in ("y_pos", "ex_e") and rj.args[3 if rj.op == "y_pos" else 1] == pi and nj >= 0:
                    if nj > 0: continue
                    c = v.f_it_eq(an, rj, pi)
                    if rj.op == "ex_e": c = AND(c, v.f_it_eq(an, Term("ex_b", *rj.args), rj))
                    diff, _ = vgraph.satisfiable(AND(G, c), care)
                else: diff, _ = vgraph.satisfiable(G, care)
                if diff is not None:
                    tell("an attempt at %r follows one at %r, which is not known to be behind it" % (pj, pi), diff, e)
                    break
    return n, bad[:6]


def decide(mod, ob, default_unroll):
    vgraph.reset()
    out = Outcome(ob)
    unroll = ob.unroll if ob.unroll is not None else default_unroll
    t0 = time.time()
    combos = ob.flags if ob.flags is not None else [{}]
    st = {"blocks": 0, "functions": set(), "opaque_calls": 0, "nodes": 0, "reads_and_steps": 0, "complete": True, "leaves": 0}
    for concrete in combos:
        u = unroll
        while True:
            vgraph.reset()
            try:
                ri, ai = build(mod, "impl_" + ob.name, ob, u, concrete)
                refs = []
                if ob.ref is not None:
                    refs.append(build(mod, "ref_" + ob.name, ob, u + 2, concrete))
                    if isinstance(ob.allow, dict):
                        for k in ob.allow: refs.append(build(mod, "alt%s_%s" % (k, ob.name), ob, u + 2, concrete))
                break
            except vgraph.Blowup:
                if u <= 1: raise Broken("%s: diagrams grow over the limit" % ob.name)
                u -= 1
        st["unroll"] = u
        st["blocks"] += ai.blocks; st["functions"] |= ai.functions; st["opaque_calls"] += len(ai.sites)
        if ai.cut != FALSE: st["complete"] = False
        fi = [x if ob.raw else vgraph.normalise_result(x) for x in flatten(ri)] if ob.sig == "eval" or not ob.raw else flatten(ri)
        st["leaves"] += sum(len(dd.leaves(x)) for x in fi)
        st["nodes"] += sum(dd.size(x) for x in fi)
        diffs = []
        if ob.pyref:
            fr, care = ob.pyref(args_of(ob, concrete)[0])
            care = AND(care, NOT(ai.cut))
            if care == FALSE: raise Broken("%s: nothing left to compare" % ob.name)
            d = None
            for i, (x, y) in enumerate(zip(fi, fr)):
                d, _ = vgraph.compare(x, y, care)
                if d: d = (i,) + d; break
            diffs.append(d)
        for rr, ar in refs:
            fr = [x if ob.raw else vgraph.normalise_result(x) for x in flatten(rr)]
            if ob.ends and ai.cut != FALSE and u > 2 and ob.sig in ("api", "eval"):
                # what the definition finishes in fewer rounds, the library has to finish
                _, short = build(mod, "ref_" + ob.name, ob, u - 2, concrete)
                x, _ = vgraph.satisfiable(AND(ai.cut, NOT(short.cut)), TRUE)
                if x is not None:
                    diffs.append(("stuck", dd.describe_path(x[0])))
                    continue
            care = AND(NOT(ai.cut), NOT(ar.cut))
            if ob.cond: care = AND(care, ob.cond(ai, concrete))
            if care == FALSE: raise Broken("%s: nothing left to compare" % ob.name)
            d = None
            if len(fi) != len(fr): raise Broken("%s: results have a different shape" % ob.name)
            for i, (x, y) in enumerate(zip(fi, fr)):
                d, _ = vgraph.compare(x, y, care)
                if d: d = (i,) + d; break
            diffs.append(d)
            if d is None: break
        if diffs and all(d is not None for d in diffs):
            out.verdict = "violated"
            if diffs[0][0] == "stuck":
                out.text += ["still running after %d rounds where the property needs at most %d, on every input where" % (u, u - 2)] + ["    " + s for s in ["%s=%d" % kv for kv in concrete.items()] + diffs[0][1]]
                continue
            i, path, x, y = diffs[0]
            txt = ["on every input where"] + ["    " + s for s in ([("%s=%d" % kv) for kv in concrete.items()] + dd.describe_path(path))]
            if len(fi) > 1: txt.append("component %d of the result differs:" % i)
            txt += ["the library gives      " + dd.node_name(x), "the property requires  " + dd.node_name(y)]
            out.text += txt
        if ob.progress:
            n, bad = check_progress(ob, ai)
            st["calls_checked"] = st.get("calls_checked", 0) + n
            for what, t, path, where in bad:
                out.bounds_bad = getattr(out, "bounds_bad", []) + ["%s, in %s when %s" % (what, where[0], "; ".join(path) or "always")]
        elif ob.bounds:
            n, bad = check_bounds(ob, ai)
            st["reads_and_steps"] += n
            for what, t, path, where in bad:
                out.bounds_bad = getattr(out, "bounds_bad", []) + ["%s %r in %s when %s" % (what, t, where[0], "; ".join(path) or "always")]
    st["functions"] = sorted(st["functions"])
    st["seconds"] = round(time.time() - t0, 2)
    out.stats = st
    if out.verdict is None: out.verdict = "holds"
    return out


_work = None
START = time.time()
BUDGET = 780            # seconds for the whole check: what is not decided by then is reported as undecided
_found = None           # set once a violation is found: the rest gets less time


class TooLong(Exception):
    pass


def _alarm(sig, frame): raise TooLong("not decided in the time there is")


def _worker():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _one(i):
    import signal
    mod, ob, unroll = _work[i]
    left = BUDGET - (time.time() - START)
    if _found is not None and _found.value: left = min(left, 20)
    if left < 1: return (i, None, [], [], {}, "%s: no time left" % ob.name)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, min(left, 300))
    try:
        o = decide(mod, ob, unroll)
        if _found is not None and (o.verdict == "violated" or getattr(o, "bounds_bad", [])): _found.value = 1
        return (i, o.verdict, o.text, getattr(o, "bounds_bad", []), o.stats, None)
    except (llir.Unsupported, Broken, vgraph.Blowup, KeyError, RecursionError, TooLong, MemoryError) as e:
        return (i, None, [], [], {}, "%s: %s: %s" % (ob.name, type(e).__name__, e))
    finally: signal.setitimer(signal.ITIMER_REAL, 0)


def decide_all(work):
    """work: [(Module, Ob, unroll)] -> [(verdict, text, bounds_bad, stats, error)] in order, on all cores"""
    global _work, _found
    import multiprocessing as mp
    _work = work
    res = [None] * len(work)
    order = sorted(range(len(work)), key=lambda i: -(work[i][1].cost))
    if len(work) <= 2:
        for i in order: res[i] = _one(i)[1:]
        return res
    ctx = mp.get_context("fork")
    _found = ctx.Value("i", 0)
    with ctx.Pool(min(8, len(work)), _worker) as pool:
        for r in pool.imap_unordered(_one, order, chunksize=1): res[r[0]] = r[1:]
    return res
