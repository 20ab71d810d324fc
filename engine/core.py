"""Running obligations and reporting."""
import json, os, re, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import valg, llir

HERE = valg.HERE
REPO = valg.REPO


class Result:
    def __init__(self, name, engine, verdict, text=(), where="", rule="", stats=None):
        self.name, self.engine, self.verdict = name, engine, verdict     # holds | violated | broken
        self.text, self.where, self.rule, self.stats = list(text), where, rule, stats or {}


class Ctx:
    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.tmp = tempfile.mkdtemp(prefix="ctre-check-")
        self.results = []
        self.notes = []
        self.assumptions = []
        self.n = 0

    def close(self): shutil.rmtree(self.tmp, ignore_errors=True)

    @property
    def thorough(self): return self.tier == "thorough"

    def add(self, name, engine, ok, text=(), where="", rule="", stats=None):
        v = ok if isinstance(ok, str) else ("holds" if ok else "violated")
        if self.only and self.only not in name: return
        self.results.append(Result(name, engine, v, text, where, rule, stats))

    def progress(self, obs, prelude, defines=(), noref=True):
        """nothing goes on from where it came without having consumed something"""
        import copy
        os_ = []
        for o in obs:
            o = copy.copy(o)
            o.progress, o.ref, o.bounds = True, None, True
            m = re.match(r"(?:greedy|lazy|possessive)_(\d+)_", o.name)
            if m: o.minimum = int(m.group(1))
            os_.append(o)
        self.valg(os_, prelude, what="progress", defines=defines, rule="a way that consumed nothing is not continued as one that did; iterations and attempts go on from another position")

    # ---- engine V
    def valg(self, obs, prelude, defines=(), unroll=3, what="equal", rule="", noncompiling="broken"):
        """what: 'equal' -- the probe must equal its reference; 'bounds' -- steps and reads must be guarded; 'both'"""
        if self.only: obs = [o for o in obs if self.only in o.name]
        if not obs: return
        self.n += 1
        unit = valg.Unit(prelude, defines)
        mods, errors = valg.compile_all(unit, obs, self.tmp, "v%d" % self.n)
        for n, e in errors.items():
            lines = [l for l in e.split("\n") if "error" in l][:4]
            self.add(n, "value graph", noncompiling, ["the probe does not compile:"] + lines, rule=rule)
        work = [(m, o, unroll) for m, os_ in mods for o in os_]
        for (m, o, u), (verdict, text, bad, stats, err) in zip(work, valg.decide_all(work)):
            if err:
                self.add(o.name, "value graph", "broken", [err], where=o.where, rule=rule); continue
            r = rule or "impl_%s and ref_%s have the same value graph" % (o.name, o.name)
            if what in ("equal", "both"):
                self.add(o.name, "value graph", verdict, text, where=o.where or o.name, rule=r, stats=stats)
            if what == "progress":
                self.add(o.name, "value graph: progress", "violated" if bad else "holds", bad, where=o.where or o.name, rule=r, stats=stats)
            if what in ("bounds", "both"):
                if what == "bounds" and stats.get("reads_and_steps", 0) == 0 and o.note != "no reads": continue
                self.add(o.name + (":bounds" if what == "both" else ""), "value graph: positions", "violated" if bad else "holds", bad, where=o.where or o.name,
                         rule="every read and every step is reached only under a guard that excludes the end (the beginning for a step back)", stats=stats)

    # ---- engine T
    def types(self, witnesses, prelude, rule="", engine="type witnesses", defines=()):
        """witnesses: [(name, constant expression, explanation)]"""
        if self.only: witnesses = [w for w in witnesses if self.only in w[0]]
        if not witnesses: return
        self.n += 1
        names = [w[0] for w in witnesses]
        assert len(set(names)) == len(names), "duplicate witness"

        def compile_(ws, tag):
            src = os.path.join(self.tmp, tag + ".cpp")
            with open(src, "w") as f:
                f.write(prelude + "\n")
                for i, (n, e, _) in enumerate(ws): f.write('static_assert((%s), "W[%s]");\n' % (e, n))
            r = valg.run([valg.CLANG] + valg.CXX + list(defines) + ["-fsyntax-only", "-ferror-limit=0", "-fconstexpr-steps=100000000", src])
            failed, hard = set(), []
            for l in r.stderr.split("\n"):
                m = re.search(r"error: static assertion failed.*W\[([^\]]*)\]", l)
                if m: failed.add(m.group(1))
                elif re.search(r"(fatal )?error:", l): hard.append(l)
            return failed, hard
        broken = {}
        if len(witnesses) < 64: failed, hard = compile_(witnesses, "t%d" % self.n)
        else: failed, hard = set(), ["in parts"]
        if hard:
            failed = set()
            with ThreadPoolExecutor(8) as ex:
                # chunks first, then single ones
                chunks = [witnesses[i::16] for i in range(16) if witnesses[i::16]]
                again = []
                for ch, (f, h) in zip(chunks, ex.map(lambda a: compile_(a[1], "t%dc%d" % (self.n, a[0])), enumerate(chunks))):
                    if h: again += ch
                    else: failed |= f
                for w, (f, h) in zip(again, ex.map(lambda a: compile_([a[1]], "t%ds%d" % (self.n, a[0])), enumerate(again))):
                    if h: broken[w[0]] = h[:3]
                    failed |= f
        for n, e, note in witnesses:
            if n in broken: self.add(n, engine, "broken", ["the witness does not compile:"] + broken[n], rule=rule)
            else: self.add(n, engine, n not in failed, [] if n not in failed else ["not true: " + (e if len(e) < 600 else e[:600] + "..."), note], where=note, rule=rule)

    def same(self, cases, prelude, rule):
        """cases: [(name, text literal, type, shown, obligation)]: T<text> is the type, or at least matches as it does"""
        if self.only: cases = [c for c in cases if self.only in c[0]]
        if not cases: return
        self.n += 1
        # the types that are expected must be there, the texts must compile
        def compile_(cs, tag):
            src = os.path.join(self.tmp, tag + ".cpp")
            with open(src, "w") as f:
                f.write(prelude + "\n")
                for n, lit, ast, _, _ in cs: f.write('static_assert(std::is_same_v<T<%s>, %s>, "W[%s]");\n' % (lit, ast, n))
            r = valg.run([valg.CLANG] + valg.CXX + ["-fsyntax-only", "-ferror-limit=0", "-fconstexpr-steps=100000000", src])
            failed, hard = {}, []
            for l in r.stderr.split("\n"):
                m = re.search(r"error: static assertion failed(.*)W\[([^\]]*)\]", l)
                if m: failed[m.group(2)] = m.group(1)
                elif re.search(r"(fatal )?error:", l): hard.append(l)
            return failed, hard
        failed, bad = {}, {}
        with ThreadPoolExecutor(8) as ex:
            parts = [cases[i::16] for i in range(16) if cases[i::16]]
            again = []
            for ch, (f, h) in zip(parts, ex.map(lambda a: compile_(a[1], "y%dc%d" % (self.n, a[0])), enumerate(parts))):
                if h: again += ch
                else: failed.update(f)
            for c, (f, h) in zip(again, ex.map(lambda a: compile_([a[1]], "y%ds%d" % (self.n, a[0])), enumerate(again))):
                failed.update(f)
                if h: bad[c[0]] = h[:3]
        obs = []
        for n, lit, ast, shown, ob in cases:
            if n in bad:
                src = os.path.join(self.tmp, "y%da_%s.cpp" % (self.n, n))
                with open(src, "w") as f: f.write(prelude + "\nstatic_assert(std::is_same_v<%s, %s>);\n" % (ast, ast))
                r = valg.run([valg.CLANG] + valg.CXX + ["-fsyntax-only", src])
                if r.returncode: self.add(n, "type witnesses: syntax", "broken", ["the expected construct does not compile:"] + r.stderr.split("\n")[:3], where="pattern text " + shown, rule=rule)
                else: self.add(n, "type witnesses: syntax", "violated", ["the pattern text %s is not accepted:" % shown] + bad[n], where="pattern text " + shown, rule=rule)
            elif n in failed: obs.append((ob, failed[n], ast))
            else: self.add(n, "type witnesses: syntax", True, where="pattern text " + shown, rule=rule)
        if obs:
            before = len(self.results)
            self.valg([o for o, _, _ in obs], prelude, what="equal", defines=["-DPROBE_CHAR=char32_t"], rule=rule, noncompiling="violated")
            why = {o.name: (f, a) for o, f, a in obs}
            # too large to compare by value: its parts are cases of their own
            large = [r for r in self.results[before:] if r.verdict == "broken" and "over the limit" in " ".join(map(str, r.text))]
            self.notes += ["not compared by value, too large: " + r.where for r in large]
            self.results = [r for r in self.results if r not in large]
            for r in self.results[before:]:
                if r.verdict == "violated" and r.name in why: r.text = ["denotes: " + why[r.name][1], "translated to another type" + why[r.name][0][:300]] + r.text

    def rejects(self, cases, rule="", engine="compile-fail witnesses", defines=()):
        """cases: [(name, program, must_fail: bool, note)]"""
        if self.only: cases = [c for c in cases if self.only in c[0]]
        self.n += 1

        def one(a):
            i, (n, prog, must_fail, note) = a
            src = os.path.join(self.tmp, "r%d_%d.cpp" % (self.n, i))
            with open(src, "w") as f: f.write(prog)
            r = valg.run([valg.CLANG] + valg.CXX + list(defines) + ["-fsyntax-only", src])
            return r.returncode, r.stderr
        with ThreadPoolExecutor(8) as ex:
            for (n, prog, must_fail, note), (rc, err) in zip(cases, ex.map(one, enumerate(cases))):
                ok = (rc != 0) == must_fail
                if rc and "file not found" in err: ok = "broken"
                self.add(n, engine, ok, [] if ok is True else ["accepted although: " + note if must_fail else "does not compile although: " + note, prog[-400:]] + ([] if must_fail else [l for l in err.split("\n") if "error" in l][:3]), where=note, rule=rule)


def known_findings():
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) obligation=(\S+) (.*)", l)
            if m: out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def main(argv):
    import argparse
    from props import registry
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(a.prop, a.tier, seed, a.only)
    try:
        spec = registry.PROPS[a.prop]
        try:
            spec["run"](ctx)
        except (valg.Broken, llir.Unsupported) as e:
            ctx.add("analysis", "driver", "broken", [str(e)])
    finally:
        ctx.close()
    return report(ctx, spec, time.time() - t0, a)


def report(ctx, spec, wall, a):
    known = known_findings()
    bad = [r for r in ctx.results if r.verdict == "violated"]
    broken = [r for r in ctx.results if r.verdict == "broken"]
    fresh = [r for r in bad if (ctx.prop, r.name) not in known]
    listed = [r for r in bad + broken if (ctx.prop, r.name) in known]
    broken = [r for r in broken if (ctx.prop, r.name) not in known]
    floor = spec.get("floor", 1)
    if a.v:
        for r in ctx.results: print("%-9s %-40s %s" % (r.verdict, r.name, r.stats.get("seconds", "")))
    n = len(ctx.results)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    replay = os.path.join("evidence", "replay", ctx.prop + ".txt")
    for r in listed: print("KNOWN-FINDING: property=%s %s: %s" % (ctx.prop, r.name, known[(ctx.prop, r.name)]))
    rc = 0
    with open(os.path.join(HERE, replay), "w") as f:
        for r in fresh + broken:
            f.write("%s %s (%s)\n  rule: %s\n  construct: %s\n" % (r.verdict.upper(), r.name, r.engine, r.rule, r.where))
            for l in r.text: f.write("    " + str(l) + "\n")
            f.write("  again: python3 check.py %s --only %s -v\n\n" % (ctx.prop, r.name))
    for r in broken:
        print("analysis broken: %s (%s): %s" % (r.name, r.engine, " | ".join(map(str, r.text))[:1000]))
    if not a.only and n < floor:
        print("analysis broken: only %d obligations found, at least %d expected" % (n, floor))
        rc = 2
    if broken: rc = 2
    if fresh:
        for r in fresh[:20]:
            print("violated: %s (%s)\n  rule: %s\n  construct: %s" % (r.name, r.engine, r.rule, r.where))
            for l in r.text[:14]: print("    " + str(l)[:400])
        print("VIOLATION property=%s replay=%s" % (ctx.prop, replay))
        rc = 1
    per = {}
    for r in ctx.results:
        d = per.setdefault(r.engine, {"obligations": 0, "discharged": 0})
        d["obligations"] += 1
        d["discharged"] += r.verdict == "holds"
    funcs = sorted({f for r in ctx.results for f in r.stats.get("functions", [])})
    cov = {
        "explanation": spec["explain"] + " Each obligation below was decided from the source in /repo on this run; none of the library's code was executed.",
        "obligations": n, "discharged": sum(r.verdict == "holds" for r in ctx.results),
        "by_engine": per,
        "rules": sorted({r.rule for r in ctx.results if r.rule})[:40],
        "functions_analysed": len(funcs),
        "ir_blocks_analysed": sum(r.stats.get("blocks", 0) for r in ctx.results),
        "reads_and_steps_checked": sum(r.stats.get("reads_and_steps", 0) for r in ctx.results),
        "loops_left_bounded": sorted({"%s (expanded %d times)" % (r.name, r.stats["unroll"]) for r in ctx.results if r.stats.get("complete") is False})[:60],
        "obligation_list": ["%s: %s [%s]" % (r.name, r.verdict, r.where or r.rule) for r in ctx.results][:400],
        "notes": ctx.notes[:40],
        "samples": ["%s: %s -- %s" % (r.name, r.where, r.rule) for r in ctx.results[:5]],
    }
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": spec.get("level", "other"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(fresh)}
    if not a.only:
        with open(os.path.join(HERE, "evidence", ctx.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d hold, %d violated (%d known), %d undecided, %.1f s" % (ctx.prop, n, cov["discharged"], len(bad), len(listed), len(broken), wall))
    return rc
