"""An effect analysis of compiled programs.

From every entry the call graph is followed through the bodies of all functions.  A field-sensitive inclusion-based points-to analysis says
what each store may write.  A program has no effect besides its result if every store goes to an object of the call itself, no function
without a body is called (but for a few which are known to have no effect), no variable that can change is used, nothing can throw."""
import os, re
from collections import defaultdict
from . import valg, llir

PURE = {"memcmp", "bcmp", "strlen", "wcslen", "memchr", "wmemchr", "wmemcmp", "strnlen", "__assert_fail", "abort", "abs"}
COPY = {"memcpy", "memmove", "wmemcpy", "memset"}
ALLOC = {"_Znwm": 1, "_Znam": 1, "_ZdlPv": 0, "_ZdlPvm": 0, "_ZdaPv": 0}
HARMLESS = ("llvm.lifetime.", "llvm.experimental.noalias", "llvm.assume", "llvm.dbg.", "llvm.expect", "llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax", "llvm.fshl", "llvm.fshr", "llvm.ctpop", "llvm.ctlz", "llvm.cttz",
            "llvm.abs", "llvm.umul", "llvm.smul", "llvm.uadd", "llvm.usub", "llvm.sadd", "llvm.ssub", "llvm.stacksave", "llvm.stackrestore", "llvm.is.constant", "llvm.bswap", "llvm.bitreverse", "llvm.trap", "llvm.invariant", "llvm.launder", "llvm.strip", "llvm.objectsize", "llvm.vector.reduce", "llvm.ubsantrap")
PASSES = "function(sroa,early-cse,simplifycfg),globaldce"


def build(src, ll, extra=()):
    raw = ll + ".raw"
    r = valg.run([valg.CLANG] + valg.CXX + ["-fexceptions", "-gline-tables-only"] + list(extra) + ["-S", "-emit-llvm", src, "-o", raw])
    if r.returncode: return None, r.stderr
    r = valg.run([valg.OPT, "-S", "-passes=" + PASSES, raw, "-o", ll])
    if r.returncode: return None, r.stderr
    return open(ll).read(), ""


class Prog:
    """the module with the debug locations of its instructions"""

    def __init__(self, text):
        # locations: keep the number, the reader drops it
        text = re.sub(r"\n {6,}", " ", text)
        self.scopes, self.locs, self.files = {}, {}, {}
        for m in re.finditer(r"^(!\d+) = (?:distinct )?!(DI\w+)\((.*)\)$", text, re.M):
            n, k, a = m.groups()
            if k == "DILocation":
                g = dict(re.findall(r"(\w+): (![0-9]+|\d+)", a))
                self.locs[n] = (g.get("line"), g.get("scope"))
            elif k == "DIFile":
                f = re.search(r'filename: "([^"]*)"', a); d = re.search(r'directory: "([^"]*)"', a)
                self.files[n] = f.group(1) if f else "?"
            else:
                f = re.search(r"file: (!\d+)", a); s = re.search(r"scope: (!\d+)", a)
                self.scopes[n] = (f.group(1) if f else None, s.group(1) if s else None)
        self.vague = []          # lines with a property that the reader drops: (function, text)
        self.dbg = defaultdict(list)
        cur = None
        for ln in text.split("\n"):
            if ln.startswith("define"): cur = re.search(r"@(\"[^\"]*\"|[\w.$-]+)\(", ln).group(0)[:-1]
            elif ln == "}": cur = None
            elif cur and ln.startswith("  ") and ln[2] not in " ];":
                m = re.search(r"!dbg (!\d+)", ln)
                self.dbg[cur].append(m.group(1) if m else None)
        self.mod = llir.Module(re.sub(r",? !dbg !\d+", "", text))
        self.ctors = [l for l in text.split("\n") if l.startswith("@llvm.global_ctors") or l.startswith("@llvm.global_dtors")]
        self.asm = re.findall(r"^\s+.*\basm\b.*$", text, re.M)
        self.odd = re.findall(r"^\s+.*\b(?:load|store) (?:volatile|atomic)\b.*$|^\s+.*\b(?:cmpxchg|atomicrmw|fence)\b.*$", text, re.M)

    def where(self, dbg):
        if dbg not in self.locs: return "?"
        line, scope = self.locs[dbg]
        f = None
        seen = 0
        while scope in self.scopes and f is None and seen < 50:
            f, scope2 = self.scopes[scope]
            scope = scope2; seen += 1
        name = self.files.get(f, "?")
        name = name.replace(valg.REPO + "/", "")
        return "%s:%s" % (name, line)


def demangle(names):
    r = valg.run(["c++filt"], input="\n".join(n.lstrip("@").strip('"') for n in names)) if names else None
    return dict(zip(names, r.stdout.split("\n"))) if r else {}


class PointsTo:
    """objects: ('alloca', f, v) ('global', g) ('subject',) ('heap', f, v) ('code', f); a location is (object, offset | None)"""

    def __init__(self, prog, entries, alloc=False):
        self.p, self.m, self.alloc = prog, prog.mod, alloc
        self.pts = defaultdict(set)        # node -> set of locations
        self.edges = defaultdict(set)      # node -> nodes it flows into
        self.loads, self.stores, self.geps, self.copies = defaultdict(set), defaultdict(set), defaultdict(set), []
        self.problems = []
        self.reached, self.stack_from = set(), {}
        self.nstores = self.ncalls = self.nloads = 0
        self.writes = []                   # (function, pointer node, debug)
        self.entries = entries
        work = []
        for e in entries:
            f = self.m.funcs[e]
            self.reached.add(e); self.stack_from[e] = None; work.append(e)
            for i, (t, n) in enumerate(f.params):
                if t[0] == "ptr": self.pts[(e, n)].add((("subject",), None))
        # the subject may hold pointers to parts of itself
        self.pts[("mem", ("subject",), None)].add((("subject",), None))
        while work:
            f = self.m.funcs[work.pop()]
            for c in self.function(f):
                if c not in self.reached:
                    self.reached.add(c); self.stack_from[c] = f.name; work.append(c)
        self.solve()
        for fn, node, dbg, what in self.writes:
            for loc in self.pts[node]:
                o = loc[0]
                if o[0] in ("subject", "global", "unknown", "code"):
                    self.problem(fn, dbg, "%s writes to %s" % (what, {"subject": "the subject", "global": "the variable %s" % (o[1] if len(o) > 1 else ""), "unknown": "memory of unknown origin", "code": "code"}[o[0]]))
            if not self.pts[node]: self.problem(fn, dbg, "%s writes to memory of unknown origin" % what)

    def problem(self, fn, dbg, text):
        self.problems.append((fn, self.p.where(dbg), text))

    def val(self, f, v, ty=("ptr",)):
        """node of an operand"""
        k = v[0]
        if k == "loc": return (f.name, v[1])
        if k == "glob":
            n = ("const", v[1])
            self.pts[n].add(((("code", v[1]) if v[1] in self.m.funcs else ("global", v[1])), 0))
            return n
        if k == "gep":
            n = ("cgep", f.name, id(v))
            base = self.val(f, v[2])
            self.geps[base].add((n, None)); self.pending_gep(base, n, None)
            return n
        if k == "ccast": return self.val(f, v[3])
        return ("nothing",)

    def pending_gep(self, base, n, off):
        pass

    def function(self, f):
        callees = []
        dbgs = iter(self.p.dbg.get(f.name, []))
        live = self.live(f)
        for label, ins in f.blocks:
            for x in ins:
                d = next(dbgs, None)
                if label not in live: continue
                op = x[0]
                if op == "alloca": self.pts[(f.name, x[1])].add((("alloca", f.name, x[1]), 0))
                elif op == "gepi": self.geps[self.val(f, x[3])].add(((f.name, x[1]), self.const_off(x[2], x[4])))
                elif op == "load":
                    self.nloads += 1
                    self.use_globals(f, [x[3]], d)
                    a = self.val(f, x[3])
                    if x[2][0] in ("ptr", "struct", "array", "named", "vec") or x[2] == ("int", 64): self.loads[a].add((f.name, x[1]))
                elif op == "store":
                    self.nstores += 1
                    a = self.val(f, x[4])
                    self.writes.append((f.name, a, d, "a store"))
                    if x[2][0] in ("ptr", "struct", "array", "named", "vec") or x[2] == ("int", 64): self.stores[a].add(self.val(f, x[3]))
                    self.use_globals(f, [x[3], x[4]], d)
                elif op in ("phi",):
                    for v, _ in x[3]: self.edge(self.val(f, v), (f.name, x[1]))
                    self.use_globals(f, [v for v, _ in x[3]], d)
                elif op == "select":
                    for v in (x[4], x[5]): self.edge(self.val(f, v), (f.name, x[1]))
                    self.use_globals(f, [x[4], x[5]], d)
                elif op in ("cast", "copy"): self.edge(self.val(f, x[4] if op == "cast" else x[3]), (f.name, x[1]))
                elif op == "extract": self.edge(self.val(f, x[3]), (f.name, x[1]))
                elif op == "insert":
                    self.edge(self.val(f, x[3]), (f.name, x[1])); self.edge(self.val(f, x[5]), (f.name, x[1]))
                elif op == "bin":
                    for v in (x[4], x[5]): self.geps[self.val(f, v)].add(((f.name, x[1]), None))
                elif op == "ret" and x[3] is not None: self.edge(self.val(f, x[3]), (f.name, "ret"))
                elif op == "call": callees += self.call(f, x[1], x[3], x[4], d)
                elif op == "unsupported":
                    callees += self.other(f, x, d)
        return callees

    def live(self, f):
        """the blocks that are reached when nothing throws"""
        seen, work = set(), [f.blocks[0][0]]
        while work:
            l = work.pop()
            if l in seen: continue
            seen.add(l)
            x = f.bmap[l][-1]
            if x[0] == "br": work.append(x[2])
            elif x[0] == "cbr": work += [x[3], x[4]]
            elif x[0] == "switch": work += [x[4]] + [b for _, b in x[5]]
            elif x[0] == "unsupported" and x[2] == "invoke": work.append(re.search(r"to label (%(?:\"[^\"]*\"|[\w.$-]+))", x[3]).group(1))
        return seen

    def const_off(self, bt, idx):
        off, t = 0, bt
        for i, (it, v) in enumerate(idx):
            if v[0] != "int": return None
            try:
                if i == 0: off += self.m.size_align(t)[0] * v[1]
                else:
                    o, t = self.m.field(t, v[1]); off += o
            except llir.Unsupported: return None
        return off

    def use_globals(self, f, vs, d):
        for v in vs:
            if v[0] == "gep": v = v[2]
            if v[0] == "glob" and v[1] in self.m.globals and self.m.globals[v[1]]["kind"] != "constant":
                self.problem(f.name, d, "uses the variable %s, which is not constant" % v[1])

    def call(self, f, res, callee, args, d, invoke=False):
        self.ncalls += 1
        self.use_globals(f, [v for _, v in args], d)
        if callee[0] != "@":
            self.problem(f.name, d, "calls through a pointer (%s)" % callee); return []
        g = self.m.funcs.get(callee)
        name = callee[1:].strip('"')
        if name.startswith("llvm.mem"):
            if name.startswith(("llvm.memcpy", "llvm.memmove")):
                self.writes.append((f.name, self.val(f, args[0][1]), d, "a copy"))
                self.copies.append((self.val(f, args[0][1]), self.val(f, args[1][1])))
            else: self.writes.append((f.name, self.val(f, args[0][1]), d, "a fill"))
            return []
        if name.startswith("llvm."):
            if not name.startswith(HARMLESS): self.problem(f.name, d, "calls %s" % name)
            if name.startswith(("llvm.launder", "llvm.strip")): self.edge(self.val(f, args[0][1]), (f.name, res))
            return []
        if g is not None and g.defined and not (self.alloc and name in ALLOC):
            for (t, v), (pt, pn) in zip(args, g.params): self.edge(self.val(f, v), (g.name, pn))
            if res: self.edge((g.name, "ret"), (f.name, res))
            return [g.name]
        if name in PURE:
            if res and args: self.edge(self.val(f, args[0][1]), (f.name, res))
            return []
        if name in COPY:
            self.writes.append((f.name, self.val(f, args[0][1]), d, name))
            if name != "memset": self.copies.append((self.val(f, args[0][1]), self.val(f, args[1][1])))
            if res: self.edge(self.val(f, args[0][1]), (f.name, res))
            return []
        if self.alloc and (name in ALLOC or name.startswith(("_ZSt", "_ZNSt", "_ZNKSt", "__cxa_", "__gxx", "__clang_call_terminate"))):
            if res: self.pts[(f.name, res)].add((("heap", f.name, res), 0))
            return []
        self.problem(f.name, d, "calls %s, which has no body to look at" % name)
        return []

    def other(self, f, x, d):
        op, st = x[2], x[3]
        if op in ("fcmp", "fadd", "fsub", "fmul", "fdiv", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "fneg", "insertelement", "extractelement", "shufflevector"): return []
        if op == "invoke":
            # whether it throws is decided by what it calls; the arguments are those of a call
            try: y = self.m.instr(re.sub(r"\binvoke\b", "call", re.sub(r"\s+to label .*$", "", st)))
            except (llir.Unsupported, IndexError):
                self.problem(f.name, d, "is not understood: " + st[:80]); return []
            return self.call(f, y[1], y[3], y[4], d)
        self.problem(f.name, d, "has an instruction with an effect: " + st[:80])
        return []

    def edge(self, a, b):
        if a != ("nothing",): self.edges[a].add(b)

    def field(self, loc, off):
        o, b = loc
        if o[0] in ("subject", "heap", "global"): return (o, None)
        if b is None or off is None: return (o, None)
        return (o, b + off)

    def solve(self):
        work = set(n for n in self.pts if self.pts[n])
        objs = defaultdict(set)           # object -> offsets under which something is stored
        pts, edges = self.pts, self.edges

        def add(n, locs):
            new = locs - pts[n]
            if new:
                pts[n] |= new; work.add(n)

        def connect(a, b):
            if b not in edges[a]:
                edges[a].add(b)
                if pts[a]: add(b, set(pts[a]))

        def memnode(o, off):
            n = ("mem", o, off)
            if off not in objs[o]:
                objs[o].add(off)
                # what is stored at an unknown offset may be read anywhere, and the other way round
                for q in list(objs[o]):
                    if q is None and off is not None: connect(("mem", o, None), n); connect(n, ("any", o))
                    if off is None and q is not None: connect(n, ("mem", o, q))
                connect(n, ("any", o))
            return n
        objs[("subject",)].add(None); connect(("mem", ("subject",), None), ("any", ("subject",)))
        while work:
            n = work.pop()
            cur = set(pts[n])
            for b in list(edges[n]): add(b, cur)
            for r, off in list(self.geps[n]): add(r, {self.field(l, off) for l in cur})
            for r in list(self.loads[n]):
                for o, off in cur:
                    if o[0] == "global": continue
                    if off is None: memnode(o, None); connect(("any", o), r)
                    else: connect(memnode(o, off), r)
            for v in list(self.stores[n]):
                for o, off in cur: connect(v, memnode(o, off))
            for dst, src in self.copies:
                if n != dst and n != src: continue
                for so, soff in list(pts[src]):
                    for do, doff in list(pts[dst]):
                        self.copy_obj(so, soff, do, doff, objs, memnode, connect)
            # aggregates are copied with offsets that are found later: go round again
            if not work:
                for dst, src in self.copies:
                    for so, soff in list(pts[src]):
                        for do, doff in list(pts[dst]): self.copy_obj(so, soff, do, doff, objs, memnode, connect)

    def copy_obj(self, so, soff, do, doff, objs, memnode, connect):
        if so[0] == "global": return
        if soff is None or doff is None or so[0] == "subject":
            memnode(so, None); connect(("any", so), memnode(do, None)); return
        for q in list(objs[so]):
            if q is None: connect(("mem", so, None), memnode(do, None))
            elif q >= soff: connect(memnode(so, q), memnode(do, doff + q - soff))


def analyse(text, alloc_entries=()):
    """-> {entry: [(function, where, text, path)]}, statistics"""
    prog = Prog(text)
    ents = [n for n, f in prog.mod.funcs.items() if f.defined and n.startswith("@e_")]
    out, stats = {}, {"functions": set(), "stores": 0, "calls": 0, "loads": 0}
    for alloc in (False, True):
        es = [e for e in ents if e.startswith("@e_alloc_") == alloc]
        if not es: continue
        pt = PointsTo(prog, es, alloc)
        stats["functions"] |= pt.reached; stats["stores"] += pt.nstores; stats["calls"] += pt.ncalls; stats["loads"] += pt.nloads
        for e in es: out[e] = []
        for fn, where, t in pt.problems:
            if alloc and not where.startswith("include/"): continue
            path, g = [], fn
            while g is not None: path.append(g); g = pt.stack_from[g]
            out[path[-1]].append((fn, where, t, path))
    glob = []
    for l in prog.ctors: glob.append("the program has initialisers that run before main: " + l[:200])
    for l in prog.asm: glob.append("inline assembly: " + l.strip()[:120])
    for l in prog.odd: glob.append("volatile or atomic access: " + l.strip()[:120])
    mutable = [n for n, g in prog.mod.globals.items() if g["kind"] == "global" and not n.startswith("@llvm.")]
    for n in mutable: glob.append("a variable that is not constant: " + n)
    stats["variables"] = len(prog.mod.globals)
    return out, glob, stats
