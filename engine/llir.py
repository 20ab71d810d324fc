"""A reader for the subset of textual LLVM 18 IR the probes compile to."""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[\w.$-]+))
 | (?P<glob>@(?:"[^"]*"|[\w.$-]+))
 | (?P<meta>!(?:\w+|"[^"]*")?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-fKLM]+)
 | (?P<dots>\.\.\.)
 | (?P<id>[A-Za-z_][\w.]*)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"): break
            raise Unsupported("token: " + s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


PARAM_ATTRS = {"noundef", "zeroext", "signext", "nonnull", "nocapture", "noalias", "readonly", "writeonly", "readnone", "returned", "inreg", "immarg", "nofree", "nest", "noinline", "dead_on_unwind", "writable", "nofpclass", "swiftself"}


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        r = self.t[self.i][1]; self.i += 1; return r

    def acc(self, v):
        if self.peek() == v:
            self.i += 1; return True
        return False

    def exp(self, v):
        if not self.acc(v): raise Unsupported("expected %r got %r in %s" % (v, self.peek(), " ".join(x[1] for x in self.t)[:200]))

    def type(self):
        k, v = self.t[self.i]
        if k == "id":
            self.i += 1
            if v == "ptr":
                if self.peek() == "addrspace":
                    self.i += 4
                return ("ptr",)
            if v == "void": return ("void",)
            if re.fullmatch(r"i\d+", v): ty = ("int", int(v[1:]))
            elif v in ("float", "double", "x86_fp80", "half", "fp128"): ty = ("fp", v)
            elif v in ("metadata", "label", "token"): ty = (v,)
            else: raise Unsupported("type " + v)
            return ty
        if k == "loc":
            self.i += 1
            return ("named", v)
        if v == "{":
            self.i += 1
            el = []
            if not self.acc("}"):
                el.append(self.type())
                while self.acc(","): el.append(self.type())
                self.exp("}")
            return ("struct", tuple(el))
        if v == "<":
            self.i += 1
            if self.peek() == "{":
                t = self.type(); self.exp(">")
                return ("packed", t[1])
            n = int(self.next()); self.exp("x"); e = self.type(); self.exp(">")
            return ("vec", n, e)
        if v == "[":
            self.i += 1
            n = int(self.next()); self.exp("x"); e = self.type(); self.exp("]")
            return ("array", n, e)
        raise Unsupported("type " + v)

    def attrs(self):
        al = None
        while True:
            v = self.peek()
            if v in PARAM_ATTRS: self.i += 1
            elif v in ("align", "dereferenceable", "dereferenceable_or_null", "captures", "range", "memory", "initializes"):
                self.i += 1
                if self.acc("("):
                    d = 1
                    while d:
                        x = self.next()
                        d += (x == "(") - (x == ")")
                else: self.i += 1
            elif v in ("sret", "byval", "elementtype", "preallocated", "inalloca", "byref"):
                self.i += 1
                if self.acc("("):
                    self.type(); self.exp(")")
            else: return

    def value(self, ty):
        """('loc', name) | ('glob', name) | ('int', n) | ('null',) | ('undef',) | ('zero',) | ('agg', [...]) | ('cexpr', ...)"""
        k, v = self.t[self.i]
        self.i += 1
        if k == "loc": return ("loc", v)
        if k == "glob": return ("glob", v)
        if k == "num":
            if ty[0] == "int": return ("int", int(v))
            return ("fp", v)
        if v == "true": return ("int", 1)
        if v == "false": return ("int", 0)
        if v == "null": return ("null",)
        if v in ("undef", "poison"): return ("undef",)
        if v == "zeroinitializer": return ("zero",)
        if k == "str": return ("cstr", v)
        if v in ("{", "[", "<"):
            close = {"{": "}", "[": "]", "<": ">"}[v]
            el = []
            if v == "<" and self.peek() == "{":
                r = self.value(ty); self.exp(">")
                return r
            if not self.acc(close):
                while True:
                    t = self.type(); el.append((t, self.value(t)))
                    if not self.acc(","): break
                self.exp(close)
            return ("agg", el)
        if v == "getelementptr":
            fl = []
            while self.peek() in ("inbounds", "nuw", "nusw"): fl.append(self.next())
            if self.peek() == "inrange":
                self.i += 1
                if self.acc("("):
                    while self.next() != ")": pass
            self.exp("(")
            bt = self.type(); self.exp(",")
            pt = self.type(); base = self.value(pt)
            idx = []
            while self.acc(","):
                if self.peek() == "inrange": self.i += 1
                it = self.type(); idx.append((it, self.value(it)))
            self.exp(")")
            return ("gep", bt, base, idx)
        if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext"):
            self.exp("("); t = self.type(); x = self.value(t); self.exp("to"); t2 = self.type(); self.exp(")")
            return ("ccast", v, t, x, t2)
        if v in ("sub", "add", "mul"):
            while self.peek() in ("nuw", "nsw"): self.i += 1
            self.exp("("); t = self.type(); a = self.value(t); self.exp(","); t2 = self.type(); b = self.value(t2); self.exp(")")
            return ("cbin", v, t, a, b)
        raise Unsupported("value " + v)


class Func:
    def __init__(self, name, ret, params, linkage=""):
        self.name, self.ret, self.params, self.linkage = name, ret, params, linkage
        self.blocks = []      # list of (label, [instr])
        self.bmap = {}
        self.defined = False


class Module:
    def __init__(self, text):
        self.types, self.funcs, self.globals = {}, {}, {}
        self.parse(text)

    def global_index(self, name):
        if not hasattr(self, "_gi"): self._gi = {n: i + 1 for i, n in enumerate(self.globals)}
        return self._gi[name]

    def parse(self, text):
        lines = text.split("\n")
        i = 0
        cur = None
        while i < len(lines):
            ln = lines[i]; i += 1
            st = ln.strip()
            if cur is None:
                if not st or st[0] == ";" or st.startswith(("source_filename", "target ", "attributes ", "!", "$", "module asm")): continue
                if st[0] == "%":
                    p = P(tokenize(st), self)
                    n = p.next(); p.exp("="); p.exp("type")
                    if p.peek() == "opaque": self.types[n] = None
                    else: self.types[n] = p.type()
                    continue
                if st[0] == "@":
                    self.global_line(st)
                    continue
                if st.startswith("declare"):
                    f = self.header(st[len("declare"):])
                    self.funcs.setdefault(f.name, f)
                    continue
                if st.startswith("define"):
                    f = self.header(st[len("define"):].rstrip("{ "))
                    f.defined = True
                    self.funcs[f.name] = f
                    cur = f
                    label = None
                    continue
                raise Unsupported("line " + st[:100])
            else:
                if st == "}":
                    cur = None; continue
                if not st or st[0] == ";": continue
                m = re.match(r'^("(?:[^"])*"|[\w.$-]+):', ln)
                if m:
                    label = "%" + m.group(1)
                    cur.blocks.append((label, [])); cur.bmap[label] = cur.blocks[-1][1]
                    continue
                if not cur.blocks:
                    # unnamed entry block: its number is the next unnamed value
                    label = "%" + str(cur.nparams_unnamed)
                    cur.blocks.append((label, [])); cur.bmap[label] = cur.blocks[-1][1]
                # multi-line switch
                if st.startswith("switch") and "]" not in st:
                    while "]" not in lines[i]:
                        st += " " + lines[i].strip(); i += 1
                    st += " " + lines[i].strip(); i += 1
                cur.blocks[-1][1].append(self.instr(st))

    def global_line(self, st):
        p = P(tokenize(st), self)
        n = p.next(); p.exp("=")
        while p.peek() in ("external", "internal", "private", "linkonce_odr", "linkonce", "weak", "weak_odr", "unnamed_addr", "local_unnamed_addr", "dso_local", "hidden", "comdat", "available_externally", "appending", "common", "thread_local"):
            p.next()
            if p.acc("("):
                while p.next() != ")": pass
        k = p.next()
        g = {"kind": k, "init": None, "type": None}
        if k in ("constant", "global"):
            g["type"] = p.type()
            if p.i < len(p.t) and p.peek() not in (",",):
                try:
                    g["init"] = p.value(g["type"])
                except (Unsupported, IndexError):
                    g["init"] = None
        self.globals[n] = g

    def header(self, st):
        p = P(tokenize(st), self)
        link = []
        while p.kind() == "id" and not (re.fullmatch(r"i\d+|ptr|void|float|double|x86_fp80", p.peek())):
            w = p.next(); link.append(w)
            if p.acc("("):
                while p.next() != ")": pass
            if w in ("align",): p.next()
        ret = p.type()
        name = p.next()
        p.exp("(")
        params = []
        unnamed = 0
        if not p.acc(")"):
            while True:
                if p.acc("..."): break
                t = p.type(); p.attrs()
                nm = None
                if p.kind() == "loc":
                    nm = p.next()
                else:
                    nm = "%" + str(unnamed)
                if re.fullmatch(r"%\d+", nm): unnamed += 1
                params.append((t, nm))
                if not p.acc(","): break
            p.exp(")")
        f = Func(name, ret, params, " ".join(link))
        f.nparams_unnamed = unnamed
        return f

    def instr(self, st):
        st = re.sub(r"(,\s*![\w.]+\s+!\d+)+\s*$", "", st)
        p = P(tokenize(st), self)
        res = None
        if p.kind() == "loc" and p.peek(1) == "=":
            res = p.next(); p.next()
        op = p.next()
        if op in ("tail", "musttail", "notail"): op = p.next()
        if op == "call":
            while p.peek() in ("fastcc", "ccc", "coldcc", "nsw", "fast", "nnan"): p.next()
            p.attrs()
            ret = p.type()
            if p.peek() == "(":           # function type for varargs
                d = 0
                while True:
                    x = p.next(); d += (x == "(") - (x == ")")
                    if d == 0: break
            callee = p.next()
            p.exp("(")
            args = []
            if not p.acc(")"):
                while True:
                    t = p.type(); p.attrs()
                    if t[0] == "metadata":
                        args.append((t, ("undef",)))
                        d = 0
                        while not (d == 0 and p.peek() in (",", ")")):
                            x = p.next(); d += (x == "(") - (x == ")")
                    else:
                        args.append((t, p.value(t)))
                    if not p.acc(","): break
                p.exp(")")
            return ("call", res, ret, callee, args)
        if op == "phi":
            t = p.type(); inc = []
            while True:
                p.exp("["); v = p.value(t); p.exp(","); b = p.next(); p.exp("]")
                inc.append((v, b))
                if not p.acc(","): break
            return ("phi", res, t, inc)
        if op == "br":
            if p.acc("label"): return ("br", None, p.next())
            t = p.type(); c = p.value(t)
            p.exp(","); p.exp("label"); a = p.next(); p.exp(","); p.exp("label"); b = p.next()
            return ("cbr", None, c, a, b)
        if op == "switch":
            t = p.type(); v = p.value(t); p.exp(","); p.exp("label"); d = p.next(); p.exp("[")
            cases = []
            while not p.acc("]"):
                ct = p.type(); cv = p.value(ct); p.exp(","); p.exp("label"); cases.append((cv, p.next()))
            return ("switch", None, t, v, d, cases)
        if op == "ret":
            t = p.type()
            return ("ret", None, t, None if t == ("void",) else p.value(t))
        if op == "unreachable": return ("unreachable", None)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            while p.peek() in ("nuw", "nsw", "exact", "disjoint"): p.next()
            t = p.type(); a = p.value(t); p.exp(","); b = p.value(t)
            return ("bin", res, op, t, a, b)
        if op == "icmp":
            while p.peek() in ("samesign",): p.next()
            pred = p.next(); t = p.type(); a = p.value(t); p.exp(","); b = p.value(t)
            return ("icmp", res, pred, t, a, b)
        if op == "select":
            t = p.type(); c = p.value(t); p.exp(","); t2 = p.type(); a = p.value(t2); p.exp(","); t3 = p.type(); b = p.value(t3)
            return ("select", res, c, t2, a, b)
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr"):
            while p.peek() in ("nneg", "nuw", "nsw"): p.next()
            t = p.type(); a = p.value(t); p.exp("to"); t2 = p.type()
            return ("cast", res, op, t, a, t2)
        if op == "freeze":
            t = p.type()
            return ("copy", res, t, p.value(t))
        if op == "extractvalue":
            t = p.type(); a = p.value(t); idx = []
            while p.acc(","): idx.append(int(p.next()))
            return ("extract", res, t, a, idx)
        if op == "insertvalue":
            t = p.type(); a = p.value(t); p.exp(","); t2 = p.type(); b = p.value(t2); idx = []
            while p.acc(","): idx.append(int(p.next()))
            return ("insert", res, t, a, t2, b, idx)
        if op == "alloca":
            t = p.type()
            return ("alloca", res, t)
        if op == "load":
            if p.acc("volatile"): pass
            t = p.type(); p.exp(","); pt = p.type(); a = p.value(pt)
            return ("load", res, t, a)
        if op == "store":
            if p.acc("volatile"): pass
            t = p.type(); v = p.value(t); p.exp(","); pt = p.type(); a = p.value(pt)
            return ("store", None, t, v, a)
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
            bt = p.type(); p.exp(","); pt = p.type(); base = p.value(pt); idx = []
            while p.acc(","):
                it = p.type(); idx.append((it, p.value(it)))
            return ("gepi", res, bt, base, idx)
        if op == "fence": return ("nop", None)
        return ("unsupported", res, op, st)

    # ---- layout
    def size_align(self, t):
        k = t[0]
        if k == "int":
            n = (t[1] + 7) // 8
            a = 1
            while a < n and a < 16: a *= 2
            return ((n + a - 1) // a * a, min(a, 8) if n <= 8 else 16)
        if k == "ptr": return (8, 8)
        if k == "named":
            if self.types.get(t[1]) is None: raise Unsupported("opaque type " + t[1])
            return self.size_align(self.types[t[1]])
        if k == "array":
            s, a = self.size_align(t[2]); return (s * t[1], a)
        if k == "struct":
            off, al = 0, 1
            for e in t[1]:
                s, a = self.size_align(e)
                off = (off + a - 1) // a * a + s; al = max(al, a)
            return ((off + al - 1) // al * al, al)
        if k == "packed":
            return (sum(self.size_align(e)[0] for e in t[1]), 1)
        if k == "fp": return {"float": (4, 4), "double": (8, 8)}.get(t[1], (16, 16))
        raise Unsupported("size of %r" % (t,))

    def field(self, t, i):
        """(offset, type) of element i"""
        if t[0] == "named": return self.field(self.types[t[1]], i)
        if t[0] == "array": return (self.size_align(t[2])[0] * i, t[2])
        if t[0] in ("struct", "packed"):
            off = 0
            for j, e in enumerate(t[1]):
                s, a = self.size_align(e)
                if t[0] == "struct": off = (off + a - 1) // a * a
                if j == i: return (off, e)
                off += s
        raise Unsupported("field of %r" % (t,))

    def resolve(self, t):
        while t[0] == "named": t = self.types[t[1]]
        return t
