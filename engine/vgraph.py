"""Value-graph construction: a guarded forward dataflow over LLVM IR.

Every SSA value is a decision diagram (dd.py) over an uninterpreted vocabulary;
every program point has a guard (the diagram of the condition under which it is
reached).  At joins values are merged by if-then-else on the edge guards, so
each block is analysed once per loop iteration -- there is no enumeration of
paths and nothing is executed.  Loops and recursive calls are expanded up to a
bound; what lies beyond it is recorded in `cut` and left undecided.
"""
import sys
from . import dd
from .dd import Term, leaf, atom, ite, AND, OR, NOT, XOR, mapn, TRUE, FALSE
from .llir import Unsupported

sys.setrecursionlimit(400000)

UNDEF = leaf(Term("undef"))
NULL = leaf(Term("null"))


def reset():
    dd.reset()
    _term_bits.clear(); _i2n.clear()
    assert leaf(Term("undef")) == UNDEF and leaf(Term("null")) == NULL


class Blowup(Exception):
    pass


class Budget:
    max_nodes = 6_000_000


def check_budget():
    if len(dd._val) > Budget.max_nodes: raise Blowup()


# ---------------------------------------------------------------- integers

def const_bits(n, w):
    return tuple(TRUE if (n >> i) & 1 else FALSE for i in range(w))


def bits_const(b):
    n = 0
    for i, x in enumerate(b):
        if x == TRUE: n |= 1 << i
        elif x != FALSE: return None
    return n


_term_bits = {}


def term_bits(t, w):
    k = (t, w)
    r = _term_bits.get(k)
    if r is None:
        r = (atom(t),) if w == 1 else tuple(atom(t, i) for i in range(w))
        _term_bits[k] = r
    return r


def is_bool_atom(v):
    return dd._atom_of[v][1] is None


_i2n = {}


def int_node(bits):
    """an integer as a diagram whose leaves are constants or integer terms"""
    r = _i2n.get(bits)
    if r is not None: return r
    c = bits_const(bits)
    if c is not None:
        r = leaf(Term("#", c))
    else:
        v = dd._top(*bits)
        if is_bool_atom(v):
            lo = int_node(tuple(dd.cof(b, v, 0) for b in bits))
            hi = int_node(tuple(dd.cof(b, v, 1) for b in bits))
            r = ite(dd.mk(v, FALSE, TRUE), hi, lo)
        else:
            t = dd._atom_of[v][0]
            # a whole term, possibly extended with zeros
            r = None
            n = 0
            while n < len(bits) and bits[n] not in (TRUE, FALSE) and bits[n] == dd.mk(dd._atoms.get((t, n), -1), FALSE, TRUE) if (t, n) in dd._atoms else False: n += 1
            if n and all(b == FALSE for b in bits[n:]) and (t, n) not in dd._atoms:
                r = leaf(t)
            if r is None: r = leaf(Term("int", bits))
    _i2n[bits] = r
    return r


def add_bits(a, b, carry=FALSE):
    out = []
    for x, y in zip(a, b):
        s = XOR(x, y)
        out.append(XOR(s, carry))
        carry = ite(s, carry, x)
    return tuple(out)


def not_bits(a): return tuple(NOT(x) for x in a)
def sub_bits(a, b): return add_bits(a, not_bits(b), TRUE)


def eq_bits(a, b):
    r = TRUE
    for x, y in zip(a, b):
        r = AND(r, NOT(XOR(x, y)))
        if r == FALSE: break
    return r


def ult_bits(a, b):
    r = FALSE
    for x, y in zip(a, b):
        d = XOR(x, y)
        r = ite(d, y, r)
    return r


def slt_bits(a, b):
    return ult_bits(a[:-1] + (NOT(a[-1]),), b[:-1] + (NOT(b[-1]),))


def shift_bits(op, a, s):
    w = len(a)
    fill = a[-1] if op == "ashr" else FALSE
    res = a
    k = 0
    while (1 << k) < w:
        n = 1 << k
        if op == "shl": sh = (FALSE,) * n + res[:w - n]
        else: sh = res[n:] + (fill,) * n
        c = s[k]
        res = tuple(ite(c, y, x) for x, y in zip(res, sh))
        k += 1
    return res


def mul_bits(a, b):
    w = len(a)
    acc = const_bits(0, w)
    if bits_const(a) is not None: a, b = b, a
    for i in range(w):
        if b[i] == FALSE: continue
        sh = (FALSE,) * i + a[:w - i]
        acc = add_bits(acc, tuple(AND(b[i], x) for x in sh))
    return acc


def udivrem_bits(a, b):
    """restoring division, fine for constants and short values"""
    w = len(a)
    ca, cb = bits_const(a), bits_const(b)
    if cb == 0: raise Unsupported("division by zero")
    if ca is not None and cb is not None: return const_bits(ca // cb, w), const_bits(ca % cb, w)
    if cb is not None and cb & (cb - 1) == 0:
        k = cb.bit_length() - 1
        return a[k:] + (FALSE,) * k, a[:k] + (FALSE,) * (w - k)
    q = [FALSE] * w
    r = const_bits(0, w + 1)
    bb = b + (FALSE,)
    for i in range(w - 1, -1, -1):
        r = (a[i],) + r[:w]
        ge = NOT(ult_bits(r, bb))
        q[i] = ge
        d = sub_bits(r, bb)
        r = tuple(ite(ge, x, y) for x, y in zip(d, r))
    return tuple(q), r[:w]


# ---------------------------------------------------------------- values

def merge(g, a, b):
    """ite on values of any shape"""
    if g == TRUE or a is b: return a
    if g == FALSE: return b
    if isinstance(a, int): return ite(g, a, b)
    if isinstance(a, tuple): return tuple(ite(g, x, y) for x, y in zip(a, b))
    return [merge(g, x, y) for x, y in zip(a, b)]


def undef_of(ty, mod):
    ty = mod.resolve(ty)
    if ty[0] == "int": return const_bits(0, ty[1])
    if ty[0] == "ptr": return UNDEF
    if ty[0] in ("struct", "packed"): return [undef_of(e, mod) for e in ty[1]]
    if ty[0] in ("array", "vec"): return [undef_of(ty[2], mod) for _ in range(ty[1])]
    if ty[0] == "void": return None
    if ty[0] == "fp": return UNDEF
    raise Unsupported("undef of %r" % (ty,))


def zero_of(ty, mod):
    ty = mod.resolve(ty)
    if ty[0] == "int": return const_bits(0, ty[1])
    if ty[0] == "ptr": return NULL
    if ty[0] in ("struct", "packed"): return [zero_of(e, mod) for e in ty[1]]
    if ty[0] in ("array", "vec"): return [zero_of(ty[2], mod) for _ in range(ty[1])]
    raise Unsupported("zero of %r" % (ty,))


def addr(obj, off):
    return leaf(Term("addr", obj, off))


def guarded(guard, nodes, fn, other=UNDEF):
    """fn over every combination of leaves that is possible under the guard"""
    if guard == FALSE: return other
    return mapn((guard,) + tuple(nodes), lambda g, *ls: fn(*[dd._val[l] if dd._val[l] is not None else l for l in ls]) if g == TRUE else other)


class Event:
    __slots__ = ("op", "guard", "args", "where")

    def __init__(self, op, guard, args, where): self.op, self.guard, self.args, self.where = op, guard, args, where


class Loop:
    def __init__(self, header): self.header, self.body, self.parent, self.children = header, {header}, None, []


def analyse_cfg(f):
    """successors, reverse post order, natural loops"""
    if hasattr(f, "cfg"): return f.cfg
    succ = {}
    for lab, ins in f.blocks:
        t = ins[-1]
        if t[0] == "br": s = [t[2]]
        elif t[0] == "cbr": s = [t[3], t[4]]
        elif t[0] == "switch": s = [t[4]] + [c[1] for c in t[5]]
        else: s = []
        succ[lab] = list(dict.fromkeys(s))
    entry = f.blocks[0][0]
    order, state = [], {}
    stack = [(entry, iter(succ[entry]))]
    state[entry] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in state:
                state[s] = 1
                stack.append((s, iter(succ[s])))
                break
        else:
            order.append(b); stack.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]: pred[s].append(b)
    # dominators
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if idom.get(b) != new: idom[b] = new; changed = True

    def dominates(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if num[s] <= num[b]:
                if not dominates(s, b): raise Unsupported("irreducible control flow in " + f.name)
                lp = loops.setdefault(s, Loop(s))
                st = [b]
                while st:
                    x = st.pop()
                    if x in lp.body: continue
                    lp.body.add(x); st += pred[x]
    ls = sorted(loops.values(), key=lambda l: len(l.body))
    for i, l in enumerate(ls):
        for m in ls[i + 1:]:
            if l.header in m.body:
                l.parent = m; m.children.append(l); break
    f.cfg = (succ, rpo, num, ls)
    return f.cfg


class Opaque:
    """signature of an opaque function: result kind and simplification"""

    def __init__(self, fn=None, event=None): self.fn, self.event = fn, event


class Analysis:
    def __init__(self, mod, vocab, unroll=4, depth=None, assume=TRUE):
        self.mod, self.vocab, self.unroll = mod, vocab, unroll
        self.depth = depth if depth is not None else unroll
        self.cut = FALSE
        self.cut_sites = {}
        self.events = []
        self.nobj = 0
        self.stack = {}
        self.calls = 0
        self.blocks = 0
        self.functions = set()
        self.sites = set()
        self.ext_ty = {}

    # ---- operands
    def val(self, ty, v, env):
        k = v[0]
        if k == "loc": return env[v[1]]
        ty = self.mod.resolve(ty)
        if k == "int": return const_bits(v[1] & ((1 << ty[1]) - 1), ty[1])
        if k == "null": return NULL
        if k == "undef": return undef_of(ty, self.mod)
        if k == "zero": return zero_of(ty, self.mod)
        if k == "glob": return addr(v[1], 0)
        if k == "agg": return [self.val(t, x, env) for t, x in v[1]]
        if k == "gep": return self.gep(v[1], self.val(("ptr",), v[2], env), [(t, self.val(t, x, env)) for t, x in v[3]], TRUE)
        if k == "ccast" and v[1] in ("bitcast",): return self.val(v[2], v[3], env)
        if k == "cstr":
            raw = parse_cstr(v[1])
            return [const_bits(c, 8) for c in raw]
        if k == "fp": return leaf(Term("fp", v[1]))
        if k == "ccast" and v[1] == "ptrtoint": return self.ptr_to_int(self.val(v[2], v[3], env))
        raise Unsupported("operand %r" % (v,))

    def gep(self, bt, base, idx, guard):
        m = self.mod
        off, ty = 0, bt
        dyn = None
        for i, (it, iv) in enumerate(idx):
            c = bits_const(iv)
            if i == 0: sz = m.size_align(bt)[0]
            else:
                r = m.resolve(ty)
                if r[0] in ("struct", "packed"):
                    o, ty = m.field(r, c)
                    off += o
                    continue
                ty = r[2]
                sz = m.size_align(ty)[0]
            if c is not None:
                if c >> (len(iv) - 1): c -= 1 << len(iv)
                off += c * sz
            else:
                e = iv + (iv[-1],) * (64 - len(iv))
                e = mul_bits(e, const_bits(sz, 64))
                dyn = e if dyn is None else add_bits(dyn, e)

        def move(t, n=off):
            if not isinstance(t, Term): raise Unsupported("gep of bool")
            if t.op == "addr": return leaf(Term("addr", t.args[0], t.args[1] + n))
            if t.op in ("undef",): return UNDEF
            if n == 0: return leaf(t)
            return leaf(Term("addr", t, n))
        if dyn is None:
            return mapn((base,), lambda l: move(dd._val[l]))
        few = [b for b in dict.fromkeys(dyn) if b not in (TRUE, FALSE)]
        if len(few) > 5 and guard != TRUE:
            dyn = tuple(FALSE if AND(guard, b) == FALSE else TRUE if AND(guard, NOT(b)) == FALSE else b for b in dyn)
            few = [b for b in dict.fromkeys(dyn) if b not in (TRUE, FALSE)]
        if 0 < len(few) <= 12:
            # a small amount: one case for each value
            at = {b: k for k, b in enumerate(few)}

            def val(g, *ls):
                if g == FALSE: return leaf(Term("#", 0))
                v = 0
                for k, b in enumerate(dyn):
                    if b == TRUE or (b in at and ls[at[b]] == TRUE): v |= 1 << k
                return leaf(Term("#", v))
            n = mapn((guard,) + tuple(few), val)
        elif not few: n = leaf(Term("#", bits_const(dyn)))
        else: n = int_node(dyn)

        def mv(t, i):
            if i.op == "#":
                d = i.args[0]
                if d >> 63: d -= 1 << 64
                return move(t, off + d)
            if t.op == "undef": return UNDEF
            return leaf(Term("dynaddr", t, off, i))
        return guarded(guard, (base, n), mv)

    # ---- memory: (obj, off) -> byte; a byte is 8 bits or (ptr node, index)
    def store(self, mem, guard, p, ty, v):
        leaves_ = [l for l in dd.leaves(p)]
        data = self.to_bytes(ty, v)
        for l in leaves_:
            t = dd._val[l]
            if t.op == "undef": continue
            g = TRUE if len(leaves_) == 1 else mapn((p,), lambda x, l=l: TRUE if x == l else FALSE)
            g = AND(g, guard)
            if g == FALSE: continue
            if t.op != "addr" or not isinstance(t.args[0], str) or not t.args[0].startswith("$"):
                self.events.append(Event("store", g, (l,), self.where))
                raise Unsupported("store to %r in %s" % (t, self.where))
            obj, off = t.args
            for i, d in enumerate(data):
                if d is None: continue
                k = (obj, off + i)
                if len(leaves_) == 1: mem[k] = d
                else: mem[k] = self.merge_byte(g, d, mem.get(k))
        return mem

    def merge_byte(self, g, a, b):
        if b is None or a == b or g == TRUE: return a
        if a is None: return b
        if a[0] == "p" or b[0] == "p":
            if a[0] == "p" and b[0] == "p" and a[2] == b[2]: return ("p", ite(g, a[1], b[1]), a[2])
            if a[0] == "p":        # mixed: only where the other is an undefined or zero byte
                return a if all(x == FALSE for x in b[1]) else self.mixed()
            return b if all(x == FALSE for x in a[1]) else self.mixed()
        return ("b", tuple(ite(g, x, y) for x, y in zip(a[1], b[1])))

    def mixed(self): raise Unsupported("mixed memory")

    def to_bytes(self, ty, v):
        ty = self.mod.resolve(ty)
        if ty[0] == "int":
            w = ty[1]
            b = v + (FALSE,) * (-w % 8)
            return [("b", b[i:i + 8]) for i in range(0, len(b), 8)]
        if ty[0] == "ptr": return [("p", v, i) for i in range(8)]
        if ty[0] == "fp": return [("p", v, i) for i in range(self.mod.size_align(ty)[0])]
        if ty[0] in ("struct", "packed", "array", "vec"):
            size = self.mod.size_align(ty)[0]
            out = [None] * size
            n = len(ty[1]) if ty[0] in ("struct", "packed") else ty[1]
            for i in range(n):
                off, et = self.mod.field(ty, i) if ty[0] != "vec" else (self.mod.size_align(ty[2])[0] * i, ty[2])
                for j, d in enumerate(self.to_bytes(et, v[i])): out[off + j] = d
            return out
        raise Unsupported("store of %r" % (ty,))

    def from_bytes(self, ty, get, off=0):
        ty = self.mod.resolve(ty)
        if ty[0] == "int":
            n = (ty[1] + 7) // 8
            bits = ()
            bs = [get(off + i) for i in range(n)]
            if any(d is not None and d[0] == "p" for d in bs):
                d = bs[0]
                if n == 8 and d[0] == "p": return self.ptr_to_int(d[1])
                raise Unsupported("integer load of a pointer")
            for d in bs: bits += (const_bits(0, 8) if d is None else d[1])
            return bits[:ty[1]]
        if ty[0] in ("ptr", "fp"):
            d = get(off)
            if d is None: return UNDEF
            if d[0] == "b":
                if all(get(off + i) is None or (get(off + i)[0] == "b" and all(x == FALSE for x in get(off + i)[1])) for i in range(8)): return NULL
                raise Unsupported("pointer load of an integer")
            return d[1]
        if ty[0] in ("struct", "packed"):
            return [self.from_bytes(self.mod.field(ty, i)[1], get, off + self.mod.field(ty, i)[0]) for i in range(len(ty[1]))]
        if ty[0] == "array":
            s = self.mod.size_align(ty[2])[0]
            return [self.from_bytes(ty[2], get, off + s * i) for i in range(ty[1])]
        raise Unsupported("load of %r" % (ty,))

    def global_bytes(self, name):
        g = self.mod.globals.get(name)
        if g is None or g["init"] is None: return None
        if "bytes" not in g:
            g["bytes"] = self.to_bytes(g["type"], self.val(g["type"], g["init"], {}))
        return g["bytes"]

    def load_at(self, mem, guard, t, ty):
        if t.op == "undef": return undef_of(ty, self.mod)
        if t.op == "addr" and isinstance(t.args[0], str):
            obj, off = t.args
            if obj.startswith("$"):
                return self.from_bytes(ty, lambda i: mem.get((obj, off + i)))
            g = self.mod.globals.get(obj)
            if g is not None and g["kind"] == "constant":
                b = self.global_bytes(obj)
                if b is not None:
                    if off < 0 or off + self.mod.size_align(ty)[0] > len(b):
                        self.events.append(Event("oob", guard, (leaf(t),), self.where))
                        return undef_of(ty, self.mod)
                    return self.from_bytes(ty, lambda i: b[off + i])
        if t.op == "addr":
            base, off = t.args
        else:
            base, off = t, 0
        self.events.append(Event("load", guard, (leaf(t),), self.where))
        rt = self.mod.resolve(ty)
        if rt[0] == "int": return self.ext_int(base, off, rt[1])
        if rt[0] == "ptr": return leaf(Term("memp", base, off))
        if rt[0] in ("struct", "packed", "array"):
            n = len(rt[1]) if rt[0] != "array" else rt[1]
            out = []
            for i in range(n):
                o, et = self.mod.field(rt, i)
                out.append(self.load_at(mem, guard, Term("addr", base, off + o), et))
            return out
        raise Unsupported("load %r from %r" % (ty, t))

    def ext_int(self, base, off, w):
        return term_bits(Term("mem", base, off, w), w)

    def load_table(self, guard, p, ls, ty):
        """one of many elements of a constant table of integers"""
        w, val = self.mod.resolve(ty)[1], {}
        for l in ls:
            t = dd._val[l]
            if t.op != "addr" or not isinstance(t.args[0], str) or t.args[0].startswith("$"):
                if t.op == "undef": val[l] = 0; continue
                return None
            obj, off = t.args
            g = self.mod.globals.get(obj)
            b = self.global_bytes(obj) if g is not None and g["kind"] == "constant" else None
            if b is None: return None
            if off < 0 or off + (w + 7) // 8 > len(b):
                val[l] = None; continue
            bits = ()
            for d in b[off:off + (w + 7) // 8]:
                if d is not None and d[0] == "p": return None
                bits += const_bits(0, 8) if d is None else d[1]
            c = bits_const(bits[:w])
            if c is None: return None
            val[l] = c
        for l, c in val.items():
            if c is None:
                g = mapn((guard, p), lambda y, x, l=l: TRUE if x == l and y == TRUE else FALSE)
                if g != FALSE: self.events.append(Event("oob", g, (l,), self.where))
        return tuple(mapn((guard, p), lambda g, l, i=i: TRUE if g == TRUE and val[l] and (val[l] >> i) & 1 else FALSE) for i in range(w))

    def load(self, mem, guard, p, ty):
        ls = dd.leaves(p)
        if len(ls) > 6 and self.mod.resolve(ty)[0] == "int":
            v = self.load_table(guard, p, ls, ty)
            if v is not None: return v
        res = None
        for l in ls:
            g = guard if len(ls) == 1 else AND(guard, mapn((p,), lambda x, l=l: TRUE if x == l else FALSE))
            if g == FALSE: continue
            v = self.load_at(mem, g, dd._val[l], ty)
            res = v if res is None else merge(g, v, res)
        return undef_of(ty, self.mod) if res is None else res

    def ptr_to_int(self, p):
        r = None
        ls = dd.leaves(p)
        if len(ls) > 6 and all(dd._val[l].op == "addr" and isinstance(dd._val[l].args[0], str) and not dd._val[l].args[0].startswith("$") or dd._val[l].op == "undef" for l in ls):
            at = {l: bits_const(self.ptr_to_int(l)) for l in ls}
            return tuple(mapn((p,), lambda l, i=i: TRUE if (at[l] >> i) & 1 else FALSE) for i in range(64))
        for l in ls:
            t = dd._val[l]
            if t.op == "null" or t.op == "undef": v = const_bits(0, 64)
            elif t.op == "addr" and isinstance(t.args[0], str) and not t.args[0].startswith("$"):
                # objects of the program lie somewhere, far from each other
                v = const_bits((self.mod.global_index(t.args[0]) << 32) + t.args[1] & (2**64 - 1), 64)
            else: v = term_bits(Term("ptrint", t), 64)
            g = mapn((p,), lambda x, l=l: TRUE if x == l else FALSE)
            r = v if r is None else merge(g, v, r)
        return r

    def ptr_diff(self, a, b, guard):
        """sub of two ptrtoint"""
        def d(x, y):
            bx, ox = (x.args if x.op == "addr" else (x, 0))
            by, oy = (y.args if y.op == "addr" else (y, 0))
            if bx == by: return leaf(Term("#", (ox - oy) & (2**64 - 1)))
            if x.op == "undef" or y.op == "undef": return leaf(Term("#", 0))
            if ox == oy: return leaf(Term("ptrdiff", bx, by))
            raise Unsupported("difference of unrelated pointers")
        n = guarded(guard, (a, b), d, other=leaf(Term("#", 0)))
        return tuple(mapn((n,), lambda l, i=i: (TRUE if (dd._val[l].args[0] >> i) & 1 else FALSE) if dd._val[l].op == "#" else term_bits(dd._val[l], 64)[i]) for i in range(64))

    # ---- functions
    def run(self, name, args, guard=TRUE, mem=None):
        f = self.mod.funcs.get("@" + name)
        if f is None or not f.defined: raise KeyError(name)
        r, m = self.call(f, args, guard, mem if mem is not None else {})
        return r, m

    def call(self, f, args, guard, mem):
        d = self.stack.get(f.name, 0)
        if d > self.depth:
            self.cut = OR(self.cut, guard)
            self.cut_sites[f.name] = self.cut_sites.get(f.name, 0) + 1
            return undef_of(f.ret, self.mod), mem
        self.stack[f.name] = d + 1
        self.functions.add(f.name)
        self.calls += 1
        try:
            return Frame(self, f, args, guard, mem).go()
        finally:
            self.stack[f.name] = d


def parse_cstr(s):
    out, i = [], s.index('"') + 1
    while i < len(s) - 1:
        if s[i:i + 2] == "\\\\": out.append(92); i += 2
        elif s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return out


class Frame:
    def __init__(self, an, f, args, guard, mem):
        self.an, self.f, self.mod = an, f, an.mod
        self.env = {}
        for (t, n), a in zip(f.params, args): self.env[n] = a
        self.guard0, self.mem0 = guard, mem
        self.succ, self.rpo, self.num, self.loops = analyse_cfg(f)
        self.inc = {}      # block -> list of (guard, {phi: value}, mem)
        self.rets = []
        self.loop_of = {}
        for l in sorted(self.loops, key=lambda l: -len(l.body)):
            for b in l.body: self.loop_of[b] = l

    def go(self):
        entry = self.f.blocks[0][0]
        self.inc[entry] = [(self.guard0, None, self.mem0)]
        self.region(self.rpo, None)
        if not self.rets: return undef_of(self.f.ret, self.mod), self.mem0
        val, mem = None, None
        for g, v, m in self.rets:
            if val is None and mem is None: val, mem = v, m
            else:
                if v is not None: val = merge(g, v, val)
                mem = self.merge_mem(g, m, mem)
        return val, mem

    def merge_mem(self, g, a, b):
        if a is b: return a
        out = dict(b)
        for k, v in a.items():
            o = b.get(k)
            if o is not v: out[k] = self.an.merge_byte(g, v, o)
        return out

    def region(self, blocks, loop):
        """blocks (in RPO) of one loop body or the whole function; inner loops are run to their fixpoint first"""
        done = set()
        for b in blocks:
            if b in done: continue
            l = self.loop_of.get(b)
            # is b the header of a loop nested directly here?
            if l is not loop and l is not None and b == l.header:
                body = [x for x in blocks if x in l.body]
                done.update(body)
                self.run_loop(l, body)
                continue
            self.block(b, loop)

    def run_loop(self, l, body):
        n = 0
        while True:
            if l.header not in self.inc or not self.inc[l.header]: break
            if n > self.an.unroll:
                g = FALSE
                for gg, _, _ in self.inc.pop(l.header): g = OR(g, gg)
                if g != FALSE:
                    self.an.cut = OR(self.an.cut, g)
                    k = self.f.name + ":" + l.header
                    self.an.cut_sites[k] = self.an.cut_sites.get(k, 0) + 1
                break
            back = []
            saved = self.inc.pop(l.header)
            self.inc[l.header] = saved
            self.region_loop(body, l)
            n += 1

    def region_loop(self, body, l):
        done = set()
        first = True
        for b in body:
            if b in done: continue
            li = self.loop_of.get(b)
            if b != l.header and li is not l and b == li.header:
                inner = [x for x in body if x in li.body]
                done.update(inner)
                self.run_loop(li, inner)
                continue
            self.block(b, l)

    def edge(self, src, dst, g, mem):
        if g == FALSE: return
        phis = {}
        for ins in self.f.bmap[dst]:
            if ins[0] != "phi": break
            for v, b in ins[3]:
                if b == src:
                    phis[ins[1]] = self.an.val(ins[2], v, self.env); break
        self.inc.setdefault(dst, []).append((g, phis, mem))

    def block(self, b, loop):
        inc = self.inc.pop(b, None)
        if not inc: return
        an = self.an
        an.blocks += 1
        check_budget()
        guard, phis, mem = inc[0]
        if len(inc) > 1:
            phis = dict(phis) if phis else phis
            for g, p, m in inc[1:]:
                if phis is not None:
                    for k in phis: phis[k] = merge(g, p[k], phis[k])
                mem = self.merge_mem(g, m, mem)
                guard = OR(guard, g)
        if phis: self.env.update(phis)
        mem = dict(mem)
        for ins in self.f.bmap[b]:
            k = ins[0]
            if k == "phi": continue
            an.where = (self.f.name, b)
            if k == "br": self.edge(b, ins[2], guard, mem); return
            if k == "cbr":
                c = an.val(("int", 1), ins[2], self.env)[0]
                if ins[3] == ins[4]:
                    self.edge(b, ins[3], guard, mem); return
                self.edge(b, ins[3], AND(guard, c), mem)
                self.edge(b, ins[4], AND(guard, NOT(c)), mem)
                return
            if k == "switch":
                v = an.val(ins[2], ins[3], self.env)
                rest = guard
                by = {}
                for cv, lab in ins[5]:
                    c = eq_bits(v, an.val(ins[2], cv, self.env))
                    g = AND(rest, c)
                    by[lab] = OR(by.get(lab, FALSE), g)
                    rest = AND(rest, NOT(c))
                by[ins[4]] = OR(by.get(ins[4], FALSE), rest)
                for lab, g in by.items(): self.edge(b, lab, g, mem)
                return
            if k == "ret":
                self.rets.append((guard, None if ins[3] is None else an.val(ins[2], ins[3], self.env), mem))
                return
            if k == "unreachable":
                an.events.append(Event("unreachable", guard, (), an.where))
                return
            self.instr(ins, guard, mem)

    def instr(self, ins, guard, mem):
        an, env, k = self.an, self.env, ins[0]
        if k == "bin":
            op, ty = ins[2], ins[3]
            a, b = an.val(ty, ins[4], env), an.val(ty, ins[5], env)
            if isinstance(a, list): raise Unsupported("vector arithmetic")
            if op == "add": r = add_bits(a, b)
            elif op == "sub":
                r = None
                if ("p2i", ins[4][1] if ins[4][0] == "loc" else None) in env and ("p2i", ins[5][1] if ins[5][0] == "loc" else None) in env:
                    r = an.ptr_diff(env[("p2i", ins[4][1])], env[("p2i", ins[5][1])], guard)
                if r is None: r = sub_bits(a, b)
            elif op == "and": r = tuple(AND(x, y) for x, y in zip(a, b))
            elif op == "or": r = tuple(OR(x, y) for x, y in zip(a, b))
            elif op == "xor": r = tuple(XOR(x, y) for x, y in zip(a, b))
            elif op in ("shl", "lshr", "ashr"): r = shift_bits(op, a, b)
            elif op == "mul": r = mul_bits(a, b)
            elif op in ("udiv", "urem"): r = udivrem_bits(a, b)[op == "urem"]
            elif op == "sdiv" and bits_const(b) is not None and bits_const(b) & (bits_const(b) - 1) == 0 and bits_const(b):
                s = bits_const(b).bit_length() - 1
                # rounds towards zero
                if a[-1] != FALSE and AND(guard, a[-1]) != FALSE: a = add_bits(a, tuple(a[-1] if i < s else FALSE for i in range(len(a))))
                else: a = a[:-1] + (FALSE,)
                r = shift_bits("ashr", a, const_bits(s, len(b)))
            else: raise Unsupported("bin " + op)
            env[ins[1]] = r
        elif k == "icmp":
            pred, ty = ins[2], self.mod.resolve(ins[3])
            a, b = an.val(ty, ins[4], env), an.val(ty, ins[5], env)
            if ty[0] == "ptr": r = an.vocab.ptrcmp(an, pred, a, b, guard)
            else:
                if pred == "eq": r = eq_bits(a, b)
                elif pred == "ne": r = NOT(eq_bits(a, b))
                elif pred == "ult": r = ult_bits(a, b)
                elif pred == "ugt": r = ult_bits(b, a)
                elif pred == "ule": r = NOT(ult_bits(b, a))
                elif pred == "uge": r = NOT(ult_bits(a, b))
                elif pred == "slt": r = slt_bits(a, b)
                elif pred == "sgt": r = slt_bits(b, a)
                elif pred == "sle": r = NOT(slt_bits(b, a))
                else: r = NOT(slt_bits(a, b))
            env[ins[1]] = (r,)
        elif k == "select":
            c = an.val(("int", 1), ins[2], env)[0]
            env[ins[1]] = merge(c, an.val(ins[3], ins[4], env), an.val(ins[3], ins[5], env))
            for side in (4, 5):
                pass
        elif k == "cast":
            op, t1, v, t2 = ins[2], ins[3], an.val(ins[3], ins[4], env), self.mod.resolve(ins[5])
            if op == "zext": env[ins[1]] = v + (FALSE,) * (t2[1] - len(v))
            elif op == "sext": env[ins[1]] = v + (v[-1],) * (t2[1] - len(v))
            elif op == "trunc": env[ins[1]] = v[:t2[1]]
            elif op == "bitcast": env[ins[1]] = v
            elif op == "ptrtoint":
                env[("p2i", ins[1])] = v
                env[ins[1]] = an.ptr_to_int(v)
            elif op == "inttoptr": raise Unsupported("inttoptr")
        elif k == "copy": env[ins[1]] = an.val(ins[2], ins[3], env)
        elif k == "extract":
            v = an.val(ins[2], ins[3], env)
            for i in ins[4]: v = v[i]
            env[ins[1]] = v
        elif k == "insert":
            v = an.val(ins[2], ins[3], env)
            x = an.val(ins[4], ins[5], env)

            def put(a, idx):
                a = list(a)
                a[idx[0]] = x if len(idx) == 1 else put(a[idx[0]], idx[1:])
                return a
            env[ins[1]] = put(v, ins[6])
        elif k == "alloca":
            an.nobj += 1
            env[ins[1]] = addr("$%d" % an.nobj, 0)
        elif k == "load":
            env[ins[1]] = an.load(mem, guard, an.val(("ptr",), ins[3], env), ins[2])
        elif k == "store":
            an.store(mem, guard, an.val(("ptr",), ins[4], env), ins[2], an.val(ins[2], ins[3], env))
        elif k == "gepi":
            env[ins[1]] = an.gep(ins[2], an.val(("ptr",), ins[3], env), [(t, an.val(t, v, env)) for t, v in ins[4]], guard)
        elif k == "call": self.do_call(ins, guard, mem)
        elif k == "nop": pass
        else: raise Unsupported(str(ins[:3]))

    def do_call(self, ins, guard, mem):
        an, env = self.an, self.env
        _, res, ret, callee, args = ins
        if callee.startswith("@llvm."):
            n = callee[6:]
            if n.startswith(("lifetime.", "experimental.noalias", "dbg.", "assume", "invariant.")): return
            if n.startswith("memcpy") or n.startswith("memmove"):
                size = bits_const(an.val(*args[2], env))
                if size is None: raise Unsupported("memcpy of variable size")
                if size == 0: return
                src = an.val(*args[1], env)
                ty = ("array", size, ("int", 8))
                ls = dd.leaves(src)
                if len(ls) == 1 and dd._val[ls[0]].op == "addr" and isinstance(dd._val[ls[0]].args[0], str) and dd._val[ls[0]].args[0].startswith("$"):
                    obj, off = dd._val[ls[0]].args
                    dst = an.val(*args[0], env)
                    dl = dd.leaves(dst)
                    if len(dl) != 1: raise Unsupported("memcpy to several objects")
                    dobj, doff = dd._val[dl[0]].args
                    if not dobj.startswith("$"): raise Unsupported("memcpy to non-local")
                    data = [mem.get((obj, off + i)) for i in range(size)]
                    for i, d in enumerate(data):
                        if d is None: mem.pop((dobj, doff + i), None)
                        else: mem[(dobj, doff + i)] = d
                    return
                if len(ls) == 1 and dd._val[ls[0]].op == "addr" and an.global_bytes(dd._val[ls[0]].args[0]) is not None:
                    b = an.global_bytes(dd._val[ls[0]].args[0]); off = dd._val[ls[0]].args[1]
                    dl = dd.leaves(an.val(*args[0], env))
                    if len(dl) != 1: raise Unsupported("memcpy to several objects")
                    dobj, doff = dd._val[dl[0]].args
                    for i in range(size):
                        if b[off + i] is not None: mem[(dobj, doff + i)] = b[off + i]
                    return
                raise Unsupported("memcpy from %r" % (dd._val[ls[0]],))
            if n.startswith("memset"):
                size = bits_const(an.val(*args[2], env))
                v = an.val(*args[1], env)
                dl = dd.leaves(an.val(*args[0], env))
                if size is None or len(dl) != 1: raise Unsupported("memset")
                dobj, doff = dd._val[dl[0]].args
                for i in range(size): mem[(dobj, doff + i)] = ("b", v)
                return
            if n.split(".")[0] in ("umax", "umin", "smax", "smin"):
                a, b = an.val(*args[0], env), an.val(*args[1], env)
                lt = ult_bits(a, b) if n[0] == "u" else slt_bits(a, b)
                env[res] = merge(lt, b, a) if n[1:4] == "max" else merge(lt, a, b)
                return
            if n.startswith("trap"):
                an.events.append(Event("unreachable", guard, (), an.where)); return
            if n.startswith("is.constant"):
                env[res] = (FALSE,); return
            if n.startswith("expect"):
                env[res] = an.val(*args[0], env); return
            raise Unsupported("intrinsic " + callee)
        vals = [an.val(t, v, env) for t, v in args]
        if not callee.startswith("@"): raise Unsupported("indirect call")
        f = self.mod.funcs.get(callee)
        if f is not None and f.defined:
            r, m = an.call(f, vals, guard, mem)
            if m is not mem:
                mem.update(m)
            if res: env[res] = r
            return
        an.sites.add((self.f.name, callee))
        r = an.vocab.apply(an, callee[1:], self.mod.resolve(ret), vals, guard)
        if res: env[res] = r


# ---------------------------------------------------------------- vocabulary

def steps(t):
    """(root, n) of an iterator term"""
    if t.op == "it": return t.args[0], t.args[1]
    return t, 0


def mkit(root, n):
    return root if n == 0 else Term("it", root, n)


SETTERS = ("r_set_start", "r_set_end", "r_start_capture", "r_end_capture")


class Vocab:
    """the opaque functions of probe.hpp and the facts known about them"""

    def __init__(self, begin=None, last=None, bounds=True):
        self.begin, self.last = begin, last

    def ptrcmp(self, an, pred, a, b, guard):
        def f(x, y):
            bx, ox = (x.args if x.op == "addr" else (x, 0))
            by, oy = (y.args if y.op == "addr" else (y, 0))
            if x.op == "undef" or y.op == "undef": return FALSE
            if bx == by:
                return TRUE if {"eq": ox == oy, "ne": ox != oy, "ult": ox < oy, "ugt": ox > oy, "ule": ox <= oy, "uge": ox >= oy}[pred] else FALSE
            if pred in ("eq", "ne"):
                if (x.op == "null") != (y.op == "null") and any(t.op == "addr" or t.op.startswith("o_") for t in (x, y)): r = FALSE
                else:
                    p, q = sorted((x, y), key=lambda t: t.seq)
                    r = atom(Term("ptreq", p, q))
                return r if pred == "eq" else NOT(r)
            if pred == "ult": return atom(Term("ptrlt", x, y))
            if pred == "ugt": return atom(Term("ptrlt", y, x))
            if pred == "ule": return NOT(atom(Term("ptrlt", y, x)))
            return NOT(atom(Term("ptrlt", x, y)))
        return guarded(guard, (a, b), f, FALSE)

    def nodes(self, an, vals):
        return [v if isinstance(v, int) else int_node(v) for v in vals]

    def apply(self, an, name, ret, vals, guard):
        ns = self.nodes(an, vals)
        if name in ("it_deref", "it_next", "it_prev", "x_eval", "k_eval", "y_ok", "ex_ok"):
            an.events.append(Event(name, guard, tuple(ns), an.where))
        h = getattr(self, "f_" + name, None)
        if ret == ("ptr",):
            return guarded(guard, ns, (lambda *ts: h(an, *ts)) if h else (lambda *ts: leaf(Term(name, *ts))))
        if ret[0] == "void":
            an.events.append(Event(name, guard, tuple(ns), an.where))
            return None
        if ret == ("int", 1):
            return (guarded(guard, ns, (lambda *ts: h(an, *ts)) if h else (lambda *ts: atom(Term(name, *ts))), FALSE),)
        if ret[0] == "int":
            w = ret[1]
            # result bits: distribute over the leaves, then the bits of each resulting term
            tn = guarded(guard, ns, lambda *ts: (h(an, *ts) if h else leaf(Term(name, *ts))))
            return tuple(mapn((tn,), lambda l, i=i: FALSE if dd._val[l].op == "undef" else (TRUE if (dd._val[l].args[0] >> i) & 1 else FALSE) if dd._val[l].op == "#" else term_bits(dd._val[l], w)[i]) for i in range(w))
        raise Unsupported("opaque result %r of %s" % (ret, name))

    # iterators
    def f_it_next(self, an, t):
        if t.op == "undef": return UNDEF
        r, n = steps(t)
        return leaf(mkit(r, n + 1))

    def f_it_prev(self, an, t):
        if t.op == "undef": return UNDEF
        r, n = steps(t)
        return leaf(mkit(r, n - 1))

    def f_it_eq(self, an, a, b):
        if a.op == "undef" or b.op == "undef": return FALSE
        ra, na = steps(a)
        rb, nb = steps(b)
        if ra == rb: return TRUE if na == nb else FALSE
        d = self.distance(ra, na, rb, nb)
        if d: return FALSE
        # a position before another one is not the end, one behind another is not the beginning
        for (r, n), o, on in (((ra, na), rb, nb), ((rb, nb), ra, na)):
            if o == self.last and on == 0 and n < 0: return FALSE
            if o == self.begin and on == 0 and n > 0: return FALSE
        if ra.seq > rb.seq: ra, na, rb, nb = rb, nb, ra, na
        # ra + na == rb + nb
        return atom(Term("it_eq", mkit(ra, na - nb) if nb > 0 or na < nb else mkit(ra, na - nb), rb))

    def progress(self, t):
        """(position, strictly) this term is not before"""
        if t.op != "r_end_position": return None
        x = t.args[0]
        while x.op in ("r_matched", "r_unmatch", "r_start_capture", "r_end_capture", "r_set_start"): x = x.args[0]
        if x.op == "r_set_end": return (x.args[1], 0)
        if x.op == "x_eval" and x.args[0].op == "#" and x.args[0].args[0] < 1000 and "end_cycle_mark" in repr(x.args[1]):
            return (x.args[3], 1 if x.args[5].op == "#" and x.args[5].args[0] == 1 else 0)
        return None

    def distance(self, ra, na, rb, nb):
        """true if one position is certainly behind the other one: an iteration which must not be empty moves forward"""
        for (x, n), (y, m) in (((ra, na), (rb, nb)), ((rb, nb), (ra, na))):
            least = n
            while True:
                p = self.progress(x)
                if p is None: break
                r, k = steps(p[0])
                x, least = r, least + k + p[1]
                if x == y:
                    if least > m: return True
                    break
        return False

    def f_it_deref(self, an, t):
        return UNDEF if t.op == "undef" else leaf(Term("it_deref", t))

    # memory compared as a whole: two facts, whether equal and which one is less
    def f_memcmp(self, an, a, b, n):
        if n.op == "#" and n.args[0] == 0: return leaf(Term("#", 0))
        if a is b: return leaf(Term("#", 0))
        p, q = sorted((a, b), key=lambda t: t.seq)
        lt = atom(Term("memlt", p, q, n))
        if p is not a: lt = NOT(lt)
        return ite(atom(Term("memeq", p, q, n)), leaf(Term("#", 0)), ite(lt, leaf(Term("#", 0xffffffff)), leaf(Term("#", 1))))

    f_bcmp = f_memcmp
    f_wmemcmp = f_memcmp

    # results
    def f_r_ok(self, an, t):
        if t.op in ("undef", "r_nm"): return FALSE
        if t.op == "r_matched": return TRUE
        if t.op == "r_unmatch": return FALSE
        if t.op in SETTERS: return self.f_r_ok(an, t.args[0])
        return atom(Term("r_ok", t))

    def f_r_unmatch(self, an, t):
        if t.op == "undef": return UNDEF
        if t.op in ("r_unmatch",): return leaf(t)
        if t.op == "r_matched": return self.f_r_unmatch(an, t.args[0])
        return leaf(Term("r_unmatch", t))

    def f_r_matched(self, an, t):
        if t.op == "undef": return UNDEF
        if t.op in ("r_matched",): return leaf(t)
        if t.op == "r_unmatch": return self.f_r_matched(an, t.args[0])
        return leaf(Term("r_matched", t))

    def f_r_end_position(self, an, t):
        if t.op == "undef": return UNDEF
        if t.op == "r_set_end": return leaf(t.args[1])
        if t.op in ("r_matched", "r_unmatch", "r_start_capture", "r_end_capture", "r_set_start"): return self.f_r_end_position(an, t.args[0])
        return leaf(Term("r_end_position", t))




def normalise_result(n):
    """an unsuccessful result is worth the same whatever it carries"""
    v = Vocab()
    return mapn((n,), lambda l: l if dd._val[l].op in ("undef",) else ite(v.f_r_ok(None, dd._val[l]), l, leaf(Term("r_nm"))))


# ---------------------------------------------------------------- theory of positions

def inconsistent(path):
    """a subset of position facts on a path that contradict each other (or None)"""
    eqs = [((t, bit, val)) for (t, bit, val), _ in path if bit is None and t.op == "it_eq"]
    parent = {}

    def find(x):
        p = parent.get(x)
        if p is None: return x, 0
        r, n = find(p[0])
        return r, n + p[1]
    used = []
    for t, _, val in eqs:
        if not val: continue
        (ra, na), (rb, nb) = steps(t.args[0]), steps(t.args[1])
        (xa, da), (xb, db) = find(ra), find(rb)
        used.append((t, 1))
        # position(ra) = xa + da ; ra + na == rb + nb
        if xa == xb:
            if da + na != db + nb: return used
        else:
            parent[xa] = (xb, db + nb - da - na)
    for t, _, val in eqs:
        if val: continue
        (ra, na), (rb, nb) = steps(t.args[0]), steps(t.args[1])
        (xa, da), (xb, db) = find(ra), find(rb)
        if xa == xb and da + na == db + nb: return used + [(t, 0)]
    return None


def positions(path):
    """equivalence of positions on a path: term -> (root, offset)"""
    parent = {}

    def find(x):
        p = parent.get(x)
        if p is None: return x, 0
        r, n = find(p[0])
        return r, n + p[1]
    used = []
    for (t, bit, val), _ in path:
        if bit is None and t.op == "it_eq" and val:
            (ra, na), (rb, nb) = steps(t.args[0]), steps(t.args[1])
            (xa, da), (xb, db) = find(ra), find(rb)
            used.append(t)
            if xa != xb: parent[xa] = (xb, db + nb - da - na)
    return find, used


def same_on(path, x, y):
    """are two results the same where the positions compared on the path are?  -> the equalities needed, or None"""
    if not isinstance(x, Term) or not isinstance(y, Term): return None
    find, used = positions(path)

    def same(a, b):
        if a is b: return True
        if not isinstance(a, Term) or not isinstance(b, Term): return a == b
        (ra, na), (rb, nb) = steps(a), steps(b)
        (xa, da), (xb, db) = find(ra), find(rb)
        if xa is xb and da + na == db + nb: return True
        return a.op == b.op and len(a.args) == len(b.args) and a.op != "it" and all(same(p, q) for p, q in zip(a.args, b.args))
    return used if same(x, y) else None


def compare(a, b, care, theory=inconsistent, limit=4000):
    """first consistent difference of two diagrams or None"""
    for _ in range(limit):
        d = dd.find_difference(a, b, care)
        if d is None: return None, care
        core = theory(d[0]) if theory else None
        if core is None:
            eqs = same_on(d[0], dd._val[d[1]], dd._val[d[2]]) if theory else None
            if eqs is None: return d, care
            cond = TRUE
            for t in eqs: cond = AND(cond, atom(t))
            la, lb = d[1], d[2]
            b = mapn((b,), lambda l: ite(cond, la, l) if l == lb else l)
            continue
        clause = FALSE
        for t, v in core:
            x = atom(t)
            clause = OR(clause, NOT(x) if v else x)
        care = AND(care, clause)
    raise Blowup()


def satisfiable(bad, care=TRUE, theory=inconsistent):
    return compare(bad, FALSE, care, theory)
