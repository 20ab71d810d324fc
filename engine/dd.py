"""Hash-consed decision diagrams over an uninterpreted vocabulary.

A node is an integer.  Leaves: FALSE, TRUE, and one leaf per Term (an opaque
value).  Inner nodes test one *atom*: a boolean opaque term, or one bit of an
integer opaque term.  For one global atom order the diagrams are canonical, so
two values are equal for every interpretation of the vocabulary (up to the
rewrite rules given) iff their node numbers are equal.
"""
import sys
sys.setrecursionlimit(200000)

FALSE, TRUE = 0, 1


class Term:
    __slots__ = ("op", "args", "seq", "_s")
    table = {}
    count = 0

    def __new__(cls, op, *args):
        k = (op, args)
        t = cls.table.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args = op, args
            cls.count += 1
            t.seq = cls.count
            t._s = None
            cls.table[k] = t
        return t

    def __repr__(self):
        if self._s is None:
            if self.args:
                self._s = "%s(%s)" % (self.op, ", ".join(a if isinstance(a, str) else repr(a) for a in self.args))
            else:
                self._s = str(self.op)
        return self._s


_leaf = {}        # Term -> node
_val = [None, None]   # node -> Term | None
_var = [None, None]   # node -> atom index
_lo = [None, None]
_hi = [None, None]
_uniq = {}
_atoms = {}       # (term, bit|None) -> atom index
_atom_of = []     # index -> (term, bit|None)
_key = []         # index -> order key
_ite = {}


def leaf(term):
    n = _leaf.get(term)
    if n is None:
        n = len(_val)
        _val.append(term); _var.append(None); _lo.append(None); _hi.append(None)
        _leaf[term] = n
    return n


def is_leaf(n):
    return _var[n] is None


def leaf_value(n):
    return _val[n]


def atom(term, bit=None):
    k = (term, bit)
    a = _atoms.get(k)
    if a is None:
        a = len(_atom_of)
        _atoms[k] = a
        _atom_of.append(k)
        _key.append((0, term.seq, 0) if bit is None else (1, -bit, term.seq))
    return mk(a, FALSE, TRUE)


def mk(var, lo, hi):
    if lo == hi:
        return lo
    k = (var, lo, hi)
    n = _uniq.get(k)
    if n is None:
        n = len(_val)
        _val.append(None); _var.append(var); _lo.append(lo); _hi.append(hi)
        _uniq[k] = n
    return n


def _top(*ns):
    best = None
    for n in ns:
        v = _var[n]
        if v is not None and (best is None or _key[v] < _key[best]):
            best = v
    return best


def cof(n, var, val):
    if _var[n] == var:
        return _hi[n] if val else _lo[n]
    return n


def ite(f, g, h):
    if f == TRUE: return g
    if f == FALSE: return h
    if g == h: return g
    if g == TRUE and h == FALSE: return f
    k = (f, g, h)
    r = _ite.get(k)
    if r is not None: return r
    v = _top(f, g, h)
    r = mk(v, ite(cof(f, v, 0), cof(g, v, 0), cof(h, v, 0)), ite(cof(f, v, 1), cof(g, v, 1), cof(h, v, 1)))
    _ite[k] = r
    return r


def NOT(a): return ite(a, FALSE, TRUE)
def AND(a, b): return ite(a, b, FALSE)
def OR(a, b): return ite(a, TRUE, b)
def XOR(a, b): return ite(a, NOT(b), b)


def mapn(nodes, fn):
    """apply fn to every combination of leaves; fn(leaf nodes) -> node"""
    memo = {}

    def go(ns):
        r = memo.get(ns)
        if r is not None: return r
        v = _top(*ns)
        if v is None:
            r = fn(*ns)
        else:
            lo = go(tuple(cof(n, v, 0) for n in ns))
            hi = go(tuple(cof(n, v, 1) for n in ns))
            r = ite(mk(v, FALSE, TRUE), hi, lo)
        memo[ns] = r
        return r
    return go(tuple(nodes))


def leaves(n, seen=None):
    """the leaf nodes of a diagram"""
    out, seen, st = [], set(), [n]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if _var[x] is None: out.append(x)
        else: st += [_lo[x], _hi[x]]
    return out


def inner(n):
    """the atoms a diagram tests"""
    out, seen, st = set(), set(), [n]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if _var[x] is not None:
            out.add(_var[x]); st += [_lo[x], _hi[x]]
    return [_atom_of[a] for a in out]


def all_terms(n):
    """every term (and subterm) mentioned by a diagram"""
    seen = set()

    def walk(t):
        if not isinstance(t, Term) or t in seen: return
        seen.add(t)
        for a in t.args: walk(a)
    for l in leaves(n):
        if _val[l] is not None: walk(_val[l])
    for t, _ in inner(n): walk(t)
    return seen


def size(n):
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if _var[x] is not None: st += [_lo[x], _hi[x]]
    return len(seen)


def node_name(n):
    if n == TRUE: return "true"
    if n == FALSE: return "false"
    if is_leaf(n): return repr(_val[n])
    return "<diagram of %d nodes>" % size(n)


def find_difference(a, b, care=TRUE):
    """a conjunction of atoms (as text) on which a and b end in different leaves, and these leaves"""
    seen = set()

    def go(x, y, c, path):
        if c == FALSE or x == y: return None
        if (x, y, c) in seen: return None
        seen.add((x, y, c))
        v = _top(x, y, c)
        if v is None:
            return (path, x, y)
        t, bit = _atom_of[v]
        for val in (1, 0):
            txt = "%s%r%s" % ("" if val else "not ", t, "" if bit is None else "[bit %d]" % bit)
            r = go(cof(x, v, val), cof(y, v, val), cof(c, v, val), path + [((t, bit, val), txt)])
            if r: return r
        return None
    return go(a, b, care, [])


def describe_path(path):
    """integers are shown as one value instead of their bits"""
    ints, out = {}, []
    for (t, bit, val), txt in path:
        if bit is None: out.append(txt)
        else: ints.setdefault(t, {})[bit] = val
    for t, bits in ints.items():
        v = sum(1 << b for b, x in bits.items() if x)
        out.append("%r = 0x%X (bits %d..%d constrained)" % (t, v, min(bits), max(bits)))
    return out


def reset():
    """forget everything (between independent obligations)"""
    Term.table.clear(); Term.count = 0
    _leaf.clear(); _uniq.clear(); _atoms.clear(); _ite.clear()
    del _val[2:], _var[2:], _lo[2:], _hi[2:]
    del _atom_of[:], _key[:]
