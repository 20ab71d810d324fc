"""C12: the parser table compiled into the library against the grammar file.

The table is read out by the compiler: for every nonterminal reachable from the start and every character the result type of
ctll::augment_grammar<ctre::pcre>::rule is instantiated into a symbol name (an ambiguous rule does not compile).  The grammar
file is read by the parser below.  Both are then driven side by side over all characters from every reachable pair of stacks."""
import os, re
from concurrent.futures import ThreadPoolExecutor
from . import valg

CHARS = list(range(0, 128)) + [0x80, 0xE9, 0xFF, 0x100, 0x2028, 0xFFFF, 0x10FFFF]
END = "end"
FILT = "/usr/lib/llvm-18/bin/llvm-cxxfilt"


# ------------------------------------------------------------------ the grammar file
class Grammar:
    def __init__(self, text):
        self.sets, self.rules, self.names = {}, {}, {}
        mentioned = set()
        for line in text.split("\n"):
            line = line.strip("\r")
            if not line.strip() or line.startswith("#"): continue
            m = re.match(r"^(\w+)=\{(.*)\}\s*$", line)
            if m:
                cs = set(self.chars(m.group(2)))
                self.sets[m.group(1)] = cs
                mentioned |= cs
                continue
            m = re.match(r"^(\w+)->(.*)$", line)
            if not m: raise valg.Broken("pcre.gram: not understood: " + line)
            self.rules.setdefault(m.group(1), [])
            for alt in self.split(m.group(2), "|"):
                self.rules[m.group(1)].append([t for t in (x.strip() for x in self.split(alt, ",")) if t != ""])
        self.other = lambda c: c not in mentioned
        out = {}
        for n, alts in self.rules.items():
            out[n] = []
            for alt in alts:
                seq = []
                for t in alt:
                    if t == "epsilon": continue
                    if t.startswith("<"): seq.append(("N", t[1:-1]))
                    elif t.startswith("["): seq.append(("A", t[1:-1]))
                    elif t.startswith('"') and len(t) > 2: seq += [("T", frozenset([ord(c)])) for c in t[1:-1]]; mentioned |= set(map(ord, t[1:-1]))
                    elif t == "other": seq.append(("T", None))
                    elif t in self.sets: seq.append(("T", frozenset(self.sets[t])))
                    elif t.startswith("\\") and len(t) == 2: seq.append(("T", frozenset([ord(t[1])]))); mentioned.add(ord(t[1]))
                    elif len(t) == 1: seq.append(("T", frozenset([ord(t)]))); mentioned.add(ord(t))
                    else: raise valg.Broken("pcre.gram: unknown symbol %r in %s" % (t, n))
                out[n].append(tuple(seq))
        other = frozenset(c for c in CHARS if c not in mentioned)
        self.rules = {n: [tuple(("T", other) if s == ("T", None) else s for s in a) for a in alts] for n, alts in out.items()}
        for n, alts in self.rules.items():
            for a in alts:
                for k, v in a:
                    if k == "N" and v not in self.rules: raise valg.Broken("pcre.gram: %s uses the undefined <%s>" % (n, v))
        self.start = "S"
        self.first_follow()

    @staticmethod
    def chars(s):
        i = 0
        while i < len(s):
            if s[i] == "\\": yield ord(s[i + 1]); i += 2
            elif s[i] == ",": i += 1
            else: yield ord(s[i]); i += 1

    @staticmethod
    def split(s, sep):
        out, cur, i, q = [], "", 0, False
        while i < len(s):
            if s[i] == "\\": cur += s[i:i + 2]; i += 2; continue
            if s[i] == '"': q = not q
            if s[i] == sep and not q: out.append(cur); cur = ""
            else: cur += s[i]
            i += 1
        return out + [cur]

    def first_follow(self):
        self.nullable, self.first, self.follow = set(), {n: set() for n in self.rules}, {n: set() for n in self.rules}
        self.follow[self.start].add(END)
        change = True
        while change:
            change = False
            for n, alts in self.rules.items():
                for a in alts:
                    f, nul = self.first_of(a)
                    if nul and n not in self.nullable: self.nullable.add(n); change = True
                    if not f <= self.first[n]: self.first[n] |= f; change = True
                    for i, (k, v) in enumerate(a):
                        if k != "N": continue
                        f, nul = self.first_of(a[i + 1:])
                        if nul: f = f | self.follow[n]
                        if not f <= self.follow[v]: self.follow[v] |= f; change = True

    def first_of(self, seq):
        out = set()
        for k, v in seq:
            if k == "A": continue
            if k == "T": return out | v, False
            out |= self.first[v]
            if v not in self.nullable: return out, False
        return out, True

    def steps(self, stack, x, depth=0):
        """All ways the stack can meet the lookahead x: ('pop', actions, rest) or ('empty', actions)"""
        if depth > 400: raise valg.Broken("pcre.gram: left recursion")
        if not stack: yield ("empty", (), ()); return
        (k, v), rest = stack[0], stack[1:]
        if k == "A":
            for (w, a, r) in self.steps(rest, x, depth + 1): yield (w, (v,) + a, r)
        elif k == "T":
            if x in v: yield ("pop", (), rest)
        else:
            for alt in self.rules[v]:
                yield from self.steps(alt + rest, x, depth + 1)


# ------------------------------------------------------------------ the compiled table
TABLE_PRELUDE = """#include <ctre.hpp>
template <class S, int V, class R> void rec() {}
template <class S, class R> void rec_end() {}
using G = ctll::augment_grammar<ctre::pcre>;
template <class S, auto... V> void all() { (rec<S, static_cast<int>(V), decltype(G::rule(S{}, ctll::term<V>{}))>(), ...); rec_end<S, decltype(G::rule(S{}, ctll::epsilon{}))>(); }
"""


def char_expr(c): return "char(%d)" % c if c < 128 else "char32_t(%d)" % c


class Table:
    """rule: (nonterminal, char or END) -> ('reject',) | ('push', symbols) ; symbols: ('N'|'A', name), ('T', frozenset)"""

    def __init__(self, tmp):
        self.rule, self.actions, self.ambiguous = {}, set(), []
        self.tmp = tmp
        self.start = None
        done, todo = set(), None
        n = 0
        while True:
            n += 1
            todo = self.round(n, todo)
            done |= todo
            seen = set()
            for k, v in self.rule.items():
                if v[0] == "push": seen |= {s[1] for s in v[1] if s[0] == "?"}
            # a name is an action when it has no rules at all and derives from ctll::action -- ask the compiler
            new = seen - done - self.actions
            if not new: break
            new = self.classify(n, new)
            todo = new
            if not todo: break
        self.nonterminals = done
        for k, v in list(self.rule.items()):
            if v[0] == "push":
                self.rule[k] = ("push", tuple(s if s[0] != "?" else ("A" if s[1] in self.actions else "N", s[1]) for s in v[1]))

    def compile(self, name, body):
        src = os.path.join(self.tmp, name + ".cpp")
        with open(src, "w") as f: f.write(TABLE_PRELUDE + body)
        out = src[:-4] + ".ll"
        r = valg.run([valg.CLANG] + valg.CXX + ["-S", "-emit-llvm", "-O0", "-ferror-limit=0", "-o", out, src])
        return r, out

    def classify(self, n, names):
        body = "template <class S> void is_action() {}\ntemplate <class S> void is_nt() {}\n"
        body += "template <class S> void ask() { if constexpr (std::is_base_of_v<ctll::action, S>) is_action<S>(); else is_nt<S>(); }\nvoid f() {"
        body += " ".join("ask<%s>();" % x for x in sorted(names)) + "}\n"
        r, out = self.compile("gk%d" % n, body)
        if r.returncode: raise valg.Broken("the parser table cannot be read: " + r.stderr[:600])
        nts = set()
        for l in self.demangle(out):
            m = re.search(r"void is_(action|nt)<([^<>]*)>\(\)", l)
            if m:
                if m.group(1) == "action": self.actions.add(m.group(2))
                else: nts.add(m.group(2))
        return nts

    def demangle(self, out):
        names = set(re.findall(r"@(_Z\w+)\(", open(out).read()))
        r = valg.run([FILT], input="\n".join(sorted(names)))
        return r.stdout.split("\n")

    def round(self, n, states):
        if states is None: parts = ["void f() { all<ctre::pcre::_start, %s>(); }\n" % ", ".join(map(char_expr, CHARS))]
        else:
            ss = sorted(states)
            parts = ["void f() { " + " ".join("all<%s, %s>();" % (s, ", ".join(map(char_expr, CHARS))) for s in ss[i::8]) + " }\n" for i in range(8) if ss[i::8]]
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda a: self.compile("g%d_%d" % (n, a[0]), a[1]), enumerate(parts)))
        got = set()
        for r, out in rs:
            if r.returncode:
                amb = [l for l in r.stderr.split("\n") if "ambiguous" in l]
                where = [l for l in r.stderr.split("\n") if "in instantiation of" in l][:1]
                if amb: self.ambiguous += amb[:3] + where; continue
                raise valg.Broken("the parser table cannot be read: " + r.stderr[:600])
            for l in self.demangle(out):
                m = re.match(r"void rec(_end)?<(.*)>\(\)$", l)
                if not m: continue
                args = split_args(m.group(2))
                st = args[0]
                if m.group(1): x, res = END, args[1]
                else: x, res = value_of(args[1]), args[2]
                self.rule[(st, x)] = result_of(res)
                got.add(st)
                if states is None: self.start = st
        return got


def split_args(s):
    out, cur, d, i = [], "", 0, 0
    while i < len(s):
        c = s[i]
        if c == "'":
            j = i + 1
            while s[j] != "'" or (s[j - 1] == "\\" and s[j - 2] != "\\"): j += 1
            cur += s[i:j + 1]; i = j + 1; continue
        if c in "<({": d += 1
        if c in ">)}": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
        i += 1
    if cur.strip(): out.append(cur.strip())
    return out


def value_of(s):
    s = s.strip()
    m = re.match(r"^\((?:char|char32_t|wchar_t|unsigned char|signed char)\)(-?\d+)", s)
    if m: return int(m.group(1))
    m = re.match(r"^(-?\d+)[uUlL]*$", s)
    if m: return int(m.group(1))
    raise valg.Broken("the parser table cannot be read: value " + s)


def result_of(s):
    if s == "ctll::reject": return ("reject",)
    if s == "ctll::accept": return ("accept",)
    if s == "ctll::epsilon": return ("push", ())
    if s == "ctll::pop_input": return ("push", (("T", frozenset(CHARS)),))
    m = re.match(r"^ctll::list<(.*)>$", s)
    if not m: raise valg.Broken("the parser table cannot be read: rule " + s)
    return ("push", tuple(symbol(x) for x in split_args(m.group(1))))


def symbol(x):
    if x == "ctll::anything": return ("T", frozenset(CHARS))
    m = re.match(r"^ctll::(\w+)<(.*)>$", x)
    if m:
        vs = [value_of(v) for v in split_args(m.group(2))]
        if m.group(1) in ("term", "set"): return ("T", frozenset(vs))
        if m.group(1) == "neg_set": return ("T", frozenset(CHARS) - frozenset(vs))
        if m.group(1) == "range": return ("T", frozenset(c for c in CHARS if vs[0] <= c <= vs[1]))
        raise valg.Broken("the parser table cannot be read: symbol " + x)
    return ("?", x)


def short(n): return n.split("::")[-1]


class Machine:
    """The table as ctll::parser drives it."""

    def __init__(self, table): self.t = table

    def step(self, stack, x):
        acts, stack, n = [], list(stack), 0
        while True:
            n += 1
            if n > 2000: raise valg.Broken("the parser table loops")
            if not stack: return ("empty", tuple(acts), ())
            k, v = stack.pop(0)
            if k == "A": acts.append(short(v)); continue
            if k == "T":
                if x == END or x not in v: return ("reject", tuple(acts), ())
                return ("pop", tuple(acts), tuple(stack))
            r = self.t.rule.get((v, x))
            if r is None: raise valg.Broken("no table entry for %s" % v)
            if r[0] == "reject": return ("reject", tuple(acts), ())
            if r[0] == "accept": return ("empty", tuple(acts), ())
            stack = list(r[1]) + stack


# ------------------------------------------------------------------ side by side
def same_symbol(a, b):
    """table symbol, grammar symbol"""
    if a[0] != b[0]: return False
    if a[0] == "T": return a[1] == b[1]
    n = short(a[1])
    return n == b[1] or (a[0] == "N" and n == "s" and b[1] == "S")


def normal(stack):
    return tuple(stack)


def show(x): return "the end" if x == END else repr(chr(x))


def show_stack(st): return " ".join(short(v) if k != "T" else ("any" if len(v) > 120 else "{" + "".join(sorted(chr(c) for c in v))[:24] + "}") for k, v in st)


class Compare:
    def __init__(self, table, grammar, split=True, limit=60000):
        self.m, self.t, self.g, self.split, self.limit = Machine(table), table, grammar, split, limit
        self.mismatch, self.pairs, self.checked = [], 0, 0
        self.origins = {}

    def run(self):
        start = ((("N", self.t.start),), frozenset([(("N", self.g.start),)]), frozenset([END]))
        todo = [(start, "", "S")]
        seen = {start}
        self.seen = seen
        self.finished = True
        i = 0
        while i < len(todo):
            (ts, gs, follow), text, origin = todo[i]; i += 1
            if len(seen) > self.limit or len(self.mismatch) >= 40: self.finished = False; break
            for x in CHARS + [END]:
                t = self.m.step(ts, x)
                alts = set()
                for g in gs: alts |= set(self.g.steps(g, x))
                if x == END: alts = {a for a in alts if a[0] != "pop"}
                pops = {a for a in alts if a[0] == "pop"}
                empties = {a for a in alts if a[0] == "empty"} if x in follow else set()
                self.checked += 1
                acts = {(a[0], a[1]) for a in pops | empties}
                if len(acts) > 1:
                    self.report(origin, text, x, "the grammar itself does not decide: " + "; ".join(sorted("%s after [%s]" % (k, ", ".join(a)) for k, a in acts))); continue
                if not acts:
                    if t[0] == "pop": self.report(origin, text, x, "the table goes on, the grammar has no such text (table stack: %s)" % show_stack(ts))
                    elif t[0] == "empty" and x in follow: self.report(origin, text, x, "the table ends here, the grammar has no such text")
                    # an end that is met with a character that cannot follow is rejected by whatever comes next
                    continue
                (kind, actions), = acts
                if t[0] != kind: self.report(origin, text, x, "the grammar %s, the table %s" % ({"pop": "goes on", "empty": "ends"}[kind], {"pop": "goes on", "empty": "ends", "reject": "rejects"}[t[0]])); continue
                if t[1] != actions: self.report(origin, text, x, "the grammar says actions [%s], the table [%s]" % (", ".join(actions), ", ".join(t[1]))); continue
                if kind == "empty": continue
                for nxt, org in self.next(t[2], frozenset(a[2] for a in pops), follow, origin):
                    if nxt not in seen:
                        seen.add(nxt)
                        todo.append((nxt, (text if org == origin else "") + (chr(x) if org == origin else ""), org))
        self.pairs = len(seen)
        return self.mismatch

    def next(self, ts, gs, follow, origin):
        if not self.split: yield (ts, gs, follow), origin; return
        # a common tail of identical symbols is compared on its own
        n = 0
        while n < len(ts) and all(n < len(g) and same_symbol(ts[-1 - n], g[-1 - n]) for g in gs): n += 1
        g0 = next(iter(gs))
        tail = g0[len(g0) - n:]
        ttail = ts[len(ts) - n:]
        for a, b in zip(ttail, tail):
            if a[0] == "N": yield ((a,), frozenset([(b,)]), frozenset(self.g.follow[b[1]])), b[1]
        ts, gs = ts[:len(ts) - n], frozenset(g[:len(g) - n] for g in gs)
        if ts == () and gs == frozenset([()]): return
        f, nul = self.g.first_of(tail)
        yield (ts, gs, frozenset(f | follow if nul else f)), origin

    def report(self, origin, text, x, what):
        self.mismatch.append("in <%s> after %r, on %s: %s" % (origin, text, show(x), what))


def simulate(g, text):
    """the grammar's verdict: None, or the actions with the character each is given"""
    stacks, prev, out = frozenset([(("N", g.start),)]), None, []
    for i, x in enumerate([ord(c) if isinstance(c, str) else c for c in text] + [END]):
        alts = set()
        for s in stacks: alts |= set(g.steps(s, x if x == END or x in CHARS else 0x100))
        want = {a for a in alts if a[0] == ("empty" if x == END else "pop")}
        if not want: return None
        acts = {a[1] for a in want}
        if len(acts) != 1: raise valg.Broken("pcre.gram is ambiguous on %r" % (text,))
        out += [(a, prev) for a in next(iter(acts))]
        prev = x
        stacks = frozenset(a[2] for a in want)
    return out


# ------------------------------------------------------------------ the driver of the table
RECORDER = """#include <ctre.hpp>
template <class A, int V> struct ev {};
struct recorder {
	template <class A, auto V, class... Ts> static constexpr auto apply(A, ctll::term<V>, ctll::list<Ts...>) -> ctll::list<Ts..., ev<A, static_cast<int>(V)>> { return {}; }
	template <class A, class... Ts> static constexpr auto apply(A, ctll::epsilon, ctll::list<Ts...>) -> ctll::list<Ts..., ev<A, -1>> { return {}; }
};
template <ctll::fixed_string Text> using trace = typename ctll::parser<ctre::pcre, Text, recorder>::template output<ctll::list<>>;
template <ctll::fixed_string Text, class... Es> constexpr bool accepts = trace<Text>::is_correct && std::is_same_v<typename trace<Text>::output_type, ctll::list<Es...>>;
template <ctll::fixed_string Text> constexpr bool refuses = !trace<Text>::is_correct && !ctll::parser<ctre::pcre, Text, recorder>::template correct_with<ctll::list<>>;
"""
TEXTS = [
    "", "a", "ab", "abc", "|", "a|", "|a", "a|b", "a|b|c", "a||b", "a|b|", "||", "(", ")", "()", "(a", "a)", "(a)", "((a))", "(a)(b)", "(|a)", "(a|)", "(|)", "(a|b)", "(a||b)", "(())", "(()", "(a))",
    "*", "+", "?", "a*", "a+", "a?", "a**", "a*+", "a*?", "a++", "a+?", "a??", "a?+", "a+*", "a?*", "a*?+", "a{", "a{1", "a{1}", "a{12}", "a{1,", "a{1,}", "a{1,2}", "a{,2}", "a{}", "a{1,2", "a{1,2}?", "a{1,2}+", "a{1,}?", "a{1,}+",
    "a{1}?", "a{1}+", "a{1}*", "a{1,2}*", "a{x}", "a{1x}", "a}", "}", "{", "{1}", "(a)*", "(a){2}", "()*", "^*", "$+", "^", "$", "^a$", "a^b", "^^", "a$b", ".", ".*", "..",
    "(?:a)", "(?:)", "(?:|a)", "(?", "(?)", "(?:", "(?=a)", "(?!a)", "(?<=a)", "(?<!a)", "(?>a)", "(?=)", "(?<a>b)", "(?<a1_B>b)", "(?<1>b)", "(?<>b)", "(?<a", "(?<a>", "(?<a>)", "(?P<a>b)", "(?'a'b)", "(?#a)", "(?<a>b", "(?=a", "(?<-a>b)", "(?<a-b>c)",
    "(?i)", "(?i)a", "(?is)", "(?s)", "(?m)", "(?c)", "(?icsm)x", "(?x)", "(?i", "(?i:a)", "(?-i)", "a(?i)b", "(?ii)a", "(?i)*",
    "[a]", "[]", "[", "]", "[]]", "[^]", "[^]]", "[^a]", "[^", "[a", "[ab]", "[a-b]", "[a-]", "[-a]", "[-]", "[a-b-c]", "[a-b-]", "[^a-z]", "[^-]", "[^-a]", "[a^]", "[^^]", "[a-^]", "[a-\\]]", "[\\]-a]", "[\\d]", "[\\d-a]", "[a-\\d]", "[\\-]", "[\\^]", "[[]", "[[a]]", "[a[]", "[()*+?.|$]", "[a-z0-9_]", "[.-/]", "[a-.]", "[a-[]", "[!-~]", "[\"]", "[\\\"]", "[\\n]", "[\\n-\\r]", "[\\x41-\\x5a]",
    "[\\u0041]", "[\\u{41}-\\u{5a}]", "[\\b]", "[\\B]", "[\\A]", "[\\1]", "[\\g{1}]", "[\\p{L}]", "[^\\P{L}]", "[\\p{L}-a]", "[:alpha:]", "[[:alpha:]]", "[[:^alpha:]]", "[^[:alpha:]]", "[[:alpha:]a]", "[a[:alpha:]]", "[[:alpha:]-a]", "[[:alph:]]", "[[:alpha]]", "[[:alpha:]", "[[:alpha-", "[[:foo:]]", "[[:ALPHA:]]", "[[:^^alpha:]]",
    "[[:alnum:]]", "[[:ascii:]]", "[[:blank:]]", "[[:cntrl:]]", "[[:digit:]]", "[[:graph:]]", "[[:lower:]]", "[[:print:]]", "[[:punct:]]", "[[:space:]]", "[[:upper:]]", "[[:word:]]", "[[:xdigit:]]", "[[:alphanum:]]", "[[:prin:]]", "[[:digits:]]",
    "\\", "a\\", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\h", "\\H", "\\v", "\\V", "\\N", "\\n", "\\t", "\\r", "\\0", "\\a", "\\e", "\\f", "\\A", "\\z", "\\Z", "\\b", "\\B", "\\G", "\\K", "\\Q", "\\E", "\\R", "\\X", "\\c", "\\cA", "\\o", "\\i", "\\y", "\\_", "\\ ", "\\:", "\\,", "\\=", "\\!", "\\<", "\\>", "\\-", "\\\"", "\\/", "\\\\", "\\.", "\\*", "\\+", "\\?", "\\[", "\\]", "\\(", "\\)", "\\{", "\\}", "\\|", "\\^", "\\$", "\\%", "\\&", "\\#", "\\'", "\\@",
    "\\1", "\\9", "\\10", "\\g{1}", "\\g{12}", "\\g{-1}", "\\g{-12}", "\\g{a}", "\\g{ab1_}", "\\g{}", "\\g{-}", "\\g{-a}", "\\g{1a}", "\\g1", "\\g{1", "\\g", "\\g{a-}", "\\k<a>", "\\k{a}",
    "\\x", "\\x4", "\\x41", "\\x411", "\\x{", "\\x{}", "\\x{4}", "\\x{41}", "\\x{10ffff}", "\\x{110000}", "\\x{4", "\\xg1", "\\x4g", "\\x{g}", "\\u", "\\u004", "\\u0041", "\\u00411", "\\u{41}", "\\u{}", "\\u{1F600}", "\\uD83D", "\\U0041", "\\x{aF}", "\\xFf",
    "\\p{L}", "\\p{Lu}", "\\P{L}", "\\p{Script=Latin}", "\\p{sc=Greek}", "\\p{L", "\\pL", "\\p{}", "\\p{=L}", "\\p{L=}", "\\p{a=b=c}", "\\p{^L}", "\\p{a.b}", "\\p{a b}", "\\p{a_1}", "\\P{a=b.c}", "\\p{a-b}", "\\p", "\\p{a=}",
    "a b", "\\(\\)", "a!b,c-d:e<f=g>h_i/j\"k]l", "#", "%", "&", "'", ";", "@", "`", "~", "\t", "\n", " ", "\u00e9", "\u0416\u2028\U0001F600", "[\u00e9-\u0416]", "(\u00e9)*", "\u00e9{2}",
    "(a(b)|(c(?:d)))\\2", "(?i)a(?c)b", "(?=a(?!b))c", "(?<x>a)\\g{x}", "(?>a|b)+c", "(?:(?:(?:a)))", "^(?:[a-z]+|\\d{2,3}?)$", "([^\\\\\\]]*)", "((((((((((a))))))))))\\10", "(?<year>\\d{4})-(?<month>\\d{2})", "a\\|b", "[\\\\]", "[/]", "a/b", "x{0}", "x{0,0}", "x{2,1}",
]


def escape(t):
    return "".join("\\x%x\"\"" % ord(c) if ord(c) < 32 else ("\\u%04x" % ord(c) if ord(c) < 0x10000 else "\\U%08x" % ord(c)) if ord(c) > 126 else ("\\" + c if c in "\\\"" else ("?\"\"" if c == "?" else c)) for c in t)


def literal(t): return 'U"%s"' % escape(t).replace('""', '"U"') if any(ord(c) > 127 for c in t) else '"%s"' % escape(t)


def run(ctx, what=("table", "driver")):
    path = os.path.join(valg.REPO, "include/ctre/pcre.gram")
    if not os.path.exists(path): raise valg.Broken("include/ctre/pcre.gram is gone")
    g = Grammar(open(path, encoding="utf-8").read())
    rule = "driven side by side on every character from every reachable pair of stacks, the compiled table and pcre.gram go on, end and reject alike and ask for the same actions in the same order"
    if "table" in what:
        t = Table(ctx.tmp)
        ctx.add("table:deterministic", "parser table", not t.ambiguous, t.ambiguous[:8], where="include/ctre/pcre.hpp", rule="no two rules apply to one nonterminal and one character")
        if not t.ambiguous:
            c = Compare(t, g, limit=4000)
            bad = c.run()
            by = {}
            for b in bad: by.setdefault(re.match(r"in <(\w+)>", b).group(1), []).append(b)
            if bad or not c.finished:
                whole = Compare(t, g, split=False, limit=30000)
                whole.run()
                if not whole.mismatch:
                    ctx.add("table:whole", "parser table", "broken", ["the comparison by parts found a difference that no pattern shows:"] + bad[:4])
                    by = {}
                else: by.setdefault("whole patterns", []).extend(x.replace("in <S> after", "pattern") for x in whole.mismatch[:6])
            origins = {}
            for (ts, gs, f) in c.seen: origins.setdefault(short(ts[0][1]) if len(ts) == 1 and ts[0][0] == "N" else "(inner stacks)", 0)
            for o in sorted(set(origins) | set(by)):
                ctx.add("table:" + o, "parser table", not by.get(o), by.get(o, [])[:10], where="include/ctre/pcre.hpp rules of " + o, rule=rule, stats={"pairs": c.pairs, "steps": c.checked})
            ctx.notes.append("%d pairs of stacks, %d steps compared, %d table entries, %d actions" % (c.pairs, c.checked, len(t.rule), len(t.actions)))
    if "driver" in what:
        ws = []
        for i, txt in enumerate(TEXTS):
            want = simulate(g, txt)
            if want is None: e = "refuses<%s>" % literal(txt)
            else: e = "accepts<%s%s>" % (literal(txt), "".join(", ev<ctre::pcre::%s, %d>" % (a, -1 if p is None else p) for a, p in want))
            ws.append(("driver:%03d" % i, e, "pattern text %r, %s by pcre.gram" % (txt, "rejected" if want is None else "accepted")))
        ctx.types(ws, RECORDER, rule="ctll::parser makes of the text exactly the actions, each with its previous character, that pcre.gram derives", engine="type witnesses: parser traces")
