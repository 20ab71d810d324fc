"""Turns perl's data (gen_unicode.pl, Unicode 15.0) into data/unicode.txt: Unicode 14.0, the names the library knows.

kind TAB names TAB code points that have it TAB code points about which nothing is said: unassigned ones for which the standard gives
the property by default, and those changed between 14.0 and 15.0.
usage: perl lib/gen_unicode.pl | python3 lib/gen_unicode.py KNOWN > data/unicode.txt      KNOWN: lines "kind name" the library knows"""
import sys


def P(s): return set(c for r in s.split() for a, b in [r.split("-")] for c in range(int(a, 16), int(b, 16) + 1))


def R(s):
    out = []
    for c in sorted(s):
        if out and out[-1][1] == c - 1: out[-1][1] = c
        else: out.append([c, c])
    return " ".join("%X-%X" % tuple(r) for r in out)


known = set(l.strip() for l in open(sys.argv[1]))
rows = [(l.rstrip("\n").split("\t") + ["", ""])[:3] for l in sys.stdin if not l.startswith("#")]
new = next(P(r) for k, n, r in rows if k == "new")
cn = next(P(r) for k, n, r in rows if k == "gc" and n.startswith("cn,")) | new
nonchar = next(P(r) for k, n, r in rows if k == "binary" and n.startswith("nchar"))
# changed in 15.0: Other_Alphabetic and Other_Lowercase
changed = {"alpha": P("C04-C04 F82-F83 11080-11081"), "lower": P("10FC-10FC A7F2-A7F4 AB69-AB69"), "cased": P("10FC-10FC A7F2-A7F4 AB69-AB69")}
newblocks = P("13440-1345F")
ages = {}
for k, names, r in rows:
    ns = [n.replace("'", "") for n in names.split(",")]
    ns = [n for n in ns if n and "%s %s" % (k, n) in known]
    if k == "new" or not ns: continue
    yes, maybe = P(r), set()
    if k == "binary":
        if "nchar" not in ns: maybe = yes & cn
        for n in ns: maybe |= changed.get(n, set())
        yes -= maybe
    elif k == "gc":
        if ns[0] in ("c", "cn"): yes |= new
        else: yes -= new
    elif k in ("sc", "scx"): yes -= new
    elif k == "blk": yes -= newblocks
    elif k == "age":
        ages[ns[0]] = yes
        continue
    print("\t".join([k, ",".join(ns), R(yes), R(maybe)]))
for a in ages:
    up = set()
    for b in ages:
        if tuple(map(int, b.split("."))) <= tuple(map(int, a.split("."))): up |= ages[b]
    print("\t".join(["age", a, R(up - nonchar), R(up & nonchar)]))
print("\t".join(["binary", "any", "0-10FFFF", ""]))
print("\t".join(["binary", "ascii", "0-7F", ""]))
print("\t".join(["binary", "assigned", R(set(range(0x110000)) - cn), ""]))
