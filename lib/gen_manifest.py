#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
from props import registry
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NA = {
    "C30": "The result of a whole pattern is a composition of all the constructs over an unbounded pattern language and subject; the per-construct obligations (C02-C10, C16-C18) are decided separately, but equality with an external reference engine for every pattern is a behavioural statement no structural argument here reaches. One known difference is recorded in DESIGN.md: an iteration of a repetition is not re-entered.",
    "C31": "Time and stack bounds quantify over runtime quantities (number of backtracking steps, frames chosen by the optimiser, subject length); no structural rule in reach bounds them.",
}
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": [], "not_applicable": []}
for i in ids:
    p = registry.PROPS.get(i)
    if p is None:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not built yet")})
        continue
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                        "technique": p.get("technique", "value-graph dataflow over compiler IR with opaque operands, compared with reference definitions"),
                        "level": p.get("level", "other"),
                        "level_note": p.get("level_note", "Decides the stated obligations for all values of the opaque operands; loops and recursion are expanded up to the bound listed in the evidence. Assumes: " + "; ".join(p["assumptions"]) + ".")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
