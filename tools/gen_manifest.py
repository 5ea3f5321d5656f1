#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, checks.json and na.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
checks = json.load(open(V + "/checks.json"))
na = json.load(open(V + "/na.json"))
TECH = {
    "intsym": "symbolic execution of the compiled walnut sources over polynomial integers, branches and assertions decided by z3 (nonlinear real arithmetic)",
    "irsym": "symbolic execution of the LLVM IR of the walnut sources over linear integer terms (machine words modulo 2^N, products as bounded variables), branches and assertions decided by z3 and cvc5",
}
NOTE = {
    "intsym": "All paths of the listed harnesses explored; every input integer is unbounded, polygon/mesh shapes are bounded as listed in the evidence. Trusts g++, z3 and the polynomial BigInt stand-in (BigInt itself is C01-C05); candidates are confirmed on the real code.",
    "irsym": "Bounded: operand word counts as listed in the evidence. Trusts clang, z3, cvc5 and the IR executor; candidates are confirmed on the real code.",
}
out = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[], notes="See DESIGN.md.")
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        eng = [e for e in ("irsym", "intsym") if e in c]
        out["checks"].append(dict(
            property=i,
            quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="; ".join(TECH[e] for e in eng),
            level=c.get("level", "model_checking"),
            level_note=c.get("level_note", " ".join(NOTE[e] for e in eng))))
    else:
        out["not_applicable"].append(dict(property=i, reason=na.get(i, "no check built yet; see DESIGN.md")))
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
