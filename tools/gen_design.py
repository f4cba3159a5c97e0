#!/usr/bin/env python3-vt
"""Writes /verif/DESIGN.md from tools/design.md: the entry of each property comes from its contracts and its oracle."""
import json, os, sys, re, importlib, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, "/repo/src"]
P = [json.loads(l) for l in open(V + "/properties.jsonl", encoding="utf8")]
out = []
for p in P:
    i = p["id"]; rule = importlib.import_module("oracles." + i).RULE
    out.append("### %s %s\n" % (i, p["title"]))
    if os.path.exists("%s/contracts/%s.py" % (V, i)):
        m = importlib.import_module("contracts." + i)
        out.append("*Proved.* %s.\n" % (m.NOTE[0].upper() + m.NOTE[1:]))
        out.append("Under contract (proofs): %s.\n" % ", ".join(x.name for x in m.PROOFS))
        ass = [a for a in getattr(m, "ASSUMPTIONS", []) if a not in importlib.import_module("contracts.graphs").ASSUME_BASE]
        tr = [a for a in getattr(m, "TRUSTED", []) if a not in importlib.import_module("contracts.graphs").TRUSTED_BASE]
        if ass + tr: out.append("Beyond the assumptions of section 2: %s.\n" % "; ".join(ass + tr))
        if getattr(m, "NOT_PROVED", None): out.append("Left to the bounded check: %s.\n" % m.NOT_PROVED)
    else:
        why = {"C10": "Tarjan's proof needs the stack and low-link argument of a depth first search whose visitor changes the colours' meaning; not within reach in the time given",
            "C18": "the parser is driven by generators and character tables; an expression language would have to be modelled beside it",
            "C29": "text production with string formatting and regular expressions, outside of the generator's string theory"}.get(i, "no deductive proof was completed in the time given")
        out.append("*Bounded stand-in, nothing proved*: %s.\n" % why)
    out.append("Bounded check: %s.\n" % rule)
seeds = ["| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); nm = f.split("/")[-2]
    seeds.append("| %s | %s | %s | %s: bounded check with a failing input%s |" % (nm, d["what_it_breaks"], d["needs"], d["property"], " and undischarged obligation" if os.path.exists("%s/contracts/%s.py" % (V, d["property"])) else ""))
s = open(V + "/tools/design.md", encoding="utf8").read().replace("@@TABLE@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds))
open(V + "/DESIGN.md", "w", encoding="utf8").write(s)
