#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check a property; level proof where contracts/ID.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl", encoding="utf8")]
checks = []
for i in ids:
    proved = os.path.exists("%s/contracts/%s.py" % (V, i))
    if proved:
        note = None
        for l in open("%s/contracts/%s.py" % (V, i), encoding="utf8"):
            if l.startswith("NOTE = "): note = eval(l[7:])
        c = dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="env VERIF_TIER=thorough python3 check.py " + i,
                 technique="contract-based deductive verification (verification conditions generated from the source, SMT), bounded run-time check of the same contract for failing inputs",
                 level="proof", level_note=note or "Contracts on the real functions discharged by SMT; see DESIGN.md for what is trusted.")
    else:
        c = dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="env VERIF_TIER=thorough python3 check.py " + i,
                 technique="bounded stand-in: the property's contract is checked at run time on the real code over generated inputs",
                 level="exploration", level_note="Bounded: the real code is run on generated inputs against an independent oracle; nothing is proved.")
    checks.append(c)
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False); open(V + "/MANIFEST.json", "a").write("\n")
