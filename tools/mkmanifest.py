#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Exhaustive on the TLA+ machine within the constants of spec/{mods}; the real code is bound by trace validation: every "
        "script TLC generates and seeded random ones are executed and each observation must be the machine's. Beyond those inputs "
        "the code is sampled. Trusts TLC, libxml2, the harness's projection and the stand-in crates (DESIGN.md).")
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="specification and conformance check not built yet"))
        continue
    mods = sorted({u["trace"] for u in c["units"]} | {u["mc"] for u in c["units"] if "mc" in u})
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}",
                       thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
                       technique=c.get("technique", "TLA+ specification checked with TLC, bound by trace validation and replay"),
                       level="model_checking", level_note=c.get("note") or NOTE.format(mods=", ".join(mods))))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="cargo feature vp_hooks", enable="harness/full depends on harness/llamapun with features = [vp_hooks]",
                    source_commits=["66480dbbcf085e5a169b4daf3b3d66fb65324a41"]), checks=checks, not_applicable=na,
         notes="See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
