#!/usr/bin/env python3
"""meta.py -> properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from meta import P, NA
import glob
TRUST = ("Trusts clang's front end, LLVM's SSA construction and simplification, the analysis engine and the "
         "Abseil stand-in headers under shim/ (the pinned tree needs a newer Abseil than the image has). ")
TECH = "static analysis: path-sensitive dataflow/typestate rules over LLVM SSA of the current sources"
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P + NA:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
m = {"version": 1, "setup_cmd": "python3 engine/build.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                 "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                 "technique": p.get("tech", TECH), "level": "other",
                 "level_note": p["note"] + " " + TRUST} for p in P],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": "See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
import re
d = os.path.join(H, "DESIGN.md")
s = open(d).read()
out = []
for p in P:
    out.append("### %s %s\n\n%s\n\n*How decided.* %s\n\n*Bounds and assumptions.* %s\n" % (p["id"], p["title"], p["statement"], p["how"], p["note"]))
out.append("### Not applicable\n")
for p in NA:
    out.append("- **%s %s.** %s\n" % (p["id"], p["title"], p["reason"]))
cat = []
for mj in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    j = json.load(open(mj))
    cat.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(mj)), j["property"], j["what_it_breaks"], j.get("caught", "?")))
s = re.sub(r"(<!-- props -->).*?(<!-- /props -->)", lambda m: m.group(1) + "\n\n" + "\n".join(out) + "\n" + m.group(2), s, flags=re.S)
s = re.sub(r"(<!-- seeded -->).*?(<!-- /seeded -->)", lambda m: m.group(1) + "\n\n| change | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(cat) + "\n\n" + m.group(2), s, flags=re.S)
open(d, "w").write(s)
