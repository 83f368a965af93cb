"""Writes properties.jsonl and MANIFEST.json from tools/table.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from table import PROPS, NA
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
na = dict(NA)
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    assert os.path.exists(V + "/props/%s.py" % p["id"].lower()), p["id"]
    c = "python3-vt -m vc.check " + p["id"]
    checks.append({"property": p["id"], "quick_cmd": c, "thorough_cmd": "VERIF_TIER=thorough " + c,
                   "technique": p.get("technique", "contract-based deductive verification (weakest-precondition "
                                      "obligations from clang's AST of /repo, discharged by z3 and cvc5)"),
                   "level": p.get("level", "proof"), "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3-vt -m vc.setup", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA],
           "notes": "No hooks in /repo: the verifier reads the sources as they are. See DESIGN.md."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "claimed")
