#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans and the property list."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        n = plans.NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + i + " thorough",
                           technique=n.get("technique", "TLA+ specification checked with TLC; exhaustive small-scope replay on the real containers with every recorded step validated by TLC against the specification"),
                           level="model_checking", level_note=n.get("note", plans.DEFAULT_NOTE)))
    else:
        na.append(dict(property=i, reason=plans.NOT_CLAIMED.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="FIXED_CONTAINERS_VERIF", enable="no hooks are needed: every observation goes through the public interface", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="TLA+ specs in specs/, harnesses in harness/ (compiled from /repo/include on every run), runner in tools/. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
