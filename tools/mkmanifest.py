#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = "TLA+ design model-checked with TLC; recorded runs of the real optimisers validated line by line against a total trace specification in TLC"
GEN = "; behaviours enumerated by TLC replayed on the real code"
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "harness", "checks", pid.lower() + ".py")):
        n = NOTES[pid]
        checks.append(dict(property=pid, quick_cmd="/opt/venv/bin/python check.py %s" % pid,
                           thorough_cmd="/opt/venv/bin/python check.py %s --thorough" % pid,
                           evidence_file="evidence/%s.json" % pid,
                           technique=n["technique"].replace("@HIST", HIST).replace("@GEN", GEN),
                           level="model_checking", level_note=n["note"]))
    else:
        na.append(dict(property=pid, reason="no check has been built for it yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks: the checks use the public API only", source_commits=[]),
         notes="The specification is TLA+, checked with TLC; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
