"""Writes MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "TLA+ specification model-checked with TLC; TLC-generated behaviours replayed on, and recorded traces of, the real code validated against it"
NOTE = {
 "C01 C02 C03 C04": "exhaustive over the bounded model (MCArray: laws on every transition), sampled conformance of the real code to ArraySpec on TLC-generated and seeded random operation sequences; trusts TLC, the projection of arrays and exact rational reconstruction of floats",
}
BUILT = json.load(open(os.path.join(R, "tools", "built.json")))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
notes = {}
for k, v in NOTE.items():
    for p in k.split():
        notes[p] = v
checks, na = [], []
for p in props:
    i = p["id"]
    if i in BUILT:
        checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
                           technique=T, level="model_checking", evidence_file="evidence/%s.json" % i,
                           level_note=BUILT[i] or notes.get(i, "")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="true", hooks=dict(guard="none", enable="no hooks were needed: the public API is observed directly", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="All checks: ./check.sh <id> [quick|thorough]; see DESIGN.md.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
