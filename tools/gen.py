#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
claimed = set(f.split("_")[0] for f in os.listdir(os.path.join(V, "cv", "rules")) if f.startswith("C")) \
    if os.path.isdir(os.path.join(V, "cv", "rules")) else set()
with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for p in props.P:
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mechanism"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
    for id, title, st, over, why, files in props.NA:
        o.write(json.dumps({
            "id": id, "title": title, "statement": st,
            "quantifier": {"over": over, "text": "all inputs and histories"},
            "why_tests_cant": "Holds for all inputs; tests sample a few.",
            "anchors": {"files": files, "mechanism": []}}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props.P:
    if p["id"] in claimed and not p["na"]:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check %s" % p["id"],
                            "thorough_cmd": "./check %s --thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": p["technique"], "level": "other", "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "check under construction"})
for id, title, st, over, why, files in props.NA:
    m["not_applicable"].append({"property": id, "reason": why})
m["notes"] = "Static analysis only: /verif/extract (Clang fact extractor) and /verif/cv (dataflow engine and rules) read /repo's current sources on every run; nothing of /repo is executed. No hooks in /repo."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
