#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from bin/props.py."""
import json, os
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def line(p):
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "hook_needed": None}
    if p.get("observe"):
        a["observe_at"] = p["observe"]
    assert len(p["title"]) <= 80, p["id"]
    return {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}


with open(V + "/properties.jsonl", "w") as f:
    for k in sorted(props.P):
        f.write(json.dumps(line(props.P[k])) + "\n")
    for p in props.NA:
        f.write(json.dumps(line(p)) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 bin/build.py",
    "checks": [
        {"property": k, "quick_cmd": "python3 bin/check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + k, "evidence_file": "evidence/%s.json" % k,
         "technique": p["technique"] or "deterministic simulation with fault injection", "level": p["level"], "level_note": p["note"] + " " + " ".join(["Assumes:"] + props.ASSUMPTIONS[1:2] + p["assumptions"])}
        for k, p in sorted(props.P.items())],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in props.NA],
    "notes": "No hooks in /repo: the library is compiled unmodified and the simulator takes the place of the kernel interface (threads, clocks, files, memory) at link time. See DESIGN.md.",
}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
