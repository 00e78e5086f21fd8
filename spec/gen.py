#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "spec"))
from props import PROPS, NA
rows = []
checks, na = [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    rows.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None},
    })
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash check.sh %s quick" % p["id"],
        "thorough_cmd": "bash check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "deterministic simulation with fault injection: " + p["tech"],
        "level": "exploration",
        "level_note": p["note"],
    })
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for r in rows:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are committed in /repo: every seam (scheduler, channels, sync, time, net, os files, randomness, logging) is inserted by the source instrumentor in tools/instr into a scratch copy built from /repo's working tree. Runner subcommands: check, one, replay, shrink, det (determinism self-test).",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
