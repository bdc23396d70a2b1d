#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json out of mon/spec.py."""
import importlib.util
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("spec", os.path.join(VERIF, "mon", "spec.py"))
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
SPEC = mod.SPEC

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for pid, p in SPEC.items():
        assert len(p["title"]) <= 80, pid
        anchors = {
            "files": p["files"],
            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
        }
        if p["state"]:
            anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        anchors["hook_needed"] = None
        f.write(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": anchors}, ensure_ascii=False) + "\n")

PY = "/opt/venv/bin/python"
manifest = {
    "version": 1,
    "setup_cmd": f"{PY} -c \"import sys; assert hasattr(sys, 'monitoring')\"",
    "checks": [{
        "property": pid,
        "quick_cmd": f"{PY} check.py {pid}",
        "thorough_cmd": f"{PY} check.py {pid} --thorough",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"] + " Trusts the oracle in mon/ and CPython's sys.monitoring events.",
    } for pid, p in SPEC.items()],
    "not_applicable": [],
    "notes": "Pure Python: nothing to build; every check imports the package from /repo's working "
             "tree, under interpreter-event monitoring. No hooks were added to /repo. "
             "`check.py <ID> --replay <file>` replays a shrunk violation.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
