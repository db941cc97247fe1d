#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and harness/evmx/src/bounds.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here); sys.dont_write_bytecode = True
import props
with open(f"{root}/properties.jsonl", "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "observe_at": list(p["observe"]), "hook_needed": p["hook"]}}) + "\n")
json.dump({p["id"]: p["bounds"] for p in props.PROPS}, open(f"{root}/harness/evmx/src/bounds.json", "w"), indent=1)
m = {"version": 1, "setup_cmd": "bash checks/setup.sh",
     "hooks": getattr(props, "HOOKS", {"guard": "none", "enable": "none needed", "source_commits": []}),
     "checks": [{"property": p["id"], "quick_cmd": f"bash checks/run.sh {p['id']} quick",
                 "thorough_cmd": f"bash checks/run.sh {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
                 "level": "model_checking", "level_note": p["note"] or "bounded: " + p["bounds"]} for p in props.PROPS],
     "not_applicable": getattr(props, "NA", []), "notes": getattr(props, "NOTES", "See DESIGN.md.")}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1); open(f"{root}/MANIFEST.json", "a").write("\n")
