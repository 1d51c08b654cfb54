#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (keeps the two in step)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p.get("observe", []),
                "hook_needed": None,
            },
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash run.sh build",
    "hooks": {"guard": "none", "enable": "nothing to enable: the checks only use the public API of /repo's crates", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash run.sh {p['id']} quick",
        "thorough_cmd": f"bash run.sh {p['id']} thorough",
        "technique": p["tech"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in PROPS if not p.get("na")],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p.get("na")],
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(root, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("schemas ok")
except ImportError:
    pass
