#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
def P(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = state
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
        why_tests_cant=why, anchors=a, _t=technique, _n=note))

L2 = "src/linestring_2d.rs"; HULL = "src/linestring_2d/convex_hull.rs"; SW = "src/linestring_2d/intersection.rs"
ISW = "src/linestring_2d/indexed_intersection.rs"; S2 = "src/linestring_2d/simplify.rs"; I2 = "src/linestring_2d/impls.rs"
L3 = "src/linestring_3d.rs"; S3 = "src/linestring_3d/simplify.rs"; I3 = "src/linestring_3d/impls.rs"; SH = "src/shape.rs"; LIB = "src/lib.rs"

exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick",
                 "thorough_cmd": f"bash check.sh {p['id']} thorough",
                 "technique": p["_t"], "level": "exploration", "level_note": p["_n"]} for p in PROPS],
     "not_applicable": [],
     "notes": "Every check is one binary of the crate in pbt/ (path dependency on /repo, rebuilt from /repo's working tree by check.sh). `bash check.sh <id> replay <file>` re-runs a shrunk counterexample without the generator. Findings: known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
