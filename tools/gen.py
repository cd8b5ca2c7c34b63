"""Writes properties.jsonl and MANIFEST.json from tools/props.py and specs/registry.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(R, "tools"), os.path.join(R, "specs")]
from props import PROPS, NA
from registry import REG
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["obs"], "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    if p["id"] in REG:
        i = REG[p["id"]][1]
        checks.append({"property": p["id"], "quick_cmd": "bash bin/check.sh %s quick" % p["id"],
                       "thorough_cmd": "bash bin/check.sh %s thorough" % p["id"],
                       "technique": i["technique"], "level": i["level"], "level_note": p["note"]})
have = {c["property"] for c in checks}
na = [{"property": p["id"], "reason": NA[p["id"]]} for p in PROPS if p["id"] not in have]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks,
     "hooks": {"guard": "none", "enable": "no hooks: the checks read the compiler's MIR of the unmodified crate", "source_commits": []},
     "not_applicable": na,
     "notes": "Static analysis only: driver/mirdump.rs (a rustc driver) dumps the type-checked MIR of /repo's current tree; vg/ analyses it; nothing of sci-rs is executed. See DESIGN.md."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not applicable")
