"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, missing = [], []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        row = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(row) + "\n")
        if os.path.exists(os.path.join(ROOT, "mc", "checks", p["id"].lower() + ".py")):
            checks.append(
                {
                    "property": p["id"],
                    "quick_cmd": f"./run.sh {p['id']} --tier quick",
                    "thorough_cmd": f"./run.sh {p['id']} --tier thorough",
                    "evidence_file": f"evidence/{p['id']}.json",
                    "technique": "bounded exhaustive model checking of the real code against a reference model",
                    "level": p["level"],
                    "level_note": p["note"]
                    + " Exhaustive within the bounds written to the evidence file; nothing is sampled. Trusted: "
                    "numpy/scipy and the reference model in /verif/mc.",
                }
            )
        else:
            missing.append({"property": p["id"], "reason": "check not built yet"})
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo: all checks drive the public API of the unmodified package. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(missing), "missing")
