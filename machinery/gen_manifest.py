"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
import os

from props import PROPS, NOT_APPLICABLE

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    c = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"python3 check.py {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": c.get("technique", "contract-based deductive verification: full-domain contracts on the crate's functions, discharged by Kani/CBMC"),
        "level": c.get("level", "proof"),
        "level_note": c["note"],
    })
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "machinery not built yet")} for i in ids if i not in PROPS]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {
        "guard": "cfg(kani)",
        "enable": "set by `cargo kani` itself; it only replaces the transmuted TryFromIntError constructor, which Kani's toolchain cannot compile",
        "source_commits": ["8e424ac"],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. KNOWN_FINDINGS.jsonl lists the defects repaired in /repo.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
