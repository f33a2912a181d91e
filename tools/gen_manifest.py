#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
notes = json.loads((V / "tools" / "levels.json").read_text())
checks, na = [], []
for p in props:
    n = notes.get(p["id"])
    if n is None:
        na.append({"property": p["id"], "reason": "No check registered yet (work in progress)."})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash run_check.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough bash run_check.sh {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": n["technique"],
        "level": "model_checking",
        "level_note": n["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks explore the real code by bounded exhaustive enumeration; see DESIGN.md. "
             "No hooks in /repo: randomness is controlled by a patched copy of the rand crate in shims/rand.",
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "unclaimed")
