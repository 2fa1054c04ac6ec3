"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(ROOT, "bin", "manifest_data.py")).read())
checks = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in CHECKS:
        continue
    lvl, note = CHECKS[p]
    checks.append({
        "property": p,
        "quick_cmd": f"python3-vt bin/check.py {p}",
        "thorough_cmd": f"env VERIF_TIER=thorough python3-vt bin/check.py {p}",
        "technique": TECH[lvl],
        "level": lvl,
        "level_note": note,
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": NA, "notes": NOTES}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
