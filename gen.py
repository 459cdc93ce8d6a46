"""Writes properties.jsonl and MANIFEST.json from table.py (run after editing the table)."""
import json, sys
from pathlib import Path
here = Path(__file__).resolve().parent
sys.path.insert(0, str(here))
import table

lines, checks = [], []
for p in table.PROPS:
    assert len(p["title"]) <= 80, p["id"]
    lines.append(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}))
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"],
                   "level_note": p["note"]})
(here / "properties.jsonl").write_text("\n".join(lines + [json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) for p in table.NOT_CLAIMED]) + "\n")
(here / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "./setup.sh", "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in table.NOT_CLAIMED],
    "notes": table.NOTES}, indent=1) + "\n")
print(len(checks), "claimed;", len(table.NOT_CLAIMED), "not claimed")
