"""
Regenerate MANIFEST.json and known_findings.json from the checks, the repair
commits in /repo and the notes here. Run from /verif after adding a check.
"""
import importlib
import json
import subprocess
import sys
from pathlib import Path

sys.path[:0] = ["/repo", "/verif", "/verif/tools"]
from notes import FIXES, KNOWN, NOTES, NOT_APPLICABLE  # noqa: E402

PROPS = [json.loads(x)["id"] for x in open("properties.jsonl")]
checks = []
for p in PROPS:
    if not Path(f"vp/checks/{p.lower()}.py").exists():
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"bash run.sh check {p}",
        "thorough_cmd": f"VERIF_TIER=thorough bash run.sh check {p}",
        "technique": "property-based testing (Hypothesis): " + NOTES[p][0],
        "level": "exploration",
        "level_note": NOTES[p][1],
    })
claimed = {c["property"] for c in checks}
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")}
      for p in PROPS if p not in claimed]
Path("MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "bash run.sh setup", "checks": checks,
    "not_applicable": na}, indent=1) + "\n")

log = subprocess.run(
    ["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"],
    capture_output=True, text=True).stdout.splitlines()
fixed, unknown = [], []
for line in log:
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    hit = [(k, v) for k, v in FIXES.items() if k in s]
    if len(hit) != 1:
        unknown.append(line)
        continue
    prop, what = hit[0][1]
    fixed.append(f"fixed: property={prop} {h} {what}")
Path("known_findings.json").write_text(json.dumps(
    {"findings": KNOWN, "fixed": fixed}, indent=1) + "\n")
print(len(checks), "checks;", len(fixed), "fixes;", "unmapped:", unknown)
