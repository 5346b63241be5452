"""
Regenerate DESIGN.md from tools/design_head.md, the properties, the checks,
the notes and the records of trials. Run: /opt/venv/bin/python tools/design.py
"""
import importlib
import json
import subprocess
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path[:0] = ["/repo", str(ROOT), str(ROOT / "tools")]
from vp import core  # noqa: E402

if hasattr(core, "enable_hypothesis"):
    core.enable_hypothesis()
from design_notes import DETAIL  # noqa: E402
from notes import KNOWN, NOTES, NOT_APPLICABLE  # noqa: E402

props = [json.loads(x) for x in open(ROOT / "properties.jsonl")]
found = json.load(open(ROOT / "known_findings.json"))
out = [(ROOT / "tools/design_head.md").read_text().rstrip(), "",
       "## Properties, one by one", ""]
catches = json.load(open(ROOT / "tools/catches.json"))
for p in props:
    pid = p["id"]
    out += [f"### {pid}: {p['title']}", "", p["statement"], ""]
    if pid in NOT_APPLICABLE:
        out += ["Not applicable: " + NOT_APPLICABLE[pid], ""]
        continue
    check = importlib.import_module(f"vp.checks.{pid.lower()}").CHECK
    out += [f"*Deciding method*: {NOTES[pid][0]}. *Bounds*: {NOTES[pid][1]}.",
            "", f"*Oracle and generator*: {DETAIL[pid]}", "",
            f"*Counted as non-trivial*: {check.rule}.", ""]
    suites = ", ".join(f"{s.name} {s.quick}/{s.thorough}"
                       for s in check.suites)
    ev = ROOT / f"evidence/{pid}.json"
    cost = ""
    rec = json.load(open(ROOT / "tools/costs.json")) if (
        ROOT / "tools/costs.json").exists() else {}
    if ev.exists():
        e = json.load(open(ev))
        if e["tier"] == "quick" and "wall_s" in e:
            rec[pid] = round(e["wall_s"])
            (ROOT / "tools/costs.json").write_text(
                json.dumps(rec, indent=1, sort_keys=True) + "\n")
    if pid in rec:
        cost = f"; a quick run takes about {max(rec[pid], 1)} s on 8 cores"
    out += [f"*Cases* (quick/thorough): {suites}{cost}.", ""]
    out += [f"*Why this reaches what tests cannot*: {p['why_tests_cant']}", ""]
    if check.assumptions:
        out += ["*Assumptions and exclusions*:", ""]
        out += [f"- {a}" for a in check.assumptions] + [""]
    fixed = [f for f in found["fixed"] if f"property={pid} " in f]
    known = [k for k in KNOWN if k["property"] == pid]
    if fixed:
        out += ["*Defects found and repaired*:", ""]
        out += ["- " + f.split(" ", 2)[2] for f in fixed] + [""]
    if known:
        out += ["*Known findings*:", ""]
        out += ["- " + k["what"] for k in known] + [""]

out += ["## Planted bugs and which checks catch them", "",
        "| bug | property | what it breaks | needs | caught by |",
        "|---|---|---|---|---|"]
for f in sorted((ROOT / "seeded").iterdir()):
    m = json.load(open(f / "meta.json"))
    got = catches.get(f.name, {})
    by = ", ".join(c for c, v in sorted(got.items()) if v) or (
        "not tried" if not got else "**missed**")
    out.append(f"| {f.name} | {m['property']} | {m['what_it_breaks']} | "
               f"{m['needs']} | {by} |".replace("\n", " "))
tail = ROOT / "tools/design_tail.md"
out += ["", tail.read_text().rstrip()]
(ROOT / "DESIGN.md").write_text("\n".join(out) + "\n")
