"""Run checks against planted bugs, each in a scratch clone of /repo.

usage: python3 tools/trial.py [ID[:CHECK[,CHECK]] ...]   (default: every planted bug, its own check)
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent


def trial(arg):
    name, _, checks = arg.partition(":")
    folder = ROOT / "seeded" / name
    checks = checks.split(",") if checks else [json.load(open(folder / "meta.json"))["property"]]
    work = Path(tempfile.mkdtemp(prefix="trial"))
    try:
        subprocess.run(["git", "clone", "-q", "/repo", str(work / "repo")], check=True)
        subprocess.run(["git", "-C", str(work / "repo"), "apply", str(folder / "patch.diff")], check=True)
        out = []
        for c in checks:
            env = dict(os.environ, VP_REPO=str(work / "repo"), VP_EVIDENCE=str(work / "ev"), VP_REPLAYS=str(work / "rp"))
            r = subprocess.run(["bash", "run.sh", "check", c], cwd=ROOT, env=env, capture_output=True, text=True)
            first = next((l for l in r.stdout.splitlines() if l.startswith("VIOLATION")), "")
            why = ""
            for p in sorted((work / "rp").rglob("*.json")):
                why = json.load(open(p)).get("message", "")[:200].replace("\n", " ")
                break
            out.append(f"{c}: {'CAUGHT' if r.returncode == 1 and first else 'missed rc=%d' % r.returncode} {why}")
        return name, out
    finally:
        shutil.rmtree(work)


names = sys.argv[1:] or sorted(p.name for p in (ROOT / "seeded").iterdir())
with ThreadPoolExecutor(2) as pool:
    for name, out in pool.map(trial, names):
        print(name, *out, sep="\n    ", flush=True)
        record = ROOT / "tools" / "catches.json"
        known = json.load(open(record)) if record.exists() else {}
        for line in out:
            known.setdefault(name, {})[line.split(":")[0]] = "CAUGHT" in line
        record.write_text(json.dumps(known, indent=1, sort_keys=True) + "\n")
