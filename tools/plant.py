"""Write the planted bugs described in tools/seeds/*.py to seeded/<id>/,
confirming each: it applies, the stable tests still pass, and its
demonstration passes without the change and fails with it.

usage: python3 tools/plant.py [id ...]
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
SEEDED = ROOT / "seeded"
HEADER = '''"""{what}"""
import os, sys, tempfile, warnings
from pathlib import Path
sys.path.insert(0, os.getcwd())
import numpy as np
import pandas as pd
import pdr
warnings.simplefilter("ignore")
D = Path(tempfile.mkdtemp())


def label(text, name="prod.lbl"):
    (D / name).write_bytes(text.strip().replace("\\n", "\\r\\n").encode() + b"\\r\\n")
    return D / name

'''
FOOTER = '''

if __name__ == "__main__":
    import shutil
    try:
        main()
    finally:
        shutil.rmtree(D)
    print("ok")
'''


def load():
    specs = {}
    for path in sorted((ROOT / "tools/seeds").glob("*.py")):
        env = {}
        exec(compile(path.read_text(), str(path), "exec"), env)
        for s in env["SEEDS"]:
            assert s["id"] not in specs, s["id"]
            specs[s["id"]] = s
    return specs


def tests(copy):
    out = copy.parent / "out.json"
    env = dict(os.environ, PYTHONPATH=str(copy), MPLBACKEND="Agg",
               PYTHONDONTWRITEBYTECODE="1", PATH="/opt/venv/bin:" + os.environ["PATH"])
    r = subprocess.run(
        ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-header",
         "-p", "no:cacheprovider", "--deselect", "pdr/tests/test_primary_desktop_image.py::test_animated_gif",
         "--deselect", "pdr/tests/test_primary_desktop_image.py::test_anigif",
         "pdr/tests"], cwd=copy, env=env, capture_output=True, text=True)
    return r.returncode, r.stdout[-600:]


def run_demo(folder, cwd):
    laid = Path(tempfile.mkdtemp())
    for p in folder.iterdir():
        if p.suffix not in (".diff", ".json"):
            shutil.copy(p, laid)
    env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    r = subprocess.run(["bash", str(laid / "demo.sh")], cwd=cwd, env=env,
                       capture_output=True, text=True, timeout=300)
    shutil.rmtree(laid)
    return r.returncode, (r.stdout + r.stderr)[-500:]


def plant(spec):
    work = Path(tempfile.mkdtemp(prefix="plant"))
    try:
        copy = work / "repo"
        subprocess.run(["git", "clone", "-q", "/repo", str(copy)], check=True)
        for edit in spec["edits"]:
            path = copy / edit[0]
            text = path.read_text()
            assert text.count(edit[1]) == 1, (spec["id"], text.count(edit[1]), edit[1])
            path.write_text(text.replace(edit[1], edit[2]))
        diff = subprocess.run(["git", "-C", str(copy), "diff"], capture_output=True, text=True).stdout
        assert diff
        folder = SEEDED / spec["id"]
        if folder.exists():
            shutil.rmtree(folder)
        folder.mkdir(parents=True)
        (folder / "patch.diff").write_text(diff)
        (folder / "demo.py").write_text(HEADER.format(what=spec["what"]) + spec["demo"].strip("\n") + "\n" + FOOTER)
        (folder / "demo.sh").write_text('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (folder / "meta.json").write_text(json.dumps({
            "property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what"]}, indent=1) + "\n")
        problems = []
        rc, out = tests(copy)
        if rc:
            problems.append("tests fail: " + out)
        rc, out = run_demo(folder, copy)
        if rc == 0:
            problems.append("demo passes with the change")
        bad = out
        rc, out = run_demo(folder, "/repo")
        if rc:
            problems.append("demo fails without the change: " + out)
        last = bad.strip().splitlines()[-1] if bad.strip() else ""
        return spec["id"], problems, last
    finally:
        shutil.rmtree(work)


def main():
    specs = load()
    chosen = sys.argv[1:] or [s for s in specs if not (SEEDED / s).exists()]
    with ThreadPoolExecutor(6) as pool:
        for name, problems, last in pool.map(plant, [specs[c] for c in chosen]):
            print(name, "OK" if not problems else "BAD " + " | ".join(problems), "::", last)


if __name__ == "__main__":
    main()
