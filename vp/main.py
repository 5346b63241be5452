"""Driver: runs a property's check in shards, aggregates, writes evidence."""
from __future__ import annotations

import importlib
import json
import os
import subprocess
import sys
import time
import traceback
import zlib
from collections import Counter, deque
from pathlib import Path

from vp.core import (
    Check, Ctx, HarnessError, StopShrink, Violation, VERIF, REPO, case_hash,
    enable_hypothesis, execute, jdump, scratch
)

SHRINK_RUNS = 500
SHRINK_SECONDS = 45


def load_check(prop: str) -> Check:
    mod = importlib.import_module(f"vp.checks.{prop.lower()}")
    return mod.CHECK


def assert_code_under_test():
    import pdr

    got = Path(pdr.__file__).resolve().parent
    if got != (REPO / "pdr").resolve():
        raise HarnessError(f"pdr imported from {got}, not {REPO}")


# --------------------------------------------------------------------- worker
def run_suite(check, suite, n, seed, ctx, rec, stop_at):
    from hypothesis import HealthCheck, Phase, given, seed as hseed, settings

    st = rec["suites"].setdefault(
        suite.name, {"evaluations": 0, "nontrivial": 0, "tags": {}, "runs": 0}
    )
    tags = Counter(st["tags"])
    hashes = rec["_hashes"]
    history = deque(maxlen=40)
    fail = {"best": None, "msg": None, "runs": 0, "t0": None, "hist": None}

    def one(case, counting=True):
        history.append(case)
        msg = execute(suite, case, ctx)
        if counting and fail["best"] is None:
            st["evaluations"] += 1
            if ctx._nontrivial:
                h = case_hash(case)
                if (suite.name, h) not in hashes:
                    hashes.add((suite.name, h))
                    st["nontrivial"] += 1
                    if len(rec["samples"].setdefault(suite.name, [])) < 2:
                        s = jdump(case)
                        rec["samples"][suite.name].append(
                            s if len(s) < 3000 else s[:3000] + "..."
                        )
            tags.update(set(ctx.tags))
        if msg is not None:
            if fail["best"] is None:
                fail["t0"] = time.monotonic()
                fail["hist"] = list(history)
            if fail["best"] is None or len(jdump(case)) <= len(
                jdump(fail["best"])
            ):
                fail["best"], fail["msg"] = case, msg
        return msg

    def body(case):
        if time.monotonic() > stop_at and fail["best"] is None:
            rec["truncated"] = True
            raise StopShrink
        if fail["best"] is not None:
            fail["runs"] += 1
            if (
                fail["runs"] > SHRINK_RUNS
                or time.monotonic() - fail["t0"] > SHRINK_SECONDS
            ):
                raise StopShrink
        if one(case) is not None:
            raise Violation("property violated")

    def finish():
        st["tags"] = dict(tags)

    try:
        for i, case in enumerate(suite.examples()):
            if i % rec["nshards"] != rec["shard"]:
                continue
            if one(case) is not None:
                raise Violation("fixed case")
        test = settings(
            max_examples=max(1, n), database=None, deadline=None,
            phases=[Phase.generate, Phase.shrink],
            report_multiple_bugs=False, print_blob=False,
            suppress_health_check=[
                HealthCheck.too_slow, HealthCheck.data_too_large,
                HealthCheck.large_base_example,
            ],
        )(hseed(seed)(given(suite.strategy())(body)))
        if n > 0:
            test()
    except StopShrink:
        pass
    except Violation:
        pass
    except HarnessError:
        finish()
        raise
    except BaseException as ex:
        if fail["best"] is None:
            finish()
            if isinstance(ex, (KeyboardInterrupt, SystemExit)):
                raise
            raise HarnessError(
                f"suite {suite.name}: {type(ex).__name__}: {ex}\n"
                + traceback.format_exc()
            )
    finish()
    if fail["best"] is not None:
        again = execute(suite, fail["best"], ctx)
        rec["violations"].append({
            "suite": suite.name,
            "case": fail["best"],
            "message": fail["msg"],
            "reproduces_alone": again is not None,
            "history": None if again is not None else fail["hist"],
        })


def worker(prop, shard, nshards, tier, seed, out):
    enable_hypothesis()
    rec = {
        "shard": shard, "nshards": nshards, "suites": {}, "samples": {},
        "violations": [], "error": None, "truncated": False,
        "_hashes": set(),
    }
    limit = 400 if tier == "quick" else 3 * 3600
    limit = float(os.environ.get("VP_LIMIT", limit))
    stop_at = time.monotonic() + limit
    # (VP_SCALE: a multiple of the case counts given in the suites)
    scale = float(os.environ.get(
        "VP_SCALE", "2" if tier == "quick" else "1"))
    only = os.environ.get("VP_SUITE")
    try:
        import resource
        import warnings
        lim = 6 * 1024 ** 3
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        warnings.simplefilter("ignore")
        assert_code_under_test()
        check = load_check(prop)
        with scratch(f"vp-{prop}-") as d:
            (d / "cwd").mkdir()
            os.chdir(d / "cwd")  # anything written to "." stays in scratch
            (d / "work").mkdir()
            ctx = Ctx(d / "work")
            for suite in check.suites:
                if only and suite.name != only:
                    continue
                total = suite.quick if tier == "quick" else suite.thorough
                total = int(total * scale)
                n = total // nshards + (1 if shard < total % nshards else 0)
                s = zlib.crc32(f"{seed}|{suite.name}|{shard}".encode())
                run_suite(check, suite, n, s, ctx, rec, stop_at)
    except BaseException as ex:
        rec["error"] = f"{type(ex).__name__}: {ex}"
        if not isinstance(ex, HarnessError):
            rec["error"] += "\n" + traceback.format_exc()
    rec.pop("_hashes")
    Path(out).write_text(json.dumps(rec))


# --------------------------------------------------------------------- parent
def load_findings(prop):
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return [
        f for f in json.loads(p.read_text())["findings"]
        if f["property"] == prop
    ]


def run_findings(check, prop, ctx):
    """Probe each recorded (unrepaired) finding's specific input."""
    lines = []
    for f in load_findings(prop):
        if f.get("status") != "known":
            continue
        suite = {s.name: s for s in check.suites}[f["suite"]]
        msg = execute(suite, f["case"], ctx)
        if msg is None:
            lines.append(f"note: known finding {f['id']} no longer fails")
        else:
            lines.append(
                f"KNOWN-FINDING: property={prop} {f['id']}: {f['what']}"
            )
    return lines


def check_cmd(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    enable_hypothesis()
    assert_code_under_test()
    check = load_check(prop)
    nshards = int(os.environ.get("VP_SHARDS", check.shards))
    with scratch(f"vp-{prop}-main-") as d:
        procs = []
        for i in range(nshards):
            out = d / f"{i}.json"
            procs.append((out, subprocess.Popen(
                [sys.executable, "-W", "ignore", "-m", "vp.main", "worker",
                 prop, str(i), str(nshards), tier, str(seed), str(out)],
                stdout=subprocess.DEVNULL,
                stderr=open(d / f"{i}.err", "wb"),
            )))
        recs, errors = [], []
        hard = time.monotonic() + (840 if tier == "quick" else 4 * 3600)
        for out, p in procs:
            try:
                p.wait(max(1, hard - time.monotonic()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if not out.exists():
                err = (d / (out.stem + ".err")).read_text(errors="replace")
                errors.append(f"worker died rc={p.returncode}: {err[-1500:]}")
                continue
            recs.append(json.loads(out.read_text()))
        (d / "kf").mkdir()
        finding_lines = run_findings(check, prop, Ctx(d / "kf"))
    suites = {}
    for r in recs:
        if r["error"]:
            errors.append(r["error"])
        for k, v in r["suites"].items():
            s = suites.setdefault(
                k, {"evaluations": 0, "distinct_nontrivial": 0,
                    "classes": Counter()}
            )
            s["evaluations"] += v["evaluations"]
            s["distinct_nontrivial"] += v["nontrivial"]
            s["classes"].update(v["tags"])
    samples = []
    for s in check.suites:
        got = [x for r in recs for x in r["samples"].get(s.name, [])]
        got.sort(key=len)
        samples += [{"suite": s.name, "case": x}
                    for x in got[len(got) // 2:len(got) // 2 + 2]]
    violations = [v for r in recs for v in r["violations"]]
    for s in suites.values():
        s["classes"] = dict(sorted(s["classes"].items()))
    evidence = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in suites.values()),
            "distinct_nontrivial": sum(
                s["distinct_nontrivial"] for s in suites.values()
            ),
            "rule": check.rule,
            "samples": samples[:24],
            "suites": suites,
            "time_limited": any(r["truncated"] for r in recs),
            "harness_errors": len(errors),
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    ev = Path(os.environ.get("VP_EVIDENCE", VERIF / "evidence"))
    ev.mkdir(exist_ok=True)
    (ev / f"{prop}.json").write_text(json.dumps(evidence, indent=1) + "\n")
    for line in finding_lines:
        print(line)
    cov = evidence["coverage"]
    print(
        f"{prop}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} "
        f"distinct non-trivial, {evidence['wall_s']} s, seed {seed}, {tier}"
    )
    if violations:
        rd = Path(os.environ.get("VP_REPLAYS", VERIF / "replays"))
        rd.mkdir(exist_ok=True)
        seen = set()
        for v in sorted(violations, key=lambda v: len(jdump(v["case"]))):
            if v["suite"] in seen:
                continue
            seen.add(v["suite"])
            path = rd / f"{prop}-{v['suite']}-{case_hash(v['case'])}.json"
            path.write_text(json.dumps(
                {"property": prop, **v}, indent=1, sort_keys=True) + "\n")
            print(f"  {v['suite']}: {v['message'][:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print(f"HARNESS ERROR in {prop}:\n{errors[0]}", file=sys.stderr)
        return 2
    if cov["evaluations"] == 0:
        print("HARNESS ERROR: nothing was evaluated", file=sys.stderr)
        return 2
    return 0


def replay_cmd(path):
    enable_hypothesis()
    assert_code_under_test()
    r = json.loads(Path(path).read_text())
    check = load_check(r["property"])
    suite = {s.name: s for s in check.suites}[r["suite"]]
    with scratch("vp-replay-") as d:
        ctx = Ctx(d)
        cases = r.get("history") or [r["case"]]
        for case in cases:
            msg = execute(suite, case, ctx)
            if msg is not None:
                print(msg)
                print(f"VIOLATION property={r['property']} replay={path}")
                return 1
    print("held")
    return 0


def setup_cmd():
    enable_hypothesis()
    assert_code_under_test()
    import hypothesis, numpy, pandas  # noqa
    man = json.loads((VERIF / "MANIFEST.json").read_text())
    for c in man["checks"]:
        load_check(c["property"])
    (VERIF / "evidence").mkdir(exist_ok=True)
    print(f"ok: {len(man['checks'])} checks, hypothesis "
          f"{hypothesis.__version__}, numpy {numpy.__version__}, "
          f"pandas {pandas.__version__}")
    return 0


def main():
    a = sys.argv[1:]
    if a[0] == "worker":
        worker(a[1], int(a[2]), int(a[3]), a[4], int(a[5]), a[6])
        return 0
    if a[0] == "check":
        return check_cmd(a[1])
    if a[0] == "replay":
        return replay_cmd(a[1])
    if a[0] == "setup":
        return setup_cmd()
    raise SystemExit(2)


if __name__ == "__main__":
    try:
        rc = main()
    except HarnessError as ex:
        print(f"HARNESS ERROR: {ex}", file=sys.stderr)
        rc = 2
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
