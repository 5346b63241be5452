"""
Core of the property-based checking framework: what a suite is, how one case is
executed, and how outcomes are told apart (held / violated / harness error).

A *suite* is a generator (Hypothesis strategy producing plain JSON-able case
descriptions), plus a function that executes one case against the real code and
raises if the property is broken. Cases are plain data so that a shrunk failure
can be written to a replay file and re-run without Hypothesis.
"""
from __future__ import annotations

import gc
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback
import warnings
from contextlib import contextmanager
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable

HYPOTHESIS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
REPO = Path(os.environ.get("VP_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent


def enable_hypothesis():
    """Hypothesis lives in the tooling venv; append it *after* the code's own
    venv, so that the code under test keeps its own numpy/pandas/etc."""
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append(HYPOTHESIS_SITE)
        import hypothesis  # noqa: F401


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(BaseException):
    """The harness (not the code under test) went wrong: an error exit."""


class Hang(BaseException):
    """One (small) case used an absurd amount of CPU time."""


class StopShrink(BaseException):
    """Escapes Hypothesis when the shrinking budget is used up."""


CASE_CPU_SECONDS = 60
"""cases normally take milliseconds; this is CPU time, not wall-clock time"""


@contextmanager
def cpu_limit(seconds):
    def on_alarm(*_):
        raise Hang

    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


@dataclass
class Suite:
    name: str
    strategy: Callable[[], Any]
    run: Callable[[Any, "Ctx"], None]
    quick: int = 200          # cases per run over all shards, quick tier
    thorough: int = 4000      # cases per run over all shards, thorough tier
    examples: Callable[[], list] = field(default=lambda: [])
    fresh_dir: bool = True


@dataclass
class Check:
    property: str
    rule: str
    suites: list[Suite]
    assumptions: list[str] = field(default_factory=list)
    level: str = "exploration"
    shards: int = 8


class Ctx:
    """Handed to each case: scratch directory, class counters, expectations."""

    def __init__(self, root: Path):
        self.root = root
        self.dir = root
        self.tags: list[str] = []
        self._nontrivial = False
        self.n = 0

    def begin(self, fresh: bool = True):
        self.tags, self._nontrivial = [], False
        self.n += 1
        if fresh:
            for p in self.root.iterdir():
                if p.is_dir() and not p.is_symlink():
                    shutil.rmtree(p, ignore_errors=True)
                else:
                    p.unlink(missing_ok=True)

    def tag(self, *names):
        self.tags.extend(str(n) for n in names)

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True

    @contextmanager
    def building(self):
        """Errors while *making* a case are the harness's fault."""
        try:
            yield
        except (Violation, StopShrink, HarnessError):
            raise
        except Exception as ex:
            if is_hypothesis_control(ex):
                raise
            raise HarnessError(
                "building a case failed:\n" + traceback.format_exc()
            ) from ex


def is_hypothesis_control(ex: BaseException) -> bool:
    return type(ex).__module__.startswith("hypothesis")


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def jdump(case) -> str:
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def case_hash(case) -> str:
    return hashlib.sha256(jdump(case).encode()).hexdigest()[:16]


def execute(suite: Suite, case, ctx: Ctx):
    """
    Run one case. Returns None if the property held, else a message. Harness
    problems raise HarnessError.
    """
    ctx.begin(suite.fresh_dir)
    case = json.loads(jdump(case))  # exactly what a replay file would hold
    if ctx.n % 50 == 0:
        gc.collect()
    try:
        with warnings.catch_warnings(), cpu_limit(CASE_CPU_SECONDS):
            warnings.simplefilter("ignore")
            suite.run(case, ctx)
    except (HarnessError, StopShrink, KeyboardInterrupt, SystemExit):
        raise
    except Hang:
        return f"did not terminate within {CASE_CPU_SECONDS} s of CPU time"
    except Violation as ex:
        return str(ex)
    except OSError as ex:
        if ex.errno in (28, 24, 23, 12):  # ENOSPC, EMFILE, ENFILE, ENOMEM
            raise HarnessError(f"environment: {ex}")
        return describe(ex)
    except Exception as ex:
        if is_hypothesis_control(ex):
            raise
        return describe(ex)
    return None


def describe(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    frames = [
        f"{Path(f.filename).name}:{f.lineno}:{f.name}" for f in tb[-6:]
    ]
    return f"unexpected {type(ex).__name__}: {ex} [{' > '.join(frames)}]"


@contextmanager
def scratch(prefix="vp-"):
    base = Path("/dev/shm") if os.access("/dev/shm", os.W_OK) else None
    d = Path(tempfile.mkdtemp(prefix=prefix, dir=base))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
