"""Shared helpers for checks: calling pdr, shared strategies."""
from __future__ import annotations

import warnings

from vp.core import Violation, enable_hypothesis

enable_hypothesis()
from hypothesis import strategies as st  # noqa: E402


def read(path, **kwargs):
    import pdr

    return pdr.read(str(path), **kwargs)


def get(data, name):
    """data[name], with anything that pdr warned about kept for the message"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        obj = data[name]
    data.__dict__.setdefault("_vp_warnings", []).extend(
        str(x.message) for x in w
    )
    return obj


def warned(data):
    return " | ".join(data.__dict__.get("_vp_warnings", []))[:300]


def seeds():
    return st.integers(0, 2 ** 32 - 1)


def fills():
    return st.sampled_from(["ramp", "bits", "bits", "edge"])


def expect_array(data, name, want, what=""):
    from vp.pds3 import brief, same_values

    got = get(data, name)
    if got.__class__.__name__ != "ndarray":
        raise Violation(
            f"{what}{name} did not load as an array: {type(got).__name__} "
            f"{str(got)[:120]} ({warned(data)})"
        )
    if not same_values(got, want):
        raise Violation(
            f"{what}{name}: got {brief(got)}, expected {brief(want)}"
            f" ({warned(data)})"
        )
    return got


@st.composite
def big(draw, cases, *changes):
    """a case made large in one of several ways

    Each change takes draw and the case, and alters it in place: sizes that
    everyday products have and small examples do not (a compressed file of
    several MB, more rows than 16 bits count, a line past the 50th).
    """
    case = draw(cases())
    changes[draw(st.integers(0, len(changes) - 1))](draw, case)
    return case


def far(draw, case):
    case.update(gap=draw(st.integers(20000, 70000)))


def followed(draw, case):
    case.update(trailer=draw(st.integers(1, 3)) * 2 ** 20 + 17)
