"""
A common stock of PDS3 data objects of every major kind: generated as plain
descriptions, encoded independently of the code under test, and compared with
what was loaded.
"""
from __future__ import annotations

import numpy as np

from vp.common import get, st, warned
from vp.core import Violation, require
from vp.pds3 import NUMERIC, brief, pixels, same_values
from vp import tables as T

NAMES = {
    "image": ["IMAGE", "BROWSE_IMAGE", "ERROR_IMAGE", "RED_IMAGE"],
    "qube": ["QUBE", "SPECTRAL_QUBE"],
    "table": ["TABLE", "INDEX_TABLE", "ENGINEERING_TABLE", "SERIES",
              "POWER_SPECTRUM"],
    "ascii": ["OBS_TABLE", "TIME_SERIES", "CAL_TABLE"],
    "histogram": ["IMAGE_HISTOGRAM", "HISTOGRAM"],
    "array": ["ARRAY", "DATA_ARRAY"],
    "header": ["IMAGE_HEADER", "HEADER"],
}
KINDS = list(NAMES)


def numeric():
    return st.sampled_from([list(x) for x in NUMERIC])


@st.composite
def objects(draw, kinds=KINDS, max_objects=4, min_objects=1, small=False):
    """[{"kind", "name", ...}], names all different"""
    out, used = [], set()
    for _ in range(draw(st.integers(min_objects, max_objects))):
        kind = draw(st.sampled_from(kinds))
        free = [n for n in NAMES[kind] if n not in used]
        if not free:
            continue
        name = draw(st.sampled_from(free))
        used.add(name)
        out.append({"kind": kind, "name": name, **draw(BODY[kind]())})
    if len(out) < min_objects:
        out.append({"kind": "image", "name": "EXTRA_IMAGE",
                    **draw(BODY["image"]())})
    return out


@st.composite
def image(draw):
    t, w, dt = draw(numeric())
    return {"type": t, "bytes": w, "dtype": dt,
            "lines": draw(st.integers(1, 6)),
            "samples": draw(st.integers(1, 6)),
            "bands": draw(st.sampled_from([1, 1, 2, 3, 5])),
            "bst": draw(st.sampled_from(
                ["BAND_SEQUENTIAL", "LINE_INTERLEAVED",
                 "SAMPLE_INTERLEAVED"]))}


@st.composite
def qube(draw):
    t, w, dt = draw(numeric())
    return {"type": t, "bytes": w, "dtype": dt,
            "dims": [draw(st.integers(1, 4)) for _ in range(3)],
            "order": draw(st.sampled_from(
                [["SAMPLE", "LINE", "BAND"], ["SAMPLE", "BAND", "LINE"],
                 ["BAND", "SAMPLE", "LINE"]]))}


@st.composite
def table(draw):
    return {"t": draw(T.tables(max_rows=5, depth=1, max_fields=4))}


@st.composite
def ascii_table(draw):
    n = draw(st.integers(1, 6))
    cols = draw(st.lists(st.sampled_from(["int", "real", "text"]),
                         min_size=1, max_size=4))
    rows = []
    for _ in range(n):
        row = []
        for c in cols:
            if c == "int":
                row.append(draw(st.integers(-9999, 9999)))
            elif c == "real":
                row.append(draw(st.integers(-99999, 99999)) / 100)
            else:
                row.append(draw(st.text("ABCxyz", min_size=1, max_size=6)))
        rows.append(row)
    return {"cols": cols, "rows": rows, "commas": draw(st.booleans())}


@st.composite
def histogram(draw):
    t, w, dt = draw(numeric())
    return {"type": t, "bytes": w, "dtype": dt, "n": draw(st.integers(2, 12))}


@st.composite
def array(draw):
    t, w, dt = draw(numeric())
    return {"type": t, "bytes": w, "dtype": dt,
            "shape": draw(st.lists(st.integers(1, 4), min_size=1,
                                   max_size=3))}


@st.composite
def header(draw):
    return {"lines": draw(st.lists(
        st.text("ABCDEFxyz 0123456789=,.", max_size=30), min_size=1,
        max_size=6)), "eol": draw(st.sampled_from(["\r\n", "\n"]))}


BODY = {"image": image, "qube": qube, "table": table, "ascii": ascii_table,
        "histogram": histogram, "array": array, "header": header}


def tup(xs):
    return "(" + ", ".join(str(x) for x in xs) + ")"


W = 10


def build(o, seed, fill="bits"):
    """-> (payload, label block, expected)"""
    k = o["kind"]
    if k == "image":
        b = o["bands"]
        a = pixels(fill, seed, b * o["lines"] * o["samples"],
                   o["dtype"]).reshape(b, o["lines"], o["samples"])
        perm = {"BAND_SEQUENTIAL": (0, 1, 2), "LINE_INTERLEAVED": (1, 0, 2),
                "SAMPLE_INTERLEAVED": (1, 2, 0)}[o["bst"]]
        block = [["LINES", str(o["lines"])],
                 ["LINE_SAMPLES", str(o["samples"])],
                 ["SAMPLE_TYPE", o["type"]],
                 ["SAMPLE_BITS", str(o["bytes"] * 8)]]
        if b > 1:
            block += [["BANDS", str(b)], ["BAND_STORAGE_TYPE", o["bst"]]]
        return (np.ascontiguousarray(a.transpose(perm)).tobytes(), block,
                a if b > 1 else a[0])
    if k == "qube":
        a = pixels(fill, seed, int(np.prod(o["dims"])), o["dtype"]).reshape(
            o["dims"])
        ax = {"BAND": 0, "LINE": 1, "SAMPLE": 2}
        perm = [ax[x] for x in reversed(o["order"])]
        block = [["AXES", "3"], ["AXIS_NAME", tup(o["order"])],
                 ["CORE_ITEMS", tup(o["dims"][ax[x]] for x in o["order"])],
                 ["CORE_ITEM_BYTES", str(o["bytes"])],
                 ["CORE_ITEM_TYPE", o["type"]]]
        return (np.ascontiguousarray(a.transpose(perm)).tobytes(), block,
                a if o["dims"][0] > 1 else a[0])
    if k == "table":
        body, cols = T.encode(o["t"], seed, fill)
        return body.tobytes(), T.table_block(o["t"])[0], cols
    if k == "ascii":
        sep = "," if o["commas"] else " "
        text = "".join(sep.join(
            v.ljust(W) if c == "text" else str(v).rjust(W)
            for c, v in zip(o["cols"], row)) + "\r\n" for row in o["rows"])
        block = [["INTERCHANGE_FORMAT", "ASCII"],
                 ["ROWS", str(len(o["rows"]))],
                 ["COLUMNS", str(len(o["cols"]))],
                 ["ROW_BYTES", str((W + 1) * len(o["cols"]) + 1)]]
        for i, c in enumerate(o["cols"]):
            block.append(["OBJECT", "COLUMN", [
                ["NAME", f"C{i}"],
                ["DATA_TYPE", {"int": "ASCII_INTEGER", "real": "ASCII_REAL",
                               "text": "CHARACTER"}[c]],
                ["START_BYTE", str(i * (W + 1) + 1)], ["BYTES", str(W)]]])
        return text.encode(), block, [
            (f"C{i}", [r[i] for r in o["rows"]])
            for i in range(len(o["cols"]))]
    if k == "histogram":
        a = pixels(fill, seed, o["n"], o["dtype"])
        return a.tobytes(), [
            ["ITEMS", str(o["n"])], ["DATA_TYPE", o["type"]],
            ["ITEM_BYTES", str(o["bytes"])]], a
    if k == "array":
        n = int(np.prod(o["shape"]))
        a = pixels(fill, seed, n, o["dtype"]).reshape(o["shape"])
        axes = o["shape"]
        return a.tobytes(), [
            ["INTERCHANGE_FORMAT", "BINARY"], ["AXES", str(len(axes))],
            ["AXIS_ITEMS", tup(axes) if len(axes) > 1 else str(axes[0])],
            ["DATA_TYPE", o["type"]], ["BYTES", str(o["bytes"])]], a
    assert k == "header"
    text = "".join(x + o["eol"] for x in o["lines"])
    return text.encode(), [
        ["HEADER_TYPE", "TEXT"], ["BYTES", str(len(text))]
    ], text.replace("\r\n", "\n")


def size(o, seed):
    return len(build(o, seed)[0])


def check_value(o, got, want, note="", what=""):
    """raise Violation unless `got` is what was encoded"""
    k, name = o["kind"], what + o["name"]
    if k in ("image", "qube", "array"):
        if got.__class__.__name__ != "ndarray":
            raise Violation(f"{name} did not load: {str(got)[:100]} {note}")
        require(same_values(got, want), lambda: (
            f"{name}: got {brief(got)}, expected {brief(want)}"))
    elif k in ("table", "ascii"):
        d = T.diff_table(got, want)
        require(d is None, lambda: f"{name}: {d} {note}")
    elif k == "histogram":
        require(got.__class__.__name__ == "DataFrame",
                lambda: f"{name} did not load: {str(got)[:100]} {note}")
        require(got.shape == (1, len(want)),
                lambda: f"{name}: shape {got.shape}")
        row = np.array([got.iloc[0, i] for i in range(len(want))]).astype(
            got.iloc[:, 0].dtype)
        require(same_values(row, want), lambda: (
            f"{name}: got {brief(row)}, expected {brief(want)}"))
    else:
        require(got == want, lambda: f"{name}: {got!r} != {want!r} {note}")


def check(data, o, want, what=""):
    got = get(data, o["name"])
    check_value(o, got, want, warned(data), what)
    return got


def same_object(a, b):
    """exact equality of two loaded objects of whatever type"""
    if type(a).__name__ != type(b).__name__:
        return False
    n = type(a).__name__
    if n in ("ndarray", "MaskedArray"):
        return (same_values(np.ma.getdata(a), np.ma.getdata(b))
                and np.array_equal(np.ma.getmaskarray(a),
                                   np.ma.getmaskarray(b)))
    if n == "DataFrame":
        if list(a.columns) != list(b.columns) or a.shape != b.shape:
            return False
        return all(
            T.diff_column(a.iloc[:, i], list(b.iloc[:, i])) is None
            for i in range(a.shape[1]))
    return a == b
