"""C38: PDS4 table fields that are scaled or uniformly sampled."""
import math

import numpy as np
import pandas as pd

from vp.core import Check, Suite, require
from vp.common import get, read, seeds, st, warned
from vp import pds4 as P
from vp.checks import c23

NUMBERS = [*P.REAL, "ASCII_Integer", "ASCII_NonNegative_Integer",
           "ASCII_Real"]
SAMPLED = ["wavelength", "Time Offset", "x (sampled)"]


def texts(whole, low=-99999, high=99999):
    if whole:
        return st.integers(low, high).map(str)
    return st.floats(low, high, allow_nan=False, width=32).map(
        lambda x: repr(round(x, 3)))


@st.composite
def sampled(draw, name, n):
    """a field given by its first value and interval"""
    scale = draw(st.sampled_from([None, "Linear", "Linear", "Logarithmic",
                                  "Exponential"]))
    u = {"name": name, "scale": scale}
    if scale in (None, "Linear"):
        whole = draw(st.booleans())
        u["first"] = draw(texts(whole))
        u["interval"] = draw(texts(whole, -999, 999))
        last = float(u["first"]) + (n - 1) * float(u["interval"])
    elif scale == "Logarithmic":
        # x1 * (xn / x1) ** ((j - 1) / (n - 1))
        u["first"] = repr(draw(st.integers(1, 400)) / 8)
        u["interval"] = repr(draw(st.integers(1, 40)) / 10)
        last = float(u["first"]) * float(u["interval"]) ** (n - 1)
    else:
        # log_b(b ** x1 + (j - 1) * (b ** xn - b ** x1) / (n - 1))
        b = draw(st.sampled_from([2, 3, 10, 1.5]))
        first = draw(st.integers(0, 12)) / 4
        step = draw(st.integers(0, 50)) / 8
        u |= {"base": str(b), "first": repr(first), "interval": repr(step)}
        last = math.log(b ** first + (n - 1) * step, b)
    u["last"] = repr(last)
    return u


def series(u, n):
    first, step = float(u["first"]), float(u["interval"])
    if u["scale"] == "Logarithmic":
        return [first * step ** j for j in range(n)]
    if u["scale"] == "Exponential":
        b = float(u["base"])
        return [math.log(b ** first + j * step, b) for j in range(n)]
    return [first + j * step for j in range(n)]


def cases(form):
    @st.composite
    def make(draw):
        t = draw(P.tables(form))
        for f, _ in P.flatten(t["nodes"]):
            if draw(st.integers(0, 2)) == 0:
                f["type"] = draw(st.sampled_from(
                    [x for x in NUMBERS
                     if form == "binary" or x.startswith("ASCII")]))
                if f["type"] in P.BINARY:
                    f["bytes"] = np.dtype(P.BINARY[f["type"]]).itemsize
            if f["type"] not in NUMBERS:
                continue
            how = draw(st.sampled_from(["none", "any", "any", "whole"]))
            if how != "none":
                fs, os_ = ((c23.FACTORS, c23.OFFSETS) if how == "any" else
                           (c23.WHOLE_FACTORS, c23.WHOLE_OFFSETS))
                pick = draw(st.sampled_from(["s", "o", "so", "so"]))
                f["scale"] = draw(st.sampled_from(fs)) if "s" in pick else None
                f["add"] = draw(st.sampled_from(os_)) if "o" in pick else None
            names = draw(st.sampled_from([0, 0, 1, 2]))
            real = f["type"].startswith("IEEE") or f["type"] == "ASCII_Real"
            f["consts"] = [[draw(st.sampled_from(c23.NAMES[i::3])), draw(
                st.sampled_from(c23.INTS + (c23.REALS if real else [])))]
                for i in range(names)]
        n = t["records"]
        k = draw(st.sampled_from([0, 0, 1, 2]))
        t["sampled"] = [draw(sampled(SAMPLED[i], n)) for i in range(k)]
        return {"table": t, "sprinkle": draw(st.sampled_from([0.0, 0.3, 0.3, 1.0])),
                "again": draw(st.booleans()), "gap": draw(st.sampled_from([0, 5])),
                "seed": draw(seeds())}
    return make


def sprinkle(t, share, seed):
    """put special constants in place of some values"""
    rng = np.random.default_rng(seed + 7)
    for f, _ in P.flatten(t["nodes"]):
        options = []
        for name, text in f.get("consts") or ():
            v = c23.number(text)
            if f["type"] in P.BINARY:
                dt = np.dtype(P.BINARY[f["type"]])
                if dt.kind in "iu":
                    if not np.iinfo(dt).min <= v <= np.iinfo(dt).max:
                        continue
                with np.errstate(all="ignore"):
                    a = np.array([v]).astype(dt)
                if dt.kind == "f" and float(a[0]) != float(v):
                    continue
                options.append((a.tobytes(), a[0]))
            elif t["form"] == "delimited" or len(text) <= f["bytes"]:
                if f["type"] == "ASCII_NonNegative_Integer" and (
                        not text.isdigit()):
                    continue
                if f["type"] == "ASCII_Integer" and not -2**63 <= v < 2**63:
                    continue  # PDS4 does not allow these
                options.append((text, float(v) if f["type"] == "ASCII_Real"
                                else v))
        if options:
            f["cells"] = [options[rng.integers(0, len(options))]
                          if rng.random() < share else c for c in f["cells"]]


def number(v):
    return v.item() if hasattr(v, "item") else v


def right(g, v):
    """is `g` the stored value `v`?"""
    if v is None:
        return g is None or bool(pd.isna(g))
    if g is pd.NA:
        return False
    g, v = number(g), number(v)
    if isinstance(g, (str, bytes)):
        return False
    return g == v or (v != v and g != g)


def run(case, ctx):
    t, seed = case["table"], case["seed"]
    with ctx.building():
        P.fill_cells(t, seed)
        sprinkle(t, case["sprinkle"], seed)
        body, rec = P.table_body(t, seed)
        blob, (at,) = P.lay_out([(case["gap"], body)], seed, 3)
        node = P.table(t, ["id", "main"], at, len(body), rec)
        label = P.write(ctx.dir, P.product([("t.dat", [node])]),
                        {"t.dat": blob})
    fields = P.flatten(t["nodes"])
    scaled = any(f.get("scale") or f.get("add") for f, _ in fields)
    ctx.tag(*["scaled"] * scaled,
            *{str(u["scale"]) for u in t["sampled"]})
    ctx.nontrivial(scaled or t["sampled"])
    data = read(label)
    if case["again"]:
        get(data, "main")
        data.load("main", reload=True)
    df = get(data, "main")
    require(type(df).__name__ == "DataFrame", lambda: (
        f"loaded as {type(df).__name__} ({warned(data)})"))
    n = t["records"]
    for u in t["sampled"]:
        cols = [i for i, c in enumerate(df.columns) if u["name"] == str(c)]
        require(len(cols) == 1, lambda: (
            f"columns {list(df.columns)}: no {u['name']!r}"))
        got, want = [float(x) for x in df.iloc[:, cols[0]]], series(u, n)
        require(len(got) == n and all(
            abs(a - b) <= 1e-9 * max(abs(x) for x in want + [
                float(u["interval"]) * n, 1e-3]) for a, b in zip(got, want)),
            lambda: f"{u}: {got} != {want}")
    rest = df.iloc[:, [i for i, c in enumerate(df.columns)
                       if str(c) not in SAMPLED]]
    columns = []
    for f, reps in fields:
        k = int(np.prod(reps, dtype=int))
        vals = [v for _, v in f["cells"]]
        columns += [(f, vals[r::k]) for r in range(k)]
    require(rest.shape == (n, len(columns)), lambda: (
        f"shape {rest.shape}, expected {(n, len(columns))}"))
    for i, (f, vals) in enumerate(columns):
        col = rest.iloc[:, i]
        require(f["name"] in str(rest.columns[i]),
                lambda: f"column {i} is named {rest.columns[i]!r}")
        for r, v in enumerate(vals):
            g = col.iloc[r]
            ok = (right(g, v) if f["type"] in NUMBERS
                  else not P.diff_cell(g, v, f["type"]))
            require(ok, lambda: (
                f"column {i} ({f['name']}, {f['type']}), row {r}: {g!r} "
                f"({col.dtype}) from {v!r}: x {f.get('scale')} + "
                f"{f.get('add')}, constants {f.get('consts')}"))


CHECK = Check(
    property="C38",
    rule=("PDS4 tables as in C22 whose numeric fields may have scaling "
          "factors, value offsets and special constants (sprinkled over "
          "their cells), and which may have uniformly sampled fields with "
          "linear, logarithmic or exponential scales; non-trivial = some "
          "field is scaled or sampled"),
    suites=[
        Suite("binary", cases("binary"), run, quick=400, thorough=15000),
        Suite("character", cases("character"), run, quick=300, thorough=10000),
        Suite("delimited", cases("delimited"), run, quick=300, thorough=10000),
    ],
    assumptions=[
        "ASCII integers fit 64 bits, as PDS4 requires",
        "sampled values are compared to 1e-9 of the largest",
    ],
)
