"""C16: column scaling factors and offsets."""
import math

import numpy as np

from vp.core import Check, Suite, require
from vp.common import get, read, seeds, st, warned
from vp import tables as T
from vp.pds3 import DTYPE_OF, write_product

FACTORS = ["2", "10", "-1", "0.5", "0.001", "1", "1000", "-0.25", "1.5E-3",
           "300", "1.0", "100000"]
OFFSETS = ["0", "1", "-1", "100", "-273.15", "0.5", "70000", "-32768", "1.0E4"]


def scalings():
    return st.tuples(
        st.one_of(st.none(), st.sampled_from(FACTORS)),
        st.one_of(st.none(), st.sampled_from(OFFSETS)))


def integral():
    """scaling by integers alone: where wraparound would happen"""
    def pick(x):
        return st.sampled_from([v for v in x if not set(v) & set(".E")])
    return st.one_of(
        st.tuples(pick(FACTORS), st.none()),
        st.tuples(st.none(), pick(OFFSETS)),
        st.tuples(pick(FACTORS), pick(OFFSETS)))


def add_scaling(draw, flds, how):
    for f in flds:
        if f["kind"] == "cont":
            add_scaling(draw, f["fields"], how)
        elif (f["type"], f["bytes"]) in DTYPE_OF or "INTEGER" in f["type"]:
            s, o = draw(how)
            f["scale"], f["offset"] = s, o
            f["extra"] = statements(s, o, draw(styles()))


def styles():
    """how factors and offsets are written"""
    return st.sampled_from(["plain"] * 6 + ["units", '"N/A"', '"NULL"'])


def statements(s, o, style):
    out = []
    for key, v in (("SCALING_FACTOR", s), ("OFFSET", o)):
        if v:
            out.append([key, v + " <K>" * (style == "units")])
        elif style.startswith('"'):
            # there is none
            out.append([key, style])
    return out


def num(text):
    if text is None:
        return None
    return float(text) if set(text) & set(".E") else int(text)


def moderate(vals, seed):
    """finite, moderate reals in place of arbitrary float bit patterns"""
    if vals.dtype.kind != "f":
        return vals
    rng = np.random.default_rng(seed)
    return rng.uniform(-1e4, 1e4, len(vals)).astype(vals.dtype)


def expected(v, s, o):
    """exact where everything is an integer, else float"""
    s, o = num(s), num(o)
    if isinstance(v, float):
        v = float(v)
    out = v * (1 if s is None else s)
    return out + (0 if o is None else o)


def compare(col, vals, s, o, f32):
    got = list(col)
    require(len(got) == len(vals), lambda: f"{len(got)} rows")
    require(col.dtype.kind in "iuf", lambda: f"dtype {col.dtype}")
    for i, (g, v) in enumerate(zip(got, vals)):
        v = v.item() if hasattr(v, "item") else v
        want = expected(v, s, o)
        eps = 2e-6 if f32 else 1e-12
        tol = eps * (abs(v * (num(s) or 1)) + abs(num(o) or 0))
        if col.dtype.kind in "iu":
            require(int(g) == want, lambda: f"row {i}: {g!r} != {want!r}")
        else:
            require(math.isfinite(g) and abs(float(g) - want) <= tol,
                    lambda: f"row {i}: {g!r} != {want!r} (stored {v!r})")


# -------------------------------------------------------------------- binary
@st.composite
def binary_cases(draw):
    if draw(st.integers(0, 2)) == 2:
        # integer columns, all of them scaled, by integers
        t = draw(T.tables(max_rows=8, depth=0, kinds=("num",), max_fields=3))
        add_scaling(draw, t["fields"], integral())
    else:
        t = draw(T.tables(max_rows=8, depth=1, shuffle=True,
                          kinds=("num", "num", "odd", "char", "bool")))
        add_scaling(draw, t["fields"], scalings())
    return {"t": t, "fill": draw(st.sampled_from(["ramp", "bits", "edge"])),
            "seed": draw(seeds()), "attached": draw(st.booleans())}


def run_binary(case, ctx):
    t = case["t"]
    with ctx.building():
        body, cols = T.encode(t, case["seed"], case["fill"])
        flat = T.flatten(t["fields"], 0, t["order"])
        pre = t["prefix"]
        for i, (_, ctype, w, at, f) in enumerate(flat):
            if ("scale" in f and (ctype, w) in DTYPE_OF
                    and np.dtype(DTYPE_OF[(ctype, w)]).kind == "f"):
                v = moderate(cols[i][1], case["seed"] + i)
                cols[i] = (cols[i][0], v)
                body[:, pre + at:pre + at + w] = np.frombuffer(
                    v.tobytes(), "u1").reshape(len(v), w)
        block, _ = T.table_block(t)
        label, _, _ = write_product(
            ctx.dir, [("TABLE", body.tobytes(), block)], seed=case["seed"],
            attached=case["attached"], data_ext=".dat", trailer=3)
    scaled = [f for *_, f in flat if f.get("scale") or f.get("offset")]
    ctx.tag(*{("scaled " if f.get("scale") else "offset ") + f["type"]
              for f in scaled}, *{f["kind"] for f in scaled})
    ctx.nontrivial(bool(scaled))
    data = read(label)
    df = get(data, "TABLE")
    require(df.__class__.__name__ == "DataFrame",
            lambda: f"did not load: {warned(data)}")
    require(list(df.columns) == [c[0] for c in cols],
            lambda: f"columns {list(df.columns)}")
    for i, ((name, vals), (_, ctype, w, _, f)) in enumerate(zip(cols, flat)):
        if f.get("scale") or f.get("offset"):
            try:
                compare(df.iloc[:, i], vals, f["scale"], f["offset"],
                        w == 4)
            except Exception as ex:
                ex.args = (f"{name} ({ctype}, {w} bytes, x{f['scale']} "
                           f"+{f['offset']}): {ex}",)
                raise
        else:
            d = T.diff_column(df.iloc[:, i], list(vals))
            require(d is None, lambda: f"unscaled {name}: {d}")


# ----------------------------------------------------------------------- text
@st.composite
def ascii_cases(draw):
    rows = draw(st.integers(1, 6))
    cols = []
    for i in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["int", "int", "real", "text"]))
        items = draw(st.sampled_from([None, None, 2, 3]))
        s, o = draw(scalings()) if kind != "text" else (None, None)
        n = rows * (items or 1)
        vals = {
            "int": st.integers(-99999, 999999).map(str),
            "real": st.builds(lambda a, b: f"{a}.{b:03d}",
                              st.integers(-999, 9999), st.integers(0, 999)),
            "text": st.text("ABCDxyz", min_size=1, max_size=6),
        }[kind]
        cols.append({"kind": kind, "items": items, "scale": s, "offset": o,
                     "style": draw(styles()) if kind != "text" else "plain",
                     "vals": draw(st.lists(vals, min_size=n, max_size=n))})
    return {"rows": rows, "cols": cols, "commas": draw(st.booleans()),
            "seed": draw(seeds()), "attached": draw(st.booleans())}


def run_ascii(case, ctx):
    W = 9
    n = case["rows"]
    with ctx.building():
        lines, blocks, want = [""] * n, [], []
        for i, c in enumerate(case["cols"]):
            m = c["items"] or 1
            at = len(lines[0]) + 1 + (1 if i else 0)
            for j in range(m):
                for r in range(n):
                    sep = ("," if case["commas"] else " ") if lines[r] else ""
                    v = c["vals"][r * m + j]
                    lines[r] += sep + (v.ljust(W) if c["kind"] == "text"
                                       else v.rjust(W))
            ctype = {"int": "ASCII_INTEGER", "real": "ASCII_REAL",
                     "text": "CHARACTER"}[c["kind"]]
            b = [["NAME", f"C{i}"], ["DATA_TYPE", ctype],
                 ["START_BYTE", str(at)]]
            if c["items"]:
                b += [["ITEMS", str(m)], ["ITEM_BYTES", str(W)],
                      ["ITEM_OFFSET", str(W + 1)],
                      ["BYTES", str((W + 1) * m - 1)]]
            else:
                b.append(["BYTES", str(W)])
            b += statements(c["scale"], c["offset"],
                            c.get("style", "plain"))
            blocks.append(["OBJECT", "COLUMN", b])
            for j in range(m):
                want.append((f"C{i}_{j}" if m > 1 else f"C{i}", c,
                             c["vals"][j::m]))
        text = "".join(x + "\r\n" for x in lines).encode()
        w = len(lines[0]) + 2
        block = [["INTERCHANGE_FORMAT", "ASCII"], ["ROWS", str(n)],
                 ["COLUMNS", str(len(blocks))],
                 ["ROW_BYTES", str(w)]] + blocks
        label, _, _ = write_product(
            ctx.dir, [("TABLE", text, block)], seed=case["seed"],
            attached=case["attached"], data_ext=".tab", record_bytes=w)
    scaled = [c for c in case["cols"] if c["scale"] or c["offset"]]
    ctx.nontrivial(bool(scaled))
    ctx.tag("commas" if case["commas"] else "fixed",
            *{c["kind"] for c in scaled})
    data = read(label)
    df = get(data, "TABLE")
    require(df.__class__.__name__ == "DataFrame",
            lambda: f"did not load: {warned(data)}")
    require(list(df.columns) == [x[0] for x in want],
            lambda: f"columns {list(df.columns)}")
    for i, (name, c, vals) in enumerate(want):
        col = df.iloc[:, i]
        if c["kind"] == "text":
            require(list(col) == vals, lambda: f"{name}: {list(col)}")
            continue
        vals = [int(v) if c["kind"] == "int" else float(v) for v in vals]
        try:
            compare(col, vals, c["scale"], c["offset"], False)
        except Exception as ex:
            ex.args = (f"{name} (x{c['scale']} +{c['offset']}): {ex}",)
            raise


CHECK = Check(
    property="C16",
    rule=("binary tables (as in C10) and ASCII tables whose numeric columns "
          "randomly have SCALING_FACTOR and/or OFFSET; scaled columns must "
          "equal factor x stored + offset (exactly when all are integers, "
          "else to float precision), all other columns must be untouched; "
          "non-trivial = at least one scaled column"),
    suites=[
        Suite("binary", binary_cases, run_binary, quick=900, thorough=30000),
        Suite("ascii", ascii_cases, run_ascii, quick=400, thorough=12000),
    ],
    assumptions=["scaling factors are non-zero"],
)
