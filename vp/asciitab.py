"""
Generators and independent encoders for the text of ASCII tables: fields are
described as in vp.tables, plus {"quoted": bool} for text.
"""
from __future__ import annotations

import re

import numpy as np

from vp.common import st
from vp import tables as T

NOT_TEXT = {"na", "nan", "null", "none", "n/a", "true", "false", "inf",
            "infinity", "t", "f"}
INTS = ["ASCII_INTEGER", "ASCII_INTEGER", "INTEGER"]
REALS = ["ASCII_REAL", "ASCII_REAL", "REAL"]
TEXTS = ["CHARACTER", "CHARACTER", "CHARACTER", "DATE", "TIME"]


@st.composite
def fields(draw, depth=1, max_fields=5, fixed=True):
    out = []
    for i in range(draw(st.integers(1, max_fields))):
        k = draw(st.sampled_from(["col"] * 5 + ["items"]
                                 + (["cont"] if depth else [])))
        name = draw(st.sampled_from(T.NAMES))
        if k == "cont":
            out.append({
                "kind": "cont", "name": f"BLK{depth}{i}",
                "fields": draw(fields(depth - 1, 3, fixed)),
                "reps": draw(st.integers(1, 3)),
                "gap": draw(st.sampled_from([0, 0, 1, 3])),
                "tail": draw(st.sampled_from([0, 0, 1, 3]))})
            continue
        t = draw(st.sampled_from(INTS + REALS + TEXTS))
        f = {"kind": k, "name": name, "type": t,
             "bytes": 23 if t == "DATE" else 8 if t == "TIME" else draw(
                 st.integers(1, 18 if t in INTS else 15)),
             "gap": draw(st.sampled_from([0, 0, 1, 3])),
             "quoted": t in TEXTS and draw(st.booleans()),
             "just": draw(st.sampled_from("lrr")),
             "missing": draw(st.integers(0, 5)) == 0}
        if "_" in t and draw(st.integers(0, 7)) == 0:
            f["spaced"] = True
        if k == "items":
            f["n"] = draw(st.integers(1, 4))
            f["pad"] = draw(st.sampled_from([0, 0, 2]))
            f["explicit_bytes"] = True  # BYTES is required
        out.append(f)
    return out


def commaize(flds, top=True):
    """adjust gaps so that every leaf is followed by a comma but the last"""
    if top and flds[-1]["kind"] == "cont":
        flds = flds + [{"kind": "col", "name": "LAST", "type": "ASCII_INTEGER",
                        "bytes": 3, "gap": 0, "quoted": False, "just": "r",
                        "missing": False}]
    out, after = [], 0
    for f in flds:
        f = dict(f)
        if f["kind"] == "cont":
            f["gap"] = after
            f["fields"], f["tail"] = commaize(f["fields"], False)
            after = 0
        else:
            f["gap"] = after + f["quoted"]
            if f["kind"] == "items":
                f["pad"] = 1 + 2 * f["quoted"]
            after = 1 + f["quoted"]
        out.append(f)
    return out, (int(out[-1]["quoted"]) if top else after)


def int_text(rng, w):
    v = str(int(rng.integers(0, 10 ** int(rng.integers(1, 19)))))
    v = v.lstrip("0") or "0"
    style = rng.integers(0, 6)
    if style == 0:
        v = "-" + v
    elif style == 1:
        v = "+" + v
    elif style == 2:
        v = "00" + v
    if len(v) > w:
        sign = v[0] if v[0] in "+-" and w > 1 else ""
        v = sign + v.lstrip("+-")[:w - len(sign)]
    return v


def real_text(rng, w):
    whole = str(int(rng.integers(0, 10 ** int(rng.integers(1, 6)))))
    frac = "".join(str(x) for x in rng.integers(0, 10, rng.integers(1, 6)))
    style = rng.integers(0, 6)
    v = {0: f"{whole}.{frac}", 1: f"{whole}.", 2: f".{frac}",
         3: f"{whole[0]}.{frac}E{rng.choice(['+', '-', ''])}"
            f"{rng.integers(0, 30):02d}",
         4: f"{whole}.{frac}", 5: f"{whole[0]}.{frac}e-{rng.integers(1, 9)}",
         }[int(style)]
    v = str(rng.choice(["", "", "-", "+"])) + v
    if len(v) > w:
        v = v[:w] if re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)", v[:w]) else "7"
    return v


def text_value(rng, w, typ, commas):
    if typ == "DATE":
        return (f"{rng.integers(1970, 2030)}-{rng.integers(1, 13):02d}-"
                f"{rng.integers(1, 29):02d}T{rng.integers(0, 24):02d}:"
                f"{rng.integers(0, 60):02d}:{rng.integers(0, 60):02d}.125"
                )[:w]
    if typ == "TIME":
        return f"{rng.integers(0, 24):02d}:{rng.integers(0, 60):02d}:30"[:w]
    alpha = "ABCDXYZabcdxyz"
    inner = alpha + "0189  _.:/-;" + (",," if commas else "")
    while True:
        n = int(rng.integers(1, w + 1))
        v = alpha[rng.integers(len(alpha))] + "".join(
            inner[i] for i in rng.integers(0, len(inner), n - 1))
        v = v.rstrip(" ,")
        if v.lower() not in NOT_TEXT:
            return v


def values(leaf, rows, seed, commas=False):
    """-> ([text per row], [expected per row]); None: missing"""
    rng = np.random.default_rng(seed)
    name, typ, w, off, f = leaf
    texts, want = [], []
    for _ in range(rows):
        if f["missing"] and rng.integers(0, 3) == 0:
            texts.append("")
            want.append(None)
        elif typ in INTS:
            texts.append(int_text(rng, w))
            want.append(int(texts[-1]))
        elif typ in REALS:
            texts.append(real_text(rng, w))
            want.append(float(texts[-1]))
        else:
            texts.append(text_value(rng, w, typ, commas))
            want.append(texts[-1])
    return texts, want


def same_cell(got, want):
    """numbers to within the last digits of a double, blanks as missing"""
    missing = got is None or got == "" or (
        isinstance(got, (float, np.floating)) and np.isnan(got))
    if want is None:
        return missing
    if missing:
        return False
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    if isinstance(got, (bool, np.bool_)) or not isinstance(
            got, (int, float, np.integer, np.floating)):
        return False
    if isinstance(want, int) and isinstance(got, (int, np.integer)):
        return int(got) == want
    return abs(float(got) - want) <= 4 * np.spacing(abs(float(want)))


def diff(df, cols):
    if df.__class__.__name__ != "DataFrame":
        return f"not a DataFrame: {type(df).__name__} {str(df)[:150]}"
    names = [n for n, _ in cols]
    if list(df.columns) != names:
        return f"columns {list(df.columns)} != {names}"
    for i, (n, want) in enumerate(cols):
        got = list(df.iloc[:, i])
        if len(got) != len(want):
            return f"column {n}: {len(got)} rows, expected {len(want)}"
        for r, (g, w) in enumerate(zip(got, want)):
            if not same_cell(g, w):
                return (f"column {n} row {r}: {g!r} ({type(g).__name__}) "
                        f"!= {w!r}")
    return None
