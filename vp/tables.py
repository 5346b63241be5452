"""
Generators and independent encoders for PDS3 binary tables.

A table is {"fields": [field...], "rows": n, "prefix": n, "suffix": n,
"tail": n}; a field is one of
  {"kind": "col", "name", "type", "bytes", "gap"}                simple column
  {"kind": "items", "name", "type", "bytes", "n", "pad", "gap"}  ITEMS column
  {"kind": "cont", "name", "fields", "reps", "gap", "tail"}      CONTAINER
`gap` is the number of unused bytes before the field. Layout, label text,
encoded rows and expected columns are all derived from this description.
"""
from __future__ import annotations

import numpy as np

from vp.common import st
from vp.pds3 import DTYPE_OF, NUMERIC, junk, pixels

NAMES = ["ALPHA", "BETA", "GAMMA", "DELTA", "TIME", "X", "FLAG_1", "SPARE",
         "NOTE ONE", "b", "X_0", "TIME_1"]


def col_types(kinds=("num", "char", "bool")):
    opts = []
    if "num" in kinds:
        opts.append(st.sampled_from([(t, w) for t, w, _ in NUMERIC]))
    if "odd" in kinds:
        opts.append(st.tuples(
            st.sampled_from(sorted({t for t, _, _ in NUMERIC
                                    if "INTEGER" in t})),
            st.sampled_from([3, 5, 6, 7])))
    if "char" in kinds:
        opts.append(st.tuples(
            st.sampled_from(["CHARACTER", "CHARACTER", "DATE", "TIME"]),
            st.integers(1, 24)))
    if "bool" in kinds:
        opts.append(st.just(("BOOLEAN", 1)))
    return st.one_of(opts)


def gaps():
    return st.sampled_from([0, 0, 0, 1, 3])


@st.composite
def fields(draw, depth=2, kinds=("num", "char", "bool"), max_fields=6,
           containers=True, items=True, unique=False):
    out = []
    names = list(NAMES)
    for i in range(draw(st.integers(1, max_fields))):
        k = draw(st.sampled_from(
            ["col"] * 5 + (["items"] if items else [])
            + (["cont"] if containers and depth > 0 else [])))
        name = (f"{draw(st.sampled_from(names))}" if not unique
                else f"{names[i % len(names)]}{i}")
        if k == "cont":
            out.append({
                "kind": "cont", "name": f"BLK{depth}{i}",
                "fields": draw(fields(depth - 1, kinds, 3, containers, items,
                                      unique)),
                "reps": draw(st.integers(1, 4)), "gap": draw(gaps()),
                "tail": draw(gaps()),
            })
            continue
        t, w = draw(col_types(kinds))
        f = {"kind": k, "name": name, "type": t, "bytes": w,
             "gap": draw(gaps())}
        if "_" in t and draw(st.integers(0, 7)) == 0:
            f["spaced"] = True
        if k == "items":
            f["n"] = draw(st.integers(1, 5))
            f["pad"] = draw(st.sampled_from([0, 0, 2]))
            f["explicit_bytes"] = draw(st.booleans())
        out.append(f)
    return out


# -------------------------------------------------------------------- layout
def width(f):
    """bytes the field occupies, gap excluded"""
    if f["kind"] == "col":
        return f["bytes"]
    if f["kind"] == "items":
        return (f["bytes"] + f["pad"]) * (f["n"] - 1) + f["bytes"]
    return f["reps"] * inner_width(f)


def inner_width(f):
    return sum(x["gap"] + width(x) for x in f["fields"]) + f["tail"]


def starts(flds, order=None):
    """0-based offset of each field, when they are stored in `order`"""
    out, at = [0] * len(flds), 0
    for i in (order or range(len(flds))):
        at += flds[i]["gap"]
        out[i] = at
        at += width(flds[i])
    return out


def flatten(flds, base=0, order=None):
    """[(name, type, bytes, offset, field)] in label order"""
    out = []
    for f, at in zip(flds, starts(flds, order)):
        at += base
        if f["kind"] == "col":
            out.append((f["name"], f["type"], f["bytes"], at, f))
        elif f["kind"] == "items":
            for i in range(f["n"]):
                out.append((f["name"], f["type"], f["bytes"],
                            at + i * (f["bytes"] + f["pad"]), f))
        else:
            for r in range(f["reps"]):
                out += flatten(f["fields"], at + r * inner_width(f))
    return out


def indexed(names):
    """unique names: repeated ones get ascending suffixes (no other's name)"""
    out, seen = [], {}
    for n in names:
        if names.count(n) > 1:
            k = seen.get(n, 0)
            while f"{n}_{k}" in names:
                k += 1
            out.append(f"{n}_{k}")
            seen[n] = k + 1
        else:
            out.append(n)
    return out


def row_width(t):
    return sum(f["gap"] + width(f) for f in t["fields"]) + t["tail"]


# ------------------------------------------------------------------ encoding
def char_values(n, w, seed):
    rng = np.random.default_rng(seed)
    alphabet = np.frombuffer(
        b"ABCXYZabcxyz0189 -_.+", dtype="u1")
    return rng.choice(alphabet, (n, w)).astype("u1")


def column_bytes(ctype, w, n, seed, fill):
    """(n, w) array of bytes for a column, and the decoded values"""
    if ctype in ("CHARACTER", "DATE", "TIME"):
        raw = char_values(n, w, seed)
        return raw, [bytes(r) for r in raw]
    if ctype == "BOOLEAN":
        raw = np.random.default_rng(seed).integers(0, 2, (n, 1), dtype="u1")
        return raw, raw[:, 0].astype(bool)
    if (ctype, w) not in DTYPE_OF:
        raw = np.frombuffer(junk(n * w, seed), "u1").reshape(n, w)
        return raw, whole(raw, ctype)
    vals = pixels(fill, seed, n, DTYPE_OF[(ctype, w)])
    return np.frombuffer(vals.tobytes(), "u1").reshape(n, w), vals


def whole(raw, ctype):
    """the integers in rows of bytes"""
    order = ("little" if ctype.startswith(("LSB", "PC", "VAX")) else "big")
    return [int.from_bytes(bytes(r), order, signed="UNSIGNED" not in ctype)
            for r in raw]


def bit_runs(f):
    """[(0-based start, length)] of every substring of a bit column"""
    out = []
    for b in f["bits"]:
        step = b["size"] + b.get("pad", 0)
        out += [(b["start"] + i * step, b["size"])
                for i in range(b.get("items") or 1)]
    return out


def bit_values(f, n, seed):
    raw = np.frombuffer(junk(n * f["bytes"], seed), "u1").reshape(n, -1)
    vals = []
    for row in raw:
        row = row[::-1] if f["lsb"] else row
        bits = "".join(f"{b:08b}" for b in row)
        vals.append([bits[s:s + k] for s, k in bit_runs(f)])
    return raw, vals


def bit_blocks(f):
    out = []
    for i, b in enumerate(f["bits"]):
        sts = [["NAME", b.get("name", f"BIT_{i}")], ["BIT_DATA_TYPE", f["bit_type"]],
               ["START_BIT", str(b["start"] + 1)]]
        if b.get("items"):
            sts += [["ITEMS", str(b["items"])], ["ITEM_BITS", str(b["size"])]]
            if b.get("pad"):
                sts.append(["ITEM_OFFSET", str(b["size"] + b["pad"])])
            sts.append(["BITS", str(b["items"] * b["size"])])
        else:
            sts.append(["BITS", str(b["size"])])
        out.append(["OBJECT", "BIT_COLUMN", sts])
    return out


def encode(t, seed, fill="bits"):
    """-> (list of row bytes incl. prefix and suffix, [(name, values)])"""
    flat = flatten(t["fields"], 0, t.get("order"))
    names = indexed([x[0] for x in flat])
    n, w = t["rows"], row_width(t)
    pre, suf = t.get("prefix", 0), t.get("suffix", 0)
    body = np.frombuffer(
        junk(n * (pre + w + suf), seed + 77), "u1"
    ).reshape(n, -1).copy()
    cols = []
    for i, (name, (_, ctype, cw, off, f)) in enumerate(zip(names, flat)):
        if "bits" in f:
            raw, vals = bit_values(f, n, seed + i)
        else:
            raw, vals = column_bytes(ctype, cw, n, seed + i, fill)
        body[:, pre + off:pre + off + cw] = raw
        cols.append((name, vals))
    return body, cols


# --------------------------------------------------------------------- label
def quoted(name):
    return f'"{name}"' if " " in name else name


def type_name(f):
    """the name of a field's type, which some labels give with spaces"""
    if f.get("spaced"):
        return '"' + f["type"].replace("_", " ") + '"'
    return f["type"]


def column_block(f, start):
    b = [["NAME", quoted(f["name"])], ["DATA_TYPE", type_name(f)],
         ["START_BYTE", str(start)]]
    if f["kind"] == "items":
        b.append(["ITEMS", str(f["n"])])
        b.append(["ITEM_BYTES", str(f["bytes"])])
        if f["pad"]:
            b.append(["ITEM_OFFSET", str(f["bytes"] + f["pad"])])
        if f["explicit_bytes"] or f["pad"]:
            b.append(["BYTES", str(width(f))])
    else:
        b.append(["BYTES", str(f["bytes"])])
    for extra in f.get("extra", []):
        b.append(extra)
    if "bits" in f:
        b += bit_blocks(f)
    return b


def field_blocks(flds, order=None):
    out = []
    for f, at in zip(flds, starts(flds, order)):
        at += 1
        if f["kind"] == "cont":
            out.append(["OBJECT", "CONTAINER", [
                ["NAME", f["name"]], ["START_BYTE", str(at)],
                ["BYTES", str(inner_width(f))],
                ["REPETITIONS", str(f["reps"])],
            ] + field_blocks(f["fields"])])
        else:
            out.append(["OBJECT", "COLUMN", column_block(f, at)])
    return out


def table_block(t, name=None, fmt_file=None, interchange="BINARY",
                count_fields=True):
    w = row_width(t)
    b = [["INTERCHANGE_FORMAT", interchange], ["ROWS", str(t["rows"])],
         ["ROW_BYTES", str(w)]]
    if t.get("prefix"):
        b.append(["ROW_PREFIX_BYTES", str(t["prefix"])])
    if t.get("suffix"):
        b.append(["ROW_SUFFIX_BYTES", str(t["suffix"])])
    if count_fields:
        b.append(["COLUMNS", str(len(t["fields"]))])
    if name:
        b.insert(0, ["NAME", name])
    blocks = field_blocks(t["fields"], t.get("order"))
    if fmt_file:
        b.append(["^STRUCTURE", f'"{fmt_file}"'])
        return b, blocks
    return b + blocks, None


@st.composite
def tables(draw, max_rows=12, prefixes=True, shuffle=False, **kw):
    flds = draw(fields(**kw))
    order = None
    if shuffle and draw(st.integers(0, 3)) == 3:
        order = draw(st.permutations(range(len(flds))))
    return {
        "fields": flds, "order": order,
        "rows": draw(st.integers(1, max_rows)),
        "prefix": draw(st.sampled_from([0, 0, 0, 1, 6])) if prefixes else 0,
        "suffix": draw(st.sampled_from([0, 0, 0, 1, 5])) if prefixes else 0,
        "tail": draw(st.sampled_from([0, 0, 1, 4])),
    }


# ---------------------------------------------------------------- comparison
def diff_column(got, want):
    """None or a message; `got` is a pandas Series"""
    got = list(got)
    if len(got) != len(want):
        return f"{len(got)} rows, expected {len(want)}"
    for i, (g, w) in enumerate(zip(got, want)):
        if isinstance(w, (bytes, str)):
            g2 = g.encode("latin1") if isinstance(g, str) and isinstance(
                w, bytes) else g
            if g2 != w:
                return f"row {i}: {g!r} != {w!r}"
        elif isinstance(w, (float, np.floating)):
            if not isinstance(g, (float, np.floating)) or not (
                (g == w and np.signbit(g) == np.signbit(w))
                or (np.isnan(g) and np.isnan(w))
            ):
                return f"row {i}: {g!r} != {w!r}"
        elif isinstance(w, list):
            if g != w:
                return f"row {i}: {g!r} != {w!r}"
        elif isinstance(w, (bool, np.bool_)):
            if not isinstance(g, (bool, np.bool_)) or bool(g) != bool(w):
                return f"row {i}: {g!r} != {w!r}"
        else:
            if isinstance(g, (bool, np.bool_)) or not isinstance(
                g, (int, np.integer)
            ) or int(g) != int(w):
                return f"row {i}: {g!r} ({type(g).__name__}) != {w!r}"
    return None


def diff_table(df, cols):
    if df.__class__.__name__ != "DataFrame":
        return f"not a DataFrame: {type(df).__name__} {str(df)[:150]}"
    names = [n for n, _ in cols]
    if list(df.columns) != names:
        return f"columns {list(df.columns)} != {names}"
    for i, (n, vals) in enumerate(cols):
        d = diff_column(df.iloc[:, i], list(vals))
        if d:
            return f"column {n}: {d}"
    return None
