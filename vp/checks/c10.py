"""C10: binary TABLE objects are read column by column."""
import copy

import numpy as np

from vp.core import Check, Suite, require
from vp.common import big, far, fills, followed, get, read, seeds, st, warned
from vp import tables as T
from vp.pds3 import render, write_product

OBJS = ["TABLE", "TABLE", "BINARY_TABLE", "SERIES", "SPECTRUM",
        "ENGINEERING_TABLE", "TIME_SERIES"]


@st.composite
def cases(draw):
    return {
        "t": draw(T.tables(shuffle=True, kinds=(
            "num", "num", "odd", "char", "bool"))),
        "obj": draw(st.sampled_from(OBJS)),
        "structure": draw(st.sampled_from(["", "", "whole", "split"])),
        "key": draw(st.sampled_from(
            ["^STRUCTURE", "^STRUCTURE", "^TABLE_STRUCTURE"])),
        "fill": draw(fills()), "seed": draw(seeds()),
        "attached": draw(st.booleans()),
        "ptr": draw(st.sampled_from(["record", "bytes"])),
        "gap": draw(st.sampled_from([0, 1, 3])),
        "trailer": draw(st.sampled_from([0, 1, 500])),
    }


def long(draw, case):
    case["t"]["rows"] = draw(st.integers(500, 3000))


def longest(draw, case):
    t = case["t"]
    t.update(rows=draw(st.integers(32000, 70000)), fields=t["fields"][:1],
             order=None)


def many(draw, case):
    t = case["t"]
    n = draw(st.integers(60, 300)) // len(t["fields"]) + 1
    t.update(order=None, fields=[f for _ in range(n)
                                 for f in copy.deepcopy(t["fields"])])


def spaced(draw, case):
    t = case["t"]
    t[draw(st.sampled_from(["prefix", "suffix", "tail"]))] = draw(
        st.integers(100, 40000))


def large():
    return big(cases, long, longest, many, spaced, far, followed)


def split(blocks, rng, d, key, files):
    """move random runs of definitions into (possibly nested) format files"""
    out, i = [], 0
    while i < len(blocks):
        b = blocks[i]
        if b[0] == "OBJECT" and b[1] == "CONTAINER":
            b = [b[0], b[1], split(b[2], rng, d, key, files)]
        if len(b) == 3 and rng.integers(0, 2):
            run = [b] + [x for x in blocks[i + 1:i + 1 + rng.integers(0, 3)]]
            i += len(run)
            fn = f"part{len(files)}.fmt"
            files.append(fn)
            if rng.integers(0, 4) == 0:
                run = split(run, rng, d, key, files)
            (d / fn).write_text(render(run))
            out.append([key, f'"{fn}"'])
        else:
            out.append(b)
            i += 1
    return out


def run(case, ctx):
    t = case["t"]
    with ctx.building():
        body, cols = T.encode(t, case["seed"], case["fill"])
        fmt = "cols.fmt" if case["structure"] == "whole" else None
        block, blocks = T.table_block(t, fmt_file=fmt)
        if fmt:
            (ctx.dir / fmt).write_text(render(blocks))
        elif case["structure"] == "split":
            block = split(block, np.random.default_rng(case["seed"]),
                          ctx.dir, case["key"], [])
        label, _, _ = write_product(
            ctx.dir, [(case["obj"], body.tobytes(), block)],
            attached=case["attached"], ptr=case["ptr"], gap=case["gap"],
            trailer=case["trailer"], seed=case["seed"], data_ext=".dat",
        )
    kinds = {f["kind"] for f in t["fields"]}
    ctx.tag(*kinds, *{x[1] for x in T.flatten(t["fields"])},
            case["structure"] or "inline")
    ctx.tag(*[k for k in ("prefix", "suffix", "tail") if t[k]])
    ctx.nontrivial(len(cols) > 1 and t["rows"] > 1)
    data = read(label)
    df = get(data, case["obj"])
    d = T.diff_table(df, cols)
    require(d is None, lambda: f"{case['obj']}: {d} ({warned(data)})")


@st.composite
def overlapping(draw):
    """tables with further columns defined over bytes of the others"""
    case = draw(cases())
    t = case["t"]
    t.update(order=None)
    if draw(st.booleans()):
        t["fields"] = [f for f in t["fields"] if f["kind"] != "cont"] or [
            {"kind": "col", "name": "X", "type": "CHARACTER", "bytes": 8,
             "gap": 0}]
    room, more = T.row_width(t), []
    for _ in range(draw(st.integers(1, 3))):
        ctype, w = draw(T.col_types(("num", "char")))
        w = min(w, room) if ctype in ("CHARACTER", "DATE", "TIME") else w
        if w > room:
            continue
        n = draw(st.integers(0, min(5, room // w)))
        # often just where another one starts
        at = draw(st.one_of(st.sampled_from(T.starts(t["fields"])
                                            + [m["at"] for m in more]),
                            st.integers(0, room)))
        more.append({
            "kind": "items" if n else "col", "name": draw(
                st.sampled_from(T.NAMES)), "type": ctype, "bytes": w,
            "n": n, "pad": 0, "explicit_bytes": draw(st.booleans()),
            "at": min(at, room - w * max(n, 1)),
            "place": draw(st.integers(0, len(t["fields"]) + len(more)))})
    return case | {"more": more, "structure": ""}


def run_overlapping(case, ctx):
    t = case["t"]
    with ctx.building():
        body, cols = T.encode(t, case["seed"], case["fill"])
        block, _ = T.table_block(t)
        head = [b for b in block if b[0] != "OBJECT"]
        # the label's objects, and the names and values of their columns
        parts, i = [], 0
        for f, b in zip(t["fields"], [b for b in block if b[0] == "OBJECT"]):
            flat = T.flatten([f])
            parts.append((b, [(x[0], v) for x, (_, v) in zip(
                flat, cols[i:i + len(flat)])]))
            i += len(flat)
        for f in case["more"]:
            got = []
            for k in range(max(f["n"], 1)):
                at = t["prefix"] + f["at"] + k * f["bytes"]
                raw = np.ascontiguousarray(body[:, at:at + f["bytes"]])
                got.append((f["name"], [bytes(r).rstrip(b"\0") for r in raw]
                            if f["type"] in ("CHARACTER", "DATE", "TIME")
                            else raw.view(T.DTYPE_OF[
                                (f["type"], f["bytes"])])[:, 0]))
            parts.insert(f["place"], (["OBJECT", "COLUMN", T.column_block(
                f, f["at"] + 1)], got))
        flat = [x for _, got in parts for x in got]
        cols = list(zip(T.indexed([n for n, _ in flat]),
                        [v for _, v in flat]))
        label, _, _ = write_product(
            ctx.dir, [(case["obj"], body.tobytes(),
                       head + [b for b, _ in parts])],
            attached=case["attached"], ptr=case["ptr"], gap=case["gap"],
            trailer=case["trailer"], seed=case["seed"], data_ext=".dat",
        )
    ctx.tag(f"{len(case['more'])} overlapping",
            *{f["kind"] for f in case["more"]})
    ctx.nontrivial(len(case["more"]) > 0 and t["rows"] > 1)
    data = read(label)
    d = T.diff_table(get(data, case["obj"]), cols)
    require(d is None, lambda: f"{case['obj']}: {d} ({warned(data)})")


CHECK = Check(
    property="C10",
    rule=("random column definitions (simple, multi-item, nested repeating "
          "containers; numeric, boolean, character and date columns; gaps, "
          "prefixes, suffixes, spare bytes; columns over the same bytes as "
          "others; definition order independent of byte order; inline or split over nested format files) and random "
          "stored bytes; each resulting column must equal the independently "
          "encoded values; non-trivial = more than one column and row"),
    suites=[Suite("table", cases, run, quick=1600, thorough=60000),
            Suite("large", large, run, quick=40, thorough=1200),
            Suite("overlap", overlapping, run_overlapping, quick=500,
                  thorough=20000)],
    assumptions=[],
)
