"""C07: line-prefix tables interleaved with images."""
import numpy as np

from vp.core import Check, Suite, require
from vp.common import (
    big, expect_array, far, fills, followed, get, read, seeds, st, warned)
from vp.pds3 import NUMERIC, junk, pixels, q, render
from vp import tables as T


@st.composite
def one(draw, form):
    t, w, dt = draw(st.sampled_from(NUMERIC))
    flds = draw(T.fields(depth=0, kinds=("num", "char"), max_fields=4,
                         unique=True))
    used = sum(f["gap"] + T.width(f) for f in flds)
    spare = draw(st.sampled_from([0, 0, 1, 2]))
    pre = -(-(used) // w) * w + spare * w       # prefix: whole pixels
    bands = draw(st.sampled_from([None, None, None, 2, 3]))
    return {
        "type": t, "bytes": w, "dtype": dt, "fields": flds, "pre": pre,
        "suf": draw(st.sampled_from([0, 0, 1, 2])) * w, "bands": bands,
        "lines": draw(st.integers(1, 6)), "samples": draw(st.integers(1, 6)),
        "fmt": draw(st.sampled_from(
            ["bare", "columns", "table", "nested"])),
        "row_bytes": pre != used or draw(st.booleans())
        if form == "block" else draw(st.booleans()),
        "rows": draw(st.booleans()), "row_suffix": draw(st.booleans()),
        "key": draw(st.sampled_from(
            ["^LINE_PREFIX_STRUCTURE", "^STRUCTURE",
             "^LINE_PREFIX_TABLE_STRUCTURE"])),
        "key_first": draw(st.booleans()),
    }


@st.composite
def cases(draw):
    form = draw(st.sampled_from(["inside", "inside", "pointer", "block"]))
    n = draw(st.sampled_from([1, 1, 2]))
    return {
        "form": form, "images": [draw(one(form)) for _ in range(n)],
        "names": draw(st.permutations(
            ["IMAGE", "LEFT_IMAGE", "IMAGE_B"]))[:n],
        "order": draw(st.permutations(range(2 * n))),
        "ptr": draw(st.sampled_from(["record", "bytes"])),
        "both": draw(st.booleans()), "reverse": draw(st.booleans()),
        "second": draw(st.sampled_from(
            ["LINE_PREFIX_TABLE_2", "SECOND_LINE_PREFIX_TABLE",
             "LINE_PREFIX_TABLE_B"])),
        "gap": draw(st.integers(0, 2)), "trailer": draw(st.integers(0, 9)),
        "table_first": draw(st.booleans()),
        "fill": draw(fills()), "seed": draw(seeds()),
    }


def build(im, seed, fill):
    """-> (bytes, image, table columns)"""
    b = im["bands"] or 1
    shape = (im["lines"], b, im["samples"])
    arr = pixels(fill, seed, int(np.prod(shape)), im["dtype"]).reshape(shape)
    t = {"fields": im["fields"], "rows": im["lines"],
         "tail": im["pre"] - sum(
             f["gap"] + T.width(f) for f in im["fields"])}
    body, cols = T.encode(t, seed + 1, "bits")
    out = b""
    for i in range(im["lines"]):
        out += body[i].tobytes() + arr[i].tobytes() + junk(
            im["suf"], seed + 5 + i)
    want = arr.transpose(1, 0, 2) if b > 1 else arr[:, 0]
    return out, want, cols


def write(case, d):
    rb = 32
    ptrs, blocks, results, blob = [], [], [], bytearray()
    for i, (im, name) in enumerate(zip(case["images"], case["names"])):
        data, image, cols = build(im, case["seed"] + 100 * i, case["fill"])
        blob += junk((-len(blob)) % rb + rb * case["gap"], case["seed"] + i)
        pos = (str(len(blob) // rb + 1) if case["ptr"] == "record"
               else f"{len(blob) + 1} <BYTES>")
        pos = f'("PROD.DAT", {pos})'
        blob += data
        b = im["bands"] or 1
        line = im["samples"] * b * im["bytes"] + im["suf"]
        block = [["LINES", str(im["lines"])],
                 ["LINE_SAMPLES", str(im["samples"])],
                 ["SAMPLE_TYPE", im["type"]],
                 ["SAMPLE_BITS", str(im["bytes"] * 8)],
                 ["LINE_PREFIX_BYTES", str(im["pre"])]]
        if im["suf"]:
            block.append(["LINE_SUFFIX_BYTES", str(im["suf"])])
        if im["bands"]:
            block += [["BANDS", str(b)],
                      ["BAND_STORAGE_TYPE", "LINE_INTERLEAVED"]]
        columns = T.field_blocks(im["fields"])
        # sometimes only the first image's table has a pointer
        form = case["form"] if i == 0 or case["form"] != "pointer" or (
            case["both"]) else "inside"
        tname = {"inside": f"{name}_LINE_PREFIX_TABLE",
                 "pointer": ["LINE_PREFIX_TABLE", case["second"]][i],
                 "block": f"PRE_{name}_TABLE"}[form]
        structure = []
        if im["rows"] or case["form"] == "block":
            structure.append(["ROWS", str(im["lines"])])
        if im["row_bytes"]:
            structure.append(["ROW_BYTES", str(im["pre"])])
        if im["row_suffix"] or case["form"] == "block":
            structure.append(["ROW_SUFFIX_BYTES", str(line)])
        if case["form"] == "block":
            tblock = [["INTERCHANGE_FORMAT", "BINARY"],
                      ["COLUMNS", str(len(columns))]] + structure + columns
        else:
            tblock = None
            fmt = {"bare": columns, "columns": structure + columns,
                   "table": structure + columns,
                   "nested": structure + columns}[im["fmt"]]
            if im["fmt"] == "table":
                fmt = [["OBJECT", "LINE_PREFIX_TABLE", fmt]]
            if im["fmt"] == "nested":
                (d / f"inner{i}.fmt").write_bytes(
                    (render(fmt) + "END\r\n").encode())
                fmt = [["^STRUCTURE", q(f"INNER{i}.FMT")]]
            (d / f"prefix{i}.fmt").write_bytes(
                (render(fmt) + "END\r\n").encode())
            p = [im["key"], q(f"PREFIX{i}.FMT")]
            block = [p] + block if im["key_first"] else block + [p]
        blocks.append(["OBJECT", name, block])
        here = [[f"^{name}", pos]]
        if form != "inside":
            here.append([f"^{tname}", pos])
            if tblock:
                blocks.append(["OBJECT", tname, tblock])
            if case["table_first"]:
                here.reverse()
        ptrs = here + ptrs if case["reverse"] else ptrs + here
        results += [(name, image), (tname, cols)]
    blob += junk(case["trailer"], case["seed"] + 9)
    (d / "prod.dat").write_bytes(bytes(blob))
    head = [["PDS_VERSION_ID", "PDS3"], ["RECORD_TYPE", "FIXED_LENGTH"],
            ["RECORD_BYTES", str(rb)]]
    label = d / "prod.lbl"
    label.write_bytes((render(head + ptrs + blocks) + "END\r\n").encode())
    return label, results


def long(draw, case):
    for im in case["images"]:
        im["lines"] = draw(st.integers(200, 3000))


def wide(draw, case):
    for im in case["images"]:
        im["samples"] = draw(st.integers(200, 9000))


def large():
    return big(cases, long, wide, far, followed)


def run(case, ctx):
    with ctx.building():
        label, results = write(case, ctx.dir)
    ctx.nontrivial(any(im["lines"] > 1 for im in case["images"]))
    ctx.tag(case["form"], *{im["fmt"] for im in case["images"]},
            *{f"suffix={bool(im['suf'])}" for im in case["images"]},
            *{f"bands={im['bands']}" for im in case["images"]})
    data = read(label)
    keys = sorted(k for k in data.keys() if k != "LABEL")
    require(keys == sorted(n for n, _ in results),
            lambda: f"keys {keys}, expected {[n for n, _ in results]}")
    for i in list(case["order"]) * 2:
        name, want = results[i]
        if i % 2:
            d = T.diff_table(get(data, name), want)
            require(d is None, lambda: f"{name}: {d} {warned(data)}")
        else:
            expect_array(data, name, want)


CHECK = Check(
    property="C07",
    rule=("an image whose lines each start with an encoded table row, "
          "described by a structure pointer inside the image definition (with "
          "or without a pointer to the table), or by a table definition with "
          "row suffixes; both objects are loaded in random order; "
          "non-trivial = at least two lines"),
    suites=[Suite("prefix", cases, run, quick=700, thorough=20000),
            Suite("large", large, run, quick=40, thorough=1000)],
    assumptions=["prefixes and suffixes are whole numbers of pixels"],
)
