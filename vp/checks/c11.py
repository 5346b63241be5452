"""C11: ASCII TABLE objects are read field by field."""
import copy
import numpy as np

from vp.core import Check, Suite, require
from vp.common import big, far, get, read, seeds, st, warned
from vp import asciitab as A
from vp import tables as T
from vp.pds3 import q, render, write_product

OBJS = ["TABLE", "TABLE", "ASCII_TABLE", "SERIES", "SPECTRUM", "INDEX_TABLE",
        "TIME_SERIES"]


@st.composite
def cases(draw):
    comma = draw(st.booleans())
    flds = draw(A.fields())
    rows = draw(st.integers(1, 8))
    return {
        "obj": draw(st.sampled_from(OBJS)), "comma": comma, "fields": flds,
        "rows": rows, "tail": draw(st.sampled_from([0, 0, 2])),
        "eol": draw(st.sampled_from(["\r\n", "\r\n", "\n"])),
        "fill": draw(st.sampled_from(" .z")), "commas": draw(st.booleans()),
        "structure": draw(st.integers(0, 4)) == 0,
        "suffix": draw(st.sampled_from([0, 0, 0, 4])),
        "wide": draw(st.integers(0, 5)) == 0,
        "order": draw(st.permutations(range(len(flds))))
        if not comma and draw(st.integers(0, 4)) == 0 else None,
        "seed": draw(seeds()), "attached": draw(st.booleans()),
        "ptr": draw(st.sampled_from(["record", "bytes", "line", "file"])),
        "gap": draw(st.sampled_from([0, 1, 3])),
        "trailer": draw(st.sampled_from([0, 1, 500])),
        "text_junk": draw(st.booleans()),
        "label_eol": draw(st.sampled_from(["\r\n", "\n"])),
        "unit": draw(st.sampled_from(["", "", " <RECORDS>"])),
    }


def make(case):
    """-> (table description, lines, [(name, values)])"""
    flds, tail = case["fields"], case["tail"]
    if case["comma"]:
        flds, tail = A.commaize(flds)
    t = {"fields": flds, "tail": tail, "rows": case["rows"],
         "order": case["order"]}
    leaves = T.flatten(flds, 0, case["order"])
    names = T.indexed([x[0] for x in leaves])
    width, n = T.row_width(t), case["rows"]
    fill = case["fill"] if len(leaves) > 1 and not case["comma"] else " "
    chars = np.full((n, width), fill)
    cols = []
    commas_ok = case["commas"]
    for i, (leaf, name) in enumerate(zip(leaves, names)):
        _, typ, w, off, f = leaf
        texts, want = A.values(
            leaf, n, case["seed"] + i,
            commas_ok and (f["quoted"] if case["comma"] else True))
        cols.append((name, want))
        for r, text in enumerate(texts):
            text = text.rjust(w) if (
                typ not in A.TEXTS and f["just"] == "r") else text.ljust(w)
            chars[r, off:off + w] = list(text)
        if case["comma"]:
            end = off + w
            if f["quoted"]:
                chars[:, off - 1] = '"'
                chars[:, end] = '"'
                end += 1
            if end < width:
                chars[:, end] = ","
    lines = ["".join(row) for row in chars]
    return t, lines, cols


def widen(block, flds):
    """column definitions that include the comma after each column"""
    at = [i for i, b in enumerate(block) if b[0] == "OBJECT"]
    if any(f["kind"] != "col" for f in flds) or len(at) != len(flds):
        return block
    out = list(block)
    for i, f in list(zip(at, flds))[:-1]:
        # its closing quote, too
        more = 2 if f["quoted"] else 1
        out[i] = [*block[i][:2], [
            [b[0], str(int(b[1]) + more)] if b[0] == "BYTES" else b
            for b in block[i][2]]]
    return out


def long(draw, case):
    case["rows"] = draw(st.integers(60, 3000))


def late(draw, case):
    case.update(ptr=draw(st.sampled_from(["line", "line", "record"])),
                gap=draw(st.integers(40, 3000)), rows=draw(st.integers(1, 99)))


def many(draw, case):
    n = draw(st.integers(60, 200)) // len(case["fields"]) + 1
    case.update(order=None, fields=[f for _ in range(n) for f in copy.deepcopy(
        case["fields"])])


def large():
    return big(cases, long, late, many, far)


def run(case, ctx, tamper=None):
    name, eol = case["obj"], case["eol"]
    with ctx.building():
        t, lines, cols = make(case)
        # a row with nothing in it at all is not a row
        if any(all(vals[r] is None for _, vals in cols)
               for r in range(len(lines))):
            ctx.tag("skipped")
            return
        t["tail"] += len(eol)
        block, blocks = T.table_block(t, interchange="ASCII", fmt_file=(
            "cols.fmt" if case["structure"] else None))
        if case["comma"] and case.get("wide"):
            if case["structure"]:
                blocks = widen(blocks, case["fields"])
            else:
                block = widen(block, case["fields"])
            ctx.tag("columns with their commas")
        if case["structure"]:
            (ctx.dir / "cols.fmt").write_text(render(blocks))
        suffix = case["suffix"]
        if case["ptr"] == "line":
            suffix = 0
            if case["trailer"] % 7:
                name = "ASCII_TABLE"
            label = write_stream(ctx.dir, name, block, lines, case)
        else:
            payload = ""
            if suffix:
                # the row's line ending follows its suffix
                block = [[b[0], str(int(b[1]) - len(eol))]
                         if b[0] == "ROW_BYTES" else b for b in block]
                block.append(["ROW_SUFFIX_BYTES", str(suffix + len(eol))])
            for x in lines:
                payload += x + (" " if case["comma"] else "9") * suffix + eol
            label, _, _ = write_product(
                ctx.dir, [(name, payload.encode(), block)],
                attached=case["attached"] and case["ptr"] != "file",
                ptr=case["ptr"], gap=case["gap"], trailer=case["trailer"],
                seed=case["seed"], data_ext=".tab",
                text_junk=case["text_junk"])
    ctx.tag("comma" if case["comma"] else "fixed", case["ptr"],
            *{x[1] for x in T.flatten(t["fields"])},
            *{f["kind"] for f in t["fields"]})
    if any(v is None for _, vals in cols for v in vals):
        ctx.tag("missing values")
    ctx.nontrivial(len(cols) > 1 and t["rows"] > 1)
    if tamper:
        label = tamper(label)
    data = read(label)
    df = get(data, name)
    d = A.diff(df, cols)
    require(d is None, lambda: f"{name}: {d} ({warned(data)})")


def write_stream(d, name, block, lines, case):
    """a stream file: the pointer gives a line number"""
    eol, unit = case["eol"], case.get("unit", "")
    body = "".join(x + eol for x in lines)
    after = "".join(f"after {i}, x{eol}" for i in range(case["trailer"] % 7))

    def label(v):
        return render([["PDS_VERSION_ID", "PDS3"], ["RECORD_TYPE", "STREAM"],
                       [f"^{name}", v], ["OBJECT", name, block]], eol
                      ) + "END" + eol

    if case["attached"]:
        n = label("999").count(eol) + 1
        (d / "prod.tab").write_bytes((label(f"{n}{unit}") + body + after).encode())
        return d / "prod.tab"
    before = "".join(f"before {i}, y{eol}" for i in range(case["gap"]))
    (d / "prod.tab").write_bytes((before + body + after).encode())
    v = f'("prod.tab", {case["gap"] + 1}{unit})'
    if case["gap"] == 0 and case["seed"] % 2:
        v = q("prod.tab")
    (d / "prod.lbl").write_bytes(label(v).encode())
    return d / "prod.lbl"


CHECK = Check(
    property="C11",
    rule=("random column definitions (integers, reals, text, dates; "
          "multi-item, repeating containers; missing values, quoted text "
          "with commas, signs, exponents) laid out fixed-width or "
          "comma-separated, located by record, byte, line or file; cells "
          "compared with the numbers and text written; non-trivial = more "
          "than one column and row"),
    suites=[Suite("ascii", cases, run, quick=1200, thorough=40000),
            Suite("large", large, run, quick=50, thorough=1200)],
    assumptions=[
        "text fields contain a letter first (text that looks like a number, "
        "truth value or missing-value word may be converted)",
        "no row is entirely blank",
        "numbers compared to within 4 units in the last place",
    ],
)
