"""C12: delimited SPREADSHEET objects are read field by field."""
import copy
import numpy as np

from vp.core import Check, Suite, require
from vp.common import big, far, get, read, seeds, st, warned
from vp import asciitab as A
from vp import tables as T
from vp.pds3 import q, render, write_product

DELIMS = {"COMMA": ",", "SEMICOLON": ";", "TAB": "\t", "VERTICAL_BAR": "|"}
OBJS = ["SPREADSHEET", "SPREADSHEET", "DATA_SPREADSHEET", "CAL_SPREADSHEET", "CONTEXT_SPREADSHEET",
        "ARRAY_SPREADSHEET"]


@st.composite
def fields(draw, depth=1, max_fields=6):
    out = []
    for i in range(draw(st.integers(1, max_fields))):
        if depth and draw(st.integers(0, 9)) == 0:
            out.append({"kind": "cont", "name": f"BLK{i}",
                        "reps": draw(st.integers(1, 3)),
                        "fields": draw(fields(0, 3))})
            continue
        t = draw(st.sampled_from(["ASCII_INTEGER", "ASCII_REAL", "CHARACTER",
                                  "CHARACTER", "TIME", "DATE"]))
        out.append({
            "kind": "field", "name": draw(st.sampled_from(T.NAMES)),
            "type": t, "bytes": 23 if t == "DATE" else 8 if t == "TIME" else
            draw(st.integers(1, 16)),
            "n": draw(st.sampled_from([1, 1, 1, 1, 2, 3])),
            "quoted": t in A.TEXTS and draw(st.booleans()),
            "pad": draw(st.sampled_from([0, 0, 1, 2])),
            "missing": draw(st.integers(0, 2)) == 0})
    return out


@st.composite
def cases(draw):
    return {
        "obj": draw(st.sampled_from(OBJS)), "fields": draw(fields()),
        "rows": draw(st.integers(1, 8)),
        "delim": draw(st.sampled_from(list(DELIMS))),
        "quote_delim": draw(st.booleans()),
        "eol": draw(st.sampled_from(["\r\n", "\r\n", "\n"])),
        "rich": draw(st.booleans()), "explicit": draw(st.booleans()),
        "structure": draw(st.integers(0, 4)) == 0,
        "rows_key": draw(st.sampled_from(["ROWS", "ROWS", "RECORDS"])),
        "length_key": draw(st.sampled_from(["ROW_BYTES", "ROW_BYTES",
                                            "BYTES"])),
        "seed": draw(seeds()), "attached": draw(st.booleans()),
        "ptr": draw(st.sampled_from(["record", "bytes", "line", "file"])),
        "gap": draw(st.sampled_from([0, 1, 3])),
        "after": draw(st.sampled_from([0, 0, 2])),
    }


def leaves(flds):
    out = []
    for f in flds:
        if f["kind"] == "cont":
            for _ in range(f["reps"]):
                out += leaves(f["fields"])
        else:
            out += [f] * f["n"]
    return out


def blocks(flds, case):
    out = []
    for i, f in enumerate(flds):
        if f["kind"] == "cont":
            w = sum((x["bytes"] + 1) * x["n"] for x in f["fields"])
            out.append(["OBJECT", "CONTAINER", [
                ["NAME", f["name"]], ["REPETITIONS", str(f["reps"])],
                ["BYTES", str(w)]] + blocks(f["fields"], case)])
            continue
        b = [["NAME", T.quoted(f["name"])], ["DATA_TYPE", T.type_name(f)]]
        if case["explicit"]:
            b.append(["FIELD_NUMBER", str(i + 1)])
        if f["n"] > 1:
            b += [["ITEMS", str(f["n"])], ["ITEM_BYTES", str(f["bytes"])]]
        b.append(["BYTES", str((f["bytes"] + 1) * f["n"] - 1)])
        out.append(["OBJECT", "FIELD", b])
    return out


def long(draw, case):
    case["rows"] = draw(st.integers(60, 3000))


def late(draw, case):
    case.update(ptr=draw(st.sampled_from(["line", "line", "record"])),
                gap=draw(st.integers(40, 3000)), rows=draw(st.integers(1, 99)))


def many(draw, case):
    n = draw(st.integers(60, 200)) // len(case["fields"]) + 1
    case.update(fields=[f for _ in range(n) for f in copy.deepcopy(
        case["fields"])])


def followed(draw, case):
    case.update(after=draw(st.integers(100, 2000)))


def large():
    return big(cases, long, late, many, far, followed)


def run(case, ctx, tamper=None):
    name, eol, n = case["obj"], case["eol"], case["rows"]
    delim = DELIMS[case["delim"]]
    with ctx.building():
        rng = np.random.default_rng(case["seed"])
        flds = leaves(case["fields"])
        names = T.indexed([f["name"] for f in flds])
        cells, cols = [], []
        for i, (f, cn) in enumerate(zip(flds, names)):
            texts, want = A.values((cn, f["type"], f["bytes"], 0, f), n,
                                   case["seed"] + i)
            if case["rich"] and f["type"] == "CHARACTER":
                # any printable text, with the delimiter if it is quoted
                extra = "é°%#&()'*<>=" + (
                    ",;|\t" if f["quoted"] else
                    ",;|".replace(delim, ""))
                for r in range(n):
                    if want[r] is None or len(want[r]) < 3:
                        continue
                    k = int(rng.integers(1, len(want[r]) - 1))
                    want[r] = texts[r] = (
                        want[r][:k] + extra[rng.integers(len(extra))]
                        + want[r][k + 1:])
            if not f["quoted"]:  # then it cannot contain the delimiter
                texts = [x.replace(delim, "_") for x in texts]
                want = [x.replace(delim, "_") if isinstance(x, str) else x
                        for x in want]
            cols.append((cn, want))
            out = []
            for x, v in zip(texts, want):
                if f["quoted"] and (v is not None or rng.integers(2)):
                    x = f'"{x}"'
                elif delim != "\t" or v is not None:
                    x = x.rjust(len(x) + f["pad"])
                out.append(x)
            cells.append(out)
        lines = [delim.join(c[r] for c in cells) for r in range(n)]
        if any(not x.strip(' "') for x in lines):
            ctx.tag("skipped")
            return
        width = max(len((x + eol).encode()) for x in lines)
        total = sum(len((x + eol).encode()) for x in lines)
        defs = blocks(case["fields"], case)
        block = [["ROWS" if case["ptr"] == "line" else case["rows_key"],
                  str(n)],
                 ["FIELDS", str(len(case["fields"]))],
                 ["FIELD_DELIMITER", q(case["delim"]) if case["quote_delim"]
                  else case["delim"]]]
        if case["ptr"] == "line":
            block.append(["ROW_BYTES", str(width)])
        else:
            block.append([case["length_key"], str(
                total if case["length_key"] == "BYTES" else width)])
        if case["structure"]:
            (ctx.dir / "f.fmt").write_text(render(defs))
            block.append(["^STRUCTURE", q("f.fmt")])
        else:
            block += defs
        body = "".join(x + eol for x in lines)
        after = "".join(f"after {i}, x{eol}" for i in range(case["after"]))
        if case["ptr"] == "line":
            label = stream(ctx.dir, name, block, body + after, case)
        else:
            exact = case["length_key"] == "BYTES"
            if exact:
                block = [b for b in block if b[0] != "ROW_BYTES"]
            label, _, _ = write_product(
                ctx.dir, [(name, body.encode(), block)],
                attached=case["attached"] and case["ptr"] != "file",
                ptr=case["ptr"], gap=case["gap"],
                trailer=40 * case["after"] if exact else 0,
                text_junk=case["seed"] % 2 == 0,
                seed=case["seed"], data_ext=".csv")
    ctx.tag(case["delim"], case["ptr"], *{f["kind"] for f in case["fields"]})
    if any(v is None for _, vals in cols for v in vals):
        ctx.tag("missing values")
    ctx.nontrivial(len(cols) > 1 and n > 1)
    if tamper:
        label = tamper(label)
    data = read(label)
    df = get(data, name)
    d = A.diff(df, cols)
    require(d is None, lambda: f"{name}: {d} ({warned(data)})")


def stream(d, name, block, body, case):
    """no fixed records: the pointer gives a line number"""
    eol = case["eol"]
    unit = ["", " <RECORDS>"][case["seed"] // 2 % 3 == 0]

    def label(v):
        return render([["PDS_VERSION_ID", "PDS3"], ["RECORD_TYPE", "STREAM"],
                       [f"^{name}", v], ["OBJECT", name, block]], eol
                      ) + "END" + eol

    if case["attached"]:
        n = label("999").count(eol) + 1
        (d / "prod.csv").write_bytes((label(f"{n}{unit}") + body).encode())
        return d / "prod.csv"
    before = "".join(f"before {i}, y{eol}" for i in range(case["gap"]))
    (d / "prod.csv").write_bytes((before + body).encode())
    v = f'("prod.csv", {case["gap"] + 1}{unit})'
    if case["gap"] == 0 and case["seed"] % 2:
        v = q("prod.csv")
    (d / "prod.lbl").write_bytes(label(v).encode())
    return d / "prod.lbl"


CHECK = Check(
    property="C12",
    rule=("random field definitions (with multi-item fields and repeating "
          "containers, repeated names) and variable-length, possibly missing "
          "or quoted values for each delimiter, located by record, byte, "
          "line or file; cells compared with the numbers and text written; "
          "non-trivial = more than one column and row"),
    suites=[Suite("spreadsheet", cases, run, quick=1200, thorough=40000),
            Suite("large", large, run, quick=50, thorough=1200)],
    assumptions=[
        "text fields contain a letter first (text that looks like a number, "
        "truth value or missing-value word may be converted)",
        "no record is entirely blank",
        "a spreadsheet whose length in bytes or lines is not given is the "
        "last thing in its file",
        "numbers compared to within 4 units in the last place",
    ],
)
