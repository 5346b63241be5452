"""C30: text and header objects contain exactly the designated text."""
import gzip
import re

from vp.core import Check, Suite, require
from vp.common import get, read, seeds, st, warned
from vp.pds3 import junk, q, render

EOLS = ["\r\n", "\r\n", "\n", "\r"]
ASCII = "".join(map(chr, range(32, 127))) + "\t\f\v\x1c\x00\x1a"
LATIN = ASCII + "\xe9\xb5\xb0\xff\x85\xa0\xb1"
WIDE = ASCII + "\xe9\u03bc\u2028\u4e2d\U0001f680\u0301\ufeff"


@st.composite
def lines(draw, alphabet, max_lines=8):
    out = draw(st.lists(st.tuples(
        st.text(alphabet, max_size=25), st.sampled_from(EOLS)),
        max_size=max_lines))
    eol = draw(st.sampled_from(EOLS + [None]))
    # mostly the same line ending throughout
    text = "".join(t + (e if eol is None else eol) for t, e in out)
    return text + draw(st.sampled_from(["", "", "", "last", "\r", " "]))


def canonical(text):
    return re.sub("\r\n?", "\n", text)


# ----------------------------------------------------------------- headers
@st.composite
def headers(draw):
    return {"text": draw(lines(LATIN)), "seed": draw(seeds()),
            "big": draw(st.sampled_from([0] * 12 + [79990, 80001, 200000])),
            "before": draw(st.sampled_from([0, 0, 1, 10, 77])),
            "after": draw(st.sampled_from([0, 1, 50])),
            "edge": [draw(st.sampled_from(["", "", "\r", "\n", "\r\n"])),
                     draw(st.sampled_from(["", "", "\r", "\n", "\r\n"]))],
            "pointer": draw(st.sampled_from(
                ["bytes", "bytes", "record", "file"])),
            "length": draw(st.sampled_from(
                ["bytes", "bytes", "records", "own", "rows", "suffix"])),
            "record": draw(st.sampled_from([1, 2, 7, 16, 80])),
            "name": draw(st.sampled_from(
                ["HEADER", "IMAGE_HEADER", "TABLE_HEADER", "VICAR_HEADER",
                 "SPREADSHEET_HEADER", "HISTORY_HEADER"])),
            "stream": draw(st.booleans()), "gz": draw(st.integers(0, 4)) == 0,
            "attached": draw(st.integers(0, 3)) == 0,
            "extra": draw(st.booleans())}


def run_header(case, ctx):
    with ctx.building():
        rb = case["record"]
        body = case["text"].encode("latin-1")
        if case["big"]:
            body = (body + b"0123456789abcde\n") * (
                case["big"] // (len(body) + 16) + 1)
            body = body[:case["big"]]
        before = junk(case["before"], case["seed"]) + case["edge"][
            0].encode()
        if case["attached"]:
            case["pointer"] = "bytes"
            case["gz"] = False
        if case["pointer"] == "file":
            before = b""
        elif case["pointer"] == "record":
            before += b"-" * (-len(before) % rb)
        if not body:
            body = b"x"
        if case["length"] != "bytes":
            body += b" " * (-len(body) % rb)
        n = len(body) // rb
        block = {
            "bytes": [["BYTES", str(len(body))]],
            "records": [["RECORDS", str(n)]],
            "own": [["RECORDS", str(n)], ["RECORD_BYTES", str(rb)]],
            "rows": [["ROWS", str(n)], ["ROW_BYTES", str(rb)]],
            "suffix": [["ROWS", str(n)], ["ROW_BYTES", str(rb - 1)],
                       ["ROW_SUFFIX_BYTES", "1"]],
        }[case["length"]]
        if case["extra"]:
            block += [["HEADER_TYPE", "VICAR2"],
                      ["INTERCHANGE_FORMAT", "ASCII"]]
        # records of streams have no length: positions and lengths in bytes
        stream = (case["stream"] and case["length"] == "bytes"
                  and case["pointer"] != "record")
        name, body0 = case["name"], body

        def label(at):
            target = {"bytes": f"{at + 1} <BYTES>",
                      "record": str(at // rb + 1),
                      "file": q("data.txt")}[case["pointer"]]
            if case["pointer"] != "file" and not case["attached"]:
                target = f"({q('data.txt')}, {target})"
            return (render(
                [["PDS_VERSION_ID", "PDS3"]] + (
                    [["RECORD_TYPE", "STREAM"]] if stream else
                    [["RECORD_TYPE", "FIXED_LENGTH"],
                     ["RECORD_BYTES", str(rb)]])
                + [[f"^{name}", target], ["OBJECT", name, block]])
                + "END\r\n").encode()

        data = (before + body + case["edge"][1].encode()
                + junk(case["after"], case["seed"] + 1))
        if case["attached"]:
            start = 600
            text = label(start + len(before))
            path = ctx.dir / "p.img"
            path.write_bytes(text.ljust(start) + data)
        else:
            path = ctx.dir / "p.lbl"
            path.write_bytes(label(len(before)))
            if case["gz"]:
                (ctx.dir / "data.txt.gz").write_bytes(gzip.compress(data, 1))
            else:
                (ctx.dir / "data.txt").write_bytes(data)
    ctx.tag(case["pointer"], case["length"], "stream" if stream else "fixed")
    ctx.nontrivial(len(before) > 0 or len(data) > len(before) + len(body))
    data = read(path)
    got = get(data, name)
    want = canonical(body0.decode("latin-1"))
    require(got == want, lambda: (
        f"{name} is {str(got)[:200]!r} ({len(str(got))}), expected "
        f"{want[:200]!r} ({len(want)}) ({warned(data)})"))


# ------------------------------------------------- headers of stream files
@st.composite
def streams(draw):
    alphabet = draw(st.sampled_from([ASCII, WIDE]))
    return {"text": draw(lines(alphabet, 14)),
            "binary": draw(st.sampled_from([0, 0, 40])),
            "seed": draw(seeds()),
            "far": draw(st.sampled_from([0] * 12 + [90, 1000, 5000])),
            "start": draw(st.integers(0, 12)), "n": draw(st.integers(1, 8)),
            "target": draw(st.sampled_from(["line", "line", "file"])),
            "unit": draw(st.sampled_from(["RECORDS", "RECORDS", "ROWS"])),
            "name": draw(st.sampled_from(["HEADER", "TABLE_HEADER",
                                          "SPREADSHEET_HEADER"])),
            "gz": draw(st.integers(0, 4)) == 0}


def split(text):
    return re.findall("[^\n]*\n|[^\n]+", canonical(text))


def run_stream(case, ctx):
    with ctx.building():
        body = case["text"].encode() + junk(case["binary"], case["seed"])
        start = 0 if case["target"] == "file" else case["start"]
        far = case["far"]
        if far:
            body = b"".join(b"line %d\r\n" % i for i in range(far)) + body
            if start == 0:
                case["n"] += far
            else:
                start += far
        name = case["name"]
        target = (q("data.tab") if case["target"] == "file"
                  else f"({q('data.tab')}, {start + 1})")
        (ctx.dir / "p.lbl").write_bytes((render([
            ["PDS_VERSION_ID", "PDS3"], ["RECORD_TYPE", "STREAM"],
            [f"^{name}", target],
            ["OBJECT", name, [[case["unit"], str(case["n"])],
                              ["INTERCHANGE_FORMAT", "ASCII"]]]])
            + "END\r\n").encode())
        if case["gz"]:
            (ctx.dir / "data.tab.gz").write_bytes(gzip.compress(body, 1))
        else:
            (ctx.dir / "data.tab").write_bytes(body)
        every = split(body.decode("utf-8", errors="replace"))
        want = "".join(every[start:start + case["n"]])
    ctx.tag("lines", case["target"])
    ctx.nontrivial(bool(want) and len(every) > case["n"])
    data = read(ctx.dir / "p.lbl")
    got = get(data, name)
    require(got == want, lambda: (
        f"{name}, lines {start} to {start + case['n']}, is {got!r}, expected "
        f"{want!r} ({warned(data)})"))


# -------------------------------------------------------------------- texts
@st.composite
def texts(draw):
    enc = draw(st.sampled_from(["utf-8", "utf-8", "ascii", "latin-1"]))
    return {"text": draw(lines({"ascii": ASCII, "latin-1": LATIN,
                                "utf-8": WIDE}[enc], 14)),
            "encoding": enc, "gz": draw(st.integers(0, 3)) == 0,
            "name": draw(st.sampled_from(
                ["TEXT", "DESCRIPTION", "IMAGE_DESC", "LABEL_TEXT",
                 "DATA_DESCRIPTION", "MAP_PROJECTION_CATALOG", "TEXT_FILE",
                 "TEXT_TABLE"])),
            "file": draw(st.sampled_from(["a.txt", "B.TXT", "readme", "x.cat",
                                          "notes.asc"])),
            "asked": draw(st.sampled_from(["same", "upper", "lower"])),
            "label": draw(lines(WIDE.replace("\x00", ""), 4)),
            "label_encoding": draw(st.sampled_from(
                ["utf-8", "utf-8", "latin-1"])),
            "attached": draw(st.booleans()),
            "end": draw(st.sampled_from(["END\r\n", "END\n", "END   \r\n"])),
            "after": draw(st.sampled_from([b"".hex(), b"\0\0\0\0".hex(),
                                           b"binary \xff\xfe".hex()]))}


def run_text(case, ctx):
    with ctx.building():
        body = case["text"].encode(case["encoding"])
        fn = case["file"]
        if case["gz"] and "." in fn:
            (ctx.dir / (fn + ".gz")).write_bytes(gzip.compress(body))
        else:
            (ctx.dir / fn).write_bytes(body)
        asked = fn if case["asked"] == "same" else getattr(
            fn, case["asked"])()
        eol = case["end"][-2:] if case["end"].endswith("\r\n") else "\n"
        comment = re.sub(r'[\s"/=^]+', " ", case["label"])
        try:
            note = comment.encode(case["label_encoding"])
        except UnicodeEncodeError:
            note = comment.encode("ascii", "replace")
        label = (render([["PDS_VERSION_ID", "PDS3"],
                         [f"^{case['name']}", q(asked)]], eol)
                 + f"NOTE                   = \"").encode() + note + (
                     f'"{eol}OBJECT                 = IMAGE{eol}'
                     f"END_OBJECT             = IMAGE{eol}"
                     + case["end"]).encode()
        path = ctx.dir / "p.lbl"
        path.write_bytes(label + bytes.fromhex(case["after"])
                         if case["attached"] else label)
    ctx.tag("text", case["encoding"])
    ctx.nontrivial(len(body) > 0)
    data = read(path)
    got = get(data, case["name"])
    want = canonical(case["text"])
    if case["encoding"] == "latin-1":
        try:  # it might happen to be valid UTF-8
            want = canonical(body.decode("utf-8"))
        except UnicodeDecodeError:
            pass
    require(got == want, lambda: (
        f"{case['name']} is {got!r}, expected {want!r} ({warned(data)})"))
    got = get(data, "LABEL")
    want = canonical(label.decode("utf-8", errors="replace")).rstrip()
    require(isinstance(got, str) and got.rstrip() == want, lambda: (
        f"LABEL is {got!r}, expected {want!r} ({warned(data)})"))


CHECK = Check(
    property="C30",
    rule=("the designated text is not empty (text), is preceded or followed by "
          "other bytes in its file (header), or by other lines (stream)"),
    assumptions=[
        "bytes of a header are characters of ISO-8859-1; lines of a stream "
        "header are UTF-8, undecodable bytes being replaced; text files are "
        "UTF-8, or else ISO-8859-1",
        "line endings are CRLF, LF or CR, canonicalised to LF",
        "headers are not read from PDF files"],
    suites=[Suite("header", headers, run_header, quick=500, thorough=40000),
            Suite("stream", streams, run_stream, quick=300, thorough=20000),
            Suite("text", texts, run_text, quick=400, thorough=20000)],
)
