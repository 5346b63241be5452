"""C03: attached labels give the same metadata as detached ones."""
from vp.core import Check, Suite, require
from vp.common import read, seeds, st
from vp import pvlgen as P
from vp.pds3 import junk

CHUNK = 51200
ENDS = {
    # name: (END statement text, is a line end included)
    "plain": "END{eol}",
    "spaces": "END{sp}{eol}",     # trailing blanks before the line end (CRLF)
    "padded": "END{pad}",         # no line end, eight or more blanks
}


@st.composite
def cases(draw):
    lay = draw(P.layouts())
    end = draw(st.sampled_from(
        ["plain", "plain", "padded"]
        + (["spaces"] if lay["eol"] == "\r\n" else [])))
    near = draw(st.sampled_from([None, 0, 1, 1, 1, 2, 3]))
    return {
        "tree": draw(P.trees(depth=2, max_nodes=6)),
        "lay": lay,
        "end": end,
        "nsp": draw(st.integers(1, 8)),
        "npad": draw(st.integers(8, 60)),
        # where the newline before END is to fall, relative to 20 + k chunks
        "near": near,
        "delta": draw(st.integers(-24, 4)) if near is not None else None,
        "pad": draw(st.sampled_from(["none", "space", "null", "eol"])),
        "padn": draw(st.integers(0, 600)),
        "after": draw(st.sampled_from(
            ["none", "bits", "bits", "zeros", "text", "label"])),
        "aftern": draw(st.integers(1, 4000)),
        "seed": draw(seeds()),
    }


def build(case):
    lay, eol = case["lay"], case["lay"]["eol"]
    head = {"k": "PDS_VERSION_ID", "v": {"t": "sym", "v": "PDS3"},
            "wrap": False, "c": None}
    nodes = [head] + case["tree"]
    body = P.render_tree(nodes, lay)
    want = P.denote(nodes)
    raw = body.encode()
    if case["near"] is not None:
        # the byte *before* "END" (the newline) sits at index `target`
        target = 20 + case["near"] * CHUNK + case["delta"]
        if case["near"] == 0:
            target = None
            if len(raw) > 40 and case["seed"] % 2 == 0:
                # a label whose END is inside the first few bytes
                raw, want = b"A" + b" " * (case["seed"] % 9) + b"=1\n", [
                    ("A", 1)]
        if target is not None:
            need = target + 1 - len(raw)
            i = 0
            fill = []
            while need > 0:
                k = f"FILL_{i:05d}"
                over = len(k) + 5 + len(eol)  # key, ' = ', quotes
                n = min(need, 160)
                if need - n < 40 and n != need:
                    n = need - 60
                if n < over:
                    break
                fill.append(f'{k} = "{"x" * (n - over)}"{eol}')
                want.append((k, "x" * (n - over)))
                need -= n
                i += 1
            raw += "".join(fill).encode()
    end = ENDS[case["end"]].format(
        eol=eol, sp=" " * case["nsp"], pad=" " * case["npad"]).encode()
    pad = {"none": b"", "space": b" " * case["padn"],
           "null": b"\0" * case["padn"],
           "eol": eol.encode() * (case["padn"] % 40)}[case["pad"]]
    n, seed = case["aftern"], case["seed"]
    after = {
        "none": b"", "bits": junk(n, seed), "zeros": b"\0" * n,
        "text": junk(n, seed, True),
        "label": b"\r\nOBJECT = X\r\n  LATER = 5\r\nEND_OBJECT = X\r\n"
                 b"END\r\n" + junk(n, seed),
    }[case["after"]]
    if len(raw + end) < 20:
        # the reader looks at the first 20 bytes to recognise binary files
        pad = b" " * 20 + pad
    return raw, want, end, pad + after


def canon(b):
    return b.decode().replace("\r\n", "\n").rstrip()


def run(case, ctx):
    with ctx.building():
        raw, want, end, rest = build(case)
        (ctx.dir / "det").mkdir()
        (ctx.dir / "att").mkdir()
        det = ctx.dir / "det" / "prod.lbl"
        det.write_bytes(raw + end)
        att = ctx.dir / "att" / "prod.img"
        att.write_bytes(raw + end + rest)
    pos = len(raw) - 1
    ctx.tag("end=" + case["end"], "after=" + case["after"],
            "eol=" + repr(case["lay"]["eol"]), f"near={case['near']}")
    straddles = any(
        pos < 20 + k * CHUNK < pos + 13 for k in range(0, 21))
    ctx.tag("straddles" if straddles else "inside a chunk")
    ctx.nontrivial(len(want) > 2 and len(rest) > 0)
    for what, path in (("detached", det), ("attached", att)):
        data = read(path)
        d = P.diff_tree(data.metadata, want)
        require(d is None, lambda: (
            f"{what} label, END at byte {pos + 1}, end={case['end']}, "
            f"followed by {rest[:24]!r}: {d}"))
        got = data["LABEL"]
        require(isinstance(got, str) and got.rstrip() == canon(raw + end),
                lambda: f"{what} LABEL text differs: got "
                        f"{str(got)[:40]!r}...{str(got)[-60:]!r}, expected "
                        f"...{canon(raw + end)[-60:]!r}")


def fixed():
    out = []
    base = {
        "tree": [], "end": "plain", "nsp": 3, "npad": 20, "pad": "none",
        "padn": 0, "after": "bits", "aftern": 200, "seed": 1,
    }
    for eol in ("\r\n", "\n"):
        lay = {"eol": eol, "width": 30, "indent": 2, "blank": 0, "sep": ", ",
               "comments": False}
        for delta in range(-24, 3):
            for near in (1, 2):
                out.append({**base, "lay": lay, "near": near, "delta": delta,
                            "end": "padded" if delta % 3 == 0 else "plain"})
        # just under the size limit
        out.append({**base, "lay": lay, "near": 18, "delta": -7})
    return out


CHECK = Check(
    property="C03",
    rule=(
        "A case is a label text (generated statements plus filler that puts "
        "its END statement at a chosen byte, mostly around the reader's "
        "chunk boundaries), a form of END statement, padding and following "
        "bytes. The same text is read attached and detached; both must give "
        "exactly the statements written, and the LABEL object must be the "
        "text. Non-trivial: at least three statements and at least one byte "
        "after the label."
    ),
    suites=[Suite("attached", cases, run, quick=1200, thorough=30000,
                  examples=fixed)],
    assumptions=[
        "END stands alone on its line, optionally followed by up to eight "
        "blanks before a CRLF, or by eight or more blanks of padding",
    ],
)
