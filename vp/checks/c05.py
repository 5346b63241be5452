"""C05: PDS3 IMAGE objects are read pixel-for-pixel."""
import numpy as np

from vp.core import Check, Suite, require
from vp.common import big, expect_array, far, fills, followed, read, seeds, st
from vp.pds3 import DTYPE_OF, NUMERIC, junk, pixels, write_product

BST = ["BAND_SEQUENTIAL", "LINE_INTERLEAVED", "SAMPLE_INTERLEAVED"]


@st.composite
def cases(draw):
    t, w, _ = draw(st.sampled_from(NUMERIC))
    lines = draw(st.one_of(st.integers(1, 7), st.integers(1, 40)))
    samples = draw(st.one_of(st.integers(1, 7), st.integers(1, 40)))
    bands = draw(st.sampled_from([None, None, 1, 2, 3, 4, 5, 7]))
    bst = None
    if bands is not None:
        bst = draw(st.sampled_from(BST))
    pre = suf = 0
    if bst in (None, "LINE_INTERLEAVED") or bands == 1:
        pre = draw(st.sampled_from([0, 0, 1, 2, 5]))
        suf = draw(st.sampled_from([0, 0, 1, 3]))
    attached = draw(st.booleans())
    return {
        "type": t, "bytes": w, "lines": lines, "samples": samples,
        "bands": bands, "bst": bst, "pre": pre, "suf": suf,
        "fill": draw(fills()), "seed": draw(seeds()),
        "attached": attached,
        "ptr": draw(st.sampled_from(
            ["record", "bytes"] + ([] if attached else ["file"]))),
        "record_bytes": draw(st.sampled_from([64, 80, 37, 512])),
        "gap": draw(st.sampled_from([0, 0, 1, 3])),
        "trailer": draw(st.sampled_from([0, 0, 1, 17, 1000])),
        "spaces": draw(st.booleans()),
        "explicit_zero": draw(st.booleans()),
    }


def long(draw, case):
    case.update(lines=draw(st.integers(30000, 70000)),
                samples=draw(st.integers(1, 3)), bands=None, bst=None)


def wide(draw, case):
    case.update(samples=draw(st.integers(30000, 140000)),
                lines=draw(st.integers(1, 4)))
    if case["bst"] == "SAMPLE_INTERLEAVED":
        case["bst"] = "BAND_SEQUENTIAL"


def deep(draw, case):
    case.update(bands=draw(st.integers(90, 400)),
                bst=draw(st.sampled_from(BST)),
                lines=draw(st.integers(1, 12)),
                samples=draw(st.integers(1, 12)))
    if case["bst"] != "LINE_INTERLEAVED":
        case.update(pre=0, suf=0)


def square(draw, case):
    case.update(lines=draw(st.integers(300, 1300)),
                samples=draw(st.integers(300, 1300)))
    if case["bst"] == "SAMPLE_INTERLEAVED":
        case["bst"] = "LINE_INTERLEAVED"


def margins(draw, case):
    if case["bst"] == "SAMPLE_INTERLEAVED":
        case["bst"] = "LINE_INTERLEAVED"
    if case["bst"] == "BAND_SEQUENTIAL":
        case.update(bands=1)
    case.update(pre=draw(st.integers(0, 300)), suf=draw(st.integers(0, 300)))


def large():
    return big(cases, long, wide, deep, square, far, followed, margins)


def encode(case):
    """-> (payload bytes, expected array)"""
    dt = DTYPE_OF[(case["type"], case["bytes"])]
    b = case["bands"] or 1
    shape = (b, case["lines"], case["samples"])
    arr = pixels(case["fill"], case["seed"], int(np.prod(shape)), dt)
    arr = arr.reshape(shape)
    w = case["bytes"]
    chunks = []
    k = 0

    def extra(n):
        nonlocal k
        k += 1
        return junk(n * w, case["seed"] + k)

    if case["bst"] in (None, "BAND_SEQUENTIAL") or b == 1:
        for ib in range(b):
            for il in range(shape[1]):
                chunks.append(extra(case["pre"]))
                chunks.append(arr[ib, il, :].tobytes())
                chunks.append(extra(case["suf"]))
    elif case["bst"] == "LINE_INTERLEAVED":
        for il in range(shape[1]):
            chunks.append(extra(case["pre"]))
            for ib in range(b):
                chunks.append(arr[ib, il, :].tobytes())
            chunks.append(extra(case["suf"]))
    else:
        for il in range(shape[1]):
            for isamp in range(shape[2]):
                chunks.append(arr[:, il, isamp].tobytes())
    want = arr[0] if b == 1 else arr
    return b"".join(chunks), want


def block_of(case):
    t = case["type"]
    if case["spaces"]:
        t = '"' + t.replace("_", " ") + '"'
    block = [
        ["LINES", str(case["lines"])],
        ["LINE_SAMPLES", str(case["samples"])],
        ["SAMPLE_TYPE", t],
        ["SAMPLE_BITS", str(case["bytes"] * 8)],
    ]
    if case["bands"] is not None:
        block.append(["BANDS", str(case["bands"])])
        block.append(["BAND_STORAGE_TYPE", case["bst"]])
    for key, n in (("PREFIX", case["pre"]), ("SUFFIX", case["suf"])):
        if n or case["explicit_zero"]:
            block.append([f"LINE_{key}_BYTES", str(n * case["bytes"])])
    return block


def run(case, ctx):
    with ctx.building():
        payload, want = encode(case)
        label, _, _ = write_product(
            ctx.dir, [("IMAGE", payload, block_of(case))],
            attached=case["attached"], ptr=case["ptr"],
            record_bytes=case["record_bytes"], gap=case["gap"],
            trailer=case["trailer"], seed=case["seed"],
        )
    ctx.tag(case["type"] + str(case["bytes"]), f"bst={case['bst']}",
            f"ptr={case['ptr']}", f"attached={case['attached']}")
    ctx.tag(*[k for k in ("pre", "suf", "gap", "trailer") if case[k]])
    ctx.nontrivial(want.size > 1 and len(np.unique(want.view(
        f"u{case['bytes']}"))) > 1)
    data = read(label)
    got = expect_array(data, "IMAGE", want)
    require(got.flags["C_CONTIGUOUS"], "image array is not C-contiguous")


def fixed():
    """every type/width once with every layout (enumerated, not sampled)"""
    out = []
    for i, (t, w, _) in enumerate(NUMERIC):
        for j, (bands, bst) in enumerate(
            [(None, None)] + [(3, b) for b in BST]
        ):
            out.append({
                "type": t, "bytes": w, "lines": 3, "samples": 4,
                "bands": bands, "bst": bst, "pre": 0, "suf": 0,
                "fill": ["bits", "edge"][(i + j) % 2], "seed": i * 7 + j,
                "attached": bool((i + j) % 2), "ptr": "record",
                "record_bytes": 64, "gap": j % 2, "trailer": 5,
                "spaces": False, "explicit_zero": False,
            })
    return out


CHECK = Check(
    property="C05",
    rule=(
        "A case is one PDS3 IMAGE product written by an independent encoder: "
        "a sample type x width, lines x samples x bands, band storage order, "
        "line prefix/suffix, pointer style, attached or detached label, "
        "surrounding junk bytes (the large ones: tens of thousands of lines or "
        "samples, hundreds of bands, millions of bytes); read back through pdr.read and compared "
        "element for element. Non-trivial: the image holds at least two "
        "distinct pixel bit patterns."
    ),
    suites=[Suite("image", cases, run, quick=1600, thorough=60000,
                  examples=fixed),
            Suite("large", large, run, quick=60, thorough=1600)],
    assumptions=[
        "numpy's own interpretation of its dtype strings is trusted",
        "line prefixes/suffixes are whole numbers of pixels, and on multiband "
        "images occur once per line of a LINE_INTERLEAVED image",
    ],
)
