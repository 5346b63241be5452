"""C06: QUBE cores are extracted exactly."""
import numpy as np

from vp.core import Check, Suite, require
from vp.common import big, expect_array, far, fills, followed, read, seeds, st
from vp.pds3 import DTYPE_OF, NUMERIC, junk, pixels, write_product

ORDERS = [
    ["SAMPLE", "LINE", "BAND"],   # fastest first
    ["SAMPLE", "BAND", "LINE"],
    ["BAND", "SAMPLE", "LINE"],
]
BST = {
    "SAMPLE LINE BAND": "BAND_SEQUENTIAL",
    "SAMPLE BAND LINE": "LINE_INTERLEAVED",
    "BAND SAMPLE LINE": "SAMPLE_INTERLEAVED",
}
AX = {"BAND": 0, "LINE": 1, "SAMPLE": 2}


@st.composite
def cases(draw):
    t, w, _ = draw(st.sampled_from(NUMERIC))
    order = draw(st.sampled_from(ORDERS))
    dims = {a: draw(st.integers(1, 9)) for a in AX}
    if draw(st.integers(0, 9)) == 0:
        dims["BAND"] = 1
    fix = draw(st.sampled_from([None, "SUFFIX", "SUFFIX", "PREFIX"]))
    axis = draw(st.sampled_from(list(AX))) if fix else None
    items = draw(st.integers(1, 4)) if fix else 0
    # suffix items a whole number of core items wide
    ibytes = draw(st.sampled_from([w, w, 2 * w, 4 * w]))
    return {
        "type": t, "bytes": w, "order": order, "dims": dims, "fix": fix,
        "axis": axis, "items": items, "ibytes": ibytes,
        "aslist": draw(st.booleans()),
        "zeros": draw(st.booleans()),
        "bst": draw(st.booleans()),
        "name": draw(st.sampled_from(["QUBE", "QUBE", "SPECTRAL_QUBE"])),
        "fill": draw(fills()), "seed": draw(seeds()),
        "attached": draw(st.booleans()),
        "ptr": draw(st.sampled_from(["record", "bytes"])),
        "gap": draw(st.sampled_from([0, 1, 3])),
        "trailer": draw(st.sampled_from([0, 1, 500])),
    }


def axis_long(draw, case):
    a = draw(st.sampled_from(list(AX)))
    case["dims"] = {x: draw(st.integers(1, 3)) for x in AX} | {
        a: draw(st.integers(250, 40000))}


def thick(draw, case):
    case["dims"] = {x: draw(st.integers(20, 90)) for x in AX}


def bordered(draw, case):
    if case["fix"]:
        case.update(items=draw(st.integers(30, 300)))
    else:
        axis_long(draw, case)


def large():
    return big(cases, axis_long, thick, bordered, far, followed)


def encode(case):
    w = case["bytes"]
    d = case["dims"]
    shape = [d["BAND"], d["LINE"], d["SAMPLE"]]
    core = pixels(case["fill"], case["seed"], int(np.prod(shape)),
                  DTYPE_OF[(case["type"], w)]).reshape(shape)
    full = core
    if case["fix"]:
        n = case["items"] * case["ibytes"] // w
        pshape = list(shape)
        pshape[AX[case["axis"]]] = n
        plane = np.frombuffer(
            junk(int(np.prod(pshape)) * w, case["seed"] + 1),
            dtype=core.dtype
        ).reshape(pshape)
        parts = [core, plane] if case["fix"] == "SUFFIX" else [plane, core]
        full = np.concatenate(
            parts, axis=AX[case["axis"]]).astype(core.dtype)
    # file order: slowest axis first
    perm = [AX[a] for a in reversed(case["order"])]
    payload = np.ascontiguousarray(np.transpose(full, perm)).tobytes()
    want = core[0] if shape[0] == 1 else core
    return payload, want


def tup(xs):
    return "(" + ", ".join(str(x) for x in xs) + ")"


def block_of(case):
    order = case["order"]
    block = [
        ["AXES", "3"],
        ["AXIS_NAME", tup(order)],
        ["CORE_ITEMS", tup(case["dims"][a] for a in order)],
        ["CORE_ITEM_BYTES", str(case["bytes"])],
        ["CORE_ITEM_TYPE", case["type"]],
    ]
    if case["bst"]:
        block.append(["BAND_STORAGE_TYPE", BST[" ".join(order)]])
    for side in ("PREFIX", "SUFFIX"):
        if case["fix"] != side:
            if case["zeros"] and side == "SUFFIX":
                block.append(["SUFFIX_ITEMS", "(0, 0, 0)"])
                block.append(["SAMPLE_SUFFIX_ITEM_BYTES",
                              str(case["ibytes"])])
            continue
        block.append([f"{side}_ITEMS", tup(
            case["items"] if a == case["axis"] else 0 for a in order)])
        b = str(case["ibytes"])
        if case["aslist"]:
            b = tup([b] * case["items"]) if case["items"] > 1 else b
        block.append([f"{case['axis']}_{side}_ITEM_BYTES", b])
    return block


def run(case, ctx):
    with ctx.building():
        payload, want = encode(case)
        label, _, _ = write_product(
            ctx.dir, [(case["name"], payload, block_of(case))],
            attached=case["attached"], ptr=case["ptr"], gap=case["gap"],
            trailer=case["trailer"], seed=case["seed"], data_ext=".qub",
        )
    ctx.tag(case["type"] + str(case["bytes"]), "order=" + case["order"][0]
            + case["order"][1], f"fix={case['fix']}/{case['axis']}",
            f"attached={case['attached']}")
    ctx.nontrivial(want.size > 1 and len(set(
        case["dims"].values())) > 1)
    got = expect_array(read(label), case["name"], want)
    require(got.flags["C_CONTIGUOUS"], "qube core is not C-contiguous")


def fixed():
    out = []
    base = {
        "aslist": False, "zeros": False, "bst": False, "name": "QUBE",
        "fill": "bits", "seed": 3, "attached": False, "ptr": "record",
        "gap": 0, "trailer": 9,
    }
    for t, w, _ in NUMERIC:
        out.append({**base, "type": t, "bytes": w, "order": ORDERS[w % 3],
                    "dims": {"BAND": 2, "LINE": 3, "SAMPLE": 4},
                    "fix": None, "axis": None, "items": 0, "ibytes": w})
    for order in ORDERS:
        for axis in AX:
            for fix in ("PREFIX", "SUFFIX"):
                for items in (1, 2):
                    for bands in (1, 3):
                        out.append({
                            **base, "type": "SUN_INTEGER", "bytes": 2,
                            "order": order, "fix": fix, "axis": axis,
                            "items": items, "ibytes": 4,
                            "dims": {"BAND": bands, "LINE": 4, "SAMPLE": 5}})
    return out


CHECK = Check(
    property="C06",
    rule=(
        "A case is one QUBE product: axis order x core shape x item type x "
        "optional prefix/suffix planes along one axis x layout; written by an "
        "independent encoder (numpy transpose of core plus plane), read back "
        "with pdr.read and compared element for element. Non-trivial: at "
        "least two elements and two different axis lengths."
    ),
    suites=[Suite("large", large, run, quick=40, thorough=1000),
            Suite("qube", cases, run, quick=3000, thorough=60000,
                  examples=fixed)],
    assumptions=[
        "plane items are a whole number of core items wide and lie along one "
        "axis only (the code rejects anything else)",
        "a one-band qube is presented as a 2-D array, like one-band images",
    ],
)
