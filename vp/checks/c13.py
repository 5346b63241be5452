"""C13: bit columns give exactly the defined bits of the bit string."""
from vp.core import Check, Suite, require
from vp.common import get, read, seeds, st, warned
from vp import tables as T
from vp.pds3 import write_product

MSB = ["MSB_INTEGER", "MSB_UNSIGNED_INTEGER", "UNSIGNED_INTEGER", "BOOLEAN"]
LSB = ["LSB_INTEGER", "LSB_UNSIGNED_INTEGER", "PC_UNSIGNED_INTEGER"]


@st.composite
def bit_fields(draw, i):
    width = draw(st.one_of(st.integers(1, 12), st.integers(1, 40)))
    n = width * 8
    bits, at = [], 0
    order = draw(st.booleans())
    # a few substrings of any length, or many short ones
    most, longest = draw(st.sampled_from([(6, 12), (6, n), (40, 3)]))
    while at < n and len(bits) < most:
        at += draw(st.sampled_from([0, 0, 0, 1, 3]))
        size = draw(st.integers(1, longest))
        items = draw(st.sampled_from([None, None, None, 1, 2, 3, 5, 8]))
        pad = draw(st.sampled_from([0, 0, 1])) if items else 0
        span = size if not items else items * (size + pad) - pad
        if at + span > n:
            break
        bits.append({"start": at, "size": size, "items": items, "pad": pad})
        at += span
    if not bits:
        bits = [{"start": 0, "size": n, "items": None}]
    if not order:
        bits = draw(st.permutations(bits))
    lsb = draw(st.booleans())
    if draw(st.booleans()):
        ctype = "LSB_BIT_STRING" if lsb else "MSB_BIT_STRING"
        # a bit string's own type governs its byte order
        bit_type = draw(st.sampled_from(MSB + LSB))
    else:
        ctype = draw(st.sampled_from(
            ["MSB_UNSIGNED_INTEGER", "LSB_UNSIGNED_INTEGER", "INTEGER",
             "UNSIGNED INTEGER"]))
        if " " in ctype:
            ctype = f'"{ctype}"'
        bit_type = draw(st.sampled_from(LSB if lsb else MSB))
    return {"kind": "col", "name": f"BITS{i}", "type": ctype, "bytes": width,
            "gap": draw(T.gaps()), "bits": bits, "lsb": lsb,
            "bit_type": bit_type}


@st.composite
def cases(draw):
    t = draw(T.tables(max_rows=8, max_fields=3, depth=1))
    flds = t["fields"]
    for i in range(draw(st.integers(1, 3))):
        target = flds
        conts = [f for f in flds if f["kind"] == "cont"]
        if conts and draw(st.booleans()):
            target = conts[0]["fields"]
        target.insert(draw(st.integers(0, len(target))), draw(bit_fields(i)))
    return {"t": t, "seed": draw(seeds()), "attached": draw(st.booleans()),
            "instrument": draw(st.sampled_from(
                [None, "SPECTRAL IMAGER", "MAPPER"]))}


def run(case, ctx):
    t = case["t"]
    with ctx.building():
        body, cols = T.encode(t, case["seed"])
        block, _ = T.table_block(t)
        head = [["INSTRUMENT_NAME", f'"{case["instrument"]}"']] if case[
            "instrument"] else []
        label, _, _ = write_product(
            ctx.dir, [("TABLE", body.tobytes(), block)],
            attached=case["attached"], seed=case["seed"], data_ext=".dat",
            trailer=5, head=head)
    bits = [x[4] for x in T.flatten(t["fields"]) if "bits" in x[4]]
    ctx.tag(*{f"{f['bytes']} bytes" for f in bits},
            *{"lsb" if f["lsb"] else "msb" for f in bits})
    ctx.nontrivial(any(len(T.bit_runs(f)) > 1 for f in bits))
    data = read(label)
    d = T.diff_table(get(data, "TABLE"), cols)
    require(d is None, lambda: f"{d} ({warned(data)})")


CHECK = Check(
    property="C13",
    rule=("tables with 1-3 bit columns (1-40 bytes wide, either byte order, "
          "bit substrings in any order with gaps, multi-item bit columns with "
          "or without padding, inside or outside containers) among ordinary "
          "columns, random bytes; every row's list must equal the substrings "
          "of the independently built bit string; non-trivial = some column "
          "defines more than one substring"),
    suites=[Suite("bits", cases, run, quick=1200, thorough=40000)],
    assumptions=[
        "a column whose DATA_TYPE is a bit string takes its byte order from "
        "that type, otherwise from BIT_DATA_TYPE",
    ],
)
