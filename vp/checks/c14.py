"""C14: VAX and IBM reals decode to the numbers their bits denote."""
import math

import numpy as np

from vp.core import Check, Suite, Violation, require
from vp.common import get, read, seeds, st, warned
from vp.pds3 import junk, write_product


# ------------------------------------------------------------- the two formats
def vax_value(u):
    """u: the 32 bits with the sign bit highest; None for reserved operands"""
    s, e, f = u >> 31, (u >> 23) & 0xFF, u & 0x7FFFFF
    if e == 0:
        return None if s or f else 0.0
    return (-1) ** s * math.ldexp(f | 0x800000, e - 128 - 24)


def vax_bytes(u):
    """VAX memory order: high word first, each word little-endian"""
    hi, lo = u >> 16, u & 0xFFFF
    return bytes([hi & 255, hi >> 8, lo & 255, lo >> 8])


def ibm_value(u, width):
    """exact as (sign, fraction int, binary exponent)"""
    bits = width * 8
    s, e = u >> (bits - 1), (u >> (bits - 8)) & 0x7F
    f = u & ((1 << (bits - 8)) - 1)
    return s, f, 4 * (e - 64) - (bits - 8)


def nearest(s, f, k, dtype):
    """correctly rounded to a numpy float type (the fraction has <= 56 bits)"""
    if f == 0:
        return 0.0
    if dtype == np.dtype("f8"):
        return (-1) ** s * math.ldexp(f, k)  # int -> float rounds to nearest
    assert f < 2 ** 53
    with np.errstate(all="ignore"):
        return float(np.float32((-1) ** s * math.ldexp(f, k)))


def patterns(width):
    """bit patterns, as integers"""
    n = width * 8
    exps = st.integers(0, 255)
    frac = st.one_of(
        st.integers(0, 2 ** (n - 8) - 1),
        st.sampled_from([0, 1, 2 ** (n - 8) - 1, 2 ** (n - 9), 2 ** (n - 12)]))
    return st.one_of(
        st.integers(0, 2 ** n - 1),
        st.builds(lambda a, b: (a << (n - 8)) | b, exps, frac),
        # near one
        st.builds(lambda a, b: (a << (n - 8)) | b,
                  st.sampled_from([0x40, 0x41, 0xC0, 0x3F, 0xC1]), frac),
        st.sampled_from([0, 2 ** n - 1, 2 ** (n - 1) - 1, 1]),
    )


def vax_patterns():
    return patterns(4).map(
        lambda u: 0 if vax_value(u) is None else u)


# --------------------------------------------------------------------- images
@st.composite
def image_cases(draw):
    lines, samples = draw(st.integers(1, 5)), draw(st.integers(1, 6))
    bands = draw(st.sampled_from([None, None, 1, 2, 3]))
    n = lines * samples * (bands or 1)
    return {
        "lines": lines, "samples": samples, "bands": bands,
        "storage": draw(st.sampled_from(
            ["BAND_SEQUENTIAL", "LINE_INTERLEAVED", "SAMPLE_INTERLEAVED"])),
        "type": draw(st.sampled_from(["VAX_REAL", '"VAX_REAL"', '"VAX REAL"'])),
        "prefix": draw(st.sampled_from([0, 0, 1, 2]))
        if not bands or bands == 1 else 0,
        "suffix": draw(st.sampled_from([0, 0, 1, 2]))
        if not bands or bands == 1 else 0,
        "bits": draw(st.lists(vax_patterns(), min_size=n, max_size=n)),
        "qube": draw(st.sampled_from([False, False, True])),
        "attached": draw(st.booleans()), "seed": draw(seeds()),
    }


def run_image(case, ctx):
    with ctx.building():
        L, S, B = case["lines"], case["samples"], case["bands"]
        bits = np.array(case["bits"], dtype="u4").reshape(B or 1, L, S)
        want = np.array([vax_value(int(u)) for u in bits.ravel()]).astype(
            "f4").reshape(bits.shape)
        raw = np.array([list(vax_bytes(int(u))) for u in bits.ravel()],
                       "u1").reshape(B or 1, L, S, 4)
        qube = case["qube"]
        st_ = case["storage"] if B else "BAND_SEQUENTIAL"
        order = {"BAND_SEQUENTIAL": (0, 1, 2, 3),
                 "LINE_INTERLEAVED": (1, 0, 2, 3),
                 "SAMPLE_INTERLEAVED": (1, 2, 0, 3)}[st_]
        pre, suf = case["prefix"], case["suffix"]
        arr = raw.transpose(order)
        if qube:
            pre = suf = 0
        if pre or suf:
            arr = arr.reshape(L, S * 4)
            arr = np.hstack([
                np.frombuffer(junk(L * pre * 4, case["seed"]), "u1").reshape(
                    L, -1), arr,
                np.frombuffer(junk(L * suf * 4, case["seed"] + 1),
                              "u1").reshape(L, -1)])
        if qube:
            axes = {"BAND_SEQUENTIAL": "(SAMPLE,LINE,BAND)",
                    "LINE_INTERLEAVED": "(SAMPLE,BAND,LINE)",
                    "SAMPLE_INTERLEAVED": "(BAND,SAMPLE,LINE)"}[st_]
            n = {"SAMPLE": S, "LINE": L, "BAND": B or 1}
            items = ",".join(str(n[a]) for a in axes[1:-1].split(","))
            name, block = "QUBE", [
                ["AXES", "3"], ["AXIS_NAME", axes],
                ["CORE_ITEMS", f"({items})"], ["CORE_ITEM_BYTES", "4"],
                ["CORE_ITEM_TYPE", case["type"]]]
        else:
            name, block = "IMAGE", [
                ["LINES", str(L)], ["LINE_SAMPLES", str(S)],
                ["SAMPLE_TYPE", case["type"]], ["SAMPLE_BITS", "32"]]
            if pre:
                block.append(["LINE_PREFIX_BYTES", str(pre * 4)])
            if suf:
                block.append(["LINE_SUFFIX_BYTES", str(suf * 4)])
            if B:
                block += [["BANDS", str(B)], ["BAND_STORAGE_TYPE", st_]]
        label, _, _ = write_product(
            ctx.dir, [(name, arr.tobytes(), block)],
            attached=case["attached"], trailer=3, seed=case["seed"])
    if not qube and (B or 1) == 1:
        want = want[0]
    ctx.tag(name, st_, case["type"].strip('"'))
    ctx.nontrivial(len(set(case["bits"])) > 1)
    data = read(label)
    got = get(data, name)
    require(got.__class__.__name__ == "ndarray",
            lambda: f"did not load: {warned(data)}")
    if qube and (B or 1) == 1 and got.shape == want.shape[1:]:
        want = want[0]
    require(got.shape == want.shape, lambda: f"shape {got.shape}")
    require(got.dtype.kind == "f", lambda: f"dtype {got.dtype}")
    bad = np.argwhere(~(got.astype("f8") == want))
    require(len(bad) == 0, lambda: (
        f"at {bad[0].tolist()}: {got[tuple(bad[0])]!r}, expected "
        f"{want[tuple(bad[0])]!r}"))


# --------------------------------------------------------------------- tables
@st.composite
def table_cases(draw):
    rows = draw(st.integers(1, 6))
    cols = []
    for i in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["vax", "ibm4", "ibm8", "other"]))
        items = draw(st.sampled_from([None, None, None, 1, 2, 3]))
        if kind == "other":
            items = None
        pat = {"vax": vax_patterns, "ibm4": lambda: patterns(4),
               "ibm8": lambda: patterns(8),
               "other": lambda: st.integers(0, 2 ** 32 - 1)}[kind]()
        if kind in ("ibm4", "ibm8") and draw(st.booleans()):
            # moderate magnitudes only: a float32 column stays float32
            w = int(kind[3])
            pat = st.builds(
                lambda a, b: (a << (8 * w - 8)) | b,
                st.sampled_from([0x3E, 0x40, 0x41, 0x42, 0xC2, 0x48]),
                st.integers(0, 2 ** (8 * w - 8) - 1))
        n = rows * (items or 1)
        cols.append({"kind": kind, "items": items, "gap": draw(
            st.sampled_from([0, 0, 1])),
            "explicit": draw(st.booleans()),
            "bits": draw(st.lists(pat, min_size=n, max_size=n))})
    return {"rows": rows, "cols": cols, "seed": draw(seeds()),
            "tail": draw(st.sampled_from([0, 3]))}


def run_table(case, ctx):
    n = case["rows"]
    with ctx.building():
        parts, blocks, want, at = [], [], [], 1
        for i, c in enumerate(case["cols"]):
            k = c["kind"]
            w = 8 if k == "ibm8" else 4
            m = c["items"] or 1
            bits = np.array(c["bits"], dtype=object).reshape(n, m)
            if k == "vax":
                enc = vax_bytes
            else:
                def enc(u, w=w):
                    return u.to_bytes(w, "big")
            at += c["gap"]
            parts.append(np.zeros((n, c["gap"]), "u1") + 170)
            parts.append(np.array(
                [list(b"".join(enc(int(u)) for u in row)) for row in bits],
                "u1"))
            ctype = {"vax": "VAX_REAL", "ibm4": "IBM_REAL", "ibm8": "IBM_REAL",
                     "other": "MSB_UNSIGNED_INTEGER"}[k]
            if case["seed"] // (i + 1) % 5 == 0:
                ctype = '"' + ctype.replace("_", " ") + '"'
            b = [["NAME", f"C{i}"], ["DATA_TYPE", ctype],
                 ["START_BYTE", str(at)]]
            if c["items"]:
                b += [["ITEMS", str(m)], ["ITEM_BYTES", str(w)]]
                if c["explicit"]:
                    b.append(["BYTES", str(w * m)])
            else:
                b.append(["BYTES", str(w)])
            blocks.append(["OBJECT", "COLUMN", b])
            at += w * m
            for j in range(m):
                want.append((f"C{i}_{j}" if m > 1 else f"C{i}", k, w,
                             [int(u) for u in bits[:, j]]))
        parts.append(np.zeros((n, case["tail"]), "u1") + 85)
        body = np.hstack(parts)
        block = [["INTERCHANGE_FORMAT", "BINARY"], ["ROWS", str(n)],
                 ["COLUMNS", str(len(blocks))],
                 ["ROW_BYTES", str(body.shape[1])]] + blocks
        label, _, _ = write_product(
            ctx.dir, [("TABLE", body.tobytes(), block)], seed=case["seed"],
            data_ext=".dat")
    ctx.tag(*{k for _, k, _, _ in want},
            *{"items" for c in case["cols"] if c["items"]})
    ctx.nontrivial(any(len(set(u)) > 1 for _, k, _, u in want
                       if k != "other"))
    data = read(label)
    df = get(data, "TABLE")
    require(df.__class__.__name__ == "DataFrame",
            lambda: f"did not load: {warned(data)}")
    require(list(df.columns) == [w[0] for w in want],
            lambda: f"columns {list(df.columns)}")
    for i, (name, kind, w, us) in enumerate(want):
        col = df.iloc[:, i]
        if kind == "other":
            require(list(col) == us, f"{name}: integer column changed")
            continue
        require(col.dtype.kind == "f", f"{name}: dtype {col.dtype}")
        for g, u in zip(col, us):
            if kind == "vax":
                v = vax_value(u)
                exp = float(np.float32(v)) if col.dtype == "f4" else v
            else:
                s, f, k = ibm_value(u, w)
                exp = nearest(s, f, k, np.dtype("f8"))
                if col.dtype == "f4":
                    require(w == 4, f"{name}: 64-bit reals given as float32")
                    v, exp = exp, nearest(s, f, k, col.dtype)
                    if (v != 0 and exp == 0) or math.isinf(exp):
                        raise Violation(
                            f"{name}: {v!r} does not fit the float32 column")
            require(float(g) == exp, f"{name}: {u:#x} -> {g!r}, not {exp!r}")


CHECK = Check(
    property="C14",
    rule=("images, qubes and table columns (single and multi-item) of "
          "arbitrary VAX F and IBM S/360 bit patterns, weighted towards "
          "extreme exponents and fractions; every decoded value must equal "
          "the exact value of the bit pattern (computed in integer "
          "arithmetic) rounded to the result type; non-trivial = at least two "
          "distinct bit patterns"),
    suites=[
        Suite("image", image_cases, run_image, quick=500, thorough=16000),
        Suite("table", table_cases, run_table, quick=800, thorough=24000),
    ],
    assumptions=[
        "VAX reserved operands and 'dirty zeros' (zero exponent, non-zero "
        "sign or fraction) denote no number and are not generated",
    ],
)
