"""C15: ARRAY and HISTOGRAM objects are read exactly."""
import math

import numpy as np

from vp.core import Check, Suite, require
from vp.common import big, far, fills, followed, get, read, seeds, st, warned
from vp.pds3 import (
    DTYPE_OF, NUMERIC, brief, junk, pixels, same_values, write_product
)


@st.composite
def shapes(draw):
    nd = draw(st.integers(1, 4))
    return [draw(st.integers(1, 5)) for _ in range(nd)]


def types():
    return st.sampled_from([(t, w) for t, w, _ in NUMERIC])


@st.composite
def binary_cases(draw):
    form = draw(st.sampled_from(["plain", "element", "collection"]))
    n = draw(st.integers(1, 4)) if form == "collection" else 1
    els = []
    for _ in range(n):
        t, w = draw(types())
        els.append({"type": t, "bytes": w,
                    "gap": draw(st.sampled_from([0, 0, 0, 2]))
                    if form == "collection" else 0})
    return {
        "form": form, "shape": draw(shapes()), "els": els,
        "tail": draw(st.sampled_from([0, 0, 3]))
        if form == "collection" else 0,
        "starts": draw(st.sampled_from(["all", "elements", "none"])),
        "name": draw(st.sampled_from(["ARRAY", "DATA_ARRAY", "QUAT_ARRAY"])),
        "fill": draw(fills()), "seed": draw(seeds()),
        "attached": draw(st.booleans()),
        "ptr": draw(st.sampled_from(["record", "bytes"])),
        "gap": draw(st.sampled_from([0, 1, 3])),
        "trailer": draw(st.sampled_from([0, 1, 50])),
        "compress": draw(st.sampled_from([None, None, None, "gz", "bz2"])),
    }


def run_binary(case, ctx):
    with ctx.building():
        shape, els = case["shape"], case["els"]
        n = math.prod(shape)
        gapped = any(e["gap"] for e in els) or case["tail"]
        starts = case["starts"]
        if gapped and starts == "none":
            starts = "elements"
        parts, want, blocks, at = [], [], [], 0
        for i, e in enumerate(els):
            v = pixels(case["fill"], case["seed"] + i, n,
                       DTYPE_OF[(e["type"], e["bytes"])])
            want.append(v.reshape(shape))
            parts.append(np.frombuffer(junk(n * e["gap"], i), "u1").reshape(
                n, e["gap"]))
            parts.append(np.frombuffer(v.tobytes(), "u1").reshape(n, -1))
            at += e["gap"]
            b = [["NAME", f"EL{i}"], ["DATA_TYPE", e["type"]],
                 ["BYTES", str(e["bytes"])]]
            if starts != "none":
                b.insert(1, ["START_BYTE", str(at + 1)])
            blocks.append(["OBJECT", "ELEMENT", b])
            at += e["bytes"]
        parts.append(np.frombuffer(junk(n * case["tail"], 5), "u1").reshape(
            n, case["tail"]))
        payload = np.hstack(parts).tobytes()
        items = (str(shape[0]) if len(shape) == 1
                 else "(" + ",".join(map(str, shape)) + ")")
        block = [["NAME", "STUFF"], ["AXES", str(len(shape))],
                 ["AXIS_ITEMS", items], ["INTERCHANGE_FORMAT", "BINARY"]]
        if case["form"] == "plain":
            block += [["DATA_TYPE", els[0]["type"]],
                      ["BYTES", str(els[0]["bytes"])]]
        elif case["form"] == "element":
            block += blocks
        else:
            c = [["NAME", "PARTS"], ["BYTES", str(at + case["tail"])]]
            if starts == "all":
                c.insert(1, ["START_BYTE", "1"])
            block.append(["OBJECT", "COLLECTION", c + blocks])
        if starts == "all" and case["form"] != "plain":
            block.insert(1, ["START_BYTE", "1"])
        attached = case["attached"] and not case["compress"]
        label, _, _ = write_product(
            ctx.dir, [(case["name"], payload, block)], attached=attached,
            ptr=case["ptr"], gap=case["gap"], trailer=case["trailer"],
            seed=case["seed"], data_ext=".dat", compress=case["compress"])
    ctx.tag(case["form"], f"{len(shape)}-d", "gaps" if gapped else "packed",
            f"start bytes: {starts}", case["compress"] or "uncompressed",
            *{e["type"] for e in els})
    ctx.nontrivial(n > 1)
    data = read(label)
    got = get(data, case["name"])
    require(got.__class__.__name__ == "ndarray",
            lambda: f"did not load: {warned(data)}")
    require(list(got.shape) == shape, lambda: f"shape {got.shape}")
    for i, w in enumerate(want):
        if case["form"] == "collection":
            require(got.dtype.names and f"EL{i}" in got.dtype.names,
                    lambda: f"elements {got.dtype}")
            g = got[f"EL{i}"]
        else:
            g = got[got.dtype.names[0]] if got.dtype.names else got
        require(same_values(g, w), lambda: (
            f"element {i}: got {brief(g)}, expected {brief(w)}"))


# --------------------------------------------------------------------- nested
@st.composite
def nested_cases(draw):
    def el():
        t, w = draw(types())
        return {"type": t, "bytes": w, "gap": draw(
            st.sampled_from([0, 0, 2]))}
    return {"shape": draw(shapes())[:2],
            "before": [el() for _ in range(draw(st.integers(1, 2)))],
            "inner": el(), "items": draw(st.integers(1, 5)),
            "after": [el() for _ in range(draw(st.integers(0, 2)))],
            "fill": draw(fills()), "seed": draw(seeds()),
            "trailer": draw(st.sampled_from([0, 7]))}


def run_nested(case, ctx):
    with ctx.building():
        shape = case["shape"]
        n = math.prod(shape)
        parts, want, blocks, at = [], {}, [], 0
        for i, (e, k) in enumerate(
            [(e, None) for e in case["before"]]
            + [(case["inner"], case["items"])]
            + [(e, None) for e in case["after"]]
        ):
            v = pixels(case["fill"], case["seed"] + i, n * (k or 1),
                       DTYPE_OF[(e["type"], e["bytes"])])
            want[f"EL{i}"] = v.reshape(shape + ([k] if k else []))
            parts.append(np.frombuffer(junk(n * e["gap"], i), "u1").reshape(
                n, e["gap"]))
            parts.append(np.frombuffer(v.tobytes(), "u1").reshape(n, -1))
            at += e["gap"]
            b = ["OBJECT", "ELEMENT", [
                ["NAME", f"EL{i}"], ["DATA_TYPE", e["type"]],
                ["START_BYTE", str(1 if k else at + 1)],
                ["BYTES", str(e["bytes"])]]]
            if k:
                inner = f"EL{i}"
                b = ["OBJECT", "ARRAY", [
                    ["NAME", "INNER"], ["AXES", "1"], ["AXIS_ITEMS", str(k)],
                    ["START_BYTE", str(at + 1)], b]]
            blocks.append(b)
            at += e["bytes"] * (k or 1)
        items = (str(shape[0]) if len(shape) == 1
                 else "(" + ",".join(map(str, shape)) + ")")
        block = [["NAME", "STUFF"], ["AXES", str(len(shape))],
                 ["AXIS_ITEMS", items], ["INTERCHANGE_FORMAT", "BINARY"],
                 ["OBJECT", "COLLECTION", [
                     ["NAME", "PARTS"], ["START_BYTE", "1"],
                     ["BYTES", str(at)]] + blocks]]
        label, _, _ = write_product(
            ctx.dir, [("ARRAY", np.hstack(parts).tobytes(), block)],
            trailer=case["trailer"], seed=case["seed"], data_ext=".dat")
    ctx.nontrivial(len(want) > 1 and n > 1)
    data = read(label)
    got = get(data, "ARRAY")
    require(got.__class__.__name__ == "ndarray",
            lambda: f"did not load: {warned(data)}")
    require(list(got.shape) == shape, lambda: f"shape {got.shape}")
    for k, w in want.items():
        g = got
        if k == inner:
            hit = [f for f in got.dtype.names if "INNER" in f]
            require(len(hit) == 1, lambda: f"elements {got.dtype}")
            g = got[hit[0]]
        require(g.dtype.names and k in g.dtype.names,
                lambda: f"elements {got.dtype}")
        require(same_values(g[k], w), lambda: (
            f"element {k}: got {brief(g[k])}, expected {brief(w)}"))


def lengthy(draw, case):
    case["shape"] = draw(st.sampled_from([
        [draw(st.integers(300, 90000))],
        [draw(st.integers(1, 3)), draw(st.integers(300, 20000))],
        [draw(st.integers(300, 20000)), draw(st.integers(1, 3))],
        [draw(st.integers(20, 60)) for _ in range(3)]]))


def large():
    return big(binary_cases, lengthy, lengthy, far, followed)


def large_histograms():
    def bins(draw, case):
        case["n"] = draw(st.integers(250, 70000))
    return big(histogram_cases, bins)


# ---------------------------------------------------------------------- ascii
def numerals():
    sign = st.sampled_from(["", "", "-", "+"])
    return st.one_of(
        st.builds(lambda s, i: f"{s}{i}", sign, st.integers(0, 10 ** 6)),
        st.builds(lambda s, i, f: f"{s}{i}.{f}", sign, st.integers(0, 999),
                  st.text("0123456789", min_size=0, max_size=5)),
        st.builds(lambda s, i, f, e, x: f"{s}{i}.{f}{e}{x:+03d}", sign,
                  st.integers(0, 9),
                  st.text("0123456789", min_size=1, max_size=5),
                  st.sampled_from("Ee"), st.integers(-12, 12)),
        st.builds(lambda s, f: f"{s}.{f}", sign,
                  st.text("0123456789", min_size=1, max_size=4)),
    )


@st.composite
def ascii_cases(draw):
    shape = draw(shapes())
    n = math.prod(shape)
    return {
        "shape": shape,
        "nums": draw(st.lists(numerals(), min_size=n, max_size=n)),
        "sep": draw(st.sampled_from([" ", "  ", ",", ", ", "\n", "\r\n"])),
        "eol": draw(st.sampled_from(["\r\n", "\n"])),
        "per": draw(st.integers(1, 8)),
        "interchange": draw(st.sampled_from(["ASCII", None])),
        "type": draw(st.sampled_from([None, "ASCII_REAL", "ASCII_INTEGER"])),
        "attached": draw(st.booleans()), "seed": draw(seeds()),
        "ptr": draw(st.sampled_from(["record", "bytes"])),
        "compress": draw(st.sampled_from([None, None, None, "gz", "bz2"])),
    }


def run_ascii(case, ctx):
    with ctx.building():
        shape, nums = case["shape"], case["nums"]
        rows = [case["sep"].join(nums[i:i + case["per"]])
                for i in range(0, len(nums), case["per"])]
        text = case["eol"].join(rows) + case["eol"]
        items = (str(shape[0]) if len(shape) == 1
                 else "(" + ",".join(map(str, shape)) + ")")
        block = [["NAME", "STUFF"], ["AXES", str(len(shape))],
                 ["AXIS_ITEMS", items]]
        if case["interchange"]:
            block.append(["INTERCHANGE_FORMAT", case["interchange"]])
        if case["type"]:
            block += [["DATA_TYPE", case["type"]], ["BYTES", "12"]]
        attached = case["attached"] and not case["compress"]
        label, _, _ = write_product(
            ctx.dir, [("ARRAY", text.encode(), block)], attached=attached,
            ptr=case["ptr"], seed=case["seed"], data_ext=".dat",
            compress=case["compress"])
    ctx.tag("attached" if attached else "detached", repr(case["sep"]),
            *{"exponent" for x in nums if "e" in x.lower()},
            *{"leading point" for x in nums if x.lstrip("+-")[0] == "."})
    ctx.nontrivial(len(set(nums)) > 1)
    data = read(label)
    got = get(data, "ARRAY")
    require(got.__class__.__name__ == "ndarray",
            lambda: f"did not load: {warned(data)}")
    require(list(got.shape) == shape, lambda: f"shape {got.shape}")
    want = np.array([float(x) for x in nums]).reshape(shape)
    require(got.dtype.kind in "fiu" and np.array_equal(got, want),
            lambda: f"got {brief(got)}, expected {brief(want)}")


# ------------------------------------------------------------------ histogram
@st.composite
def histogram_cases(draw):
    t, w = draw(types())
    return {"type": t, "bytes": w, "n": draw(st.integers(1, 40)),
            "fill": draw(fills()), "seed": draw(seeds()),
            "total": draw(st.booleans()),
            "interchange": draw(st.booleans()),
            "name": draw(st.sampled_from(
                ["HISTOGRAM", "IMAGE_HISTOGRAM", "RED_HISTOGRAM"])),
            "attached": draw(st.booleans()),
            "ptr": draw(st.sampled_from(["record", "bytes"])),
            "gap": draw(st.sampled_from([0, 1, 3])),
            "trailer": draw(st.sampled_from([0, 1, 50]))}


def run_histogram(case, ctx):
    with ctx.building():
        n, w = case["n"], case["bytes"]
        want = pixels(case["fill"], case["seed"], n,
                      DTYPE_OF[(case["type"], w)])
        block = [["ITEMS", str(n)], ["DATA_TYPE", case["type"]],
                 ["ITEM_BYTES", str(w)]]
        if case["total"]:
            block.append(["BYTES", str(n * w)])
        if case["interchange"]:
            block.append(["INTERCHANGE_FORMAT", "BINARY"])
        label, _, _ = write_product(
            ctx.dir, [(case["name"], want.tobytes(), block)],
            attached=case["attached"], ptr=case["ptr"], gap=case["gap"],
            trailer=case["trailer"], seed=case["seed"], data_ext=".dat")
    ctx.tag(case["type"], case["bytes"])
    ctx.nontrivial(n > 1)
    data = read(label)
    df = get(data, case["name"])
    require(df.__class__.__name__ == "DataFrame",
            lambda: f"did not load: {warned(data)}")
    require(df.shape == (1, n), lambda: f"shape {df.shape}")
    got = np.array([df.iloc[0, i] for i in range(n)])
    col = {df.iloc[:, i].dtype for i in range(n)}
    require(len(col) == 1, lambda: f"mixed types {col}")
    got = got.astype(col.pop())
    require(same_values(got, want),
            lambda: f"got {brief(got)}, expected {brief(want)}")


CHECK = Check(
    property="C15",
    rule=("binary ARRAYs of 1-4 axes (plain types, one ELEMENT, COLLECTIONs of "
          "1-4 ELEMENTs with and without gaps, ARRAYs nested in COLLECTIONs), ASCII ARRAYs of arbitrary "
          "numerals and separators, and HISTOGRAMs of every type; shape and "
          "every element must equal what was encoded; non-trivial = more than "
          "one element"),
    suites=[
        Suite("binary", binary_cases, run_binary, quick=900, thorough=30000),
        Suite("nested", nested_cases, run_nested, quick=300, thorough=8000),
        Suite("ascii", ascii_cases, run_ascii, quick=500, thorough=16000),
        Suite("large", large, run_binary, quick=40, thorough=1000),
        Suite("bins", large_histograms, run_histogram, quick=15,
              thorough=400),
        Suite("histogram", histogram_cases, run_histogram, quick=400,
              thorough=10000),
    ],
    assumptions=[
        "HISTOGRAM definitions give ITEM_BYTES (required by the PDS3 "
        "Standard); BYTES, when given, is the total size",
    ],
)
