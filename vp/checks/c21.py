"""C21: PDS4 arrays are read element for element."""
import math

from vp.core import Check, Suite, require
from vp.common import big, fills, get, read, seeds, st, warned
from vp import pds4 as P
from vp.pds3 import brief, junk


@st.composite
def objects(draw, i):
    if draw(st.integers(0, 4)) == 0:
        o = {"kind": "header", "length": draw(st.integers(1, 200))}
    else:
        nd = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
        o = {"kind": "array", "tag": draw(st.sampled_from(P.ARRAY_TAGS[nd])),
             "shape": [draw(st.integers(1, 6)) for _ in range(nd)],
             "type": draw(st.sampled_from(sorted(P.BINARY))),
             "listing": P.axis_listing(draw, nd), "fill": draw(fills())}
    how = draw(P.idents())
    stem = draw(st.sampled_from(["data", "Image Primary", "obj-x", "A B C"]))
    if how in ("id", "both"):
        stem = stem.replace(" ", "_")
    return o | {"ident": [how, f"{stem}{i}"],
                "gap": draw(st.sampled_from([0, 0, 1, 7, 80, 3000])),
                "scaled": draw(st.integers(0, 5)) == 0}


@st.composite
def cases(draw):
    n = draw(st.integers(1, 6))
    objs = [draw(objects(i)) for i in range(n)]
    n_files = draw(st.integers(1, min(n, 3)))
    where = sorted(draw(st.integers(0, n_files - 1)) for _ in range(n))
    kind = draw(st.sampled_from(["Product_Observational"] * 4 + sorted(P.AREA)))
    refs = [[o["ident"][1], [P.AXES[k] for k in range(len(o.get("shape", "a")))]]
            for o in objs if o["ident"][0] in ("id", "both")]
    return {
        "kind": kind, "supplemental": draw(st.sampled_from([0, 0, 1])),
        "displays": draw(P.displays(refs))
        if draw(st.integers(0, 2)) == 0 else None,
        "objs": objs, "where": where, "seed": draw(seeds()),
        "listing": list(draw(st.permutations(range(n)))),
        "loads": list(draw(st.permutations(range(n)))),
        "trailer": draw(st.sampled_from([0, 0, 1, 500])),
        "ext": draw(st.sampled_from([".dat", ".img", ".bin", ".raw"])),
        "subdir": draw(st.integers(0, 5)) == 0,
    }


def large():
    def sizes(draw, case):
        for o in case["objs"]:
            if o["kind"] == "array":
                k = draw(st.integers(0, len(o["shape"]) - 1))
                o["shape"] = [min(n, 3) for n in o["shape"]]
                o["shape"][k] = draw(st.integers(250, 40000))

    def apart(draw, case):
        case["trailer"] = draw(st.integers(1, 3)) * 2 ** 20

    return big(cases, sizes, sizes, apart)


def run(case, ctx):
    objs, where = case["objs"], case["where"]
    with ctx.building():
        want, blobs = [], []
        for i, o in enumerate(objs):
            if o["kind"] == "header":
                blobs.append(junk(o["length"], i + case["seed"] % 1000, True))
                want.append(blobs[-1])
            else:
                v = P.elements(o["fill"], case["seed"] + i,
                               math.prod(o["shape"]), P.BINARY[o["type"]])
                blobs.append(v.tobytes())
                want.append(v.reshape(o["shape"]))
        files, offsets = {}, {}
        prefix = "sub/" if case["subdir"] else ""
        for f in sorted(set(where)):
            members = [i for i in range(len(objs)) if where[i] == f]
            body, offs = P.lay_out([(objs[i]["gap"], blobs[i])
                                    for i in members], case["seed"] + f,
                                   case["trailer"])
            files[f"{prefix}file{f}{case['ext']}"] = body
            offsets.update(zip(members, offs))
        # objects are listed in any order within their file
        areas, keys, counts = [], {}, {"HEADER": 0, "ARRAY": 0}
        order, n_files = [], max(where) + 1
        for f in sorted(set(where)):
            nodes = []
            for i in case["listing"]:
                if where[i] != f:
                    continue
                o = objs[i]
                kind = o["kind"].upper()
                keys[i] = P.key_for(o["ident"], kind, counts[kind])
                counts[kind] += 1
                order.append(i)
                if o["kind"] == "header":
                    nodes.append(P.header(o["ident"], offsets[i], o["length"]))
                else:
                    extra = {"scale": "2.5", "add": "-3"} if (
                        o["scaled"] and "Complex" not in o["type"]) else {}
                    nodes.append(P.array(
                        o["tag"], o["ident"], offsets[i], o["shape"],
                        o["type"], o["listing"], **extra))
            tag = P.AREA[case["kind"]]
            if case["kind"] == "Product_Observational" and (
                    f >= n_files - case["supplemental"]):
                tag += "_Supplemental"
            areas.append((f"{prefix}file{f}{case['ext']}", nodes, tag))
        extra = [] if case["displays"] is None else [
            P.discipline(case["displays"])]
        label = P.write(ctx.dir, P.product(areas, extra, kind=case["kind"]),
                        files)
    ctx.tag(f"{len(set(where))} files", case["kind"],
            *["display settings"] * bool(case["displays"]), *{o.get("type", "header") for o in objs},
            *{f"{len(o['shape'])}-d" for o in objs if "shape" in o})
    ctx.nontrivial(sum(o["kind"] == "array" and math.prod(o["shape"]) > 1
                       for o in objs) > 0)
    data = read(label)
    require(data.keys() == [keys[i] for i in order] + ["label"], lambda: (
        f"keys {data.keys()}, expected {[keys[i] for i in order]} + label"))
    for i in case["loads"]:
        got = get(data, keys[i])
        if objs[i]["kind"] == "header":
            if isinstance(got, str):
                got = got.encode("latin-1")
            require(bytes(got) == want[i], lambda: (
                f"{keys[i]}: header {bytes(got)[:60]!r}, "
                f"expected {want[i][:60]!r}"))
            continue
        require(got.__class__.__name__ == "ndarray", lambda: (
            f"{keys[i]} loaded as {type(got)} ({warned(data)})"))
        require(P.same(got, want[i]), lambda: (
            f"{keys[i]}: got {brief(got)}, expected {brief(want[i])}"))


CHECK = Check(
    property="C21",
    rule=("PDS4 products with 1-6 objects (arrays of every binary numeric "
          "type and array form, 1-4 axes listed in any order, plus text "
          "headers) in 1-3 files, at any offsets, listed and loaded in any "
          "order, with or without names and identifiers, in products of four "
          "kinds with display settings, spectral characteristics and "
          "supplemental file areas; every array must "
          "equal the stored elements bit for bit in axis-sequence order, every "
          "header the stored bytes, and the key list must be as labelled; "
          "non-trivial = some array has more than one element"),
    suites=[Suite("arrays", cases, run, quick=1000, thorough=40000),
            Suite("large", large, run, quick=24, thorough=600)],
    assumptions=[
        "object names and identifiers are distinct and are not the names of "
        "attributes of pdr.Data",
        "no bit masks (Object_Statistics/bit_mask): see C23",
    ],
)
