"""Whole products of every standard, for checks about how they are handled."""
from __future__ import annotations

import math

import numpy as np

from vp.checks import c07, c08, c19
from vp.common import fills, seeds, st
from vp import desktop as D
from vp import fits as F
from vp import objects as O
from vp import pds4 as P

KINDS = ["pds3", "pds3", "pds3", "prefix", "fits", "pds3fits", "pds4fits",
         "pds4", "pds4", "gif"]


@st.composite
def pds4_objects(draw, i):
    kind = draw(st.sampled_from(["array", "array", "table", "header"]))
    o = {"kind": kind, "gap": draw(st.sampled_from([0, 0, 5])),
         "ident": [draw(P.idents()), f"obj {i}"]}
    if o["ident"][0] in ("id", "both"):
        o["ident"][1] = f"obj_{i}"
    if kind == "array":
        nd = draw(st.sampled_from([1, 2, 3]))
        o |= {"shape": [draw(st.integers(1, 5)) for _ in range(nd)],
              "type": draw(st.sampled_from(sorted(P.BINARY))),
              "fill": draw(fills())}
    elif kind == "table":
        o["t"] = draw(P.tables(draw(st.sampled_from(
            ["binary", "character", "delimited"]))))
    else:
        o["length"] = draw(st.integers(1, 50))
    return o


@st.composite
def products(draw, kinds=KINDS):
    kind = draw(st.sampled_from(kinds))
    case = {"kind": kind, "seed": draw(seeds())}
    if kind == "pds3":
        objs = draw(O.objects())
        return case | {"objs": objs, "layout": draw(c08.layouts(len(objs))),
                       "fill": draw(fills())}
    if kind == "prefix":
        return case | {"case": draw(c07.cases())}
    if kind in ("pds3fits", "pds4fits"):
        c = draw(c19.cases(kind[:4].upper()))
        for f in c["files"]:
            f["far"] = None
        return case | {"case": c}
    if kind == "fits":
        return case | {"hdus": [draw(F.hdus(True))] + draw(
            st.lists(F.hdus(), max_size=3))}
    if kind == "pds4":
        return case | {"objs": [draw(pds4_objects(i)) for i in range(
            draw(st.integers(1, 4)))]}
    return case | {"size": [draw(st.integers(1, 6)), draw(st.integers(1, 6))],
                   "frames": draw(st.integers(1, 4))}


def pds4_blobs(objs, seed):
    blobs, info = [], []
    for i, o in enumerate(objs):
        if o["kind"] == "array":
            v = P.elements(o["fill"], seed + i, math.prod(o["shape"]),
                           P.BINARY[o["type"]])
            blobs.append(v.tobytes())
            info.append(v.reshape(o["shape"]))
        elif o["kind"] == "table":
            body, rec = P.build_table(o["t"], seed + i)
            blobs.append(body)
            info.append(rec)
        else:
            blobs.append(bytes(65 + (seed + i + k) % 26
                               for k in range(o["length"])))
            info.append(blobs[-1])
    return blobs, info


def pds4_extents(objs, seed):
    """-> (offsets, sizes) of what build_pds4 makes"""
    blobs, _ = pds4_blobs(objs, seed)
    _, offsets = P.lay_out([(o["gap"], b) for o, b in zip(objs, blobs)],
                           seed % 10 ** 6)
    return offsets, [len(b) for b in blobs]


def build_pds4(objs, seed):
    """-> (body, label nodes, keys, expected)"""
    blobs, info = pds4_blobs(objs, seed)
    body, offsets = P.lay_out([(o["gap"], b) for o, b in zip(objs, blobs)],
                              seed % 10 ** 6)
    nodes, keys, counts = [], [], {}
    for o, b, at, extra in zip(objs, blobs, offsets, info):
        kind = o["kind"].upper()
        keys.append(P.key_for(o["ident"], kind, counts.get(kind, 0)))
        counts[kind] = counts.get(kind, 0) + 1
        if o["kind"] == "array":
            nodes.append(P.array("Array", o["ident"], at, o["shape"],
                                 o["type"]))
        elif o["kind"] == "table":
            nodes.append(P.table(o["t"], o["ident"], at, len(b), extra))
        else:
            nodes.append(P.header(o["ident"], at, o["length"]))
    return body, nodes, keys, info


def write(case, d):
    """write the product's files; -> (path to open, keys it must list)"""
    kind, seed = case["kind"], case["seed"]
    if kind == "pds3":
        built = []
        for i, o in enumerate(case["objs"]):
            payload, block, _ = O.build(o, seed + i, case["fill"])
            built.append((o["name"], payload, block, o["kind"]))
        return (c08.write(built, case["layout"], d),
                [o["name"] for o in case["objs"]] + ["LABEL"])
    if kind == "prefix":
        label, results = c07.write(case["case"], d)
        return label, [n for n, _ in results] + ["LABEL"]
    if kind in ("pds3fits", "pds4fits"):
        return c19.write(case["case"], d, kind[:4].upper())
    if kind == "fits":
        body, info = F.build(case["hdus"], seed)
        (d / "a.fits").write_bytes(body)
        return d / "a.fits", None
    if kind == "pds4":
        body, nodes, keys, _ = build_pds4(case["objs"], seed)
        return (P.write(d, P.product([("data.dat", nodes)]),
                        {"data.dat": body}), keys + ["label"])
    rng = np.random.default_rng(seed)
    pal = D.random_palette(rng, 4)
    frames = [{"px": rng.integers(0, 4, case["size"]), "at": (0, 0),
               "palette": None, "transparent": None, "disposal": 0,
               "interlace": False} for _ in range(case["frames"])]
    (d / "a.gif").write_bytes(D.gif(frames, pal, case["size"]))
    return d / "a.gif", (["IMAGE"] if case["frames"] == 1 else
                         [f"FRAME_{i}" for i in range(case["frames"])])
