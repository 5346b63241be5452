"""C19: parts of FITS files described by PDS3 and PDS4 labels."""
import gzip
import warnings

import numpy as np

from vp.core import Check, Suite, require
from vp.common import get, read, seeds, st, warned
from vp import fits as F
from vp import pds3 as P3
from vp import pds4 as P4

DATA_NAMES = {
    "image": ["IMAGE", "X_IMAGE", "ERROR_IMAGE", "SPECTRUM", "ARRAY", "DATA",
              "QUBE"],
    "table": ["TABLE", "EXTENSION_TABLE", "SERIES", "SPECTRAL_TABLE",
              "SPREADSHEET", "A"],
}
HEADER_NAMES = ["HEADER", "EXTENSION_HEADER", "PRIMARY_HEADER", "FITS_HEADER"]


@st.composite
def files(draw):
    hs = [draw(F.hdus(True))] + draw(st.lists(F.hdus(), max_size=4))
    # sometimes something starts at record 2880 or 2881
    far = None
    if len(hs) > 1 and draw(st.integers(0, 24)) == 0:
        far = {"hdu": draw(st.integers(1, len(hs) - 1)),
               "part": draw(st.sampled_from(["header", "data"])),
               "record": draw(st.sampled_from([2880, 2881, 2882]))}
    return {"hdus": hs, "far": far}


def cases(standard):
    @st.composite
    def build(draw):
        fs = [draw(files()) for _ in range(draw(st.sampled_from([1, 1, 2])))]
        objs, taken = [], set()
        for f, file in enumerate(fs):
            for h, hdu in enumerate(file["hdus"]):
                label_data = not empty(hdu) and draw(st.integers(0, 4)) > 0
                label_head = draw(st.booleans())
                kind = "image" if hdu["kind"] == "image" else "table"
                data_name = None
                if label_data:
                    o = {"file": f, "hdu": h, "part": "data",
                         "how": draw(st.sampled_from(
                             ["record", "record", "byte"]))}
                    o["name"] = data_name = unique(
                        draw, DATA_NAMES[kind], taken)
                    objs.append(o | identity(draw))
                if label_head:
                    names = HEADER_NAMES + (
                        [data_name + "_HEADER"] * 3 if data_name else [])
                    objs.append({
                        "file": f, "hdu": h, "part": "header",
                        "name": unique(draw, names, taken),
                        "how": draw(st.sampled_from(
                            ["record", "byte"] + ["name"] * (h == 0)))}
                        | identity(draw))
        if not objs:
            objs.append({"file": 0, "hdu": 0, "part": "header",
                         "name": "HEADER", "how": "record"} | identity(draw))
        # headers that are named like another object's
        if draw(st.integers(0, 3)) == 0:
            heads = [o for o in objs if o["part"] == "header"]
            datas = [o for o in objs if o["part"] == "data"]
            if heads and datas:
                new = draw(st.sampled_from(datas))["name"] + "_HEADER"
                if new not in taken:
                    draw(st.sampled_from(heads))["name"] = new
        if draw(st.integers(0, 11)) == 0:
            F.spoil(draw, draw(st.sampled_from(fs))["hdus"])
        n = len(objs)
        return {"files": fs, "objs": objs, "seed": draw(seeds()),
                "listing": list(draw(st.permutations(range(n)))),
                "loads": list(draw(st.permutations(range(n)))),
                "blocks": draw(st.booleans()),
                "ext": draw(st.sampled_from([".FITS", ".fits", ".FIT"])),
                "gz": standard == "PDS3" and draw(st.integers(0, 5)) == 0}
    return build()


def identity(draw):
    return {"ident": draw(st.sampled_from(["id", "name", "both", "spaces"]))}


def unique(draw, names, taken):
    name = draw(st.sampled_from(names))
    i = 2
    while name in taken:
        name = f"{name.rstrip('0123456789_')}_{i}"
        i += 1
    taken.add(name)
    return name


def empty(hdu):
    return (not hdu["shape"] if hdu["kind"] == "image"
            else not hdu["rows"] or not hdu["cols"])


def write_files(case, d):
    """-> [(file name, [HDU info])]"""
    out = []
    for i, f in enumerate(case["files"]):
        hs = [dict(h) for h in f["hdus"]]
        body, info = F.build(hs, case["seed"] + i)
        if f["far"]:
            far = f["far"]
            target = info[far["hdu"]]
            at = target["header_at" if far["part"] == "header" else "data_at"]
            pad = (far["record"] - 1) * 2880 - at - 2880
            filler = {"kind": "image", "bitpix": 8, "shape": [pad],
                      "scale": None, "fill": "ramp", "name": "FILLER",
                      "extra": [], "bscale": 1, "bzero": 0}
            hs.insert(far["hdu"], filler)
            body, info = F.build(hs, case["seed"] + i)
            info.pop(far["hdu"])
        name = f"F{i}{case['ext']}"
        if case["gz"]:
            (d / (name + ".gz")).write_bytes(gzip.compress(body, 1))
        else:
            (d / name).write_bytes(body)
        out.append((name, info))
    return out


def pds3_label(case, files):
    label = [["PDS_VERSION_ID", "PDS3"], ["RECORD_TYPE", "FIXED_LENGTH"],
             ["RECORD_BYTES", "2880"]]
    blocks = []
    for i in case["listing"]:
        o = case["objs"][i]
        name, info = files[o["file"]]
        h = info[o["hdu"]]
        at = h[o["part"] + "_at"]
        where = {"record": f'("{name}", {at // 2880 + 1})',
                 "byte": f'("{name}", {at + 1} <BYTES>)',
                 "name": f'"{name}"'}[o["how"]]
        label.append([f"^{o['name']}", where])
        if o["part"] == "header":
            body = [["HEADER_TYPE", "FITS"], ["INTERCHANGE_FORMAT", "ASCII"],
                    ["BYTES", str(h["header_size"])]]
        else:
            body = [["DESCRIPTION", P3.q("part of a FITS file")]]
            if h["kind"] == "image" and len(h["shape"]) == 2:
                body += [["LINES", str(h["shape"][0])],
                         ["LINE_SAMPLES", str(h["shape"][1])]]
            if h["kind"] == "image" and h["scale"] == "real":
                body += [["SCALING_FACTOR", repr(h["bscale"])],
                         ["OFFSET", repr(h["bzero"])]]
        blocks.append(["OBJECT", o["name"], body])
    return P3.render(label + (blocks if case["blocks"] else [])) + "END\r\n"


def load_all(case, files, data, keys, implied):
    """every labelled object, in the case's order"""
    listed = list(data.keys())
    require(set(keys) <= set(listed) and len(set(listed)) == len(listed),
            lambda: f"keys {listed}, expected {keys}")
    first = listed[:]
    loose = any(F.loose(f["hdus"]) for f in case["files"])
    for i in case["loads"] + case["loads"][:2]:
        o = case["objs"][i]
        h = files[o["file"]][1][o["hdu"]]
        got = get(data, keys[i])
        d = (F.diff_header(got, h["cards"], loose) if o["part"] == "header"
             else F.diff_hdu(got, h))
        require(d is None, lambda: (
            f"{keys[i]} ({o['part']} of HDU {o['hdu']} of file {o['file']}): "
            f"{d} ({warned(data)})"))
        if o["part"] == "data" and h["kind"] == "image":
            # the file's scaling is in the data already
            with np.errstate(all="ignore"):
                d = F.diff_hdu(data.get_scaled(keys[i]), h)
            require(d is None, lambda: f"scaled {keys[i]}: {d}")
    for k in list(data.keys()):
        if k in first:
            continue
        require(k in implied, lambda: f"unexpected key {k} in {data.keys()}")
        d = F.diff_header(get(data, k), implied[k], loose)
        require(d is None, lambda: f"{k}: {d}")


def describe(case, ctx, files):
    if any(f["far"] for f in case["files"]):
        ctx.tag("far")
    ctx.tag(*{f"{files[o['file']][1][o['hdu']]['kind']} {o['part']}"
              for o in case["objs"]}, f"{len(case['files'])} files",
            *({"gz"} if case["gz"] else ()))
    ctx.nontrivial(any(o["hdu"] for o in case["objs"]))


def write_pds3(case, d):
    """-> (label, files, keys)"""
    files = write_files(case, d)
    (d / "P.LBL").write_text(pds3_label(case, files), newline="")
    return d / "P.LBL", files, [o["name"] for o in case["objs"]]


def write_pds4(case, d):
    files = write_files(case, d)
    keys, areas = [None] * len(case["objs"]), []
    for f, (name, info) in enumerate(files):
        nodes = []
        for i in case["listing"]:
            o = case["objs"][i]
            if o["file"] != f:
                continue
            how, text = o["ident"], o["name"]
            if how == "spaces":
                how, text = "name", text.replace("_", " ")
            keys[i] = P4.key_for((how, text), "", 0)
            nodes.append(structure(o, info[o["hdu"]], (how, text)))
        if nodes:
            areas.append((name, nodes))
    return P4.write(d, P4.product(areas), {}), files, keys


def write(case, d, standard):
    label, _, keys = (write_pds3 if standard == "PDS3" else write_pds4)(case, d)
    return label, keys + ["LABEL" if standard == "PDS3" else "label"]


def run_standard(writer):
    def run(case, ctx):
        with ctx.building():
            label, files, keys = writer(case, ctx.dir)
        describe(case, ctx, files)
        implied = {k + "_HEADER": files[o["file"]][1][o["hdu"]]["cards"]
                   for k, o in zip(keys, case["objs"]) if o["part"] == "data"}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            data = read(label)
        load_all(case, files, data, keys, implied)
    return run


def structure(o, h, ident):
    at = h[o["part"] + "_at"]
    if o["part"] == "header":
        return P4.header(ident, at, h["header_size"], "FITS 3.0")
    if h["kind"] == "image":
        dt = {8: "UnsignedByte", 16: "SignedMSB2", 32: "SignedMSB4",
              64: "SignedMSB8", -32: "IEEE754MSBSingle",
              -64: "IEEE754MSBDouble"}[h["bitpix"]]
        extra = {}
        if h["scale"] == "real":
            extra = {"scale": repr(h["bscale"]), "add": repr(h["bzero"])}
        return P4.array("Array", ident, at, h["shape"], dt, **extra)
    width = dict((c[0], c[1]) for c in h["cards"])["NAXIS1"]
    f = {"kind": "field", "name": "row", "type": "ASCII_String",
         "bytes": width, "gap": 0}
    t = {"form": "binary", "nodes": [f], "records": h["rows"]}
    P4.place(t["nodes"])
    return P4.table(t, ident, at, h["size"], width)


CHECK = Check(
    property="C19",
    rule=("1-2 FITS files of 1-5 HDUs written byte by byte, any selection of "
          "whose headers and data is described by a PDS3 label (by record, "
          "byte or file name) or a PDS4 label (by byte), listed and loaded in "
          "any order, also at records 2880 and 2881; every object must have "
          "the data or the header cards encoded at its position, and any "
          "other key must be an object's own header; a scaled image must be "
          "the same, scaled once; non-trivial = something "
          "outside the first HDU is labelled"),
    suites=[Suite("pds3", lambda: cases("PDS3"), run_standard(write_pds3),
                  quick=350, thorough=14000),
            Suite("pds4", lambda: cases("PDS4"), run_standard(write_pds4),
                  quick=350, thorough=14000)],
    assumptions=[
        "every labelled object is in a whole HDU: no planes of cubes or "
        "columns of tables on their own",
        "objects without data are not labelled",
        "header objects have HEADER in their PDS3 names, data objects do not",
        "the FITS files are as in C18",
    ],
)
