"""C29: browse output renders every object and changes nothing."""
import copy
import csv
import os
import pickle
import warnings

import numpy as np

from vp.core import Check, Suite, require
from vp.common import fills, read, seeds, st
from vp import pds4 as P4
from vp import products as P
from vp.checks.c25 import same
from vp.pds3 import q, render, write_product

TYPES = {"u1": ("MSB_UNSIGNED_INTEGER", 8), "i1": ("MSB_INTEGER", 8),
         ">u2": ("MSB_UNSIGNED_INTEGER", 16), "<i2": ("LSB_INTEGER", 16),
         ">i2": ("MSB_INTEGER", 16), ">i4": ("MSB_INTEGER", 32),
         "<u4": ("LSB_UNSIGNED_INTEGER", 32), ">i8": ("MSB_INTEGER", 64),
         ">f4": ("IEEE_REAL", 32), "<f4": ("PC_REAL", 32),
         ">f8": ("IEEE_REAL", 64)}
MODES = ["uniform", "uniform", "full", "few", "outliers", "constant", "ramp",
         "two"]
CLIPS = [None, None, None, 0, 1, 5, 25.5, (0, 10), (10, 0), (2, 30), (0, 0),
         (50, 1)]


@st.composite
def options(draw, bands):
    o = {}
    if draw(st.booleans()):
        o["image_clip"] = draw(st.sampled_from(CLIPS))
    if draw(st.integers(0, 3)) == 0:
        o["mask_color"] = draw(st.sampled_from(
            [(0, 255, 255), (255, 0, 0), (1, 2, 3), 0, 77, None]))
    if draw(st.booleans()):
        o["band_ix"] = draw(st.sampled_from(
            ["burst", 0, 1, 2, bands - 1, bands, 40, -1, None]))
    if draw(st.booleans()):
        o["override_rgba"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        o["slice_axis"] = draw(st.sampled_from([0, 1, 2]))
    if draw(st.integers(0, 3)) == 0:
        o["rgb_channels"] = [draw(st.integers(0, 11)) for _ in range(3)]
    return o


@st.composite
def cases(draw):
    bands = draw(st.sampled_from([1, 1, 1, 2, 3, 3, 4, 5, 7, 11]))
    dt = draw(st.sampled_from(sorted(TYPES)))
    return {"bands": bands, "type": dt,
            "size": [draw(st.integers(1, 9)), draw(st.integers(1, 9))],
            "mode": draw(st.sampled_from(MODES)), "seed": draw(seeds()),
            "nan": draw(st.integers(0, 3)) == 0,
            "lo": draw(st.integers(-120, 120)),
            "range": draw(st.sampled_from([1, 3, 40, 200, 1000, 30000,
                                           10 ** 6, 2 ** 31])),
            "const": draw(st.integers(0, 2)),
            "scale": draw(st.sampled_from(
                [None, None, None, ("2", "1"), ("0.5", "-3"), ("-1", "0"),
                 ("0.001", "100"), ("1", "0")])),
            "calls": [[draw(st.sampled_from(["show", "show", "dump"])),
                       draw(st.sampled_from([True, True, False, "both"])),
                       draw(options(bands)),
                       draw(st.sampled_from(["png", "bmp", "png", "jpg",
                                             "tif"]))]
                      for _ in range(draw(st.integers(1, 4)))],
            "purge": draw(st.integers(0, 3)) == 0,
            "prefix": draw(st.sampled_from([None, None, "p", "a.b", ""]))}


def values(case):
    dt, n = np.dtype(case["type"]), case["bands"] * case["size"][0] * case[
        "size"][1]
    rng = np.random.default_rng(case["seed"])
    lo, hi = (np.iinfo(dt).min, np.iinfo(dt).max) if dt.kind in "iu" else (
        -1e6, 1e6)
    mode = case["mode"]
    if mode == "full":
        out = rng.random(n)
        v = np.array([int(lo) + int(x * (int(hi) - int(lo))) for x in out],
                     dtype=object)
    else:
        a = max(int(lo), min(case["lo"], int(hi)))
        b = min(a + case["range"], int(hi))
        v = {"uniform": lambda: rng.integers(a, b + 1, n),
             "few": lambda: rng.choice([a, b, (a + b) // 2], n),
             "two": lambda: rng.choice([a, b], n),
             "outliers": lambda: np.where(rng.random(n) < 0.02, b, a),
             "constant": lambda: np.full(n, a),
             "ramp": lambda: np.linspace(a, b, n).astype("int64")}[mode]()
    v = np.asarray(v).astype(object)
    if dt.kind == "f" and mode in ("uniform", "ramp", "full"):
        v = np.array([float(x) for x in v]) + rng.random(n)
    v = np.array(list(v), dtype=dt)
    if case["nan"] and dt.kind == "f":
        v[rng.random(n) < 0.2] = rng.choice([np.nan, np.inf, -np.inf])
    return v.reshape((case["bands"], *case["size"]))


def write(case, d):
    v = values(case)
    name, width = TYPES[case["type"]]
    block = [["LINES", str(case["size"][0])],
             ["LINE_SAMPLES", str(case["size"][1])],
             ["SAMPLE_TYPE", name], ["SAMPLE_BITS", str(width)],
             ["BANDS", str(case["bands"])],
             ["BAND_STORAGE_TYPE", "BAND_SEQUENTIAL"]]
    flat = v.ravel()
    for i, key in zip(range(case["const"]),
                      ["MISSING_CONSTANT", "INVALID_CONSTANT"]):
        x = flat[(case["seed"] >> i * 8) % flat.size]
        if np.isfinite(x):
            block.append([key, repr(x.item())])
    if case["scale"]:
        block += [["SCALING_FACTOR", case["scale"][0]],
                  ["OFFSET", case["scale"][1]]]
    (d / "b.img").write_bytes(v.tobytes())
    (d / "Prod.lbl").write_bytes((render([
        ["PDS_VERSION_ID", "PDS3"], ["RECORD_TYPE", "UNDEFINED"],
        ["^IMAGE", q("b.img")], ["OBJECT", "IMAGE", block]])
        + "END\r\n").encode())
    return d / "Prod.lbl"


# -------------------------------------------------------------------- model
def planes(a, o):
    """the 2-D planes, or the 3-D (y, x, 3) stack, that the options select"""
    if a.ndim == 2:
        return a
    axis = o.get("slice_axis", 0)
    if axis:
        a = a.swapaxes(0, axis)
    n, rgb = a.shape[0], o.get("rgb_channels")
    if rgb is None and n in (3, 4) and not o.get("override_rgba"):
        rgb = (0, 1, 2)
    if rgb is not None:
        return np.ma.stack([a[i] for i in rgb], axis=-1) if isinstance(
            a, np.ma.MaskedArray) else np.stack([a[i] for i in rgb], axis=-1)
    band = o.get("band_ix")
    if band == "burst":
        return list(a)
    if band is None or not -n <= band < n:
        band = n // 2
    return a[band]


def stretch(plane, clip):
    """
    -> (masked, [(lowest, highest brightness of each pixel)]): the possible
    renderings; bounds may or may not be made integers
    """
    mask = np.ma.getmaskarray(plane) | ~np.isfinite(
        np.ma.getdata(plane).astype("f8"))
    data = np.ma.getdata(plane).astype("longdouble")
    valid = np.ma.getdata(plane)[~mask]
    extremes = np.abs(valid.astype("f8")[valid != 0])
    if valid.size == 0 or (plane.dtype.kind == "f" and extremes.size and (
            extremes.max() > 1e30 or extremes.min() < 1e-30)):
        return mask, None  # (the latter over- or underflow on the way)
    nice, (low, high) = clip is None, (
        (1, 1) if clip is None else clip if np.ndim(clip) else (clip, clip))
    work = valid.astype("f8")
    a, b = np.percentile(work, [low, 100 - high]).astype("longdouble")
    if not low:
        a = valid.min().astype("longdouble")
    if not high:
        b = valid.max().astype("longdouble")
    bounds = [(a, b)]
    if plane.dtype.kind in "iu":
        bounds.append((np.trunc(a), np.trunc(b)))
    # what a value may be off by in the arithmetic
    fuzz = np.spacing(np.abs(valid.astype(
        plane.dtype if plane.dtype.kind == "f" else "f8")).max())
    out = []
    for a, b in bounds:
        if 0 < b - a < 2000 * fuzz:  # (too few steps)
            return mask, None
        if a >= b:
            if not nice:
                return mask, None
            a, b = (valid.min().astype("longdouble"),
                    valid.max().astype("longdouble"))
            if b - a < 2000 * fuzz:
                return mask, None
        with np.errstate(all="ignore"):
            out.append((np.clip(data, a, b) - a) * 255 / (b - a))
    return mask, out


def compare(image, plane, o, what, lossy=False):
    shape = plane.shape[:2]
    require(image.size == shape[::-1],
            lambda: f"{what}: size {image.size}, the data's is {shape}")
    got = np.asarray(image).astype("f8")
    color = o.get("mask_color", (0, 255, 255))
    if lossy or plane.dtype.kind == "c":
        return False
    mask, wants = stretch(plane, o.get("image_clip"))
    masked = isinstance(plane, np.ma.MaskedArray) or mask.any()
    if masked and color is not None and not isinstance(color, int):
        require(got.ndim == 3, f"{what}: not in colour")
    if masked and color is not None:
        for c in range(got.shape[2] if got.ndim == 3 else 1):
            channel = got[..., c] if got.ndim == 3 else got
            m = mask[..., c] if mask.ndim == 3 else mask
            k = color if isinstance(color, int) else color[c]
            require((channel[m] == k).all(), lambda: (
                f"{what}: masked pixels are {channel[m]}, not {k}"))
    if wants is None:  # no two brightnesses
        return False
    if got.ndim == 3 and mask.ndim == 2:
        mask, wants = mask[..., None], [w[..., None] for w in wants]
    mask = np.broadcast_to(mask, got.shape)
    errors = [np.abs(got - np.broadcast_to(w, got.shape))[~mask]
              for w in wants]
    require(any((e <= 1.01).all() for e in errors), lambda: (
        f"{what}: pixels {got[~mask][:12]} for values "
        f"{np.ma.getdata(plane).ravel()[:12]}, expected about "
        f"{np.broadcast_to(wants[0], got.shape)[~mask][:12]}"))
    return True


def check_images(images, a, o, what, lossy=False):
    """images: {suffix: image}"""
    want = planes(a, o)
    want = ({f"_{i}": p for i, p in enumerate(want)}
            if isinstance(want, list) else {"": want})
    require(images.keys() == want.keys(),
            lambda: f"{what}: images {sorted(images)}, not {sorted(want)}")
    return all([compare(images[s], want[s], o, what + s, lossy)
                for s in want])


def open_image(path):
    from PIL import Image

    with Image.open(path) as im:
        im.load()
        return im.copy()


def run(case, ctx):
    with ctx.building():
        label = write(case, ctx.dir)
        (ctx.dir / "out").mkdir()
        before_files = sorted(ctx.dir.iterdir())
    data = read(label)
    raw = data["IMAGE"]
    require(type(raw).__name__ == "ndarray", "the image does not load")
    keep = raw.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        scaled = data.get_scaled("IMAGE").copy()
    ctx.tag(case["type"], case["mode"])
    done = 0
    last = len(case["calls"]) - 1
    for i, (how, scale, o, fmt) in enumerate(case["calls"]):
        purge = case["purge"] and i == last and how == "dump"
        axis = o.get("slice_axis", 0)
        if raw.ndim == 3:
            n = raw.swapaxes(0, axis).shape[0]
            if o.get("rgb_channels"):
                o["rgb_channels"] = [c % n for c in o["rgb_channels"]]
        for k in ("image_clip", "mask_color", "rgb_channels"):
            if isinstance(o.get(k), list):
                o[k] = tuple(o[k])
        what = f"{how}(scaled={scale}, purge={purge}, {o}, {fmt})"
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if how == "show":
                scale = bool(scale)
                image = data.show("IMAGE", scale, **copy.deepcopy(o))
                images = ({f"_{j}": im for j, im in enumerate(image)}
                          if isinstance(image, list) else {"": image})
                done += check_images(images, scaled if scale else keep, o,
                                     what)
            else:
                out = ctx.dir / "out"
                data.dump_browse(
                    prefix=case["prefix"], outpath=out, scaled=scale,
                    purge=purge, image_format=fmt, **copy.deepcopy(o))
                stem = "Prod" if case["prefix"] is None else case["prefix"]
                found = {p.name: open_image(p) for p in out.iterdir()
                         if p.suffix == "." + fmt}
                names = sorted(p.name for p in out.iterdir())
                arrays = {True: {"": scaled}, False: {"": keep},
                          "both": {"_scaled": scaled, "_unscaled": keep}}
                expected = 0
                for tail, a in arrays[scale].items():
                    base = f"{stem}_IMAGE{tail}"
                    images = {n[len(base):-len(fmt) - 1]: im
                              for n, im in found.items()
                              if n.startswith(base)}
                    expected += len(images)
                    done += check_images(images, a, o, what + tail,
                                         fmt == "jpg")
                require(len(names) == expected + ("LABEL" in vars(data)),
                        lambda: f"{what} wrote {names}")
                for p in out.iterdir():
                    p.unlink()
        if purge:
            require(list(data.unloaded()) == list(data.keys()),
                    f"{what}: purging left something loaded")
        now = data["IMAGE"]
        require((purge or now is raw)
                and now.tobytes() == keep.tobytes() and now.dtype == keep.dtype,
                lambda: f"{what} changed the image")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            again = data.get_scaled("IMAGE")
        require(np.array_equal(np.ma.getdata(again), np.ma.getdata(scaled),
                               equal_nan=True)
                and np.array_equal(np.ma.getmaskarray(again),
                                   np.ma.getmaskarray(scaled)),
                lambda: f"{what} changed the scaled image")
    require(sorted(ctx.dir.iterdir()) == before_files, "files appeared")
    ctx.nontrivial(done > 0)


# ---------------------------------------------------------- whole products
@st.composite
def dumps(draw):
    return {"product": draw(P.products()),
            "load": draw(st.lists(st.integers(0, 8), min_size=1, max_size=8)),
            "all": draw(st.booleans()), "purge": draw(st.integers(0, 2)) == 0,
            "prefix": draw(st.sampled_from([None, None, "x", "my.prefix"])),
            "scaled": draw(st.sampled_from([True, True, False, "both"])),
            "where": draw(st.sampled_from(["out", "cwd"]))}


def cell(text, v):
    """does the text of a CSV cell give the value back?"""
    if isinstance(v, float | np.floating):
        if v != v:
            return text in ("", "nan")
        try:
            return v.dtype.type(text) == v if hasattr(
                v, "dtype") else float(text) == v
        except ValueError:
            return False
    if isinstance(v, complex | np.complexfloating):
        return (v != v and text == "") or np.array_equal(
            np.array(complex(text), dtype=type(v)), v, equal_nan=True)
    if isinstance(v, bool | np.bool_ | int | np.integer):
        return text == str(v)
    if v is None or type(v).__name__ in ("NAType", "NaTType"):
        return text == ""
    return text == str(v)


def check_csv(path, df, what):
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    columns = [str(c) for c in df.columns]
    if len(df) == 1:  # on its side
        require(len(rows) == len(columns) + 1
                and [r[0] for r in rows[1:]] == columns,
                lambda: f"{what}: columns {[r[0] for r in rows[1:]]}")
        cells = [[r[1] for r in rows[1:]]]
    else:
        require(rows[0][1:] == columns,
                lambda: f"{what}: columns {rows[0][1:]}, not {columns}")
        require(len(rows) == len(df) + 1,
                lambda: f"{what}: {len(rows) - 1} rows, not {len(df)}")
        cells = [r[1:] for r in rows[1:]]
    for i, row in enumerate(cells):
        for j, text in enumerate(row):
            v = df.iloc[i, j]
            require(cell(text, v), lambda: (
                f"{what}: row {i}, {columns[j]} is {text!r}, not {v!r}"))


def pictured(a):
    """whether a picture can show this"""
    return a.ndim in (2, 3) and a.dtype.kind in "buif"


def alike(a, b):
    """the same values (in whatever byte order they are kept)"""
    return isinstance(a, np.ndarray) and a.dtype.kind == b.dtype.kind and (
        same(np.asarray(a).astype(a.dtype.newbyteorder("=")),
             np.asarray(b).astype(b.dtype.newbyteorder("="))))


@st.composite
def odd_dumps(draw):
    """arrays without pictures, and pictures of truth values"""
    case = draw(dumps())
    what = draw(st.sampled_from(["pds4", "pds4", "array", "bits"]))
    shape = [draw(st.integers(1, 4)) for _ in range(draw(
        st.sampled_from([1, 2, 2, 3, 4, 4])))]
    seed = draw(seeds())
    if what == "pds4":
        objs = [draw(P.pds4_objects(i)) for i in range(draw(
            st.integers(1, 3)))]
        i = draw(st.integers(0, len(objs) - 1))
        objs[i] |= {"kind": "array", "shape": shape, "fill": draw(fills()),
                    "type": draw(st.sampled_from(sorted(P4.BINARY)))}
        product = {"kind": "pds4", "objs": objs, "seed": seed}
    else:
        product = {"kind": what, "seed": seed, "shape": shape[:3],
                   "size": [draw(st.integers(1, 9)), draw(st.integers(1, 9))]}
    return case | {"product": product}


def write_odd(case, d):
    from PIL import Image

    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "bits":
        name = ["b.png", "b.tif"][case["seed"] % 2]
        bits = rng.random(case["size"]) > 0.5
        Image.fromarray(bits).save(d / name)
        return d / name
    elements = []
    for i, t in enumerate(["MSB_INTEGER", "IEEE_REAL"]):
        elements.append(["OBJECT", "ELEMENT", [
            ["NAME", f"EL{i}"], ["DATA_TYPE", t],
            ["START_BYTE", str(4 * i + 1)], ["BYTES", "4"]]])
    shape = case["shape"]
    items = "(" + ", ".join(map(str, shape)) + ")"
    n = int(np.prod(shape))
    both = np.zeros(n, dtype=[("a", ">i4"), ("b", ">f4")])
    both["a"], both["b"] = rng.integers(-99, 99, n), rng.normal(size=n)
    image = rng.integers(0, 255, case["size"]).astype("u1")
    return write_product(d, [
        ("ARRAY", both.tobytes(), [
            ["AXES", str(len(shape))],
            ["AXIS_ITEMS", items if len(shape) > 1 else str(shape[0])],
            ["NAME", "STUFF"], ["INTERCHANGE_FORMAT", "BINARY"],
            ["OBJECT", "COLLECTION", [
                ["NAME", "PARTS"], ["START_BYTE", "1"], ["BYTES", "8"]]
             + elements]]),
        ("IMAGE", image.tobytes(), [
            ["LINES", str(case["size"][0])],
            ["LINE_SAMPLES", str(case["size"][1])],
            ["SAMPLE_TYPE", "UNSIGNED_INTEGER"], ["SAMPLE_BITS", "8"]]),
    ])[0]


def dump_run(case, ctx):
    home = os.getcwd()
    with ctx.building():
        d = ctx.dir / "product"
        d.mkdir()
        out = ctx.dir / "out"
        out.mkdir()
        odd = case["product"]["kind"] in ("bits", "array")
        path = write_odd(case["product"], d) if odd else P.write(
            case["product"], d)[0]
        files = {p.name: p.read_bytes() for p in d.iterdir()}
    kind = case["product"]["kind"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = read(path)
        keys = list(data.keys())
        for i in (range(len(keys)) if case["all"] else case["load"]):
            data[keys[i % len(keys)]]
        loaded = [k for k in data.keys() if k not in data.unloaded()]
        keep = {k: copy.deepcopy(data[k]) for k in loaded}
        ids = {k: id(data[k]) for k in loaded}
        images = {}
        for k in loaded:
            if type(keep[k]).__name__ == "ndarray" and keep[k].ndim > 1:
                images[k] = keep[k] if case["scaled"] is False \
                    else data.get_scaled(k).copy()
        try:
            kwargs = {"image_format": "png", "image_clip": 0}
            if case["where"] == "out":
                data.dump_browse(case["prefix"], str(out), case["scaled"],
                                 case["purge"], **kwargs)
            else:
                os.chdir(out)
                data.dump_browse(prefix=case["prefix"], scaled=case["scaled"],
                                 purge=case["purge"], **kwargs)
        finally:
            os.chdir(home)
    ctx.tag(kind, case["scaled"], "purge" if case["purge"] else "keep")
    stem = path.stem if case["prefix"] is None else case["prefix"]
    left = {p.name for p in out.iterdir()}
    fits = path.suffix == ".fits" and case["scaled"] in (False, "both")
    for k in loaded:
        v, base = keep[k], f"{stem}_{k}"
        name = type(v).__name__
        what = f"{kind} {k} ({name})"
        if v is None:
            continue
        if k in images:
            tails = (["_scaled"] if fits else ["_scaled", "_unscaled"]
                     if case["scaled"] == "both" else [""])
            ext = ".png" if pictured(v) else ".pkl"
            names = [base + t + ext for t in tails]
        elif name in ("DataFrame", "ndarray", "recarray"):
            names = [base + ".csv"]
        elif name == "Label":
            names = [base + ".xml"]
        else:
            names = [base + ".txt"]
        for n in names:
            require(n in left, lambda: (
                f"{what}: {n} is not among what was written, {left}"))
            left.discard(n)
            if n.endswith(".pkl"):
                a = keep[k] if "_unscaled" in n else images[k]
                require(alike(pickle.loads((out / n).read_bytes()), a),
                        lambda: f"{what}: {n} does not hold the array")
            elif n.endswith(".png"):
                a = keep[k] if "_unscaled" in n else images[k]
                check_images({"": open_image(out / n)}, a,
                             {"image_clip": 0}, what)
            elif name == "DataFrame":
                check_csv(out / n, v, what)
            elif name in ("Label", "str", "bytes"):
                want = v.to_string() if name == "Label" else str(v)
                require((out / n).read_bytes() == want.encode(),
                        lambda: f"{what}: {(out / n).read_bytes()[:99]!r}")
    require(not left, lambda: f"also wrote {left}; loaded: {loaded}")
    if case["purge"]:
        require(not set(loaded) - set(data.unloaded()),
                "purging left something loaded")
    else:
        for k in loaded:
            require(id(data[k]) == ids[k] and same(data[k], keep[k]),
                    lambda: f"{k} was changed")
    require({p.name: p.read_bytes() for p in d.iterdir()} == files,
            "the product's files were changed")
    ctx.nontrivial(len(loaded) > 1)


LIMIT = 65500  # of the axes of pictures


@st.composite
def long_images(draw):
    return {"axis": draw(st.integers(LIMIT - 2, 5 * LIMIT)),
            "other": draw(st.one_of(st.integers(1, 6), st.integers(1, 40))),
            "bands": draw(st.sampled_from([1, 1, 2, 3, 4])),
            "tall": draw(st.booleans()),
            "low": draw(st.integers(0, 99)), "high": draw(
                st.integers(150, 255)),
            "format": draw(st.sampled_from(["jpg", "png"]))}


def long_run(case, ctx):
    """pictures of images too long for one are smaller, but whole"""
    from PIL import Image

    n, m = case["axis"], case["other"]
    with ctx.building():
        d = ctx.dir / "product"
        d.mkdir()
        line = np.full(n, case["low"], "u1")
        line[n // 2:] = case["high"]
        plane = np.repeat(line[None, :], m, axis=0)
        plane = np.ascontiguousarray(plane.T if case["tall"] else plane)
        cube = np.repeat(plane[None], case["bands"], axis=0)
        path = write_product(d, [("IMAGE", cube.tobytes(), [
            ["LINES", str(plane.shape[0])],
            ["LINE_SAMPLES", str(plane.shape[1])],
            ["SAMPLE_TYPE", "UNSIGNED_INTEGER"], ["SAMPLE_BITS", "8"],
            ["BANDS", str(case["bands"])],
            ["BAND_STORAGE_TYPE", "BAND_SEQUENTIAL"]])])[0]
        out = ctx.dir / "out"
        out.mkdir()
    limit, Image.MAX_IMAGE_PIXELS = Image.MAX_IMAGE_PIXELS, None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = read(path)
        data.load("IMAGE")
        data.dump_browse(outpath=out, image_format=case["format"])
    found = [p for p in out.iterdir() if "IMAGE" in p.name]
    require(len(found) == 1 and found[0].suffix == "." + case["format"],
            lambda: f"wrote {sorted(p.name for p in out.iterdir())}")
    with Image.open(found[0]) as im:
        size, grey = im.size, np.asarray(im.convert("L")).astype(int)
    Image.MAX_IMAGE_PIXELS = limit
    length = size[1] if case["tall"] else size[0]
    width = size[0] if case["tall"] else size[1]
    require(max(size) <= LIMIT and (
        length == n if n <= LIMIT else length >= LIMIT // 4),
        lambda: f"{plane.shape} is pictured in {size}")
    require(width <= m and (width == m or n > LIMIT),
            lambda: f"{plane.shape} is pictured in {size}")
    ends = grey if case["tall"] else grey.T
    third = length // 3
    require((ends[:third] < 20).all() and (ends[-third:] > 235).all(),
            lambda: f"of {plane.shape}: ends {ends[0]}, {ends[-1]}")
    ctx.nontrivial(n > LIMIT)


CHECK = Check(
    property="C29",
    rule=(
        "images: a PDS3 image of 1 to 11 bands of any integer or real type, "
        "with values from narrow, full-range, constant, outlier-ridden and "
        "other distributions, NaNs, special constants and scaling, shown or "
        "dumped (as PNG, BMP, TIFF; JPEG for size only) one to four times "
        "with generated clip, mask colour, band, RGB channel, slice axis, "
        "burst, scaling, prefix and purge options; each picture is compared "
        "pixel by pixel, to within one brightness level, with an independent "
        "rendering of the array; the names of files, and that the object and "
        "its scaled version stay the same, are checked each time. "
        "Non-trivial: at least one picture had contrast to compare. "
        "products: any product of any standard, some or all objects loaded, "
        "dumped with generated options: exactly the right files, tables read "
        "back from CSV cell by cell, text and XML exactly, pictures as above, "
        "arrays that no picture can show (odd: of more than three dimensions, "
        "complex numbers, several values per element) from pickles; "
        "objects unchanged, or unloaded if purged. Non-trivial: two objects "
        "or more were dumped. long: images of axes about and beyond what a "
        "JPEG can hold, of one line upwards: one picture, within the limit, "
        "with all of the image."
    ),
    suites=[Suite("images", cases, run, quick=500, thorough=40000),
            Suite("products", dumps, dump_run, quick=200, thorough=12000),
            Suite("odd", odd_dumps, dump_run, quick=200, thorough=8000),
            Suite("long", long_images, long_run, quick=16, thorough=800)],
    assumptions=[
        "pictures are compared where the stretch has a range well above the "
        "precision of the type, of values from 1e-30 to 1e30 in size",
        "RGB channels exist",
    ],
)
