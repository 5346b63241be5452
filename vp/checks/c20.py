"""C20: desktop image formats."""
import io
import warnings

import numpy as np

from vp.core import Check, Suite, require
from vp.common import big, get, read, seeds, st, warned
from vp import desktop as D
from vp.pds3 import brief, render

EXT = {"png": [".png", ".PNG"], "tiff": [".tif", ".tiff", ".TIF"],
       "bmp": [".bmp", ".BMP"], "gif": [".gif", ".GIF"],
       "webp": [".webp"], "jp2": [".jp2", ".JP2", ".jpf", ".jpx"]}
KINDS = {
    "png": ["grey8", "grey16", "grey1", "rgb", "rgba", "la", "pal1", "pal2",
            "pal4", "pal8"],
    "tiff": ["grey8", "grey16", "int16", "int32", "float32", "rgb", "rgba",
             "pal8"],
    "bmp": ["rgb", "rgb32", "pal1", "pal4", "pal8"],
    "gif": ["pal1", "pal3", "pal8"],
    "webp": ["rgb", "rgba"],
    "jp2": ["grey8", "rgb", "rgba", "la", "grey16"],
}


@st.composite
def singles(draw):
    fmt = draw(st.sampled_from(sorted(KINDS)))
    exts = EXT[fmt]
    if draw(st.integers(0, 9)) == 0:  # content decides
        exts = [".png", ".tif", ".gif", ".bmp"]
    return {
        "format": fmt, "kind": draw(st.sampled_from(KINDS[fmt])),
        "shape": [draw(st.integers(1, 20)), draw(st.integers(1, 20))],
        "ext": draw(st.sampled_from(exts)), "seed": draw(seeds()),
        "opts": [draw(st.booleans()) for _ in range(4)],
        "strip": draw(st.integers(1, 8)),
        "label": draw(st.sampled_from(
            [None, None, "IMAGE", "BROWSE_IMAGE", "A_IMAGE"])),
        "where": draw(st.sampled_from(['"{}"', '("{}", 1)'])),
    }


def samples(case, rng):
    """-> (stored samples, palette or None, the picture pdr should give)"""
    h, w = case["shape"]
    kind = case["kind"]
    if kind.startswith("pal"):
        n = 1 << int(kind[3:])
        pal = D.random_palette(rng, n, case["opts"][3])
        px = rng.integers(0, n, (h, w))
        return px, pal, np.rollaxis(pal[px], 2)
    channels = {"rgb": 3, "rgb32": 3, "rgba": 4, "la": 2}.get(kind)
    if channels:
        px = rng.integers(0, 256, (h, w, channels)).astype("u1")
        return px, None, np.rollaxis(px, 2)
    if kind == "grey1":
        px = rng.integers(0, 2, (h, w))
        return px, None, px.astype(bool)
    dt = {"grey8": "u1", "grey16": "u2", "int16": "i2", "int32": "i4",
          "float32": "f4"}[kind]
    px = np.frombuffer(rng.bytes(h * w * np.dtype(dt).itemsize),
                       dt).reshape(h, w)
    return px, None, px


def encode(case, px, pal, rng):
    fmt, kind, o = case["format"], case["kind"], case["opts"]
    if fmt == "png":
        code = {"g": 0, "r": 2, "p": 3, "l": 4}[kind[0]]
        if kind == "rgba":
            code = 6
        depth = (int(kind[3:]) if pal is not None else
                 {"grey16": 16, "grey1": 1}.get(kind, 8))
        return D.png(px, code, depth, pal, o[0], rng, o[1] and kind[0] in "gp")
    if fmt == "tiff":
        bits, form = {"grey16": (16, 1), "int16": (16, 2), "int32": (32, 2),
                      "float32": (32, 3)}.get(kind, (8, 1))
        photo = 3 if pal is not None else 2 if kind[0] == "r" else 1
        # (pillow misreads deflated big-endian samples of some types)
        big = o[0] and not (o[1] and kind in ("int16", "int32", "float32"))
        return D.tiff(px, bits, form, photo, pal, big, case["strip"], o[1],
                      o[1] and o[2] and bits == 8 and pal is None)
    if fmt == "bmp":
        depth = {"rgb": 24, "rgb32": 32}.get(kind) or int(kind[3:])
        return D.bmp(px, depth, pal, o[0])
    if fmt == "gif":
        frame = {"px": px, "at": (0, 0), "palette": pal if o[0] else None,
                 "transparent": None, "disposal": 0, "interlace": o[1]}
        return D.gif([frame], pal, px.shape)
    from PIL import Image

    buf = io.BytesIO()
    mode = {"grey8": "L", "rgb": "RGB", "rgba": "RGBA", "la": "LA",
            "grey16": "I;16"}[kind]
    im = Image.frombytes(mode, px.shape[1::-1],
                         np.ascontiguousarray(px).tobytes())
    if fmt == "webp":
        im.save(buf, "WEBP", lossless=True, exact=True)
    else:
        im.save(buf, "JPEG2000", irreversible=False,
                no_jp2=case["ext"] == ".jpc")
    return buf.getvalue()


def compare(got, want, name, data, grey=False):
    require(got.__class__.__name__ == "ndarray", lambda: (
        f"{name} loaded as {type(got)} ({warned(data)})"))
    if grey and got.ndim == 2:
        got = np.stack([got] * 3)
    if got.dtype == bool and want.dtype != bool:
        got = got.astype("u1") * 255
    if got.ndim == 3 and len(got) == 4 and len(want) == 3:
        require((got[3] == 255).all(), lambda: f"{name}: alpha {brief(got[3])}")
        got = got[:3]
    require(got.shape == want.shape, lambda: (
        f"{name}: shape {got.shape}, expected {want.shape}"))
    same = (got == want) | ((got != got) & (want != want))
    require(same.all(), lambda: (
        f"{name}: {brief(got)}, expected {brief(want)}"))
    require((got.dtype.kind == "b") == (want.dtype.kind == "b")
            and (got.dtype.kind == "f") == (want.dtype.kind == "f"),
            lambda: f"{name} is {got.dtype}, expected {want.dtype}")


def large():
    def size(draw, case):
        case["shape"] = draw(st.sampled_from([
            [draw(st.integers(200, 1500)), draw(st.integers(200, 1500))],
            [draw(st.integers(1, 4)), draw(st.integers(5000, 16000))],
            [draw(st.integers(5000, 16000)), draw(st.integers(1, 4))]]))
        case["strip"] = draw(st.integers(1, 100))
    return big(singles, size)


def run_single(case, ctx):
    with ctx.building():
        rng = np.random.default_rng(case["seed"])
        px, pal, want = samples(case, rng)
        path = ctx.dir / ("A" + case["ext"])
        path.write_bytes(encode(case, px, pal, rng))
        name = case["label"] or "IMAGE"
        if case["label"]:
            lab = render([
                ["PDS_VERSION_ID", "PDS3"], ["RECORD_TYPE", "UNDEFINED"],
                [f"^{name}", case["where"].format(path.name)],
                ["OBJECT", name, [["LINES", str(case["shape"][0])],
                                  ["LINE_SAMPLES", str(case["shape"][1])],
                                  ["SAMPLE_BITS", "8"]]]]) + "END\r\n"
            path = ctx.dir / "A.LBL"
            path.write_text(lab, newline="")
    ctx.tag(f"{case['format']} {case['kind']}",
            "label" if case["label"] else "direct")
    ctx.nontrivial(px.size > 3)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = read(path)
    require(set(data.keys()) == ({name, "LABEL"} if case["label"] else {name}),
            lambda: f"keys {data.keys()}")
    grey = pal is not None and (pal == pal[:, :1]).all()
    for again in (False, True):
        if again:
            data.load(name, reload=True)
        compare(get(data, name), want, name, data, grey)


@st.composite
def frames(draw, size):
    h, w = size
    top, left = draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))
    return {"at": [top, left],
            "shape": [draw(st.integers(1, h - top)),
                      draw(st.integers(1, w - left))],
            "palette": draw(st.sampled_from([None, None, 1, 2, 4, 8])),
            "transparent": draw(st.booleans()),
            "disposal": draw(st.sampled_from([1, 1, 3])),
            "interlace": draw(st.booleans())}


@st.composite
def animations(draw):
    fmt = draw(st.sampled_from(["gif", "gif", "webp"]))
    size = [draw(st.integers(1, 12)), draw(st.integers(1, 12))]
    fs = [draw(frames(size)) for _ in range(draw(st.integers(2, 12)))]
    fs[0] |= {"at": [0, 0], "shape": size, "transparent": False,
              "disposal": 1}
    if draw(st.integers(0, 3)) == 0:
        for f in fs:
            f["disposal"] = 0
    if max(size) < 6 and draw(st.integers(0, 7)) == 0:
        # more frames than two digits count
        n = draw(st.integers(100, 112))
        fs = [dict(f) for f in (fs * n)[:n]]
    n = len(fs)
    return {"format": fmt, "size": size, "frames": fs, "seed": draw(seeds()),
            "palette": draw(st.sampled_from([1, 2, 5, 8])),
            "loads": draw(st.lists(st.integers(0, n - 1), max_size=min(2 * n, 24)))}


def run_animation(case, ctx):
    with ctx.building():
        rng = np.random.default_rng(case["seed"])
        path = ctx.dir / f"a.{case['format']}"
        h, w = case["size"]
        if case["format"] == "gif":
            pal = D.random_palette(rng, 1 << case["palette"])
            fs = []
            for f in case["frames"]:
                p = (None if f["palette"] is None else
                     D.random_palette(rng, 1 << f["palette"]))
                n = len(pal if p is None else p)
                fs.append(f | {
                    "px": rng.integers(0, n, f["shape"]), "palette": p,
                    "transparent": (int(rng.integers(0, n))
                                    if f["transparent"] else None)})
            path.write_bytes(D.gif(fs, pal, (h, w)))
            want = [np.rollaxis(p, 2) for p in D.gif_pictures(fs, pal, (h, w))]
        else:
            from PIL import Image

            px = [rng.integers(0, 256, (h, w, 3)).astype("u1")
                  for _ in case["frames"]]
            ims = [Image.fromarray(p) for p in px]
            ims[0].save(path, save_all=True, append_images=ims[1:],
                        lossless=True, duration=50)
            want = [np.rollaxis(p, 2) for p in px]
    ctx.tag(case["format"], "more than 10" if len(want) > 10 else "few")
    ctx.nontrivial(len(set(map(np.ndarray.tobytes, want))) > 1)
    data = read(path)
    keys = [f"FRAME_{i}" for i in range(len(want))]
    require(data.keys() == keys, lambda: f"keys {data.keys()}")
    done = set()
    for i in case["loads"] + list(range(len(want))):
        if i in done:
            data.load(keys[i], reload=True)
        done.add(i)
        got = get(data, keys[i])
        compare(got, want[i], keys[i], data, grey=got.ndim == 2)


@st.composite
def multipictures(draw):
    n = draw(st.integers(2, 12))
    return {"seed": draw(seeds()),
            "sizes": [[draw(st.integers(1, 20)), draw(st.integers(1, 20))]
                      for _ in range(n)],
            "modes": [draw(st.sampled_from(["L", "RGB"])) for _ in range(n)],
            "loads": draw(st.lists(st.integers(0, n - 1), max_size=2 * n)),
            "types": [draw(st.sampled_from(
                [0, 0x010001, 0x010002, 0x020001, 0x020002, 0x020003]))
                for _ in range(n - 1)],
            "ext": draw(st.sampled_from([".jpg", ".JPG", ".jpeg"]))}


def run_multipicture(case, ctx):
    """each picture of a multi-picture JPEG is what that JPEG alone gives"""
    from PIL import Image

    with ctx.building():
        rng = np.random.default_rng(case["seed"])
        jpegs, want = [], []
        for (h, w), mode in zip(case["sizes"], case["modes"]):
            shape = (h, w) if mode == "L" else (h, w, 3)
            buf = io.BytesIO()
            Image.fromarray(rng.integers(0, 256, shape).astype("u1")).save(
                buf, "JPEG")
            jpegs.append(buf.getvalue())
            px = np.asarray(Image.open(io.BytesIO(buf.getvalue())))
            want.append(px if mode == "L" else np.rollaxis(px, 2))
        path = ctx.dir / ("a" + case["ext"])
        path.write_bytes(D.mpo(jpegs, case["types"]))
    ctx.tag("more than 10" if len(want) > 10 else "few")
    ctx.nontrivial(len(want) > 2)
    data = read(path)
    keys = list(data.keys())
    require(len(set(keys)) == len(keys) == len(want) and keys[0] == "IMAGE"
            and all(k.endswith(f"_{i}") for i, k in enumerate(keys) if i),
            lambda: f"keys {keys} for {len(want)} pictures")
    done = set()
    for i in case["loads"] + list(range(len(want))):
        if i in done:
            data.load(keys[i], reload=True)
        done.add(i)
        compare(get(data, keys[i]), want[i], keys[i], data)


CHECK = Check(
    property="C20",
    rule=("PNG (all filters, interlaced or not), TIFF (both byte orders, "
          "strips, deflate), BMP and GIF files from own encoders and lossless "
          "WebP and JPEG2000 files from pillow, of all supported sample types "
          "and palettes, read directly or through a PDS3 label; animated GIFs "
          "with partial, transparent and disposed frames and animated WebPs, and "
          "multi-picture JPEGs (against each picture alone), frames loaded and reloaded in any order; pixels must be as "
          "encoded; non-trivial = more than three samples, differing frames"),
    suites=[Suite("single", singles, run_single, quick=1200, thorough=50000),
            Suite("large", large, run_single, quick=30, thorough=700),
            Suite("animated", animations, run_animation, quick=350,
                  thorough=15000),
            Suite("multipicture", multipictures, run_multipicture, quick=100,
                  thorough=4000)],
    assumptions=[
        "sample types that pillow decodes without loss (no 16-bit RGB, "
        "2-bit or 4-bit greyscale)",
        "no multi-page TIFFs or animated PNGs (documented as unsupported)",
        "GIF frames are not disposed to the background, whose meaning differs "
        "between decoders, and all or no frames specify a disposal",
        "multi-byte TIFF samples are not both big-endian and deflated (pillow "
        "swaps their bytes)",
    ],
)
