"""C39: metadata of desktop images."""
import io
import math
import struct
import warnings
import zlib
from xml.sax.saxutils import escape, quoteattr

import numpy as np

from vp.core import Check, Suite, require
from vp.common import get, read, seeds, st
from vp import desktop as D

TEXT, BYTES, SHORT, LONG, RATIO, RAW, SRATIO = 2, 1, 3, 4, 5, 7, 10
# tag: (name, [(type, number of values)...]), from the TIFF and EXIF standards
TAGS = {
    269: ("DocumentName", [(TEXT, 1)]), 270: ("ImageDescription", [(TEXT, 1)]),
    271: ("Make", [(TEXT, 1)]), 272: ("Model", [(TEXT, 1)]),
    274: ("Orientation", [(SHORT, 1)]), 282: ("XResolution", [(RATIO, 1)]),
    283: ("YResolution", [(RATIO, 1)]), 296: ("ResolutionUnit", [(SHORT, 1)]),
    305: ("Software", [(TEXT, 1)]), 306: ("DateTime", [(TEXT, 1)]),
    315: ("Artist", [(TEXT, 1)]), 316: ("HostComputer", [(TEXT, 1)]),
    318: ("WhitePoint", [(RATIO, 2)]),
    319: ("PrimaryChromaticities", [(RATIO, 6)]),
    33432: ("Copyright", [(TEXT, 1)]),
    # not in any standard
    40001: ("40001", [(TEXT, 1), (SHORT, 3), (LONG, 1), (SRATIO, 1)]),
    65012: ("65012", [(RAW, 5), (LONG, 2), (SRATIO, 2)]),
}
PLACE = {
    0: ("VersionID", [(BYTES, 4)]), 1: ("LatitudeRef", [(TEXT, 1)]),
    2: ("Latitude", [(RATIO, 3)]), 3: ("LongitudeRef", [(TEXT, 1)]),
    4: ("Longitude", [(RATIO, 3)]), 5: ("AltitudeRef", [(BYTES, 1)]),
    6: ("Altitude", [(RATIO, 1)]), 7: ("TimeStamp", [(RATIO, 3)]),
    16: ("ImgDirectionRef", [(TEXT, 1)]), 17: ("ImgDirection", [(RATIO, 1)]),
    18: ("MapDatum", [(TEXT, 1)]), 27: ("ProcessingMethod", [(RAW, 9)]),
    61: ("61", [(TEXT, 1), (SHORT, 2)]),  # not in any standard
    29: ("DateStamp", [(TEXT, 1)]), 30: ("Differential", [(SHORT, 1)]),
}
WORDS = ["a", "Mars", "2009:01:02 03:04:05", "(c) NASA/JPL", "N", "W",
         "x" * 90, "0"]


@st.composite
def values(draw, kinds):
    kind, n = draw(st.sampled_from(kinds))
    if kind == TEXT:
        return [kind, draw(st.sampled_from(WORDS))]
    if kind in (BYTES, RAW):
        return [kind, draw(st.lists(st.integers(1, 255), min_size=n,
                                    max_size=n))]
    top = {SHORT: 2 ** 16 - 1, SRATIO: 2 ** 31 - 1}.get(kind, 2 ** 32 - 1)
    small = st.integers(-top if kind == SRATIO else 0, top)
    one = small if kind in (SHORT, LONG) else st.tuples(
        small, st.one_of(st.integers(0, 9), st.integers(1, top)))
    return [kind, [list(v) if isinstance(v, tuple) else v for v in draw(
        st.lists(one, min_size=n, max_size=n))]]


@st.composite
def directories(draw, known, most=6):
    picked = draw(st.lists(st.sampled_from(sorted(known)), max_size=most,
                           unique=True))
    return [[t, *draw(values(known[t][1]))] for t in picked]


SPACES = {"dc": "http://purl.org/dc/elements/1.1/",
          "rdf": "http://www.w3.org/1999/02/22-rdf-syntax-ns#",
          "x": "adobe:ns:meta/", "": "http://example.com/{odd}/ns"}
LOCAL = ["title", "creator", "li", "Seq", "Description", "format", "a-b.c"]


@st.composite
def nodes(draw, depth):
    n = {"space": draw(st.sampled_from(["dc", "rdf", "x"])),
         "name": draw(st.sampled_from(LOCAL)),
         "attrs": [list(a) for a in draw(st.lists(
             st.tuples(st.sampled_from(["", "dc", "rdf"]),
                       st.sampled_from(["about", "lang", "title"]),
                       st.sampled_from(["", "x-default", 'a<&"b', "{c}", "0"])),
             max_size=2, unique_by=lambda a: a[1]))]}
    k = draw(st.integers(0, 4)) if depth > 0 else 0
    if k and draw(st.booleans()):
        n["children"] = [draw(nodes(depth - 1)) for _ in range(k)]
    else:
        n["text"] = draw(st.sampled_from(
            ["", "", "hello", "a & b <c>", " padded ", "{braces}", "äö",
             "0", "7", "False", "None", "two\n  lines"]))
    return n


def xml(n, top=False):
    tag = f"{n['space']}:{n['name']}"
    attrs = "".join(
        f" {s + ':' if s else ''}{k}={quoteattr(v)}" for s, k, v in n["attrs"])
    if top:
        attrs += "".join(f' xmlns:{s}="{u}"' for s, u in SPACES.items() if s)
    inner = escape(n.get("text", "")) + "".join(
        "\n  " + xml(c) for c in n.get("children", ()))
    return f"<{tag}{attrs}>{inner}</{tag}>"


def meaning(n):
    """[(name, value)...], text, both, or None"""
    attrs = [(k, v) for _, k, v in n["attrs"]]
    text = n.get("text", "").strip()
    if "children" in n:
        kids = [(c["name"], meaning(c)) for c in n["children"]]
        return attrs + [(k, v) for k, v in kids if v]
    if text and attrs:
        return [("attrib", sorted(attrs)), ("text", text)]
    return text or sorted(attrs) or None


def plain(got):
    """what pdr gives, like meaning()"""
    if not hasattr(got, "items"):
        return got
    return [(k, plain(v)) for k, v in got.items()]


def ordered(v):
    """without regard to the order of differently named things"""
    if isinstance(v, list):
        return sorted(((k, ordered(x)) for k, x in v), key=lambda kx: kx[0])
    return v


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(["tiff", "tiff", "png", "jpeg", "webp", "bmp",
                                "gif"]))
    tagged = fmt not in ("bmp", "gif")
    return {
        "format": fmt,
        "size": [draw(st.integers(1, 12)), draw(st.integers(1, 12))],
        "rgb": draw(st.booleans()), "seed": draw(seeds()),
        "big": draw(st.booleans()),
        "tags": draw(directories(TAGS)) if tagged else [],
        "gps": draw(directories(PLACE, 5)) or None
        if tagged and draw(st.booleans()) else None,
        "xmp": draw(nodes(3)) if fmt == "tiff" and draw(st.booleans())
        else None,
        "icc": draw(st.sampled_from([None, None, None, "sRGB", "LAB", "XYZ"]))
        if fmt == "tiff" else None,
        "packet": draw(st.integers(0, 2)),
        "pad": draw(st.sampled_from(["", "\n", " " * 40, "\0", "\n\0\0\0"])),
        "frames": draw(st.integers(1, 3)) if fmt == "gif" else 1,
    }


def encode(case, rng):
    from PIL import Image

    (h, w), fmt = case["size"], case["format"]
    e = ">" if case["big"] else "<"
    rgb = case["rgb"] or fmt == "webp"
    px = rng.integers(0, 256, (h, w, 3) if rgb else (h, w)).astype("u1")
    tags = {t: (k, v) for t, k, v in case["tags"]}
    if fmt == "tiff" and 274 in tags:  # (pillow turns TIFFs)
        tags[274][1][:] = [1]
    gps = case["gps"] and {t: (k, v) for t, k, v in case["gps"]}
    if fmt == "tiff":
        if case["icc"]:
            from PIL import ImageCms

            tags[34675] = (RAW, ImageCms.ImageCmsProfile(
                ImageCms.createProfile(case["icc"])).tobytes())
        if case["xmp"]:
            body = xml(case["xmp"], True)
            if case["packet"] == 1:
                body = ('<?xpacket begin="\ufeff" id="W5M0MpCehiHzreSzNTczkc9d'
                        f'"?>\n{body}\n{case["pad"].strip(chr(0))}<?xpacket end="w"?>')
            tags[700] = (1 if case["big"] else 7,
                         (body + case["pad"]).encode())
        return px, D.tiff(px, 8, 1, 2 if rgb else 1, None, case["big"], 3,
                          False, False, tags, gps)
    blob = D.exif(e, tags, gps) if tags or gps else b""
    if fmt == "png":
        body = D.png(px, 2 if rgb else 0, 8, None, False, rng, False)
        if blob:
            chunk = struct.pack(">I", len(blob)) + b"eXIf" + blob
            body = body[:33] + chunk + struct.pack(
                ">I", zlib.crc32(chunk[4:])) + body[33:]
        return px, body
    if fmt == "bmp":
        return np.broadcast_to(px if rgb else px[:, :, None], (h, w, 3)), \
            D.bmp(np.broadcast_to(px if rgb else px[:, :, None], (h, w, 3)),
                  24, None, False)
    if fmt == "gif":
        pal = D.random_palette(rng, 4)
        frames = [{"px": rng.integers(0, 4, (h, w)), "at": (0, 0),
                   "palette": None, "transparent": None, "disposal": 1,
                   "interlace": False} for _ in range(case["frames"])]
        return None, D.gif(frames, pal, (h, w))
    out = io.BytesIO()
    kw = {"exif": b"Exif\0\0" + blob} if fmt == "webp" and blob else {}
    Image.fromarray(px).save(out, fmt.upper(), **(
        kw | ({"lossless": True} if fmt == "webp" else {"quality": 95})))
    body = out.getvalue()
    if fmt == "jpeg" and blob:
        seg = b"Exif\0\0" + blob
        body = body[:2] + b"\xff\xe1" + struct.pack(
            ">H", len(seg) + 2) + seg + body[2:]
    return px if fmt == "webp" else None, body


def agree(got, kind, want):
    if kind == TEXT:
        return got == want
    if kind in (BYTES, RAW):
        return isinstance(got, bytes) and got == bytes(want)
    got = list(got) if isinstance(got, tuple) else [got]
    if len(got) != len(want):
        return False
    if kind in (SHORT, LONG):
        return got == want
    for g, (n, d) in zip(got, want):
        if d == 0:
            if math.isfinite(g):
                return False
        elif not math.isclose(float(g), n / d, rel_tol=1e-12, abs_tol=1e-300):
            return False
    return True


def run(case, ctx):
    with ctx.building():
        px, body = encode(case, np.random.default_rng(case["seed"]))
        ext = {"tiff": "tif", "jpeg": "jpg"}.get(case["format"], case["format"])
        path = ctx.dir / f"picture.{ext}"
        path.write_bytes(body)
    h, w = case["size"]
    ctx.tag(case["format"], *[TAGS[t][0] for t, *_ in case["tags"]],
            *(["positions"] if case["gps"] else []),
            *(["XMP"] if case["xmp"] else []))
    ctx.nontrivial(bool(case["tags"] or case["gps"] or case["xmp"] or case["icc"])
                   or case["frames"] > 1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = read(path)
    meta = data.metadata
    want = {"width": w, "height": h, "size": (w, h),
            "format": case["format"].upper(),
            "mimetype": f"image/{case['format']}"}
    if case["format"] == "gif":
        want["n_frames"] = case["frames"]
    for k, v in want.items():
        require(k in meta and meta[k] == v,
                lambda: f"{k} is {meta.get(k)!r}, expected {v!r}")
        require(data.metaget(k) == v,
                lambda: f"metaget({k!r}) gives {data.metaget(k)!r}")
    for known, tags in ((TAGS, case["tags"]), (PLACE, case["gps"] or [])):
        for t, kind, value in tags:
            name = known[t][0]
            require(name in meta, lambda: f"tag {t} ({name}) not in {list(meta)}")
            require(agree(meta[name], kind, value), lambda: (
                f"tag {t} ({name}) is {meta[name]!r}, expected {value!r}"))
    if case["icc"]:
        profile = meta.get("InterColorProfile")
        space = {"sRGB": "RGB", "LAB": "Lab", "XYZ": "XYZ"}[case["icc"]]
        require(hasattr(profile, "items")
                and profile.get("xcolor_space", "").strip() == space,
                lambda: f"{case['icc']} profile is {profile}")
    if case["xmp"]:
        got, exp = plain(meta["XMLPacket"]), meaning(case["xmp"])
        require(ordered(got) == ordered(exp) if exp else not got,
                lambda: f"XMLPacket is {got}, expected {exp}")
    if px is not None:
        image = get(data, "IMAGE")
        require(np.array_equal(image, px if px.ndim == 2 else
                               np.moveaxis(px, 2, 0)),
                lambda: f"IMAGE is {image!r}")


CHECK = Check(
    property="C39",
    rule=("TIFF, PNG, JPEG, WebP, BMP and GIF files of 1-12 x 1-12 pixels with "
          "up to six tags (text, bytes, integers, rationals, also of zero "
          "denominators; standard and unknown ones), up to five positioning "
          "tags, colour profiles and XMP packets nested up to three deep, in "
          "either byte order; size, format, frames and every tag must be in the metadata "
          "with the value stored, and the picture must be as stored; "
          "non-trivial = tags, an XMP packet or several frames"),
    suites=[Suite("pictures", cases, run, quick=1500, thorough=60000)],
    assumptions=["pictures are upright (TIFF Orientation is 1)","elements of XMP packets have text or children, not both",
                 "text is ASCII (UTF-8 in XMP packets)"],
)
