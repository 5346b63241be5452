"""
C32: specially-compressed images (MSL camera EDRs, MGS MOC SDPs) decode to the
pixels that were encoded. The encoders here are independent; what they share
with the code under test is only the formats' own code tables, frozen in
vp/decomp_tables.json (their prefix-freeness and completeness are asserted).
"""
import io
import json
from functools import lru_cache
from pathlib import Path

import numpy as np

from vp.core import Check, HarnessError, Suite, Violation, require
from vp.common import get, read, seeds, st, warned
from vp.pds3 import brief, junk, q, render, same_values


@lru_cache(None)
def tables():
    t = json.loads((Path(__file__).parent.parent /
                    "decomp_tables.json").read_text())
    out = {
        "msl": dict(enumerate(t["msl"])),
        "moc": [dict(map(tuple, x)) for x in t["moc"]],
        "dct": [dict((v, c) for v, c in x) for x in t["dct"]],
        "order": np.array(t["order"]),
    }
    for d in [out["msl"]] + out["moc"] + out["dct"]:
        if sum(2.0 ** -len(c) for c in d.values()) != 1:
            raise HarnessError("incomplete code table")
    return out


def pack(bits, lsb, fill="0"):
    bits += fill * (-len(bits) % 8)
    if lsb:
        return bytes(int(bits[i:i + 8][::-1], 2) for i in range(0, len(bits), 8))
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))


def content(kind, seed, shape, dtype="u1"):
    rng = np.random.default_rng(seed)
    top = np.iinfo(dtype).max
    n = int(np.prod(shape))
    if kind == "flat":
        a = np.full(n, rng.integers(0, top + 1))
    elif kind == "ramp":
        a = np.arange(n) * rng.integers(1, 5) + rng.integers(0, 256)
    elif kind == "smooth":
        a = np.cumsum(rng.integers(-3, 4, n)) + 128
    elif kind == "gentle":
        walk = np.cumsum(rng.integers(-3, 4, n)) + 128
        a = np.abs(walk % 400 - 200) + 20
    elif kind == "extreme":
        a = rng.choice([0, top, top // 2 + 1, 1], n)
    else:
        a = rng.integers(0, top + 1, n)
    return (a & top).astype(dtype).reshape(shape)


CONTENT = ["flat", "ramp", "smooth", "extreme", "noise", "noise"]


def delta(a):
    """successive differences modulo 256 along the last axis, first from 0"""
    a = a.astype("i8")
    return np.diff(a, axis=-1, prepend=np.zeros(a.shape[:-1] + (1,), "i8")) % 256


# ------------------------------------------------------------------ MSL EDRs
def msl_pred(img, fill):
    codes, out = tables()["msl"], b""
    for y in range(0, img.shape[0], 8):
        strip = img[y:y + 8]
        for r in (0, 1):
            for c in (0, 1):
                plane = strip[r::2, c::2].ravel()
                out += b"\xff\xff\x00\x00"
                body = pack("".join(codes[int(v)] for v in delta(plane)),
                            False, fill)
                pad = -len(body) % 4
                out += body + (b"\xff" if fill == "1" else b"\x00") * pad
    return out, pad


@st.composite
def msl_cases(draw):
    mode = draw(st.sampled_from(["raw", "raw", "pred", "pred", "jpeg"]))
    w8, h8 = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    if draw(st.integers(0, 5)) == 0:
        if mode == "pred":
            w8, h8 = draw(st.sampled_from([255, 128, 206, 60])), 1
        else:
            w8, h8 = draw(st.sampled_from([(255, 3), (2, 255), (206, 150),
                                           (144, 18), (255, 255)]))
    case = {
        "mode": mode, "w8": w8, "h8": h8,
        "content": draw(st.sampled_from(CONTENT)), "seed": draw(seeds()),
        "col": draw(st.integers(0, 255)), "row": draw(st.integers(0, 255)),
        "instrument": draw(st.sampled_from(["MAHLI", "MAST_LEFT", "MAST_RIGHT",
                                            "MARDI"])),
        "dir": draw(st.sampled_from(["", "", "", "set.img", "a.lbl.d"])),
        "upper": draw(st.booleans()),
        "open": draw(st.sampled_from(["label", "label", "data"])),
        "model": draw(st.booleans()),
    }
    if mode == "raw":
        case["deep"] = draw(st.booleans())
        case["trailer"] = draw(st.sampled_from([0, 0, 1, 64]))
        case["thumb"] = draw(st.sampled_from([None, None, 0, 32, 32, 56, 56]))
        case["dh"] = draw(st.sampled_from([0, 7, 7, 1, 2, 3, 4, 5, 6]))
        case["dw"] = draw(st.sampled_from([0, 7, 7, 1, 2, 3, 4, 5, 6]))
        case["cut"] = draw(st.sampled_from([0, 0, 0, 2, 40]))
    elif mode == "pred":
        case["fill"] = draw(st.sampled_from("01"))
        case["trailer"] = draw(st.sampled_from([0, 0, 4, 64]))
        case["cut"] = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 20, 50]))
    else:
        case["bands"] = draw(st.sampled_from([1, 3]))
        case["quality"] = draw(st.integers(1, 100))
        case["lead"] = draw(st.sampled_from([0, 0, 2, 30]))
        case["second"] = draw(st.booleans())
    return case


def msl_header(case, rng):
    words = [int(x) for x in rng.integers(0, 2 ** 31, 16)]
    words[0] &= ~0x0f000000
    words[5] = ((case["col"] << 24) | (case["row"] << 16)
                | (case["w8"] << 8) | case["h8"])
    words[9] = 0
    if case["mode"] == "raw":
        words[8] &= ~0xffff
        if case["deep"]:
            words[9] = 255
        if case["thumb"] is not None:
            words[0] |= 0x08000000
    elif case["mode"] == "pred":
        words[8] = (words[8] & ~0xff) | 0x0100
    else:
        words[8] = (words[8] & ~0xffff) | case["quality"]
        if case["bands"] == 3:
            words[8] |= 0x0300
    words[15] = 0x1010cc28
    return words


def msl_build(case):
    rng = np.random.default_rng(case["seed"] ^ 0x5a5a)
    while True:
        head = np.array(msl_header(case, rng), ">u4").tobytes()
        if b"\xff\xff\x00\x00" not in head and b"\xff\xd8" not in head:
            break
    w, h = case["w8"] * 8, case["h8"] * 8
    if case["mode"] == "raw":
        dt = "u2" if case["deep"] else "u1"
        size = 2 if case["deep"] else 1
        pad = 0
        if case["thumb"]:
            # raw thumbnails may be up to 7 pixels larger than the header
            # (which counts in eights) says, and are padded by 32 or 56 bytes
            hh, ww, pad = h + case["dh"], w + case["dw"], case["thumb"]
            n = hh * ww * size + pad
            alike = [
                1 for a in range(h, h + 8) for b in range(w, w + 8)
                if a * b * size in (n - 32, n - 56)
            ]
            if len(alike) == 1 and n <= (w + 7) * (h + 7) * size \
                    and n != h * w * size:
                h, w = hh, ww
            else:
                pad = 0
        img = content(case["content"], case["seed"], (h, w), dt)
        body = img.astype(img.dtype.newbyteorder(">")).tobytes()
        if case["thumb"] is not None:
            body += junk(pad, 3)
        else:
            body += junk(case["trailer"], 4)
            if case["cut"] and not case["trailer"]:
                body = body[:-case["cut"]]
                flat = img.ravel().copy()
                flat[-(case["cut"] // size):] = 0
                img = flat.reshape(h, w)
        return head + body, img
    if case["mode"] == "pred":
        img = content(case["content"], case["seed"], (h, w))
        body, pad = msl_pred(img, case["fill"])
        body += junk(case["trailer"], 4)
        if case["cut"] and not case["trailer"]:
            body = body[:-case["cut"]]
            if case["cut"] > pad:
                img = None
        return head + body, img
    from PIL import Image

    shape = (h, w) if case["bands"] == 1 else (h, w, 3)
    src = content(case["content"], case["seed"], shape)
    buf = io.BytesIO()
    Image.fromarray(src).save(buf, "JPEG", quality=case["quality"])
    img = np.array(Image.open(io.BytesIO(buf.getvalue())))
    if case["bands"] == 3:
        img = np.ascontiguousarray(img.transpose(2, 0, 1))
    body = b"\x00" * case["lead"] + buf.getvalue()
    if case["second"]:
        small = io.BytesIO()
        Image.fromarray(src[:8, :8]).save(small, "JPEG")
        body += small.getvalue()
    return head + body, img


def msl_write(case, root, blob):
    d = root / case["dir"] if case["dir"] else root
    d.mkdir(exist_ok=True)
    name = "0001ML0000010000100001C00_XXXX"
    lbl, img, dat = ((".LBL", ".IMG", ".DAT") if case["upper"]
                     else (".lbl", ".img", ".dat"))
    h, w = case["h8"] * 8, case["w8"] * 8
    sts = [
        ["PDS_VERSION_ID", "PDS3"], ["RECORD_TYPE", "FIXED_LENGTH"],
        ["RECORD_BYTES", str(w)], ["^IMAGE", q(name + img)],
        ["INSTRUMENT_HOST_NAME", q("MARS SCIENCE LABORATORY")],
        ["INSTRUMENT_ID", q(case["instrument"])],
        ["DATA_SET_ID", q("MSL-M-MASTCAM-2-EDR-IMG-V1.0")],
        ["PRODUCT_ID", q(name)],
    ]
    if case["model"]:
        (d / "GEO.TXT").write_bytes(b"geometry\r\n")
        sts.insert(4, ["^MODEL_DESC", q("GEO.TXT")])
    sts.append(["OBJECT", "IMAGE", [
        ["LINES", str(h)], ["LINE_SAMPLES", str(w)],
        ["SAMPLE_BITS", "16" if case.get("deep") else "8"],
        ["BANDS", str(case.get("bands", 1))],
    ]])
    (d / (name + lbl)).write_bytes(render(sts).encode() + b"END\r\n")
    (d / (name + dat)).write_bytes(blob)
    return d / (name + (lbl if case["open"] == "label" else dat))


def run_msl(case, ctx):
    with ctx.building():
        blob, want = msl_build(case)
        path = msl_write(case, ctx.dir, blob)
        ctx.tag("msl", case["mode"], case["content"],
                "deep" if case.get("deep") else "byte",
                "cut" if case.get("cut") and not case["trailer"] else "whole")
        ctx.nontrivial(want is not None and len(np.unique(want)) > 1)
    data = read(path)
    got = get(data, "IMAGE")
    if want is None:
        require(not isinstance(got, np.ndarray),
                f"an image was made out of a truncated file: {brief(got)}")
        return
    compare(got, want, data)


def compare(got, want, data, close=None):
    if not isinstance(got, np.ndarray):
        raise Violation(
            f"IMAGE loaded as {type(got).__name__} ({warned(data)})")
    if close is not None and got.shape == want.shape:
        off = np.abs(got.astype("i8") - want) <= close
        got = np.where(off, want, got).astype(got.dtype)
    if not same_values(got, want):
        at = ""
        if got.shape == want.shape:
            bad = np.argwhere(got != want)
            at = (f"; {len(bad)} pixels differ, first at "
                  f"{bad[0].tolist() if len(bad) else None}")
        raise Violation(f"IMAGE: got {brief(got)}, expected {brief(want)}{at} "
                        f"({warned(data)})")


# ------------------------------------------------------------------ MGS MOC
@st.composite
def frag_plan(draw):
    return {
        "cuts": draw(st.lists(st.floats(0, 1), max_size=4)),
        "eof": draw(st.sampled_from([True, True, True, False])),
        "trailer": draw(st.sampled_from(["", "", "junk", "zeros"])),
        "noise": draw(seeds()),
        "na": draw(st.booleans()),
        "quality": draw(st.sampled_from(["OK", "OK", "ERRORS"])),
    }


@st.composite
def pred_cases(draw):
    return {
        "mode": draw(st.sampled_from(["x", "x", "y", "none"])),
        "table": draw(st.integers(0, 7)),
        "w": draw(st.sampled_from([1, 1, 2, 3])),
        "h": draw(st.sampled_from([1, 2, 7, 8, 9, 10, 17])),
        "content": draw(st.sampled_from(CONTENT)), "seed": draw(seeds()),
        "plan": draw(frag_plan()),
    }


def moc_pred(case):
    h, w = case["h"] * 16, case["w"] * 16
    codes, mode = tables()["moc"][case["table"]], case["mode"]
    img = content(case["content"], case["seed"], (h, w))
    if case["table"] == 7:
        # lossy: only these residuals can be sent
        rng = np.random.default_rng(case["seed"])
        sent = rng.choice(sorted(codes), (h, w))
        if mode == "none":
            img = sent.astype("u1")
        for y in range(h):
            if mode == "none" or y % 128 == 0:
                continue
            if mode == "x":
                img[y] = np.cumsum(sent[y]) % 256
            else:
                img[y] = (img[y - 1].astype("i8") + sent[y]) % 256
    out, bits = b"", ""
    for y in range(h):
        row = img[y].astype("i8")
        if mode != "none" and y % 128 == 0:
            out += pack(bits, True)
            bits = ""
            out += b"\x00" * (len(out) % 2)
            out += b"\xca\xf0" + img[y].tobytes()
            continue
        if mode == "none":
            sent = row
        elif mode == "x":
            sent = delta(row)
        else:
            sent = (row - img[y - 1]) % 256
        bits += "".join(codes[int(v)] for v in sent)
    out += pack(bits, True)
    return out, img


def header(rng, *, number, down, total, width, compression, length, last):
    h = bytearray(rng.bytes(62))
    h[2:4] = number.to_bytes(2, "little")
    h[4:6] = down[0].to_bytes(2, "little")
    h[6:8] = down[1].to_bytes(2, "little")
    h[13] = (h[13] & ~2) | (2 if last else 0)
    h[40:42] = total.to_bytes(2, "little")
    h[43] = width
    h[44:52] = compression
    h[58:62] = length.to_bytes(4, "little")
    return bytes(h)


def moc_write(ctx, case, frags, height, width, encoding):
    """frags: [(header, data)]"""
    plan = case["plan"]
    rng = np.random.default_rng(plan["noise"])
    blob = b"".join(h + d + rng.bytes(1) for h, d in frags)
    blob += {"": b"", "junk": rng.bytes(40), "zeros": b"\x00" * 200}[
        plan["trailer"]]
    sts = [
        ["PDS_VERSION_ID", "PDS3"], ["RECORD_TYPE", "FIXED_LENGTH"],
        ["RECORD_BYTES", "2048"], ["LABEL_RECORDS", "1"],
        ["^IMAGE", "2"], ["SPACECRAFT_NAME", "MARS_GLOBAL_SURVEYOR"],
        ["FILE_NAME", q("AB102401.IMQ")], ["PRODUCT_ID", q("AB-1-024/01")],
        ["INSTRUMENT_ID", q("MOC-NA" if plan["na"] else "MOC-WA")],
        ["DATA_QUALITY_DESC", q(plan["quality"])],
        ["OBJECT", "IMAGE", [
            ["ENCODING_TYPE", q(encoding)], ["LINES", str(height)],
            ["LINE_SAMPLES", str(width)], ["SAMPLE_BITS", "8"],
            ["SAMPLE_TYPE", "UNSIGNED_INTEGER"],
        ]],
    ]
    text = render(sts).encode() + b"END\r\n"
    path = ctx.dir / "ab102401.imq"
    path.write_bytes(text.ljust(2048) + blob)
    return path


def run_pred(case, ctx):
    with ctx.building():
        stream, want = moc_pred(case)
        plan = case["plan"]
        rng = np.random.default_rng(plan["noise"])
        at = sorted({int(c * len(stream)) for c in plan["cuts"]}
                    - {0, len(stream)})
        edges = [0] + at + [len(stream)]
        mode = {"none": 0, "x": 1, "y": 2}[case["mode"]]
        comp = bytearray(rng.bytes(8))
        comp[0], comp[1] = mode, case["table"]
        frags = []
        for i, (a, b) in enumerate(zip(edges, edges[1:])):
            frags.append((header(
                rng, number=i, down=(0, case["h"]), total=case["h"],
                width=case["w"], compression=bytes(comp), length=b - a,
                last=plan["eof"] and b == len(stream)), stream[a:b]))
        if not plan["eof"]:
            # the end must be found from the end of the file
            case = dict(case, plan=dict(plan, trailer=""))
        path = moc_write(ctx, case, frags, case["h"] * 16, case["w"] * 16,
                         f"MOC-PRED-X-{case['table']}")
        ctx.tag("moc", case["mode"], f"table{case['table']}",
                f"frags{len(frags)}", "resync" if case["h"] > 8 else "short")
        ctx.nontrivial(len(np.unique(want)) > 1)
    data = read(path)
    compare(get(data, "IMAGE"), want, data)


@st.composite
def resync_cases(draw):
    return {
        "mode": draw(st.sampled_from(["x", "y"])),
        "table": draw(st.sampled_from([4, 5, 6])),
        "w": draw(st.integers(3, 4)), "h": draw(st.sampled_from([17, 18, 24])),
        "content": "gentle", "seed": draw(seeds()),
        "damage": draw(st.floats(0, 1)), "lost": draw(st.integers(1, 30)),
        "plan": draw(frag_plan()),
    }


def run_resync(case, ctx):
    """some bytes of the first 128 lines were lost: the lines from the next
    sync marker on are unharmed (so long as the marker can be recognised)"""
    with ctx.building():
        stream, want = moc_pred(case)
        second = stream.find(b"\xca\xf0" + want[128].tobytes())
        first = 2 + want.shape[1]
        at = first + int(case["damage"] * (second - first - case["lost"]))
        if stream.count(b"\xca\xf0") != -(-case["h"] // 8):
            return
        stream = stream[:at] + stream[at + case["lost"]:]
        rng = np.random.default_rng(case["plan"]["noise"])
        comp = bytearray(rng.bytes(8))
        comp[0], comp[1] = {"x": 1, "y": 2}[case["mode"]], case["table"]
        frags = [(header(
            rng, number=0, down=(0, case["h"]), total=case["h"],
            width=case["w"], compression=bytes(comp), length=len(stream),
            last=True), stream)]
        path = moc_write(ctx, case, frags, *want.shape, "MOC-PRED-X-5")
        ctx.tag("resync", case["mode"])
        ctx.nontrivial()
    data = read(path)
    got = get(data, "IMAGE")
    if isinstance(got, np.ndarray) and got.shape == want.shape:
        # how many lines were touched by the loss is not this check's concern
        got = got.copy()
        got[1:128] = want[1:128]
    compare(got, want, data)


@st.composite
def dct_cases(draw):
    levels = draw(st.integers(1, 8))
    w = draw(st.integers(1, 3))
    frags = [draw(st.integers(1, 2)) for _ in range(draw(st.integers(1, 2)))]
    return {
        "levels": levels, "w": w, "frags": frags,
        "spacing": draw(st.sampled_from([1, 2, 7, 40, 300, 65535])),
        "coefs": draw(st.sampled_from(["few", "many", "all", "none"])),
        "escape": draw(st.sampled_from([0, 0, 0.05])),
        "size": draw(st.sampled_from([1, 3, 30, 400])),
        "dc": draw(st.sampled_from(["full", "narrow", "equal"])),
        "cut": draw(st.sampled_from([0, 0, 0, 0, 0, 0.3, 0.6, 0.9])),
        "seed": draw(seeds()), "plan": draw(frag_plan()),
    }


@lru_cache(None)
def basis():
    n, k = np.mgrid[0:16, 0:16]
    m = np.cos((2 * n + 1) * k * np.pi / 32)
    m[:, 0] = np.sqrt(0.5)
    return m


def dct_fragment(case, rng, height):
    """one fragment's bits, its image, how far its values may be off, and
    where in the stream each block's bits end"""
    t = tables()
    w, blocks = case["w"], case["w"] * height
    groups = rng.integers(0, case["levels"], blocks)
    bits = "".join(f"{g:03b}"[::-1] for g in groups)

    def number(v, n):
        return f"{int(v):0{n}b}"[::-1]

    img = np.zeros((height * 16, w * 16), "u1")
    close = np.zeros(img.shape, "i8")
    ends = []
    for level in range(case["levels"]):
        if level not in groups:
            continue
        lo, hi = sorted(int(x) for x in rng.integers(0, 65536, 2))
        if case["dc"] == "narrow":
            lo, hi = 20000, 20000 + int(rng.integers(0, 400))
        elif case["dc"] == "equal":
            hi = lo
        bits += number(lo, 16) + number(hi, 16)
        var, sweep, sweep_escape = rng.integers(0, 8, 256), [], 0
        if "sweep" in case:
            # every code of one scheme, in some order
            var[:] = case["sweep"]
            sweep = list(t["dct"][case["sweep"]])
            rng.shuffle(sweep)
            sweep_escape = int(rng.integers(400, 2000))
        bits += "".join(number(v, 3) for v in var[1:])
        index = 0
        for bx in range(w):
            for by in range(height):
                mine = groups[index] == level
                index += 1
                if not mine:
                    continue
                dc = int(rng.integers(0, 256))
                top = {"few": 8, "many": 60, "all": 255, "none": 0}[
                    case["coefs"]]
                n = int(rng.integers(0, top + 1)) if top else 0
                if case["coefs"] == "all":
                    n = 255
                if "sweep" in case:
                    n = min(4, len(sweep))
                bits += number(dc, 8) + number(255 - n, 8)
                stream = np.zeros(256)
                stream[0] = int(dc * (hi - lo) / 255.0 + lo)
                for i in range(1, n + 1):
                    codes = t["dct"][var[i]]
                    half = (len(codes) - 2) // 2
                    if sweep:
                        v = sweep.pop()
                        if v in ("neg", "pos"):
                            bits += codes[v] + number(sweep_escape, 15)
                            v = sweep_escape - 32768 * (v == "neg")
                        else:
                            bits += codes[v]
                    elif rng.random() < case["escape"]:
                        v = int(rng.integers(0, 2 ** 15))
                        if rng.random() < 0.5:
                            bits += codes["neg"] + number(v, 15)
                            v -= 32768
                        else:
                            bits += codes["pos"] + number(v, 15)
                    else:
                        m = min(half, case["size"])
                        v = int(rng.integers(-m, m + 1))
                        bits += codes[v]
                    stream[i] = v * case["spacing"]
                square = stream[t["order"]].reshape(16, 16)
                value = basis() @ square @ basis().T / 127.0 + 0.5
                px = np.clip(np.trunc(value), 0, 255)
                near = np.abs(value - np.round(value)) < 1e-6 * (
                    1 + np.abs(stream).max() / 1000)
                y, x = by * 16, bx * 16
                img[y:y + 16, x:x + 16] = px
                close[y:y + 16, x:x + 16] = near
                ends.append((len(bits), y, x))
    return bits, img, close, ends


@st.composite
def sweep_cases(draw):
    """images made with every code of one of the coding schemes"""
    scheme = draw(st.integers(0, 7))
    return {
        "sweep": scheme, "levels": 1,
        **(dict(w=5, frags=[4]) if scheme < 3 else dict(w=13, frags=[12])),
        "spacing": draw(st.sampled_from([100, 127, 200])), "coefs": "few",
        "escape": 0, "size": 400, "dc": draw(st.sampled_from(
            ["full", "narrow"])),
        "cut": 0, "seed": draw(seeds()), "plan": draw(frag_plan()),
    }


def run_dct(case, ctx):
    with ctx.building():
        rng = np.random.default_rng(case["seed"])
        comp = bytearray(rng.bytes(8))
        comp[0], comp[1] = 2 << 2, (case["levels"] - 1) << 5
        comp[4:6] = case["spacing"].to_bytes(2, "little")
        frags, images, closes = [], [], []
        for i, height in enumerate(case["frags"]):
            bits, img, close, ends = dct_fragment(case, rng, height)
            stream = pack(bits, True)
            if case["cut"] and i == 0:
                # the end of a fragment is missing: what it says is still
                # decoded, and the rest of its image is zeros
                stream = stream[:max(1, int(len(stream) * (1 - case["cut"])))]
                for end, y, x in ends:
                    if end > len(stream) * 8:
                        img[y:y + 16, x:x + 16] = 0
                        close[y:y + 16, x:x + 16] = 0
            frags.append((header(
                rng, number=i, down=(sum(case["frags"][:i]), height),
                total=sum(case["frags"]), width=case["w"],
                compression=bytes(comp), length=len(stream),
                last=case["plan"]["eof"] and i == len(case["frags"]) - 1,
            ), stream))
            images.append(img)
            closes.append(close)
        want, close = np.vstack(images), np.vstack(closes)
        path = moc_write(ctx, case, frags, *want.shape, "MOC-DCT-2")
        ctx.tag("dct", case["coefs"], f"frags{len(frags)}",
                f"levels{case['levels']}", "cut" if case["cut"] else "whole")
        ctx.nontrivial(len(np.unique(want)) > 1)
    data = read(path)
    compare(get(data, "IMAGE"), want, data, close)


CHECK = Check(
    property="C32",
    rule="the decoded image has at least two distinct pixel values",
    suites=[
        Suite("msl", msl_cases, run_msl, quick=500, thorough=12000),
        Suite("moc-pred", pred_cases, run_pred, quick=300, thorough=8000),
        Suite("moc-resync", resync_cases, run_resync, quick=60,
              thorough=2000),
        Suite("moc-dct", dct_cases, run_dct, quick=150, thorough=5000),
        Suite("moc-codes", sweep_cases, run_dct, quick=48, thorough=400),
    ],
    assumptions=[
        "the formats' code tables are those frozen in vp/decomp_tables.json",
        "MSL headers start at byte 0; MOC streams carry a sync marker every "
        "128 lines, as pdr assumes",
        "DCT values within rounding error of a half may round either way",
    ],
)
