"""Desktop image files, written without pillow where that is practical."""
from __future__ import annotations

import struct
import zlib

import numpy as np


# ------------------------------------------------------------------------ PNG
def pack_bits(rows, depth):
    """(h, n) small integers -> packed rows"""
    if depth == 8:
        return rows.astype("u1")
    bits = (rows[:, :, None] >> np.arange(depth - 1, -1, -1)) & 1
    return np.packbits(bits.reshape(len(rows), -1).astype("u1"), axis=1)


def _filter(rows, bpp, rng):
    """apply a random PNG filter to each row of bytes"""
    out, prev = [], np.zeros(rows.shape[1], "i8")
    for row in rows.astype("i8"):
        f = int(rng.integers(0, 5))
        left = np.concatenate([np.zeros(bpp, "i8"), row])[:len(row)]
        upleft = np.concatenate([np.zeros(bpp, "i8"), prev])[:len(row)]
        if f == 0:
            pred = 0
        elif f == 1:
            pred = left
        elif f == 2:
            pred = prev
        elif f == 3:
            pred = (left + prev) // 2
        else:
            p = left + prev - upleft
            pa, pb, pc = abs(p - left), abs(p - prev), abs(p - upleft)
            pred = np.where((pa <= pb) & (pa <= pc), left,
                            np.where(pb <= pc, prev, upleft))
        out.append(bytes([f]) + ((row - pred) % 256).astype("u1").tobytes())
        prev = row
    return b"".join(out)


def png(px, kind, depth, palette, interlace, rng, trns):
    """px: (h, w) or (h, w, c) samples"""
    h, w = px.shape[:2]
    channels = 1 if px.ndim == 2 else px.shape[2]
    bpp = max(1, channels * depth // 8)

    def scan(a):
        rows = a.reshape(a.shape[0], -1)
        if depth == 16:
            rows = np.ascontiguousarray(rows.astype(">u2")).view("u1").reshape(
                a.shape[0], -1)
        else:
            rows = pack_bits(rows, depth)
        return _filter(rows, bpp, rng)

    if interlace:
        raw = b""
        for y0, x0, dy, dx in ((0, 0, 8, 8), (0, 4, 8, 8), (4, 0, 8, 4),
                               (0, 2, 4, 4), (2, 0, 4, 2), (0, 1, 2, 2),
                               (1, 0, 2, 1)):
            part = px[y0::dy, x0::dx]
            if part.size:
                raw += scan(part)
    else:
        raw = scan(px)

    def chunk(tag, body):
        return (struct.pack(">I", len(body)) + tag + body
                + struct.pack(">I", zlib.crc32(tag + body)))

    out = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(
        ">IIBBBBB", w, h, depth, kind, 0, 0, int(interlace)))
    if palette is not None:
        out += chunk(b"PLTE", palette.tobytes())
        if trns:
            out += chunk(b"tRNS", bytes([0, 128])[:len(palette)])
    elif trns and kind == 0:
        out += chunk(b"tRNS", b"\0\1")
    z = zlib.compress(raw, int(rng.integers(0, 10)))
    cut = int(rng.integers(0, len(z) + 1))
    return (out + chunk(b"IDAT", z[:cut]) + chunk(b"IDAT", z[cut:])
            + chunk(b"IEND", b""))


# ----------------------------------------------------------------------- TIFF
def tiff(px, bits, fmt, photometric, palette, big, per_strip, deflate,
         predictor, more=None, gps=None):
    h, w = px.shape[:2]
    n = 1 if px.ndim == 2 else px.shape[2]
    e = ">" if big else "<"
    dt = np.dtype(f"{e}{'uif'[fmt - 1]}{bits // 8}")
    rows = px.reshape(h, -1).astype(dt)
    if predictor:
        d = rows.reshape(h, w, n).astype(f"u{bits // 8}")
        d[:, 1:] -= d[:, :-1].copy()
        rows = d.reshape(h, -1).astype(dt)
    strips = [rows[i:i + per_strip].tobytes() for i in range(0, h, per_strip)]
    if deflate:
        strips = [zlib.compress(s) for s in strips]
    tags = {256: (4, [w]), 257: (4, [h]), 258: (3, [bits] * n),
            259: (3, [8 if deflate else 1]), 262: (3, [photometric]),
            277: (3, [n]), 278: (4, [per_strip]),
            279: (4, [len(s) for s in strips]), 284: (3, [1]),
            339: (3, [fmt] * n)}
    if n in (2, 4):
        tags[338] = (3, [2])
    if predictor:
        tags[317] = (3, [2])
    if palette is not None:
        full = np.zeros((256, 3), "u4")
        full[:len(palette)] = palette
        tags[320] = (3, [int(v) * 257 for v in full.T.ravel()])
    at, offsets = 8, []
    for s in strips:
        offsets.append(at)
        at += len(s)
    tags[273] = (4, offsets)
    body = b"".join(strips)
    body += b"\0" * (at % 2)
    return tiff_header(e, 8 + len(body)) + body + directories(
        e, tags | (more or {}), gps, 8 + len(body))


def tiff_header(e, at):
    return (b"MM\0*" if e == ">" else b"II*\0") + struct.pack(e + "I", at)


def packed(e, kind, values):
    """-> (count, bytes) of a TIFF field"""
    if kind in (1, 7):
        return len(values), bytes(values)
    if kind == 2:
        text = values.encode("ascii") + b"\0"
        return len(text), text
    code = {3: "H", 4: "I", 5: "I", 8: "h", 9: "i", 10: "i", 11: "f",
            12: "d"}[kind]
    flat = values if kind not in (5, 10) else [n for v in values for n in v]
    return len(values), struct.pack(e + code * len(flat), *flat)


def directory(e, tags, at):
    """an image file directory that starts at byte `at` of its file"""
    extra, out = b"", struct.pack(e + "H", len(tags))
    extra_at = at + 2 + 12 * len(tags) + 4
    for t in sorted(tags):
        count, raw = packed(e, *tags[t])
        if len(raw) <= 4:
            field = raw.ljust(4, b"\0")
        else:
            field = struct.pack(e + "I", extra_at + len(extra))
            extra += raw + b"\0" * (len(raw) % 2)
        out += struct.pack(e + "HHI", t, tags[t][0], count) + field
    return out + struct.pack(e + "I", 0) + extra


def directories(e, tags, gps, at):
    """the main directory, followed by that of positions if there is one"""
    if gps is None:
        return directory(e, tags, at)
    size = len(directory(e, tags | {34853: (4, [0])}, at))
    return directory(e, tags | {34853: (4, [at + size])}, at) + directory(
        e, gps, at + size)


def exif(e, tags, gps):
    return tiff_header(e, 8) + directories(e, tags, gps, 8)


# ------------------------------------------------------------------------ BMP
def bmp(px, depth, palette, top_down):
    h, w = px.shape[:2]
    if depth in (24, 32):
        body = px[:, :, ::-1].astype("u1")
        if depth == 32:
            body = np.concatenate([body, np.zeros((h, w, 1), "u1")], 2)
        rows = body.reshape(h, -1)
    else:
        rows = pack_bits(px, depth)
    rows = np.hstack([rows, np.zeros((h, -rows.shape[1] % 4), "u1")])
    if not top_down:
        rows = rows[::-1]
    pal = b""
    if palette is not None:
        pal = b"".join(bytes([int(c[2]), int(c[1]), int(c[0]), 0])
                       for c in palette)
    off = 14 + 40 + len(pal)
    data = np.ascontiguousarray(rows).tobytes()
    return (b"BM" + struct.pack("<IHHI", off + len(data), 0, 0, off)
            + struct.pack("<IiiHHIIiiII", 40, w, -h if top_down else h, 1,
                          depth, 0, len(data), 2835, 2835,
                          0 if palette is None else len(palette), 0)
            + pal + data)


# ------------------------------------------------------------------------ GIF
def _lzw(values, size):
    """uncompressed LZW: a clear code before the code width would grow"""
    clear, width, acc, nbits = 1 << size, size + 1, 0, 0
    out = bytearray()

    def emit(code):
        nonlocal acc, nbits
        acc |= code << nbits
        nbits += width
        while nbits >= 8:
            out.append(acc & 255)
            acc >>= 8
            nbits -= 8

    for i, v in enumerate(values):
        if i % ((1 << size) - 2) == 0:
            emit(clear)
        emit(int(v))
    emit(clear + 1)
    if nbits:
        out.append(acc & 255)
    return bytes([size]) + b"".join(
        bytes([len(out[i:i + 255])]) + bytes(out[i:i + 255])
        for i in range(0, len(out), 255)) + b"\0"


def gif(frames, palette, size):
    """
    frames: [dict(px, at (top, left), palette or None, transparent index or
    None, disposal, interlace)]; palettes have 2**k colours
    """
    h, w = size
    k = len(palette).bit_length() - 1
    out = b"GIF89a" + struct.pack("<HHBBB", w, h, 0x80 | (k - 1), 0, 0)
    out += palette.tobytes()
    if len(frames) > 1:
        out += b"\x21\xff\x0bNETSCAPE2.0\x03\x01\0\0\0"
    for f in frames:
        t = f["transparent"]
        if len(frames) > 1 or t is not None:
            out += b"\x21\xf9\x04" + struct.pack(
                "<BHBB", (f["disposal"] << 2) | (t is not None), 5,
                t or 0, 0)
        px, (top, left) = f["px"], f["at"]
        pal = f["palette"]
        flags = 0x40 if f["interlace"] else 0
        if pal is not None:
            flags |= 0x80 | (len(pal).bit_length() - 2)
        out += b"," + struct.pack("<HHHHB", left, top, px.shape[1],
                                  px.shape[0], flags)
        if pal is not None:
            out += pal.tobytes()
        bits = (len(palette if pal is None else pal)).bit_length() - 1
        rows = px
        if f["interlace"]:
            rows = np.vstack([px[0::8], px[4::8], px[2::4], px[1::2]])
        out += _lzw(rows.ravel(), max(2, bits))
    return out + b";"


def gif_pictures(frames, palette, size):
    """what each frame of a GIF looks like; the first frame is complete"""
    out, canvas = [], np.zeros((*size, 3), "u1")
    for f in frames:
        pal = palette if f["palette"] is None else f["palette"]
        before = canvas.copy()
        (top, left), px = f["at"], f["px"]
        area = canvas[top:top + px.shape[0], left:left + px.shape[1]]
        keep = (np.zeros(px.shape, bool) if f["transparent"] is None
                else px == f["transparent"])
        area[~keep] = pal[px][~keep]
        out.append(canvas.copy())
        if f["disposal"] == 3:
            canvas = before
    return out


def mpo(jpegs, types):
    """JPEG files -> a multi-picture file"""
    n = len(jpegs)
    ifd_size = 2 + 3 * 12 + 4
    tiff_size = 8 + ifd_size + 16 * n
    segment = 4 + 4 + tiff_size  # marker, length, identifier, TIFF
    base = 2 + 4 + 4  # where the TIFF header will be
    sizes = [len(j) for j in jpegs]
    sizes[0] += segment
    entries, at = b"", 0
    for i, size in enumerate(sizes):
        entries += struct.pack("<IIIHH", types[i - 1] if i else 0x20030000,
                               size, at - base if i else 0, 0, 0)
        at += size
    body = b"II*\0" + struct.pack("<I", 8) + struct.pack("<H", 3)
    body += struct.pack("<HHI4s", 0xB000, 7, 4, b"0100")
    body += struct.pack("<HHII", 0xB001, 4, 1, n)
    body += struct.pack("<HHII", 0xB002, 7, 16 * n, 8 + ifd_size)
    body += struct.pack("<I", 0) + entries
    app2 = b"\xff\xe2" + struct.pack(">H", 2 + 4 + len(body)) + b"MPF\0" + body
    assert len(app2) == segment
    return jpegs[0][:2] + app2 + jpegs[0][2:] + b"".join(jpegs[1:])


def random_palette(rng, n, grey=False):
    p = rng.integers(0, 256, (n, 3)).astype("u1")
    if grey:
        p[:] = p[:, :1]
    return p
