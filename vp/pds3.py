"""
Independent writers for PDS3 products: PVL text, sample encodings, and physical
layouts (attached/detached labels, pointers by record/byte/file). Nothing here
imports the code under test.
"""
from __future__ import annotations

import bz2
import gzip
import io
import zipfile
from pathlib import Path

import numpy as np

# ---------------------------------------------------------------- PVL writing


def render(statements, eol="\r\n", indent=0, width=30):
    """
    statements: list of [key, value] (value already PVL text) or
    ["OBJECT"|"GROUP", name, statements].
    """
    out = []
    pad = "  " * indent
    for st in statements:
        if len(st) == 3:
            kind, name, sub = st
            out.append(f"{pad}{kind:<{max(1, width - len(pad))}} = {name}{eol}")
            out.append(render(sub, eol, indent + 1, width))
            out.append(
                f"{pad}{'END_' + kind:<{max(1, width - len(pad))}} = {name}{eol}"
            )
        else:
            key, value = st
            out.append(f"{pad}{key:<{max(1, width - len(pad))}} = {value}{eol}")
    return "".join(out)


def q(text):
    return '"' + text + '"'


# ------------------------------------------------------------- sample encoding
BIG_INT = ["MSB_INTEGER", "INTEGER", "SUN_INTEGER", "MAC_INTEGER"]
BIG_UINT = ["MSB_UNSIGNED_INTEGER", "UNSIGNED_INTEGER",
            "SUN_UNSIGNED_INTEGER", "MAC_UNSIGNED_INTEGER"]
LITTLE_INT = ["LSB_INTEGER", "PC_INTEGER", "VAX_INTEGER"]
LITTLE_UINT = ["LSB_UNSIGNED_INTEGER", "PC_UNSIGNED_INTEGER",
               "VAX_UNSIGNED_INTEGER"]
BIG_REAL = ["IEEE_REAL", "REAL", "FLOAT", "SUN_REAL", "MAC_REAL"]
LITTLE_REAL = ["PC_REAL"]


def numeric_types():
    """[(PDS3 type name, bytes, numpy dtype string)] for natively-decodable
    types, written from the PDS3 Standards' definitions of the names."""
    out = []
    for names, order, kind, widths in (
        (BIG_INT, ">", "i", (1, 2, 4, 8)),
        (BIG_UINT, ">", "u", (1, 2, 4, 8)),
        (LITTLE_INT, "<", "i", (1, 2, 4, 8)),
        (LITTLE_UINT, "<", "u", (1, 2, 4, 8)),
        (BIG_REAL, ">", "f", (4, 8)),
        (LITTLE_REAL, "<", "f", (4, 8)),
    ):
        for n in names:
            for w in widths:
                out.append((n, w, f"{order}{kind}{w}"))
    return out


NUMERIC = numeric_types()
DTYPE_OF = {(n, w): d for n, w, d in NUMERIC}


def pixels(fill: str, seed: int, n: int, dtype: str) -> np.ndarray:
    """
    n elements of `dtype`, a pure function of (fill, seed): 'bits' is uniformly
    random bit patterns (so every NaN, denormal, extreme), 'ramp' is distinct
    ascending values (so any permutation shows), 'edge' mixes type extremes.
    """
    dt = np.dtype(dtype)
    rng = np.random.default_rng(seed)
    if fill == "ramp":
        with np.errstate(all="ignore"):
            base = np.arange(n, dtype="i8") + (seed % 97)
            return base.astype(dt.newbyteorder("=")).astype(dt)
    if fill == "edge" and dt.kind in "iu":
        ii = np.iinfo(dt)
        pool = np.array(
            [ii.min, ii.max, 0, 1, ii.max - 1, ii.min + 1, ii.max // 2],
            dtype=dt,
        )
        return pool[rng.integers(0, len(pool), n)]
    if fill == "edge":
        fi = np.finfo(dt)
        pool = np.array(
            [fi.min, fi.max, 0.0, -0.0, 1.0, fi.tiny, np.nan, np.inf, -np.inf,
             fi.smallest_subnormal], dtype=dt,
        )
        return pool[rng.integers(0, len(pool), n)]
    return np.frombuffer(rng.bytes(n * dt.itemsize), dtype=dt)


def same_values(got, want) -> bool:
    """exact equality of values and of (kind, width), ignoring byte order;
    floats are compared as bit patterns, except that any NaN equals any NaN"""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return False
    if (got.dtype.kind, got.dtype.itemsize) != (
        want.dtype.kind, want.dtype.itemsize
    ):
        return False
    if got.dtype.kind == "f":
        eq = (got == want) & (np.signbit(got) == np.signbit(want))
        return bool(np.all(eq | (np.isnan(got) & np.isnan(want))))
    return bool(np.array_equal(got, want))


def brief(a):
    try:
        a = np.asarray(a)
        return f"{a.dtype}{a.shape} {a.ravel()[:8].tolist()}"
    except Exception:
        return repr(type(a))


# ------------------------------------------------------------ physical layout
def compress_bytes(data: bytes, how: str, inner: str = "x") -> bytes:
    if how == "gz":
        return gzip.compress(data, mtime=0)
    if how == "bz2":
        return bz2.compress(data)
    if how == "zip":
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr(zipfile.ZipInfo(inner), data)
        return buf.getvalue()
    return data


def junk(n: int, seed: int, text: bool = False) -> bytes:
    rng = np.random.default_rng(seed)
    if text:
        return bytes(rng.integers(33, 126, n, dtype="u1"))
    return rng.bytes(n)


def write_product(
    d: Path,
    objects,
    *,
    stem="prod",
    attached=False,
    ptr="record",
    record_bytes=64,
    gap=0,
    trailer=0,
    seed=0,
    eol="\r\n",
    head=(),
    tail=(),
    separate=False,
    file_case="lower",
    label_ext=".lbl",
    data_ext=".img",
    compress=None,
    label_pad=b" ",
    record_type="FIXED_LENGTH",
    text_junk=False,
    end_line=None,
):
    """
    objects: list of (name, payload bytes, block statements).
    ptr: 'record' | 'bytes' -- how pointers give positions; 'file' -- pointer
    is only a file name (payload must then start its own file).
    Returns (label path, {name: data path}, {name: start byte}).
    """
    ext = data_ext.upper() if file_case == "upper" else data_ext

    def fname(i):
        base = f"{stem}" if not separate or i == 0 else f"{stem}{chr(98 + i)}"
        return base + ext

    if attached:
        separate = False
    # relative positions within each file
    def positions(base):
        pos, at = [], base
        for i, (_, payload, _) in enumerate(objects):
            if separate:
                at = 0
            g = 0 if ptr == "file" else gap
            if ptr == "record":
                at += g * record_bytes
                at = -(-at // record_bytes) * record_bytes
            else:
                at += g
            pos.append(at)
            at += len(payload)
        return pos

    end_line = end_line if end_line is not None else "END" + eol

    def label_text(pos):
        sts = [["PDS_VERSION_ID", "PDS3"], ["RECORD_TYPE", record_type]]
        if record_bytes is not None:
            sts.append(["RECORD_BYTES", str(record_bytes)])
        sts += list(head)
        for i, (name, payload, _) in enumerate(objects):
            f = q(fname(i))
            if ptr == "file":
                v = f
            elif ptr == "record":
                r = pos[i] // record_bytes + 1
                v = str(r) if attached else f"({f},{r})"
            else:
                b = f"{pos[i] + 1} <BYTES>"
                v = b if attached else f"({f},{b})"
            sts.append([f"^{name}", v])
        for name, _, block in objects:
            if block is not None:
                sts.append(["OBJECT", name, block])
        sts += list(tail)
        return (render(sts, eol) + end_line).encode("utf-8")

    if attached:
        base = 0
        for _ in range(50):
            pos = positions(base)
            txt = label_text(pos)
            need = -(-len(txt) // record_bytes) * record_bytes
            if need <= base:
                break
            base = max(need, base + 1) if ptr == "bytes" else need
        if len(objects) == 0:
            base, pos = len(txt), []
        blob = txt + label_pad * (base - len(txt))
        blobs = {0: bytearray(blob)}
    else:
        pos = positions(0)
        txt = label_text(pos)
        blobs = {}
    for i, (_, payload, _) in enumerate(objects):
        key = i if separate else 0
        b = blobs.setdefault(key, bytearray())
        if pos[i] > len(b):
            b += junk(pos[i] - len(b), seed + i, text_junk)
        b += payload
    for key in blobs:
        blobs[key] += junk(trailer, seed + 1000 + key, text_junk)
    paths = {}
    files = {}
    for key, b in blobs.items():
        fn = fname(key)
        if file_case == "mixed":
            fn = "".join(
                c.upper() if k % 2 else c.lower() for k, c in enumerate(fn)
            )
        inner = fn
        if compress:
            fn += {"gz": ".gz", "bz2": ".bz2", "zip": ".zip"}[compress]
            b = compress_bytes(bytes(b), compress, inner)
        (d / fn).write_bytes(bytes(b))
        files[key] = d / fn
    for i, (name, _, _) in enumerate(objects):
        paths[name] = files[i if separate else 0]
    if attached:
        label = files[0] if objects else d / (stem + ext)
        if not objects:
            label.write_bytes(txt)
    else:
        label = d / (stem + label_ext)
        label.write_bytes(txt)
    return label, paths, {o[0]: p for o, p in zip(objects, pos)}
