"""FITS files, written card by card and byte by byte (not with astropy)."""
from __future__ import annotations

import re

import numpy as np

from vp.common import fills, st
from vp.pds3 import pixels, same_values

IMAGE_TYPES = {8: "u1", 16: ">i2", 32: ">i4", 64: ">i8", -32: ">f4",
               -64: ">f8"}
UNSIGNED = {8: (-128, "i1"), 16: (2 ** 15, "u2"), 32: (2 ** 31, "u4"),
            64: (2 ** 63, "u8")}
BIN = {"L": "?", "B": "u1", "I": ">i2", "J": ">i4", "K": ">i8", "E": ">f4",
       "D": ">f8", "C": ">c8", "M": ">c16"}
BAD = "BADCARD"  # the keyword of cards that are no FITS
CARD_TEXT = "abc XYZ 019 '.-+_/;:()=#"


# ---------------------------------------------------------------------- cards
def fmt(v):
    if v is None:
        return ""
    if isinstance(v, bool):
        return f"{'T' if v else 'F':>20}"
    if isinstance(v, int):
        return f"{v:>20}"
    if isinstance(v, float):
        return f"{v!r:>20}".replace("e", "E")
    return "'" + f"{v.replace(chr(39), chr(39) * 2):<8}" + "'"


def card(key, value, comment=""):
    if key in ("COMMENT", "HISTORY"):
        text = f"{key:<8}{value}"
    elif key == "":
        text = ""
    elif key == BAD:
        text = f"{key:<8}= {value}"
    elif len(key) > 8 or " " in key or not key.isupper():
        text = f"HIERARCH {key} = {fmt(value).strip()}"
        if comment:
            text += f" / {comment}"
    else:
        text = f"{key:<8}= {fmt(value):<20}"
        if comment:
            text += f" / {comment}"
    assert len(text) <= 80, text
    return text.ljust(80)


def header(cards):
    text = "".join(card(*c) for c in cards) + "END".ljust(80)
    return text.ljust(-(-len(text) // 2880) * 2880).encode("ascii")


def expected_cards(cards):
    """the (key, value) pairs pdr should hold for these cards"""
    out = []
    for c in cards:
        key, value, comment = (*c, "")[:3]
        if key in ("", BAD):
            continue
        key = key.upper() if len(key) > 8 or " " in key else key
        out.append((key, value.rstrip() if isinstance(value, str) else value))
        if comment and key not in ("COMMENT", "HISTORY"):
            out.append((key + "_comment", comment))
    return out


@st.composite
def extra_cards(draw):
    out = []
    # (astropy misreads values with both quotes and slashes)
    text = st.text(alphabet=CARD_TEXT, max_size=25).map(
        lambda t: t.strip().replace("/", "" if "'" in t else "/").strip())
    for _ in range(draw(st.integers(0, 6))):
        key = draw(st.sampled_from(
            ["OBJECT", "EXPTIME", "DATE-OBS", "A_B", "X1", "N", "TELESCOP",
             "COMMENT", "HISTORY", "", "ESO DET ID", "LONGKEYWORD"]))
        if key in ("COMMENT", "HISTORY"):
            out.append([key, draw(text), ""])
            continue
        value = draw(st.one_of(
            text, st.integers(-10 ** 12, 10 ** 12), st.booleans(),
            st.sampled_from([0.0, -1.5, 1e-30, 3.25e20, 1 / 3]), st.none()))
        if value is None and key in ("ESO DET ID", "LONGKEYWORD"):
            value = 1
        out.append([key, value, draw(st.one_of(
            st.just(""), text.map(lambda t: t.replace("/", "").strip()[:12].strip())))])
    return out


def spoil(draw, hs):
    """cards without a legal value"""
    for _ in range(draw(st.integers(1, 3))):
        h = draw(st.sampled_from(hs))
        h["extra"].insert(draw(st.integers(0, len(h["extra"]))), [
            BAD, draw(st.sampled_from(
                ["12abc", "'no end", "NaN", "INF", "-", "{1,2}", "(1,2", "1,5",
                 ".TRUE.", "T extra", "5 no slash", "1.0D+5 x", "'a' 'b'",
                 "0x1F", "+ 5", "1 2", "--3", "2020-01-01", "abc"]))])


def loose(hs):
    return any(c[0] == BAD for h in hs for c in h["extra"])


# ----------------------------------------------------------------------- HDUs
NAMES = ["SCI", "ERR", "DQ", "IMAGE HEADER", "HEADER", "a-b", "Spectrum",
         "SCI_0", "SCI_HEADER", "TABLE", "index", "metadata", "load"]


@st.composite
def images(draw):
    bitpix = draw(st.sampled_from(sorted(IMAGE_TYPES)))
    nd = draw(st.sampled_from([0, 1, 2, 2, 2, 3, 3, 4]))
    scale = draw(st.sampled_from([None, None, None, "unsigned", "real"]))
    if scale == "unsigned" and bitpix < 0:
        scale = None
    return {"kind": "image", "bitpix": bitpix,
            "shape": [draw(st.integers(1, 6)) for _ in range(nd)],
            "scale": scale, "bscale": draw(st.sampled_from([0.5, 2.0, -0.1])),
            "bzero": draw(st.sampled_from([0.0, 100.0, -1.25])),
            "fill": draw(fills())}


@st.composite
def columns(draw, ascii):
    if ascii:
        code = draw(st.sampled_from(["A", "I", "F", "E", "D"]))
        return {"name": draw(st.sampled_from(COLS)), "code": code,
                "width": draw(st.integers(1, 12)) if code == "A" else
                draw(st.integers(2, 9)) if code == "I" else
                draw(st.integers(14, 20)),
                "gap": draw(st.sampled_from([0, 1, 1, 3]))}
    code = draw(st.sampled_from(sorted(BIN) + ["A", "X"]))
    c = {"name": draw(st.sampled_from(COLS)), "code": code,
         "repeat": draw(st.sampled_from([1, 1, 1, 2, 3, 4, 5, 6])),
         "dim": draw(st.sampled_from([None, 1, 2, 3])), "scale": None}
    if code == "A":
        c["repeat"] = draw(st.integers(1, 9))
    if code == "X":
        c["repeat"] = draw(st.sampled_from([1, 3, 8, 11]))
    if code in "BIJK":
        # (astropy fails on scaled 64-bit columns)
        c["scale"] = draw(st.sampled_from(
            [None, None, "unsigned", "real" if code != "K" else None]))
    return c


COLS = ["TIME", "flux", "X", "Y_POS", "a", "count rate", "X_0", "TIME_1",
        None]


@st.composite
def tables(draw):
    ascii = draw(st.integers(0, 3)) == 0
    cols = [draw(columns(ascii)) for _ in range(
        draw(st.sampled_from([1, 1, 2, 3, 4, 5])))]
    if ascii or draw(st.booleans()):
        seen = set()
        cols = [c for c in cols if c["name"] is None or not (
            c["name"].lower() in seen or seen.add(c["name"].lower()))]
    return {"kind": "ascii" if ascii else "bintable", "cols": cols,
            "rows": draw(st.sampled_from([1, 2, 3, 7, 7, 1 if ascii else 0]))}


@st.composite
def hdus(draw, first=False):
    h = draw(images()) if first or draw(st.integers(0, 2)) else draw(tables())
    if first and draw(st.booleans()):
        h["shape"] = []
    h |= {"name": draw(st.sampled_from(NAMES + [None])) if not first else
          draw(st.sampled_from([None, None, None, "SCI"])),
          "extra": draw(extra_cards())}
    return h


def encode_image(h, seed):
    """-> (cards, bytes, expected array or None)"""
    dt, shape = IMAGE_TYPES[h["bitpix"]], h["shape"]
    cards = [["BITPIX", h["bitpix"], "bits per pixel"],
             ["NAXIS", len(shape), ""]]
    cards += [[f"NAXIS{i + 1}", n, ""]
              for i, n in enumerate(reversed(shape))]
    if not shape:
        return cards, b"", None
    n = int(np.prod(shape))
    raw = pixels(h["fill"], seed, n, dt)
    if h["scale"] == "unsigned":
        zero, real = UNSIGNED[h["bitpix"]]
        cards += [["BSCALE", 1, ""], ["BZERO", zero, "offset"]]
        want = np.array([int(v) + zero for v in raw], dtype=real)
    elif h["scale"] == "real":
        cards += [["BSCALE", h["bscale"], ""], ["BZERO", h["bzero"], ""]]
        with np.errstate(all="ignore"):
            want = raw.astype("f8") * h["bscale"] + h["bzero"]
    else:
        want = raw
    return cards, raw.tobytes(), want.reshape(shape)


def encode_table(h, seed):
    rng = np.random.default_rng(seed)
    n, cols, parts, want = h["rows"], h["cols"], [], []
    cards = []
    for i, c in enumerate(cols):
        k, code = i + 1, c["code"]
        r = c["repeat"]
        if c["name"] is not None:
            cards.append([f"TTYPE{k}", c["name"], "column"])
        cards.append([f"TFORM{k}", f"{r}{code}", ""])
        if code == "A":
            texts = ["".join("abcXYZ 09-"[rng.integers(0, 10)]
                             for _ in range(rng.integers(0, r + 1))).rstrip()
                     for _ in range(n)]
            parts.append(np.array([t.encode().ljust(r) for t in texts],
                                  f"S{r}").view("u1").reshape(n, r))
            want.append((c, [texts], "text"))
            continue
        if code == "X":
            bits = rng.integers(0, 2, (n, r), dtype="u1")
            parts.append(np.packbits(bits, axis=1))
            want.append((c, [bits[:, j].astype(bool) for j in range(r)],
                         "bool"))
            continue
        if code == "L":
            v = rng.integers(0, 2, (n, r)).astype(bool)
            parts.append(np.where(v, ord("T"), ord("F")).astype("u1"))
            want.append((c, [v[:, j] for j in range(r)], "bool"))
            continue
        dt = np.dtype(BIN[code])
        if dt.kind == "c":
            half = np.dtype(f">f{dt.itemsize // 2}")
            raw = np.ascontiguousarray(
                pixels("bits", seed + i, 2 * n * r, half)).view(dt)
        else:
            raw = pixels(["bits", "edge", "ramp"][(seed + i) % 3], seed + i,
                         n * r, dt.str)
        raw = raw.reshape(n, r)
        parts.append(raw.view("u1").reshape(n, r * dt.itemsize)
                     if n else np.zeros((0, r * dt.itemsize), "u1"))
        val, kind = raw, "exact"
        if c["scale"] == "unsigned":
            zero, real = UNSIGNED[dt.itemsize * 8]
            cards.append([f"TZERO{k}", zero, ""])
            val = np.array([int(v) + zero for v in raw.ravel()],
                           real).reshape(n, r)
        elif c["scale"] == "real":
            cards += [[f"TSCAL{k}", 0.5, ""], [f"TZERO{k}", 10.0, ""]]
            val, kind = raw.astype("f8") * 0.5 + 10, "close"
        if c["dim"] and r % c["dim"] == 0 and r > 1:
            cards.append([f"TDIM{k}", f"({r // c['dim']},{c['dim']})", ""])
        want.append((c, [val[:, j] for j in range(r)], kind))
    body = (np.hstack(parts).astype("u1").tobytes() if n else b"")
    width = sum(p.shape[1] for p in parts)
    head = [["BITPIX", 8, ""], ["NAXIS", 2, ""], ["NAXIS1", width, "width"],
            ["NAXIS2", n, ""], ["PCOUNT", 0, ""], ["GCOUNT", 1, ""],
            ["TFIELDS", len(cols), ""]]
    return head + cards, body, want


def encode_ascii(h, seed):
    rng = np.random.default_rng(seed)
    n, at, cards, want, cells = h["rows"], 0, [], [], []
    for i, c in enumerate(h["cols"]):
        k, code, w = i + 1, c["code"], c["width"]
        at += c["gap"]
        if c["name"] is not None:
            cards.append([f"TTYPE{k}", c["name"], ""])
        cards.append([f"TBCOL{k}", at + 1, ""])
        cards.append([f"TFORM{k}", f"{code}{w}" + (
            f".{w - 10}" if code in "FED" else ""), ""])
        texts, values = [], []
        for _ in range(n):
            if code == "A":
                v = "".join("abcXYZ 09-"[rng.integers(0, 10)] for _ in range(
                    rng.integers(0, w + 1))).rstrip()
                t = v.ljust(w)
            elif code == "I":
                v = int(rng.integers(-10 ** (w - 1) + 1, 10 ** (w - 1)))
                t = str(v).rjust(w)
            elif code == "F":
                t = f"{rng.normal() * 100:.{w - 10}f}".rjust(w)
                v = float(t)
            else:
                t = f"{rng.normal() * 1e3:.{w - 12}e}".rjust(w)
                v = float(t)
                t = t.replace("e", code)
            texts.append(t)
            values.append(v)
        cells.append((at, texts))
        want.append((c, [values], {"A": "text", "I": "exact", "E": "single"}
                     .get(code, "close")))
        at += w
    rows = []
    for r in range(n):
        row = [" "] * at
        for start, texts in cells:
            row[start:start + len(texts[r])] = texts[r]
        rows.append("".join(row))
    head = [["BITPIX", 8, ""], ["NAXIS", 2, ""], ["NAXIS1", at, ""],
            ["NAXIS2", n, ""], ["PCOUNT", 0, ""], ["GCOUNT", 1, ""],
            ["TFIELDS", len(h["cols"]), ""]]
    return head + cards, "".join(rows).encode(), want


def build(hs, seed):
    """[HDU] -> (file contents, [HDU with cards, want, header and data
    positions])"""
    out, info = b"", []
    for i, h in enumerate(hs):
        kind = h["kind"]
        cards, body, want = {"image": encode_image, "bintable": encode_table,
                             "ascii": encode_ascii}[kind](h, seed % 10 ** 6 + i)
        if i == 0:
            lead = [["SIMPLE", True, "conforms"]]
            if len(hs) > 1:
                cards.append(["EXTEND", True, ""])
        else:
            lead = [["XTENSION", {"image": "IMAGE", "bintable": "BINTABLE",
                                  "ascii": "TABLE"}[kind], ""]]
            if kind == "image":
                at = 2 + len(h["shape"])
                cards[at:at] = [["PCOUNT", 0, ""], ["GCOUNT", 1, ""]]
        cards = lead + cards
        if h["name"] is not None:
            cards.append(["EXTNAME", h["name"], ""])
        cards += h["extra"]
        head = header(cards)
        pad = b" " if kind == "ascii" else b"\0"
        data = body + pad * (-len(body) % 2880)
        info.append(h | {"cards": cards, "want": want, "header_at": len(out),
                         "data_at": len(out) + len(head), "size": len(body),
                         "header_size": len(head)})
        out += head + data
    return out, info


# --------------------------------------------------------------------- oracle
def diff_header(got, cards, loose=False):
    if not hasattr(got, "items"):
        return f"header is {type(got).__name__}"
    got, want = list(got.items()), expected_cards(cards)
    if loose:  # (bad cards are kept or not, and others moved)
        got = [g for g in got if not str(g[0]).startswith(BAD)]
        got, want = sorted(got, key=repr), sorted(want, key=repr)
    for i, (g, w) in enumerate(zip(got, want)):
        same = g[0] == w[0] and g[1] == w[1] and (
            isinstance(g[1], bool) == isinstance(w[1], bool)) and (
            isinstance(g[1], str) == isinstance(w[1], str))
        if not same:
            return f"header entry {i} is {g}, expected {w}"
    if len(got) != len(want):
        return f"{len(got)} header entries, expected {len(want)}"
    return None


def diff_image(got, want):
    from vp.pds3 import brief

    if type(got).__name__ != "ndarray":
        return f"loaded as {type(got).__name__}: {str(got)[:100]}"
    if want is None:
        return None if got.size == 0 else f"{brief(got)}, expected no data"
    if got.shape != want.shape:
        return f"shape {got.shape}, expected {want.shape}"
    return got, want


def diff_hdu(got, h):
    """None, or how `got` differs from the HDU's data"""
    from vp.pds3 import brief

    if h["kind"] == "image":
        d = diff_image(got, h["want"])
        if not isinstance(d, tuple):
            return d
        got, want = d
        if h["scale"] == "real":
            g, w = got.astype("f8"), np.asarray(want, "f8")
            with np.errstate(all="ignore"):
                room = np.abs(w - h["bzero"]) + abs(h["bzero"])
                single = h["bitpix"] in (8, 16, -32)
                big = w.astype("f4").astype("f8") if single else w
                ok = ((np.abs(g - w) <= (4e-7 if single else 1e-15) * 4 * room
                       + 1e-44)
                      | (np.isnan(w) & np.isnan(g)) | (g == w)
                      | (~np.isfinite(big) & ~np.isfinite(g)))
            return None if ok.all() else (
                f"{brief(got)}, expected {brief(w)} (scaled)")
        return None if same_values(got, want) else (
            f"{brief(got)}, expected {brief(want)}")
    return diff_table(got, h)


def diff_table(df, h):
    if type(df).__name__ != "DataFrame":
        return f"loaded as {type(df).__name__}: {str(df)[:100]}"
    cols = [(c, j, len(vs), v, kind) for c, vs, kind in h["want"]
            for j, v in enumerate(vs)]
    if df.shape != (h["rows"], len(cols)):
        return (f"shape {df.shape}, expected {(h['rows'], len(cols))}; "
                f"columns {list(df.columns)}")
    if len(set(df.columns)) != len(cols):
        return f"columns {list(df.columns)}"
    names = [c["name"] or "" for c, *_ in h["want"]]
    for i, (c, j, n, want, kind) in enumerate(cols):
        name = df.columns[i]
        clash = any(re.fullmatch(re.escape(c["name"] or "") + r"_\d+", m)
                    for m in names)
        if c["name"] is None:
            pass
        elif not name.startswith(c["name"]) or not clash and (
                n == 1 and names.count(c["name"]) == 1
                and name not in (c["name"], c["name"] + "_0") or
                n > 1 and not name.endswith(f"_{j}")):
            return f"column {i} is {name!r}, element {j} of {c['name']!r}"
        got = df.iloc[:, i].to_numpy()
        if kind == "text":
            ok = [str(g).rstrip() == w for g, w in zip(got, want)]
        elif kind == "bool":
            ok = [bool(g) == bool(w) for g, w in zip(got, want)]
        elif kind in ("close", "single"):
            eps = 1e-15 if kind == "close" else 1e-6
            ok = [abs(float(g) - w) <= eps * 4 * (abs(w) + 10)
                  for g, w in zip(got, want)]
        elif np.iscomplexobj(want):
            ok = [np.iscomplexobj(got)] + [
                np.array_equal([np.complex128(g).real, np.complex128(g).imag],
                               [np.complex128(w).real, np.complex128(w).imag],
                               equal_nan=True) for g, w in zip(got, want)]
        else:
            ok = [g == w or (isinstance(w, np.floating) and np.isnan(w)
                             and np.isnan(g)) for g, w in zip(got, want)]
        if not all(ok):
            return (f"column {name!r} ({c['code']}): {list(got)[:6]}, "
                    f"expected {list(want)[:6]}")
    return None
