"""C18: FITS files read directly."""
import gzip
import re
import warnings

import numpy as np

from vp.core import Check, Suite, require
from vp.common import big, get, read, seeds, st, warned
from vp import fits as F


RESERVED = ("index", "metadata", "load")  # attributes of products


@st.composite
def cases(draw):
    hs = [draw(F.hdus(True))] + draw(st.lists(F.hdus(), max_size=4))
    n = len(hs)
    return {"hdus": hs, "seed": draw(seeds()),
            "loads": draw(st.lists(st.integers(0, n - 1), max_size=2 * n)),
            "file": draw(st.sampled_from(
                ["a.fits", "a.fits", "a.fit", "A.FITS", "a.b.fits",
                 "a.fits.gz", "a.fit.gz"])),
            "trailer": draw(st.sampled_from([0, 0, 0, 2880]))}


def several(draw, case):
    """more HDUs than two digits count"""
    while len(case["hdus"]) < draw(st.sampled_from([12, 30, 101])):
        case["hdus"].append(draw(F.hdus()))
    n = len(case["hdus"])
    case["loads"] = [draw(st.integers(0, n - 1)) for _ in range(4)]


def long(draw, case):
    for h in case["hdus"]:
        if h["kind"] == "image":
            if h["shape"]:
                h["shape"] = h["shape"][:-1] + [draw(st.integers(300, 4000))]
        else:
            h["rows"] = draw(st.integers(300, 4000))


def remarks(draw, case):
    """headers of many blocks"""
    for h in case["hdus"]:
        h["extra"] = h["extra"] + [
            [f"K{i}", draw(st.integers(0, 9))]
            for i in range(draw(st.integers(30, 200)))]


def large():
    return big(cases, several, long)


@st.composite
def bad(draw):
    """cards without a legal value"""
    case = draw(cases())
    F.spoil(draw, case["hdus"])
    return case


def run(case, ctx):
    with ctx.building():
        body, info = F.build(case["hdus"], case["seed"])
        path = ctx.dir / case["file"]
        path.write_bytes(gzip.compress(body, 1) if path.suffix == ".gz"
                         else body)
    names = [h["name"] or ("PRIMARY" if i == 0 else "")
             for i, h in enumerate(info)]
    ctx.tag(*{h["kind"] for h in info}, f"{len(info)} HDUs",
            *(["repeated names"] if len(set(names)) < len(names) else []))
    ctx.nontrivial(len(info) > 1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = read(path)
    keys = list(data.keys())
    require(len(keys) == len(info) == len(set(keys)),
            lambda: f"keys {keys} for HDUs {names}")
    # names in file order get ascending integers
    loose = F.loose(case["hdus"])
    key_of, taken = {}, set()
    for i, name in enumerate(names):
        if names.count(name) == 1 and name in keys and name not in RESERVED:
            key_of[i] = name
            taken.add(name)
    for i, name in enumerate(names):
        if i not in key_of:
            cands = sorted((k for k in keys if k.startswith(name + "_")
                            and k[len(name) + 1:].isdigit()
                            and k not in taken),
                           key=lambda k: int(k.rsplit("_", 1)[1]))
            require(cands, lambda: f"keys {keys} for HDUs {names}")
            key_of[i] = cands[0]
            taken.add(cands[0])
    for i, h in enumerate(info):
        d = F.diff_header(data.metadata[key_of[i]], h["cards"], loose)
        require(d is None, lambda: f"metadata of {key_of[i]}: {d}")
    done = set()
    for i in case["loads"] + list(range(len(info))):
        key, h = key_of[i], info[i]
        if i in done:
            data.load(key, reload=True)
        done.add(i)
        got = get(data, key)
        d = F.diff_hdu(got, h)
        require(d is None, lambda: f"{key} of {keys}: {d} ({warned(data)})")
        if h["kind"] == "image":
            # the file's scaling is in the data already
            with np.errstate(all="ignore"):
                d = F.diff_hdu(data.get_scaled(key), h)
            require(d is None, lambda: f"scaled {key} of {keys}: {d}")
        heads = [k for k in data.keys() if k not in key_of.values()
                 and re.fullmatch(re.escape(key) + r"_HEADER(_\d+)?", k)]
        require(len(heads) >= 1, lambda: (
            f"no header for {key}: {data.keys()}"))
        d = F.diff_header(get(data, heads[0]), h["cards"], loose)
        require(d is None, lambda: f"{heads[0]}: {d}")


CHECK = Check(
    property="C18",
    rule=("FITS files written byte by byte with 1-5 HDUs (images of all "
          "BITPIX and 0-4 axes, with unsigned and real scaling; binary "
          "tables with scalar, vector, 2-D, bit, logical, text, complex and "
          "scaled columns; ASCII tables; empty data), repeated names and "
          "random header cards, plain or gzipped, loaded and reloaded in any "
          "order; every HDU's data must be as encoded and its cards in the "
          "metadata and its header object, and a scaled image must be "
          "the same, scaled once; also headers with cards that are no FITS, "
          "which must not keep any of the rest from being read; non-trivial = several HDUs"),
    suites=[Suite("files", cases, run, quick=700, thorough=25000),
            Suite("large", large, run, quick=24, thorough=500),
            Suite("bad cards", bad, run, quick=60, thorough=2000)],
    assumptions=[
        "no random groups, variable-length arrays, text arrays, TNULL/BLANK "
        "or tile-compressed images",
        "ASCII tables have rows (astropy cannot read empty ones)",
        "column names that differ only by case are not generated",
        "no scaled 64-bit table columns (astropy fails on them)",
        "keywords are upper case (also after HIERARCH)",
    ],
)
