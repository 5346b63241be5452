"""C17: scaled PDS3 images."""
from fractions import Fraction

import numpy as np

from vp.core import Check, Suite, require
from vp.common import get, read, seeds, st
from vp.pds3 import DTYPE_OF, NUMERIC, brief, pixels, same_values, write_product

NAMES = ["INVALID_CONSTANT", "MISSING_CONSTANT", "NULL_CONSTANT",
         "UNKNOWN_CONSTANT", "NOT_APPLICABLE_CONSTANT", "INFINITY_CONSTANT",
         "CORE_NULL", "CORE_HIGH_REPR_SATURATION", "CORE_LOW_INST_SATURATION"]
INTS = ["0", "1", "-1", "-999", "-9999", "127", "255", "32767", "-32768",
        "65535", "2147483647", "-2147483648", "4294967295", "16#FF#",
        "100000000000"]
REALS = ["-999.9", "1.0E+32", "-1.0E32", "0.0", "-9999", "3.4E38", "1.5",
         "-3.4028226550889044521e38", "0.1", "1.0e10"]
NO_VALUES = ['"N/A"', '"NULL"', "NULL", '"n/a"', "null", '"Null"', '" N/A "',
             '"null "', '""', '"  "', "N/A"]
NON_NUMBERS = ['"N/A"', '"NULL"', '"UNK"', "UNK", "NULL"]
FACTORS = ["1", "2", "3", "-1", "300", "0.5", "0.0001", "1.0", "70000",
           "2.5E+2", "-0.75", "1.0E30"]
OFFSETS = ["0", "1", "-1", "100", "300", "-70000", "0.5", "0.0", "-273.15"]

F = np.frombuffer


def bits(*hexes):
    return [F(bytes.fromhex(h), ">f4")[0].item() for h in hexes]


# PDS3 Standards Reference (ch. 17) and ISIS conventions, by sample type
IMPLICIT = {
    "i2": [-32768, 32767, -32767, -32766, -32765, -32764],
    "u2": [0, 1, 2, 65533, 65534, 65535],
    "i4": [-2147483648, 2147483647],
    "u4": [4294967293, 4294967294, 0xFF7FFFFB, 0xFF7FFFFC, 0xFF7FFFFD,
           0xFF7FFFFE, 0xFF7FFFFF],
    "f4": [-1e32, 1e32] + bits("FF7FFFFB", "FF7FFFFC", "FF7FFFFD",
                               "FF7FFFFE", "FF7FFFFF"),
    "f8": [-3.4028226550889044521e38],
    "i8": [-2147483648, 2147483647],
}


def constants(kind):
    return st.one_of(
        st.sampled_from(INTS if kind in "iu" else REALS),
        st.sampled_from(INTS + REALS), st.sampled_from(NON_NUMBERS))


@st.composite
def cases(draw):
    t, w, dt = draw(st.sampled_from(NUMERIC))
    bands = draw(st.sampled_from([1, 1, 1, 2, 3, 4]))
    names = draw(st.lists(st.sampled_from(NAMES), max_size=3, unique=True))
    consts = [[n, draw(constants(dt[1])), draw(st.booleans())]
              for n in names]
    how = draw(st.sampled_from(
        ["none", "both", "both", "scale", "offset", "ints", "ints", "planes",
         "na"]))
    scale = offset = None
    if how in ("both", "scale"):
        scale = draw(st.sampled_from(FACTORS))
    if how in ("both", "offset"):
        offset = draw(st.sampled_from(OFFSETS))
    if how == "ints":
        scale = draw(st.sampled_from(["2", "3", "-1", "300", "70000", "1"]))
        offset = draw(st.sampled_from(["0", "1", "-1", "300", "-70000"]))
    if how == "planes" and bands > 1:
        pick = draw(st.sampled_from(["so", "so", "s", "o"]))
        fs = draw(st.lists(st.sampled_from(
            draw(st.sampled_from([FACTORS, ["2", "3", "-1", "300"]]))),
            min_size=bands, max_size=bands))
        os_ = draw(st.lists(st.sampled_from(
            draw(st.sampled_from([OFFSETS, ["1", "-1", "300"]]))),
            min_size=bands, max_size=bands))
        scale = fs if "s" in pick else draw(st.sampled_from([None, "2"]))
        offset = os_ if "o" in pick else None
    if how == "na":
        scale, offset = draw(st.sampled_from([
            [draw(st.sampled_from(NO_VALUES)), "5"],
            ["2", draw(st.sampled_from(NO_VALUES))],
            ['"NULL"', draw(st.sampled_from(NO_VALUES))]]))
    return {
        "type": t, "bytes": w, "bands": bands,
        "lines": draw(st.integers(1, 6)), "samples": draw(st.integers(1, 6)),
        "bst": draw(st.sampled_from(["BAND_SEQUENTIAL", "LINE_INTERLEAVED"])),
        "consts": consts, "scale": scale, "offset": offset,
        "units": draw(st.integers(0, 7)) == 0,
        "sprinkle": draw(st.sampled_from([0, 0.3, 0.3, 1.0])),
        "implicit": draw(st.booleans()),
        "fill": draw(st.sampled_from(["ramp", "bits", "edge", "small"])),
        "float_dtype": draw(st.sampled_from([None, None, "f4", "f8"])),
        "order": draw(st.permutations(["plain", "scaled", "again"])),
        "seed": draw(seeds()),
    }


def number(text):
    """the number a PVL value's text denotes, or None"""
    text = text.strip('"')
    if "#" in text:
        return int(text.split("#")[1], 16)
    try:
        return int(text)
    except ValueError:
        pass
    try:
        return float(text)
    except ValueError:
        return None


def special_values(case, dt):
    """constants as values of the sample type, where it can hold them"""
    consts = [number(c) for _, c, _ in case["consts"]]
    consts = [c for c in consts if c is not None]
    key = f"{dt.kind}{dt.itemsize}"
    pool = consts + IMPLICIT.get(key, [])
    out = []
    with np.errstate(all="ignore"):
        for c in pool:
            if dt.kind == "f":
                out.append(np.array([c], "f8").astype(key)[0].item())
            elif float(c).is_integer():
                i = int(c)
                if np.iinfo(dt).min <= i <= np.iinfo(dt).max:
                    out.append(i)
    return out, len(IMPLICIT.get(key, []))


def make(case):
    dt = np.dtype(DTYPE_OF[(case["type"], case["bytes"])])
    shape = (case["bands"], case["lines"], case["samples"])
    n = int(np.prod(shape))
    rng = np.random.default_rng(case["seed"])
    if case["fill"] == "small":
        arr = rng.integers(0, 100, n).astype(dt)
    else:
        arr = pixels(case["fill"], case["seed"], n, dt.str).copy()
    vals, n_imp = special_values(case, dt)
    sprinkle = vals if case["implicit"] else vals[:len(vals) - n_imp]
    if sprinkle:
        where = rng.random(n) < case["sprinkle"]
        pool = np.array(sprinkle, dtype=object)[
            rng.integers(0, len(sprinkle), n)]
        arr[where] = pool[where].astype(dt)
    if dt.str[1:] == "i8":
        # the doubtful status of "implicit" 64-bit constants is not tested
        arr[np.isin(arr, [-214743648, -2147483648, 2147483647])] = 7
    arr = arr.reshape(shape)
    mask = np.zeros(shape, bool)
    for v in (vals if dt.str[1:] != "i8" else vals[:len(vals) - n_imp]):
        mask |= np.vectorize(lambda x: x == v, otypes=[bool])(
            arr.astype(object))
    if dt.kind == "f":
        mask |= ~np.isfinite(arr)
    return arr, mask


def planes(v, n, default):
    if v is None:
        return [default] * n
    if isinstance(v, list):
        return [number(x) for x in v]
    v = number(v)
    return [default if v is None else v] * n


def pvl(v, units=False):
    if isinstance(v, list):
        return "(" + ", ".join(v) + ")"
    return v + (" <K>" if units and v not in NO_VALUES else "")


def write(case, arr, d):
    if case["bands"] > 1 and case["bst"] == "LINE_INTERLEAVED":
        body = np.ascontiguousarray(arr.transpose(1, 0, 2))
    else:
        body = arr
    block = [["LINES", str(case["lines"])],
             ["LINE_SAMPLES", str(case["samples"])],
             ["SAMPLE_TYPE", case["type"]],
             ["SAMPLE_BITS", str(case["bytes"] * 8)]]
    if case["bands"] > 1:
        block += [["BANDS", str(case["bands"])],
                  ["BAND_STORAGE_TYPE", case["bst"]]]
    for n, v, units in case["consts"]:
        block.append([n, pvl(v, units and number(v) is not None)])
    for n in ("scale", "offset"):
        if case[n] is not None:
            block.append([{"scale": "SCALING_FACTOR", "offset": "OFFSET"}[n],
                          pvl(case[n], case["units"])])
    label, _, _ = write_product(
        d, [("IMAGE", body.tobytes(), block)], seed=case["seed"])
    return label


def check_values(got, arr, mask, case, what):
    n = case["bands"]
    ss, oo = planes(case["scale"], n, 1), planes(case["offset"], n, 0)
    require(got.shape == arr.shape, lambda: f"{what}: shape {got.shape}")
    gm = np.ma.getmaskarray(got)
    require(np.array_equal(gm, mask), lambda: (
        f"{what}: mask differs at pixels "
        f"{[(i, x.item()) for i, x in enumerate(arr.ravel()) if gm.ravel()[i] != mask.ravel()[i]][:4]}"
        f" (index, stored value)"))
    data = np.ma.getdata(got)
    f4 = arr.dtype.str[1:] == "f4" or case["float_dtype"] == "f4"
    eps, tiny = (4e-7, 1e-44) if f4 else (1e-15, 1e-323)
    eps, tiny = Fraction(eps), Fraction(tiny)
    big = 3.4028e38 if data.dtype.str[1:] == "f4" else 1.7e308
    for ix in np.ndindex(arr.shape):
        if mask[ix]:
            continue
        v, s, o = arr[ix].item(), ss[ix[0]], oo[ix[0]]
        g = data[ix].item()
        want = Fraction(v) * Fraction(s) + Fraction(o)
        if isinstance(g, int):
            ok = g == want
        else:
            room = abs(Fraction(v) * Fraction(s)) + abs(Fraction(o))
            if room > big:
                # may round to infinity
                ok = not np.isnan(g)
            else:
                ok = np.isfinite(g) and (
                    abs(Fraction(g) - want) <= eps * 4 * room + 4 * tiny)
        require(ok, lambda: (
            f"{what}: pixel {ix}: {g!r} ({data.dtype}), expected {v!r} x "
            f"{s!r} + {o!r} = {float(want)!r}"))


def equal(a, b):
    return (np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b))
            and np.array_equal(np.ma.getdata(a)[~np.ma.getmaskarray(a)],
                               np.ma.getdata(b)[~np.ma.getmaskarray(b)],
                               equal_nan=a.dtype.kind == "f"))


def run(case, ctx):
    with ctx.building():
        arr, mask = make(case)
        label = write(case, arr, ctx.dir)
    flat = case["bands"] == 1
    plain = arr[0] if flat else arr
    ctx.nontrivial(mask.any() or case["scale"] or case["offset"])
    ctx.tag(case["type"], f"masked={bool(mask.any())}",
            *[k for k in ("scale", "offset", "float_dtype") if case[k]],
            *(["per plane"] if isinstance(case["scale"], list) else []))
    kw = {"float_dtype": np.dtype(case["float_dtype"])} \
        if case["float_dtype"] else {}
    data = read(label)
    results = []
    for step in case["order"]:
        if step == "plain":
            a = get(data, "IMAGE")
            require(same_values(a, plain),
                    lambda: f"unscaled: {brief(a)} != {brief(plain)}")
        else:
            got = data.get_scaled("IMAGE", **kw)
            results.append(got)
            check_values(got[None] if flat else got, arr, mask, case,
                         f"{step}")
    a = get(data, "IMAGE")
    require(same_values(a, plain), lambda: (
        f"unscaled array changed by get_scaled: {brief(a)} != {brief(plain)}"))
    require(equal(*results), "asking twice gave different answers")
    other = read(label)
    got = other.get_scaled("IMAGE", inplace=True, **kw)
    check_values(got[None] if flat else got, arr, mask, case, "in place")


def fixed():
    out = []
    for i, (t, w, dt) in enumerate(NUMERIC):
        out.append({
            "type": t, "bytes": w, "bands": 1, "lines": 6, "samples": 6,
            "bst": "BAND_SEQUENTIAL", "consts": [], "scale": ["2", "0.5"][i % 2],
            "offset": "1", "units": False, "sprinkle": 0.8, "implicit": True,
            "fill": "small", "float_dtype": None,
            "order": ["plain", "scaled", "again"], "seed": i})
    return out


CHECK = Check(
    property="C17",
    rule=("a case is a PDS3 image with random sample type, label-given "
          "special constants, pixels sprinkled with those and with implicit "
          "constants, and scalar or per-band scaling; the mask is compared "
          "with the exact set of special pixels, the rest with exact or "
          "correctly rounded arithmetic; repeated and in-place requests too. "
          "non-trivial = something is masked or scaled"),
    suites=[Suite("scaled", cases, run, quick=1200, thorough=40000,
                  examples=fixed)],
    assumptions=[
        "8-bit samples have no implied constants (0 and 255 are ordinary "
        "values unless the label says otherwise), nor do 64-bit integers",
        "a constant is compared after conversion to the sample type; text "
        "such as N/A or NULL denotes no constant",
        "float_dtype asks for a narrower result, with its rounding",
        "after an in-place request the unscaled values are gone, so later "
        "requests are not constrained",
    ],
)
