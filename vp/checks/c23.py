"""C23: scaled PDS4 arrays."""
from fractions import Fraction

import numpy as np

from vp.core import Check, Suite, require
from vp.common import get, read, seeds, st
from vp import pds4 as P
from vp.pds3 import brief

NAMES = ["saturated_constant", "missing_constant", "error_constant",
         "invalid_constant", "unknown_constant", "not_applicable_constant",
         "high_instrument_saturation", "high_representation_saturation",
         "low_instrument_saturation", "low_representation_saturation"]
INTS = ["0", "1", "-1", "-999", "-9999", "127", "255", "32767", "-32768",
        "65535", "2147483647", "-2147483648", "4294967295", "-0", "+7",
        "100000000000", "18446744073709551615"]
REALS = ["-999.9", "1.0E+32", "-1.0e32", "0.0", "-9999.0", "3.4E38", "1.5",
         "-3.4028226550889045e+38", "0.1", "1.0e10"]
FACTORS = ["1", "2", "3", "-1", "300", "-300", "0.5", "0.0001", "1.0",
           "70000", "2.5E+2", "-0.75", "1.0E30", "0"]
OFFSETS = ["0", "1", "-1", "100", "300", "-70000", "0.5", "0.0", "-273.15"]
WHOLE_FACTORS = ["2", "3", "-1", "300", "-300", "70000", "1", "5000000000"]
WHOLE_OFFSETS = ["0", "1", "-1", "300", "-70000", "5000000000"]


def number(text):
    try:
        return int(text)
    except ValueError:
        return float(text)


@st.composite
def cases(draw):
    t = draw(st.sampled_from(sorted(P.BINARY)))
    kind = np.dtype(P.BINARY[t]).kind
    nd = draw(st.sampled_from([1, 2, 2, 3]))
    names = draw(st.lists(st.sampled_from(NAMES), max_size=3, unique=True))
    pool = INTS if kind in "iu" else INTS + REALS
    consts = [[n, draw(st.sampled_from(pool))] for n in names]
    if draw(st.integers(0, 3)) == 0:
        consts.append(["valid_minimum", draw(st.sampled_from(INTS))])
        consts.append(["valid_maximum", draw(st.sampled_from(INTS))])
    scale = add = None
    how = draw(st.sampled_from(["none", "any", "any", "whole", "whole"]))
    pick = draw(st.sampled_from(["s", "o", "so", "so"]))
    if how != "none":
        fs, os_ = ((FACTORS, OFFSETS) if how == "any"
                   else (WHOLE_FACTORS, WHOLE_OFFSETS))
        scale = draw(st.sampled_from(fs)) if "s" in pick else None
        add = draw(st.sampled_from(os_)) if "o" in pick else None
    bits = None
    if kind in "iu" and draw(st.integers(0, 2)) == 0:
        n = np.dtype(P.BINARY[t]).itemsize * 8
        bits = draw(st.one_of(
            st.text("01", min_size=n, max_size=n),
            st.text("01", min_size=1, max_size=n),
            st.integers(0, n).map(lambda i: "0" * (n - i) + "1" * i),
            st.integers(0, n - 1).map(lambda i: "1" * (n - i) + "0" * i)))
    return {
        "bit_mask": bits, "type": t, "shape": [draw(st.integers(1, 5)) for _ in range(nd)],
        "tag": draw(st.sampled_from(P.ARRAY_TAGS[nd])),
        "consts": consts, "scale": scale, "add": add,
        "sprinkle": draw(st.sampled_from([0, 0.3, 0.3, 1.0])),
        "fill": draw(st.sampled_from(["ramp", "bits", "edge", "small",
                                      "zero"])),
        "order": draw(st.lists(st.sampled_from(
            ["plain", "scaled", "other", "load"]), min_size=2, max_size=6)),
        "offset": draw(st.sampled_from([0, 0, 5, 80])),
        "seed": draw(seeds()),
    }


def make(case):
    dt = np.dtype(P.BINARY[case["type"]])
    n = int(np.prod(case["shape"]))
    rng = np.random.default_rng(case["seed"])
    if case["fill"] in ("small", "zero"):
        arr = rng.integers(0, 100 if case["fill"] == "small" else 1, n
                           ).astype(dt)
    else:
        arr = P.elements(case["fill"], case["seed"], n, dt.str).copy()
    vals = []
    with np.errstate(all="ignore"):
        for name, c in case["consts"]:
            c = number(c)
            if name.startswith("valid"):
                continue
            if dt.kind in "iu":
                if np.iinfo(dt).min <= c <= np.iinfo(dt).max:
                    vals.append(c)
            else:
                vals.append(np.array([c], "f8").astype(dt)[0].item())
    if vals:
        where = rng.random(n) < case["sprinkle"]
        pool = np.array(vals, dtype=object)[rng.integers(0, len(vals), n)]
        arr[where] = pool[where].astype(dt)
    mask = np.zeros(n, bool)
    for v in vals:
        mask |= np.array([x == v for x in arr.tolist()])
    bare = arr
    if case["bit_mask"] is not None:
        keep = np.array([int(case["bit_mask"], 2)], f"u{dt.itemsize}")
        keep = keep.astype(keep.dtype.newbyteorder(dt.byteorder)).view(dt)

        def clear(a):
            return (a & keep).astype(dt)

        # elements that only become constants when masked are ambiguous
        new = np.array([x in vals for x in clear(arr).tolist()], bool)
        arr[new & ~mask] = arr.dtype.type(vals[0]) if vals else 0
        mask |= new
        bare = np.where(mask, arr, clear(arr)).astype(dt)
    return (arr.reshape(case["shape"]), mask.reshape(case["shape"]),
            bare.reshape(case["shape"]))


def check_values(got, arr, mask, case, what):
    s = 1 if case["scale"] is None else number(case["scale"])
    o = 0 if case["add"] is None else number(case["add"])
    require(got.shape == arr.shape, lambda: f"{what}: shape {got.shape}")
    gm = np.ma.getmaskarray(got)
    require(np.array_equal(gm, mask), lambda: (
        f"{what}: mask differs at elements "
        f"{[(i, x.item(), bool(gm.ravel()[i])) for i, x in enumerate(arr.ravel()) if gm.ravel()[i] != mask.ravel()[i]][:4]}"
        f" (index, stored value, masked)"))
    data = np.ma.getdata(got)
    scaled = s != 1 or o != 0
    f4 = arr.dtype.str[1:] in ("f4", "c8")
    eps = Fraction(4e-7 if f4 else 1e-15)
    tiny = Fraction(1e-44 if f4 else 1e-323)
    big = 3.4028e38 if f4 else 1.7e308
    for ix in np.ndindex(arr.shape):
        if mask[ix]:
            continue
        v, g = arr[ix], data[ix]
        pairs = [(v, g, o)]
        if arr.dtype.kind == "c":
            require(np.iscomplexobj(g), lambda: f"{what}: {g!r} is not complex")
            if scaled and not np.isfinite(np.complex128(g)):
                require(not np.isfinite(np.complex128(v)) or max(
                    abs(float(v.real)), abs(float(v.imag))
                ) > big / 8 / max(1, abs(s)), lambda: (
                    f"{what}: element {ix}: {g!r} from {v!r}"))
                continue
            pairs = [(v.real, g.real, o), (v.imag, g.imag, 0)]
        for v, g, o_ in pairs:
            v = v.item()
            g = g.item() if hasattr(g, "item") else g
            if isinstance(v, float) and not np.isfinite(v):
                if not scaled:
                    ok = np.isnan(g) if np.isnan(v) else g == v
                else:
                    ok = not np.isfinite(g)
            elif isinstance(g, int):
                ok = g == Fraction(v) * Fraction(s) + Fraction(o_)
            else:
                want = Fraction(v) * Fraction(s) + Fraction(o_)
                room = abs(Fraction(v) * Fraction(s)) + abs(Fraction(o_))
                ok = (not np.isnan(g) if room > big else np.isfinite(g) and (
                    abs(Fraction(g) - want) <= eps * 4 * room + 4 * tiny))
            require(ok, lambda: (
                f"{what}: element {ix}: {g!r} ({data.dtype}), expected "
                f"{v!r} x {s!r} + {o!r}"))


def run(case, ctx):
    with ctx.building():
        stored, mask, arr = make(case)
        other = np.arange(6, dtype=">i2")
        body, (a, b) = P.lay_out(
            [(case["offset"], stored.tobytes()), (0, other.tobytes())],
            case["seed"], 3)
        nodes = [
            P.array(case["tag"], ["id", "main"], a, case["shape"],
                    case["type"], scale=case["scale"], add=case["add"],
                    specials=case["consts"], stats=[] if (
                        case["bit_mask"] is None) else [
                            ("minimum", "0"), ("bit_mask", case["bit_mask"])]),
            P.array("Array", ["id", "second"], b, [6], "SignedMSB2",
                    specials=[("missing_constant", "3")])]
        label = P.write(ctx.dir, P.product([("a.dat", nodes)]),
                        {"a.dat": body})
    ctx.tag(case["type"], f"masked={bool(mask.any())}",
            *[k for k in ("scale", "add", "bit_mask") if case[k]])
    ctx.nontrivial(mask.any() or case["scale"] or case["add"])
    data = read(label)
    for i, step in enumerate(case["order"] + ["scaled", "plain"]):
        what = f"step {i}, {step}"
        if step == "scaled":
            check_values(data.get_scaled("main"), arr, mask, case, what)
        elif step == "other":
            got = data.get_scaled("second")
            require(np.ma.getmaskarray(got).tolist() == [0, 0, 0, 1, 0, 0]
                    and np.ma.getdata(got)[[0, 1, 2, 4, 5]].tolist()
                    == [0, 1, 2, 4, 5], lambda: f"{what}: {got!r}")
        else:
            if step == "load":
                data.load("main", reload=True)
            got = get(data, "main")
            require(P.same(got, arr), lambda: (
                f"{what}: unscaled array is {brief(got)}, "
                f"expected {brief(arr)}"))


CHECK = Check(
    property="C23",
    rule=("PDS4 arrays of every binary type with random scaling factor, "
          "offset, bit mask and special constants, elements sprinkled with constants; "
          "scaled and unscaled arrays are asked for and reloaded in random "
          "order: mask must be exactly the elements equal to a constant, the "
          "rest exactly (integers) or correctly rounded (reals) value x "
          "factor + offset, and the unscaled array as stored, in both but for "
          "bits that the bit mask clears in elements that are no constants; non-trivial = "
          "something is masked or scaled"),
    suites=[Suite("scaled", cases, run, quick=1000, thorough=40000)],
    assumptions=[
        "special constants are decimal numbers, whole ones for integer types; "
        "valid_minimum and valid_maximum are not special constants",
        "a constant is compared after conversion to the element type",
        "NaN and infinite elements scale to something not finite",
        "bit masks are those of integers; no element becomes a constant when "
        "its bits are cleared",
    ],
)
