"""
Generator of PVL statements with the value each should parse to, as JSON-able
case data, plus rendering to text. Independent of the code under test.

A node is one of
  {"k": key, "v": value, "c": comment or None}            parameter
  {"b": "OBJECT"|..., "n": name, "s": [nodes], "e": style} block
A value is {"t": kind, ...}; `text(value)` renders it, `py(value)` denotes it.
"""
from __future__ import annotations

import string

from vp.common import st

UP = string.ascii_uppercase
WORD = string.ascii_letters + string.digits + "-.,;:!?%&*+@$'|~^()[]<>=\\"
SAFE_WORD = string.ascii_letters + string.digits + "-.,;:!?%&*+@$|~\\"

RESERVED = {"OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP", "END",
            "END_OBJECT", "END_GROUP", "TRUE", "FALSE", "NONE"}


def keys():
    plain = st.builds(
        lambda a, b: a + b,
        st.sampled_from(UP),
        st.text(UP + string.digits + "_", min_size=0, max_size=14),
    )
    return st.one_of(
        plain,
        st.sampled_from([
            "END_ORBIT", "ENDPOINT", "END_TIME_ZONE", "ENDING", "OBJECT_NAME",
            "GROUP_ID", "OBJECTIVE", "A", "ID", "NAME", "NOTE", "DESCRIPTION",
            "MRO:SPECIMEN_ID", "PDS_VERSION_ID", "INSTRUMENT_ID",
        ]),
        st.sampled_from(["NAME", "BYTES", "UNIT"]),
    ).filter(lambda k: k not in RESERVED and "__" not in k
             and not k.endswith("_"))


def ints():
    return st.one_of(
        st.integers(-10, 100), st.integers(-10 ** 12, 10 ** 12),
        st.sampled_from([0, -1, 2 ** 31 - 1, -2 ** 31, 2 ** 63, 10 ** 20]),
    ).flatmap(lambda i: st.sampled_from(
        [{"t": "int", "v": i}] * 7 + [{"t": "int", "v": i, "s": f"{i:+d}"},
                                      {"t": "int", "v": i, "s": f"{i:05d}"},
                                      {"t": "int", "v": i, "s": f"{i:+03d}"}]))


@st.composite
def reals(draw):
    sign = draw(st.sampled_from(["", "", "-", "+"]))
    whole = draw(st.sampled_from(["", "0", "1", "12", "3040", "007"]))
    frac = draw(st.sampled_from([".", ".0", ".5", ".25", ".00125", ""]))
    exp = draw(st.sampled_from(
        ["", "", "", "E5", "e5", "E-3", "E+3", "e+10", "E+00", "E-07"]))
    if whole == "" and frac in (".", ""):
        whole = "2"
    if frac == "" and exp == "":
        frac = ".5"
    return {"t": "real", "v": sign + whole + frac + exp}


def based():
    def mk(n, base, up):
        digits = "-" * (n < 0) + np_base(abs(n), base)
        return {"t": "based", "v": f"{base}#{digits.upper() if up else digits}#",
                "n": n}

    return st.builds(mk, st.integers(-2 ** 8, 2 ** 40),
                     st.sampled_from([2, 8, 16, 16, 10, 3]),
                     st.booleans())


def np_base(n, b):
    if n == 0:
        return "0"
    ds = ""
    while n:
        ds = "0123456789abcdef"[n % b] + ds
        n //= b
    return ds


def strings():
    word = st.text(WORD, min_size=1, max_size=10)
    return st.one_of(
        st.lists(word, min_size=0, max_size=6).map(
            lambda ws: {"t": "str", "v": " ".join(ws)}),
        st.sampled_from([
            "", "N/A", "5", "-1.5E+3", "(1, 2)", "{A}", "2#101#", "2001-01-01",
            "END_OBJECT", "OBJECT", "END", "a  b", "PROD_1.IMG", "<KM>",
            "5 <KM>", "C:\\new\\x.img", "a = b", "/data/*.img", "a /* b */ c", "PH=7, FE=2", "temp\u00e9rature", "it's", "\u00b5m",
        ]).map(lambda s: {"t": "str", "v": s}),
    ).filter(str_ok)


def str_ok(v):
    return v["v"] == v["v"].strip()


LOWER = set(string.ascii_lowercase)
STARTS = ["and", "x", "the", "The", "In May,", "A factor of", "MARS is",
          "I", "THE PHOBOS", "(See", "5 km", "ISO 86b", "EARTH x"]


@st.composite
def multiline(draw):
    """a quoted string continued over several lines"""
    n = draw(st.integers(2, 5))
    lines = []
    for i in range(n):
        words = draw(st.lists(st.text(SAFE_WORD, min_size=1, max_size=9),
                              min_size=1, max_size=5))
        line = " ".join(words)
        if i > 0:
            start = draw(st.sampled_from(STARTS))
            line = start + " " + line
            # text that looks like a statement is read as one, unless its
            # first eight characters cannot be a keyword's
            if any(c in LOWER for c in start[:8]) and draw(
                    st.integers(0, 2)) == 0:
                line += " = " + draw(st.sampled_from(["5", "value", "A"]))
        lines.append(line)
    return {"t": "multi", "v": lines,
            "indent": draw(st.integers(0, 30)),
            "blank": draw(st.integers(0, 3)) == 0}


def symbols():
    return st.one_of(
        st.sampled_from(["PDS3", "FIXED_LENGTH", "N/A", "UNK", "NULL", "MARS",
                         "MSB_INTEGER", "a_symbol", "Sun-Sensor", "TRUE", "None", "True",
                         "False", "1_000", "0x1F", "0B1", "2J", "3D", "1A2",
                         "12_B", "100#5"]),
        st.builds(
            lambda a, b: a + b, st.sampled_from(UP),
            st.text(UP + string.digits + "_", max_size=10),
        ).filter(lambda s: s not in RESERVED),
    ).map(lambda s: {"t": "sym", "v": s})


def dates():
    return st.builds(
        lambda y, m, d, t: {"t": "sym", "v": f"{y:04d}-{m:02d}-{d:02d}" + t},
        st.integers(1960, 2050), st.integers(1, 12), st.integers(1, 28),
        st.sampled_from(["", "T12:34:56", "T01:02:03.456", "T23:59:59.999Z"]),
    )


UNITS = ["KM", "m", "DEGREE", "W/M**2", "km/pixel", "BYTES", "J/KG*K",
         "DEG C", "MICRON", "1/CM"]


def quantities():
    return st.builds(
        lambda v, u, sp: {"t": "qty", "v": v, "u": u, "sp": sp},
        st.one_of(ints(), reals(), based()), st.sampled_from(UNITS), st.booleans(),
    )


@st.composite
def sequences(draw):
    kind = draw(st.sampled_from(["int", "real", "str", "sym", "based", "qty",
                                 "nested", "file", "mixed"]))
    n = draw(st.integers(2, 6))
    items = {
        "int": ints(), "real": reals(), "sym": st.sampled_from(
            ["SAMPLE", "LINE", "BAND", "N/A", "A1", "RED_X", "None", "1_0"]
        ).map(lambda s: {"t": "sym", "v": s}),
        "based": based(), "qty": quantities(),
        "str": st.text(
            string.ascii_letters + " /:.\\,(", min_size=0, max_size=8
        ).map(lambda s: {"t": "str", "v": s.strip()}).filter(str_ok),
    }
    if kind == "nested":
        inner = draw(st.sampled_from(["int", "real", "str", "qty", "sym"]))
        rows = [
            {"t": "seq", "v": draw(st.lists(items[inner], min_size=2,
                                            max_size=3))}
            for _ in range(n)
        ]
        return {"t": "seq", "v": rows}
    if kind == "mixed":
        kinds = draw(st.lists(st.sampled_from(
            ["int", "real", "str", "sym", "based", "qty"]), min_size=2,
            max_size=5))
        return {"t": "seq", "v": [draw(items[k]) for k in kinds]}
    if kind == "file":
        return {"t": "seq", "v": [
            {"t": "str", "v": "DATA.IMG"},
            {"t": "qty", "v": draw(ints()), "u": "BYTES", "sp": True},
        ]}
    return {"t": "seq", "v": draw(st.lists(items[kind], min_size=n,
                                           max_size=n))}


@st.composite
def sets_(draw):
    kind = draw(st.sampled_from(["int", "str", "sym", "based", "mixed"]))
    n = draw(st.integers(0, 5))
    items = {
        "int": ints(),
        "sym": st.sampled_from(["RED", "GREEN", "BLUE", "IR", "None"]).map(
            lambda s: {"t": "sym", "v": s}),
        "based": based(),
        "str": st.text(string.ascii_letters + " ", max_size=6).map(
            lambda s: {"t": "str", "v": s.strip()}),
    }
    if kind == "mixed":
        return {"t": "set", "v": [draw(items[k]) for k in draw(st.lists(
            st.sampled_from(sorted(items)), min_size=2, max_size=4))]}
    return {"t": "set", "v": draw(st.lists(items[kind], min_size=n,
                                           max_size=n))}


def values():
    return st.one_of(ints(), reals(), based(), strings(), multiline(),
                     symbols(), dates(), quantities(), sequences(), sets_())


# -------------------------------------------------------------- denotation
def py(v):
    t = v["t"]
    if t == "int":
        return v["v"]
    if t == "real":
        return float(v["v"])
    if t == "based":
        return v["n"]
    if t in ("str", "sym"):
        return v["v"]
    if t == "multi":
        return " ".join(v["v"])
    if t == "qty":
        return {"value": py(v["v"]), "units": v["u"]}
    if t == "seq":
        return tuple(py(x) for x in v["v"])
    if t == "set":
        return set(py(x) for x in v["v"])
    raise AssertionError(t)


def text(v, eol="\r\n", sep=", "):
    t = v["t"]
    if t in ("int", "real", "sym", "based"):
        return str(v.get("s", v["v"]))
    if t == "str":
        return '"' + v["v"] + '"'
    if t == "multi":
        j = eol + (eol if v["blank"] else "") + " " * v["indent"]
        return '"' + j.join(v["v"]) + '"'
    if t == "qty":
        return text(v["v"]) + (" " if v["sp"] else "") + f"<{v['u']}>"
    if t == "seq":
        return "(" + sep.join(text(x, eol, sep) for x in v["v"]) + ")"
    if t == "set":
        return "{" + sep.join(text(x, eol, sep) for x in v["v"]) + "}"
    raise AssertionError(t)


@st.composite
def params(draw, key=None):
    v = draw(values())
    return {
        "k": draw(key if key is not None else keys()),
        "v": v,
        "wrap": draw(st.sampled_from([False, False, False, True])),
        "c": draw(st.sampled_from(
            [None, None, None, "a comment", "A = 5 commented"]))
        if v["t"] != "multi" else None,
    }


@st.composite
def trees(draw, depth=3, max_nodes=8, key=None, block_names=None):
    out = []
    for _ in range(draw(st.integers(0 if depth < 3 else 1, max_nodes))):
        if depth > 0 and draw(st.integers(0, 3)) == 0:
            kind = draw(st.sampled_from(
                ["OBJECT", "OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP"]))
            out.append({
                "b": kind,
                "n": draw(block_names if block_names is not None else keys()),
                "s": draw(trees(depth - 1, 5, key, block_names)),
                "e": draw(st.sampled_from(["named", "named", "bare"])),
            })
        else:
            out.append(draw(params(key)))
    return out


def layouts():
    return st.fixed_dictionaries({
        "eol": st.sampled_from(["\r\n", "\n"]),
        "width": st.sampled_from([1, 9, 12, 30]),
        "indent": st.sampled_from([0, 2, 4]),
        "blank": st.sampled_from([0, 0, 1, 2]),
        "sep": st.sampled_from([", ", ",", " , "]),
        "comments": st.booleans(),
    })


def render_tree(nodes, lay, depth=0):
    """
    One statement per line.
    """
    eol, w = lay["eol"], lay["width"]
    pad = " " * (lay["indent"] * depth)
    out = []
    for i, n in enumerate(nodes):
        if "b" in n:
            out.append(f"{pad}{n['b']:<{w}} = {n['n']}{eol}")
            out.append(render_tree(n["s"], lay, depth + 1))
            end = "END_" + n["b"].replace("BEGIN_", "")
            out.append(
                pad + (end if n["e"] == "bare" else f"{end:<{w}} = {n['n']}")
                + eol
            )
            continue
        val = text(n["v"], eol, lay["sep"])
        if n["wrap"] and n["v"]["t"] in ("str", "sym", "int", "seq"):
            if n["v"]["t"] == "seq" and '"' not in val and "<" not in val:
                val = val.replace(",", "," + eol + pad + " " * (w + 3), 1)
            elif (not upper8(val)) or "=" not in val:
                if not val.startswith("END"):
                    val = eol + pad + " " * (w + 3) + val
        line = f"{pad}{n['k']:<{w}} = {val}"
        if n["c"] and lay["comments"] and n["v"]["t"] != "multi":
            line += f"  /* {n['c']} */"
        out.append(line + eol)
        for _ in range(lay["blank"]):
            if (i * 7) % 3 == 0:
                out.append(eol)
        if lay["comments"] and i % 4 == 1:
            out.append(f"{pad}/* OBJECT = COMMENT */{eol}")
    return "".join(out)


def upper8(s):
    return s[:8] == s[:8].upper()


def denote(nodes):
    """[(key, python value or nested list)]"""
    return [
        (n["n"], denote(n["s"])) if "b" in n else (n["k"], py(n["v"]))
        for n in nodes
    ]


# ------------------------------------------------------------- comparison
def is_map(x):
    return hasattr(x, "items") and hasattr(x, "keys")


def same_value(got, want):
    if type(want) is dict:
        return (is_map(got) and set(got.keys()) == set(want.keys())
                and all(same_value(got[k], want[k]) for k in want))
    if type(got) is not type(want):
        return False
    if isinstance(want, tuple):
        return len(got) == len(want) and all(
            map(same_value, got, want))
    if isinstance(want, set):
        return got == want and {type(x) for x in got} == {
            type(x) for x in want}
    return got == want


def diff_tree(got, want, path="label"):
    """None if mapping `got` has exactly the items of `want` in order"""
    items = list(got.items())
    gk, wk = [k for k, _ in items], [k for k, _ in want]
    if gk != wk:
        return f"{path}: keys {gk[:12]} != {wk[:12]}"
    for (k, g), (_, w) in zip(items, want):
        if isinstance(w, list):
            if not is_map(g):
                return f"{path}.{k}: not a block: {g!r}"
            d = diff_tree(g, w, f"{path}.{k}")
            if d:
                return d
        elif not same_value(g, w):
            return f"{path}.{k}: {g!r} != {w!r}"
    return None
