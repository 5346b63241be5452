"""PDS4 products: XML labels and the data they describe."""
from __future__ import annotations

import re
from pathlib import Path
from xml.sax.saxutils import escape, quoteattr

import numpy as np

from vp.common import st
from vp.pds3 import junk, pixels, same_values

NS = "http://pds.nasa.gov/pds4/pds/v1"

BINARY = {
    "IEEE754MSBSingle": ">f4", "IEEE754MSBDouble": ">f8",
    "SignedMSB2": ">i2", "SignedMSB4": ">i4", "SignedMSB8": ">i8",
    "UnsignedMSB2": ">u2", "UnsignedMSB4": ">u4", "UnsignedMSB8": ">u8",
    "ComplexMSB8": ">c8", "ComplexMSB16": ">c16",
    "IEEE754LSBSingle": "<f4", "IEEE754LSBDouble": "<f8",
    "SignedLSB2": "<i2", "SignedLSB4": "<i4", "SignedLSB8": "<i8",
    "UnsignedLSB2": "<u2", "UnsignedLSB4": "<u4", "UnsignedLSB8": "<u8",
    "ComplexLSB8": "<c8", "ComplexLSB16": "<c16",
    "SignedByte": "i1", "UnsignedByte": "u1",
}
REAL = {k: v for k, v in BINARY.items() if "Complex" not in k}


def elements(fill, seed, n, dtype):
    dt = np.dtype(dtype)
    if dt.kind != "c":
        return pixels(fill, seed, n, dtype)
    part = np.dtype(f"{dt.byteorder}f{dt.itemsize // 2}")
    return np.ascontiguousarray(pixels(fill, seed, 2 * n, part)).view(dt)


def same(got, want):
    got, want = np.asarray(got), np.asarray(want)
    if want.dtype.kind != "c":
        return same_values(got, want)
    return got.dtype.kind == "c" and same_values(
        got.real, want.real) and same_values(got.imag, want.imag)


# ------------------------------------------------------------------------ XML
def el(tag, content=None, **attrs):
    return [tag, content, attrs]


def render(node, depth=0, eol="\n"):
    tag, content, attrs = node
    a = "".join(f" {k}={quoteattr(v)}" for k, v in attrs.items())
    pad = "  " * depth
    if content is None or content == []:
        return f"{pad}<{tag}{a}/>{eol}"
    if isinstance(content, str):
        return f"{pad}<{tag}{a}>{escape(content)}</{tag}>{eol}"
    inner = "".join(render(c, depth + 1, eol) for c in content)
    return f"{pad}<{tag}{a}>{eol}{inner}{pad}</{tag}>{eol}"


def document(root, eol="\n"):
    return ('<?xml version="1.0" encoding="UTF-8"?>' + eol
            + render(root, 0, eol)).encode("utf-8")


AREA = {"Product_Observational": "File_Area_Observational",
        "Product_Ancillary": "File_Area_Ancillary",
        "Product_Browse": "File_Area_Browse",
        "Product_Collection": "File_Area_Inventory"}
DISP = "http://pds.nasa.gov/pds4/disp/v1"
SP = "http://pds.nasa.gov/pds4/sp/v1"


def discipline(refs):
    """how to display objects; refs: [[local identifier, axis names, how]]"""
    out = []
    for ident, axes, how in refs:
        ref = el("Local_Internal_Reference", [
            el("local_identifier_reference", ident),
            el("local_reference_type", "display_settings_to_array")])
        if how == "prefixed":
            ref = el("disp:Local_Internal_Reference", [
                el("disp:local_identifier_reference", ident),
                el("disp:local_reference_type", "display_settings_to_array")])
        if how == "spectral":
            out.append(el("sp:Spectral_Characteristics", [
                ref, el("sp:central_wavelength", "1.5", unit="nm")]))
            continue
        across, down = (["Nothing", "Else"] if how == "wrong axes"
                        else [axes[-1], axes[len(axes) > 1 and -2]])
        c = [ref, el("disp:Display_Direction", [
            el("disp:horizontal_display_axis", across),
            el("disp:horizontal_display_direction", "Left to Right"),
            el("disp:vertical_display_axis", down),
            el("disp:vertical_display_direction", "Top to Bottom")])]
        if how == "no direction":
            c.pop()
        if how == "color":
            c.append(el("disp:Color_Display_Settings", [
                el("disp:color_display_axis", axes[0]),
                *[el(f"disp:{x}_channel_band", str(i + 1))
                  for i, x in enumerate(["red", "green", "blue"])]]))
        out.append(el("disp:Display_Settings", c))
    return el("Observation_Area", [el("Discipline_Area", out)], **{
        "xmlns:disp": DISP, "xmlns:sp": SP})


@st.composite
def displays(draw, refs):
    """refs: [(identifier, axes)] -> argument for discipline()"""
    out = []
    for ident, axes in refs:
        if draw(st.booleans()):
            out.append([ident, axes, draw(st.sampled_from([
                "plain", "prefixed", "color", "wrong axes", "no direction",
                "spectral"]))])
    return out


def product(areas, extra=(), ident=(), kind="Product_Observational"):
    """areas: [(file name, [structure nodes][, kind of file area])]"""
    children = [
        el("Identification_Area", [
            el("logical_identifier", "urn:nasa:pds:vp:data:product"),
            el("version_id", "1.0"), el("title", "generated product"),
            el("information_model_version", "1.11.0.0"),
            el("product_class", kind), *ident]),
        *extra,
    ]
    for name, structures, *how in areas:
        children.append(el(how[0] if how else AREA[kind], [
            el("File", [el("file_name", name)]), *structures]))
    return el(kind, children, xmlns=NS)


# --------------------------------------------------------------------- arrays
ARRAY_TAGS = {
    1: ["Array", "Array_1D"],
    2: ["Array", "Array_2D", "Array_2D_Image", "Array_2D_Map",
        "Array_2D_Spectrum"],
    3: ["Array", "Array_3D", "Array_3D_Image", "Array_3D_Movie",
        "Array_3D_Spectrum"],
    4: ["Array"],
}
AXES = ["Band", "Line", "Sample", "Time"]


def identity(ident):
    """ident: ["id"|"name"|"both"|None, text]"""
    how, text = ident
    out = []
    if how in ("name", "both"):
        out.append(el("name", text if how == "name" else "named " + text))
    if how in ("id", "both"):
        out.append(el("local_identifier", text))
    return out


def array(tag, ident, offset, shape, dtype, listing=None, scale=None,
          add=None, specials=(), stats=()):
    n = len(shape)
    e = [el("data_type", dtype)]
    if scale is not None:
        e.append(el("scaling_factor", scale))
    if add is not None:
        e.append(el("value_offset", add))
    axes = [el("Axis_Array", [
        el("axis_name", AXES[i]), el("elements", str(shape[i])),
        el("sequence_number", str(i + 1))]) for i in range(n)]
    if listing:
        axes = [axes[i] for i in listing]
    body = identity(ident) + [
        el("offset", str(offset), unit="byte"), el("axes", str(n)),
        el("axis_index_order", "Last Index Fastest"),
        el("Element_Array", e), *axes]
    if specials:
        body.append(el("Special_Constants", [el(k, v) for k, v in specials]))
    if stats:
        body.append(el("Object_Statistics", [el(k, v) for k, v in stats]))
    return el(tag, body)


def header(ident, offset, length, standard="7-Bit ASCII Text"):
    return el("Header", identity(ident) + [
        el("offset", str(offset), unit="byte"),
        el("object_length", str(length), unit="byte"),
        el("parsing_standard_id", standard)])


def idents():
    """how an object is identified; the text gets a number appended"""
    return st.sampled_from(["id", "id", "name", "both", None])


def key_for(ident, kind, number):
    """the name pdr should list an object under"""
    return (f"{kind}_{number}" if ident[0] is None
            else ident[1].replace(" ", "_"))


def axis_listing(draw, n):
    return list(draw(st.permutations(range(n)))) if draw(st.booleans()) else None


def lay_out(chunks, seed, trailer=0):
    """chunks: [(gap before, bytes)] -> (file contents, offsets)"""
    out, offsets = b"", []
    for i, (gap, b) in enumerate(chunks):
        out += junk(gap, seed + i)
        offsets.append(len(out))
        out += b
    return out + junk(trailer, seed + 99), offsets


def write(d: Path, root, files, label="product.xml", eol="\n"):
    for name, data in files.items():
        p = d / name
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(data)
    (d / label).write_bytes(document(root, eol))
    return d / label


# --------------------------------------------------------------------- tables
TEXT_TYPES = ["ASCII_String", "UTF8_String", "ASCII_Short_String_Collapsed",
              "ASCII_Text_Preserved"]
ASCII_NUMBERS = ["ASCII_Integer", "ASCII_NonNegative_Integer", "ASCII_Real",
                 "ASCII_Numeric_Base2", "ASCII_Numeric_Base8",
                 "ASCII_Numeric_Base16"]
DATES = {"ASCII_Date_YMD": "2004-02-29", "ASCII_Date_DOY": "2004-060",
         "ASCII_Date_Time_YMD": "2004-02-29T01:02:03.5",
         "ASCII_Date_Time_YMD_UTC": "2004-02-29T01:02:03Z",
         "ASCII_Time": "01:02:03"}
CHARS = "abcXYZ 0123456789.-+_/;:()#'*,|"
NAMES = ["TIME", "Detector Temperature", "flux", "x-y", "GROUP", "GROUP_1",
         "count (raw)", "GROUP1_MEAN", "X", "B[1]"]


def ascii_cell(kind, width, rng, quotable=False, avoid=""):
    """(text, the value it denotes) of at most `width` bytes"""
    def digits(most, base=10):
        k = int(rng.integers(1, max(most, 1) + 1))
        return "".join("0123456789ABCDEF"[rng.integers(0, base)]
                       for _ in range(k))

    if kind == "ASCII_Integer":
        sign = ["", "-", "+"][rng.integers(0, 3)] if width > 1 else ""
        t = sign + digits(min(width - len(sign), 18))
        return t, int(t)
    if kind == "ASCII_NonNegative_Integer":
        t = digits(min(width, 19))
        return t, int(t)
    if kind in ("ASCII_Numeric_Base2", "ASCII_Numeric_Base8",
                "ASCII_Numeric_Base16"):
        base = int(kind.split("Base")[1])
        t = digits(width, base)
        if rng.integers(0, 2):
            t = t.lower()
        return t, int(t, base)
    if kind == "ASCII_Real":
        forms = ["{a}", "{a}.{b}", "-{a}.{b}", ".{b}", "{a}.", "+{a}.{b}",
                 "{a}.{b}E{c}", "-{a}.{b}e-{c}", "{a}E+{c}"]
        for _ in range(20):
            t = forms[rng.integers(0, len(forms))].format(
                a=digits(6), b=digits(9), c=digits(2))
            if len(t) <= width:
                return t, float(t)
        t = digits(width)
        return t, float(t)
    if kind == "ASCII_Boolean":
        opts = [o for o in ("true", "false", "1", "0") if len(o) <= width]
        t = opts[rng.integers(0, len(opts))]
        return t, t in ("true", "1")
    if kind in DATES:
        return DATES[kind], DATES[kind]
    pool = CHARS + ("éßλ☃" if kind == "UTF8_String" else "")
    pool = [c for c in pool if c not in avoid]
    k = int(rng.integers(0, width + 1))
    t = "".join(pool[rng.integers(0, len(pool))] for _ in range(k))
    while len(t.encode()) > width:
        t = t[:-1]
    t = t.strip()
    return t, t


@st.composite
def field(draw, form):
    """form: binary, character or delimited"""
    pick = draw(st.integers(0, 9))
    if form == "binary" and pick < 6:
        t = draw(st.sampled_from(sorted(BINARY)))
        width = np.dtype(BINARY[t]).itemsize
    elif form == "binary" and pick == 6:
        t, width = "UnsignedBitString", draw(st.integers(1, 9))
    else:
        t = draw(st.sampled_from(
            ASCII_NUMBERS + TEXT_TYPES + ["ASCII_Boolean"] + sorted(DATES)))
        width = (len(DATES[t]) + draw(st.integers(0, 2)) if t in DATES
                 else draw(st.integers(1, 20)))
    return {"kind": "field", "name": draw(st.sampled_from(NAMES)), "type": t,
            "bytes": width,
            "gap": draw(st.sampled_from([0, 0, 0, 1, 3]))
            if form != "delimited" else 0}


@st.composite
def group(draw, form, depth):
    kids = [draw(field(form)) for _ in range(draw(st.integers(1, 3)))]
    if depth > 1 and draw(st.integers(0, 2)) == 0:
        kids.insert(draw(st.integers(0, len(kids))),
                    draw(group(form, depth - 1)))
        if draw(st.integers(0, 3)) == 0:
            kids = [k for k in kids if k["kind"] == "group"]
    return {"kind": "group", "reps": draw(st.integers(1, 4)), "fields": kids,
            "name": draw(st.sampled_from([None, None, "vec", "my group"])),
            "gap": draw(st.sampled_from([0, 0, 2]))
            if form != "delimited" else 0,
            "pad": draw(st.sampled_from([0, 0, 1]))
            if form != "delimited" else 0}


@st.composite
def snug(draw, form):
    """groups of nothing but a group, and padding of whole values if any"""
    g = draw(field(form)) | {"gap": 0}
    width = g["bytes"]
    for _ in range(draw(st.sampled_from([1, 2, 2]))):
        g = {"kind": "group", "reps": draw(st.integers(1, 4)), "fields": [g],
             "name": None, "gap": draw(st.sampled_from([0] * 4 + [width])),
             "pad": draw(st.sampled_from([0, 0, width, 2 * width]))}
        if form == "delimited":
            g |= {"gap": 0, "pad": 0}
    return g


@st.composite
def tables(draw, form):
    nodes = [draw(field(form)) for _ in range(draw(st.integers(1, 5)))]
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
        nodes.insert(draw(st.integers(0, len(nodes))), draw(
            group(form, 2) if draw(st.integers(0, 2)) else snug(form)))
    t = {"form": form, "nodes": nodes, "records": draw(st.integers(1, 12)),
         "pad": draw(st.sampled_from([0, 0, 4]))}
    if form == "delimited":
        t |= {"delimiter": draw(st.sampled_from(sorted(DELIMITERS))),
              "eol": draw(st.sampled_from(sorted(EOLS))),
              "nulls": draw(st.booleans()),
              "length": draw(st.sampled_from(
                  ["object_length", "maximum_record_length", "both", None]))}
    return t


DELIMITERS = {"Comma": ",", "Horizontal Tab": "\t", "Semicolon": ";",
              "Vertical Bar": "|"}
EOLS = {"Carriage-Return Line-Feed": b"\r\n", "Line-Feed": b"\n"}


def place(nodes):
    """set 'at' (0-based, in the parent) and 'size'; -> total length"""
    at = 0
    for n in nodes:
        at += n["gap"]
        n["at"] = at
        if n["kind"] == "field":
            n["size"] = n["bytes"]
        else:
            n["rep"] = place(n["fields"]) + n["pad"]
            n["size"] = n["rep"] * n["reps"]
        at += n["size"]
    return at


def flatten(nodes, reps=()):
    """[(field, repetitions of each enclosing group)] in label order"""
    out = []
    for n in nodes:
        if n["kind"] == "field":
            out.append((n, reps))
        else:
            out += flatten(n["fields"], reps + (n["reps"],))
    return out


def fill_cells(t, seed):
    """set each field's 'cells': [(stored bytes, value)], in C order over
    records and repetitions"""
    rng = np.random.default_rng(seed)
    for i, (f, reps) in enumerate(flatten(t["nodes"])):
        n = t["records"] * int(np.prod(reps, dtype=int))
        kind, w = f["type"], f["bytes"]
        if kind in BINARY:
            v = elements(["bits", "edge", "ramp"][(seed + i) % 3], seed + i, n,
                         BINARY[kind])
            raw = v.tobytes()
            size = v.dtype.itemsize
            f["cells"] = [(raw[k * size:(k + 1) * size], v[k])
                          for k in range(n)]
            continue
        cells = []
        for _ in range(n):
            if kind == "UnsignedBitString":
                b = bytes(rng.integers(0, 3, w, dtype="u1"))
                cells.append((b, b))
                continue
            if f.get("full"):  # as long as can be
                text = "".join(
                    "abcdefghij"[k] for k in rng.integers(0, 10, w))
                cells.append((text, text))
                continue
            text, value = ascii_cell(kind, w, rng,
                                     avoid='"' if t["form"] != "character"
                                     else "")
            cells.append((text, value))
        f["cells"] = cells


def fixed_body(t, seed, eol=b"\r\n"):
    rng = np.random.default_rng(seed + 1)
    length = place(t["nodes"]) + t["pad"]
    text = t["form"] == "character"
    n = t["records"]
    rec = length + (len(eol) if text else 0)
    body = np.frombuffer(junk(n * rec, seed, text), "u1").reshape(
        n, rec).copy()
    if text:
        body[:, length:] = np.frombuffer(eol, "u1")

    def put(nodes, base, index, shape):
        for node in nodes:
            at = base + node["at"]
            if node["kind"] == "group":
                for r in range(node["reps"]):
                    put(node["fields"], at + r * node["rep"],
                        index + (r,), shape + (node["reps"],))
                continue
            for k in range(n):
                flat = int(np.ravel_multi_index((k,) + index, (n,) + shape))
                cell, _ = node["cells"][flat]
                if isinstance(cell, str):
                    cell = cell.encode("utf-8")
                    space = node["bytes"] - len(cell)
                    left = [0, space, space // 2][rng.integers(0, 3)]
                    if node["type"] in TEXT_TYPES:
                        left = 0
                    cell = b" " * left + cell + b" " * (space - left)
                body[k, at:at + node["bytes"]] = np.frombuffer(cell, "u1")
    put(t["nodes"], 0, (), ())
    return body.tobytes(), rec


def delimited_body(t, seed):
    rng = np.random.default_rng(seed + 1)
    d, eol, n = DELIMITERS[t["delimiter"]], EOLS[t["eol"]], t["records"]
    rows = []

    def cells(nodes, k, index, shape, out):
        for node in nodes:
            if node["kind"] == "group":
                for r in range(node["reps"]):
                    cells(node["fields"], k, index + (r,),
                          shape + (node["reps"],), out)
                continue
            flat = int(np.ravel_multi_index((k,) + index, (n,) + shape))
            text, value = node["cells"][flat]
            if t["nulls"] and rng.integers(0, 6) == 0:
                node["cells"][flat] = ("", "" if isinstance(value, str)
                                       else None)
                out.append("")
                continue
            is_text = isinstance(value, str)
            quote = d in text or (is_text and rng.integers(0, 3) == 0) or (
                rng.integers(0, 12) == 0)
            if quote and (text or (is_text and len(t["nodes"]) > 1)):
                text = f'"{text}"'
            elif not is_text and rng.integers(0, 6) == 0:
                text = " " + text
            out.append(text)
        return out

    for k in range(n):
        rows.append(d.join(cells(t["nodes"], k, (), (), [])).encode("utf-8"))
    return b"".join(r + eol for r in rows), max(map(len, rows)) + len(eol)


def _field_nodes(nodes, form):
    tag = form.capitalize()
    out, nf, ng = [], 0, 0
    for n in nodes:
        if n["kind"] == "field":
            nf += 1
            c = [el("name", n["name"]), el("field_number", str(nf))]
            if form != "delimited":
                c.append(el("field_location", str(n["at"] + 1), unit="byte"))
            c.append(el("data_type", n["type"]))
            if form != "delimited":
                c.append(el("field_length", str(n["bytes"]), unit="byte"))
            if n.get("scale") is not None:
                c.append(el("scaling_factor", n["scale"]))
            if n.get("add") is not None:
                c.append(el("value_offset", n["add"]))
            if n.get("consts"):
                c.append(el("Special_Constants",
                            [el(k, v) for k, v in n["consts"]]))
            out.append(el(f"Field_{tag}", c))
            continue
        ng += 1
        c = [el("name", n["name"])] if n["name"] else []
        kids, f, g = _field_nodes(n["fields"], form)
        c += [el("group_number", str(ng)),
              el("repetitions", str(n["reps"])), el("fields", str(f)),
              el("groups", str(g))]
        if form != "delimited":
            c += [el("group_location", str(n["at"] + 1), unit="byte"),
                  el("group_length", str(n["size"]), unit="byte")]
        out.append(el(f"Group_Field_{tag}", c + kids))
    return out, nf, ng


def sampled(u):
    """a field whose values are not stored"""
    pre = "sampling_parameter_"
    c = [el(pre + "name", u["name"]), el(pre + "interval", u["interval"]),
         el(pre + "unit", "s")]
    if u["scale"]:
        c.append(el(pre + "scale", u["scale"]))
    if u.get("base"):
        c.append(el(pre + "base", u["base"]))
    return el("Uniformly_Sampled", c + [
        el("first_" + pre + "value", u["first"]),
        el("last_" + pre + "value", u["last"])])


def table(t, ident, offset, size, rec):
    form = t["form"]
    kids, f, g = _field_nodes(t["nodes"], form)
    body = identity(ident) + [el("offset", str(offset), unit="byte")]
    record = [el("fields", str(f)), el("groups", str(g))]
    if form == "delimited":
        if t["length"] in ("object_length", "both"):
            body.append(el("object_length", str(size), unit="byte"))
        if t["length"] in ("maximum_record_length", "both"):
            record.append(el("maximum_record_length", str(rec), unit="byte"))
        body.append(el("parsing_standard_id", "PDS DSV 1"))
    else:
        record.append(el("record_length", str(rec), unit="byte"))
    body.append(el("records", str(t["records"])))
    if form != "binary":
        body.append(el("record_delimiter", t.get("eol", "Carriage-Return Line-Feed")))
    if form == "delimited":
        body.append(el("field_delimiter", t["delimiter"]))
    body += [sampled(u) for u in t.get("sampled", ())]
    body.append(el(f"Record_{form.capitalize()}", record + kids))
    return el(f"Table_{form.capitalize()}", body)


def build_table(t, seed):
    """-> (bytes, longest/fixed record length); fills in t's cells"""
    fill_cells(t, seed)
    return table_body(t, seed)


def table_body(t, seed):
    if t["form"] == "delimited":
        return delimited_body(t, seed)
    return fixed_body(t, seed)


def columns(t):
    """[(name, [value per record], type)] in the order pdr should list them"""
    out, n = [], t["records"]
    for f, reps in flatten(t["nodes"]):
        k = int(np.prod(reps, dtype=int))
        values = [v for _, v in f["cells"]]
        for r in range(k):
            out.append((f["name"], values[r::k], f["type"]))
    return out


def diff_cell(got, want, kind):
    import pandas as pd

    if want is None:
        return got is not None and not pd.isna(got)
    if isinstance(want, bytes):
        return not (isinstance(got, bytes) and got == want)
    if isinstance(want, str):
        return not (isinstance(got, str) and got.strip() == want)
    if isinstance(got, (str, bytes)):
        return True
    if np.iscomplexobj(want):
        got, want = np.complex128(got), np.complex128(want)
        return not np.array_equal(
            [got.real, got.imag], [want.real, want.imag], equal_nan=True)
    if isinstance(want, (float, np.floating)) and np.isnan(want):
        return not np.isnan(got)
    return not (got == want)


def titles(nodes, within=(), reps=1):
    """a pattern per column: its groups' names, its own, and any numbers"""
    out = []
    for n in nodes:
        if n["kind"] == "group":
            out += titles(n["fields"], (*within, n["name"]), reps * n["reps"])
        else:
            parts = [re.escape(x) for x in (*within, n["name"]) if x]
            out += [r"( \[\d+\])?, ".join(parts) + r"( \[\d+\])?(_\d+)*"
                    ] * reps
    return out


def diff_table(df, t):
    """None, or what is wrong with `df` as table `t`"""
    if type(df).__name__ != "DataFrame":
        return f"loaded as {type(df).__name__}: {str(df)[:200]}"
    want = columns(t)
    if df.shape != (t["records"], len(want)):
        return f"shape {df.shape}, expected {(t['records'], len(want))}"
    named = titles(t["nodes"])
    for i, (name, values, kind) in enumerate(want):
        if not re.fullmatch(named[i], str(df.columns[i])):
            return (f"column {i} is named {df.columns[i]!r}, which does not "
                    f"say {name!r}, or not where it belongs")
        col = df.iloc[:, i]
        for k, w in enumerate(values):
            g = col.iloc[k]
            if diff_cell(g, w, kind):
                return f"column {i} ({name}, {kind}), row {k}: {g!r} != {w!r}"
    return None
