"""
Products of data sets that are known to break the rules, written as their
files really are (from the documentation in pdr/formats). A quirk is a function
that writes one such product with a Maker and returns its label and what its
objects must hold. Nothing here imports the code under test.
"""
from __future__ import annotations

import numpy as np

from vp import asciitab as A
from vp import tables as T
from vp.pds3 import brief, q, render, same_values

WHERE, WHAT, UNSUPPORTED = {}, {}, {}
ASCII_TYPE = {"i": "ASCII_INTEGER", "r": "ASCII_REAL", "t": "CHARACTER"}
DIRS = ["", "", "data", "FULL", "IR_1", "STRIP", "summary", "event", "high",
        "ULVS_DDP", "HASI", "HUY_DTWG_ENTRY_AERO", "TRAJ_ICE", "ODF", "a.txt",
        "x.lbl", "NULL", "p.img"]


def where(f):
    """a quirk of where an object is"""
    WHERE[f.__name__] = f
    return f


def what(f):
    """a quirk of how an object is stored"""
    WHAT[f.__name__] = f
    return f


def unsupported(f):
    UNSUPPORTED[f.__name__] = f
    return f


class Maker:
    """writes a product; `case` decides everything"""

    def __init__(self, case, d):
        self.case = case
        self.d = d / case["dir"] if case.get("dir") else d
        self.d.mkdir(parents=True, exist_ok=True)
        self.rng = np.random.default_rng(case["seed"])
        self.rows, self.cols = case["rows"], case["cols"]

    # ------------------------------------------------------------ choices
    def int(self, lo, hi):
        return int(self.rng.integers(lo, hi + 1))

    def pick(self, *options):
        return options[self.int(0, len(options) - 1)]

    # ------------------------------------------------------------- tables
    def fields(self, n=None, kinds="irt", widths=None):
        """[[name, kind, width]]"""
        out = []
        for i in range(n or self.cols):
            kind = kinds[self.int(0, len(kinds) - 1)]
            w = widths[i] if widths else self.int(
                *{"i": (1, 8), "r": (4, 11), "t": (2, 12)}[kind])
            out.append([f"{self.pick('AB', 'C D', 'TIME', 'X_1')}{i}", kind, w])
        return out

    def text(self, kind, w):
        if kind == "i":
            return A.int_text(self.rng, w)
        if kind == "r":
            return A.real_text(self.rng, w)
        return "S" + "".join(
            "BCDGHJKMPQWXZ0123456789"[self.int(0, 22)]
            for _ in range(self.int(0, w - 1)))

    def cells(self, fields, rows=None):
        """-> [[text]] by rows, [(name, values)]"""
        rows = self.rows if rows is None else rows
        grid = [[self.text(k, w) for _, k, w in fields] for _ in range(rows)]
        cols = []
        for i, (name, kind, _) in enumerate(fields):
            vals = [row[i] for row in grid]
            cols.append((name, [int(v) for v in vals] if kind == "i" else
                         [float(v) for v in vals] if kind == "r" else vals))
        return grid, cols

    def fixed(self, fields, rows=None, gap=1, eol="\r\n", first=1):
        """-> lines (with eol), [(name, values)], start bytes, row length"""
        grid, cols = self.cells(fields, rows)
        starts, at = [], first
        for _, _, w in fields:
            starts.append(at)
            at += w + gap
        width = at - gap - 1
        lines = []
        for row in grid:
            line = [" "] * width
            for text, s, (_, kind, w) in zip(row, starts, fields):
                text = text.ljust(w) if kind == "t" else text.rjust(w)
                line[s - 1:s - 1 + w] = text
            lines.append("".join(line) + eol)
        return lines, cols, starts, width + len(eol)

    def spread(self, grid, seps=("  ", " ", "   ")):
        """rows separated by varying white space"""
        return [self.pick("", " ") + "".join(
            x + (self.pick(*seps) if i < len(row) - 1 else "")
            for i, x in enumerate(row)) for row in grid]

    def columns(self, fields, starts=None, widths=None):
        out, at = [], 1
        for i, (name, kind, w) in enumerate(fields):
            w = widths[i] if widths else w
            out.append(["OBJECT", "COLUMN", [
                ["NAME", q(name)], ["COLUMN_NUMBER", str(i + 1)],
                ["DATA_TYPE", ASCII_TYPE.get(kind, kind)],
                ["START_BYTE", str(starts[i] if starts else at)],
                ["BYTES", str(w)]]])
            at += w + 1
        return out

    def table(self, name, columns, rows, row_bytes, *extra,
              fmt="ASCII"):
        return ["OBJECT", name, [
            ["INTERCHANGE_FORMAT", fmt], ["ROWS", str(rows)],
            ["COLUMNS", str(len(columns))], ["ROW_BYTES", str(row_bytes)],
            *extra] + columns]

    def spreadsheet(self, name, fields, rows, *extra):
        sub = [["OBJECT", "FIELD", [
            ["NAME", q(n)], ["DATA_TYPE", ASCII_TYPE.get(k, k)],
            ["BYTES", str(w)]]] for n, k, w in fields]
        return ["OBJECT", name, [
            ["ROWS", str(rows)], ["ROW_BYTES", "200"],
            ["FIELDS", str(len(fields))], ["FIELD_DELIMITER", q("COMMA")],
            *extra] + sub]

    def binary(self, **more):
        """-> table description, bytes, [(name, values)]"""
        t = dict(self.case["table"], **more)
        t["rows"] = self.rows
        body, cols = T.encode(t, self.case["seed"])
        return t, body.tobytes(), cols

    # --------------------------------------------------------------- files
    def junk(self, n):
        """text that is not part of anything"""
        line = "other text 12 34.5 of the file "
        return ((line * (n // len(line) + 1))[:max(0, n - 1)]
                + "\n" if n else "")

    def save(self, name, body):
        if isinstance(body, (list, tuple)):
            body = "".join(body)
        if isinstance(body, str):
            body = body.encode("latin-1")
        (self.d / name).write_bytes(body)

    def label(self, idents, pointers, blocks, record_bytes=None,
              record_type="FIXED_LENGTH", name="P.LBL", head=()):
        sts = [["PDS_VERSION_ID", "PDS3"], ["RECORD_TYPE", record_type]]
        if record_bytes is not None:
            sts.append(["RECORD_BYTES", str(record_bytes)])
        sts += list(head)
        for k, v in idents.items():
            sts.append([k, str(v) if isinstance(v, int) else
                        v[1:] if v.startswith("=") else q(v)])
        for k, v in pointers.items():
            sts.append([f"^{k}", str(v)])
        text = render(sts + list(blocks)) + "END\r\n"
        self.save(name, text)
        return self.d / name


def at(name, n, unit=""):
    return f'("{name}", {n}{unit})'


# ------------------------------------------------------------- expectations
def text_table(cols):
    """values of an ASCII table; nan stands for a missing value"""
    def diff(got):
        if type(got).__name__ != "DataFrame":
            return f"not a table: {type(got).__name__}"
        want = cols
        if list(got.columns) == [n for n, _ in cols] and (
                len(got) == len(cols[0][1])):
            got = got.copy().astype(object)
            want = []
            for i, (n, vals) in enumerate(cols):
                vals = list(vals)
                for j, v in enumerate(vals):
                    if v != v:
                        if got.iat[j, i] == got.iat[j, i]:
                            return f"{n} row {j}: {got.iat[j, i]!r}, not nan"
                        vals[j] = 0.0
                        got.iat[j, i] = 0.0
                want.append((n, vals))
        return A.diff(got, want)
    return diff


def binary_table(cols):
    return lambda got: T.diff_table(got, cols)


def array(want):
    return lambda got: None if (
        type(got).__name__ == "ndarray" and same_values(got, want)) else (
        f"{type(got).__name__} {brief(got) if hasattr(got, 'dtype') else ''}"
        f", expected {brief(want)}")


def exact(text):
    return lambda got: None if got == text else f"{str(got)[:80]!r}"


def lines_of(text):
    """text of a header, however it ends its lines"""
    want = [x.strip() for x in text.strip().splitlines()]

    def diff(got):
        if not isinstance(got, str):
            return f"not text: {type(got).__name__}"
        have = [x.strip() for x in got.strip().splitlines()]
        return None if have == want else f"{have[:3]} != {want[:3]}"
    return diff


# ============================================================ where things are
@where
def clementine_pointer(m):
    """the pointer's sequence is written as a string"""
    fields = m.fields(kinds="ir")
    lines, cols, starts, w = m.fixed(fields)
    k = m.int(0, 4)
    m.save("P.TAB", m.junk(k * 40) + "".join(lines) + m.junk(m.int(0, 90)))
    p = m.label({"DATA_SET_ID": "CLEM1-L-RSS-5-BSR-V1.0"},
                {"HEADER_TABLE": q(f"(P.TAB,{k + 1})")},
                [m.table("HEADER_TABLE", m.columns(fields, starts), m.rows, w)],
                record_bytes=40)
    return p, [("HEADER_TABLE", text_table(cols))]


@where
def chemin_histogram(m):
    """the pointer gives the length, not the start: it starts at byte 300"""
    n = m.int(1, 40)
    want = m.rng.integers(0, 2 ** 31, n).astype(">i4")
    m.save("P.DAT", m.rng.bytes(300) + want.tobytes() + m.rng.bytes(m.int(0, 9)))
    p = m.label({"INSTRUMENT_ID": "CHEMIN"},
                {"HISTOGRAM": at("P.DAT", m.int(1, 5000), " <BYTES>")},
                [["OBJECT", "HISTOGRAM", [
                    ["ITEMS", str(n)], ["DATA_TYPE", "MSB_INTEGER"],
                    ["ITEM_BYTES", "4"]]]], record_bytes=m.int(20, 300))
    return p, [("HISTOGRAM", lambda got: None if same_values(
        np.ravel(np.asarray(got)), want) else str(got)[:80])]


@where
def chemin_housekeeping(m):
    """a table with another name in the label, at the file's start"""
    t, body, cols = m.binary()
    m.save("P.DAT", body + m.rng.bytes(40))
    p = m.label({"INSTRUMENT_ID": "CHEMIN"},
                {"CHMN_HSK_HEADER_TABLE": at("P.DAT", m.int(2, 50))},
                [["OBJECT", "CHMN_HSKN_HEADER_TABLE",
                  T.table_block(t)[0]]], record_bytes=m.int(20, 300))
    return p, [("CHMN_HSK_HEADER_TABLE", binary_table(cols))]


def qube_block(bands, lines, samples, n=2):
    return ["OBJECT", "QUBE", [
        ["AXES", "3"], ["AXIS_NAME", "(SAMPLE,LINE,BAND)"],
        ["CORE_ITEMS", f"({samples},{lines},{bands})"],
        ["CORE_ITEM_BYTES", str(n)], ["CORE_ITEM_TYPE", "MSB_INTEGER"],
        ["CORE_BASE", "0.0"], ["CORE_MULTIPLIER", "1.0"],
        ["SUFFIX_BYTES", "4"], ["SUFFIX_ITEMS", "(0,0,0)"]]]


def cube_is(want):
    """the values of a cube; one band may have lost its axis"""
    return lambda got: array(want[0] if getattr(got, "ndim", 3) == 2
                             and len(want) == 1 else want)(got)


@where
def themis_qube(m):
    """records are bytes when there are more of them than bytes"""
    import gzip

    b, y, x = m.int(1, 3), m.int(1, 6), m.int(1, 6)
    want = m.rng.integers(-9999, 9999, (b, y, x)).astype(">i2")
    rec, inbytes = m.int(2, 50), m.int(0, 2) > 0
    k = m.int(1, 120) if inbytes else m.int(0, 4)
    start = k if inbytes else k * rec
    body = m.rng.bytes(start) + want.tobytes()
    n = len(body) + m.int(0, 3) if inbytes else max(1, len(body) // rec)
    n = n if inbytes or n < len(body) else len(body) - 1
    zipped = m.int(0, 2) == 0 and not inbytes
    name = "P.QUB"
    m.save(name + ".gz" if zipped else name,
           gzip.compress(body) if zipped else body)
    if zipped:  # the file's size counts as it is
        n = 1
    p = m.label({"INSTRUMENT_ID": "THEMIS", "FILE_RECORDS": n},
                {"QUBE": at(name, k + 1)}, [qube_block(b, y, x)],
                record_bytes=rec)
    return p, [("QUBE", cube_is(want))]


@where
def huygens_disr(m):
    """tables at the end of files, of rows one byte longer than labelled"""
    n = m.rows
    fields = m.fields(kinds="ir")
    exact_rows = m.int(0, 2) == 0
    lines, cols, starts, w = m.fixed(fields, n)
    fn = m.pick("ULVS_DDP_1", "DLIS_AZ_DDP", "XDLV_DDP") if exact_rows else (
        m.pick("STRIP_1", "VISIBL", "SUN_2", "TIMES", "SOLAR"))
    header = "".join(f"header line {i}\r\n" for i in range(m.int(1, 5)))
    m.save(fn + ".TAB", header + "".join(lines))
    idents = m.pick({"INSTRUMENT_HOST_NAME": "HUYGENS PROBE",
                     "FILE_NAME": m.pick("STRIP", "VISIBL", "TIME", "SUN",
                                         "SOLAR", "X_IMAGE") + ".TAB"},
                    {"INSTRUMENT_NAME": "DESCENT IMAGER SPECTRAL RADIOMETER",
                     "PRODUCT_TYPE": "RDR", "FILE_NAME": fn + ".TAB"})
    p = m.label(idents, {"HEADER": at(fn + ".TAB", 1),
                         "TABLE": at(fn + ".TAB", m.int(2, 9))},
                [["OBJECT", "HEADER", [["HEADER_TYPE", "TEXT"],
                                       ["BYTES", str(m.int(1, 9))]]],
                 m.table("TABLE", m.columns(fields, starts), n,
                         w - (not exact_rows))],
                record_bytes=w, name=fn + ".LBL")
    return p, [("TABLE", text_table(cols)), ("HEADER", lines_of(header))]


@where
def cassini_iss_1006(m):
    """records counted from the wrong one, for some times"""
    h, w = m.int(1, 8), m.int(1, 8)
    rec = w * 2
    want = m.rng.integers(-9999, 9999, (h, w)).astype(">i2")
    first, last = 1359362956, 1363539029
    clock, off = m.pick(
        (first, 2), (last, 2), (m.int(first, last - 1), 2), (first - 1, 1),
        (last + 1, 1), (m.int(10 ** 9, first - 1), 1))
    k = m.int(1, 4)
    m.save("P.IMG", m.rng.bytes(k * rec) + want.tobytes() + m.rng.bytes(rec))
    p = m.label({"DATA_SET_ID": "CO-E/V/J-ISSNA/ISSWA-2-EDR-V1.0",
                 "SPACECRAFT_CLOCK_STOP_COUNT": f"{clock}.{m.int(0, 255):03d}"
                 if m.int(0, 1) and clock != last else clock},
                {"IMAGE": at("P.IMG", k + off)},
                [["OBJECT", "IMAGE", [
                    ["LINES", str(h)], ["LINE_SAMPLES", str(w)],
                    ["SAMPLE_BITS", "16"], ["SAMPLE_TYPE", "SUN_INTEGER"]]]],
                record_bytes=rec)
    return p, [("IMAGE", array(want))]


@where
def lro_crater(m):
    """the second table follows a header of 64 bytes"""
    names = [x for x in (m.pick("FRAME", "SEC", "COUNT"), "VALUE")]
    n = m.rows
    head = np.frombuffer(m.rng.bytes(64), ">u4")
    body = m.rng.integers(0, 2 ** 15, (n, 2)).astype(">u2")
    m.save("P.DAT", head.tobytes() + body.tobytes())

    def cols(ns, w):
        return [["OBJECT", "COLUMN", [
            ["NAME", x], ["DATA_TYPE", "MSB_UNSIGNED_INTEGER"],
            ["START_BYTE", str(1 + i * w)], ["BYTES", str(w)]]]
            for i, x in enumerate(ns)]
    heads = [f"H{i}" for i in range(16)]
    p = m.label({"INSTRUMENT_ID": "CRAT", "PRODUCT_TYPE": "EDR"},
                {"TABLE_0": at("P.DAT", 1), "TABLE_1": at("P.DAT", m.int(2, 9))},
                [m.table("TABLE_0", cols(heads, 4), 1, 64, fmt="BINARY"),
                 m.table("TABLE_1", cols(names, 2), n, 4, fmt="BINARY")],
                record_bytes=m.int(4, 64))
    return p, [("TABLE_0", binary_table([(x, [v]) for x, v in
                                         zip(heads, head)])),
               ("TABLE_1", binary_table(
                   [(x, list(body[:, i])) for i, x in enumerate(names)]))]


@where
def phoenix_opacity(m):
    """headers that lost trailing spaces: tables are found from the end"""
    fields = m.fields(kinds="ir")
    lines, cols, starts, w = m.fixed(fields)
    k = m.int(1, 4)
    header = "".join(f"column headings {i}, and units\r\n" for i in range(k))
    name = m.pick("HEADER", "TABLE_HEADER", "TEXT_HEADER")
    m.save("P.TAB", header + "".join(lines))
    p = m.label({"DATA_SET_ID": "PHX-M-SSI-5-ATMOS-OPACITY-V1.0"},
                {name: at("P.TAB", 1), "TABLE": at("P.TAB", k + 1)},
                [["OBJECT", name, [["HEADER_TYPE", "TEXT"],
                                       ["RECORDS", str(k)],
                                       ["BYTES", str(k * w)]]],
                 m.table("TABLE", m.columns(fields, starts), m.rows, w)],
                record_bytes=w)
    return p, [("TABLE", text_table(cols)), (name, lines_of(header))]


def in_bytes(m, idents, name, binary=True):
    """the pointer counts bytes without saying so"""
    k = m.int(1, 99)
    if binary:
        t, body, cols = m.binary()
        block = ["OBJECT", name, T.table_block(t)[0]]
        m.save("P.DAT", m.rng.bytes(k) + body + m.rng.bytes(9))
    else:
        fields = m.fields(kinds="ir")
        lines, cols, starts, w = m.fixed(fields)
        m.save("P.DAT", m.junk(k) + "".join(lines) + m.junk(m.int(0, 40)))
        block = m.table(name, m.columns(fields, starts), m.rows, w)
    p = m.label(idents, {name: at("P.DAT", k + 1)}, [block],
                record_bytes=m.int(2, 300))
    return p, [(name, (binary_table if binary else text_table)(cols))]


@where
def phoenix_wcl(m):
    return in_bytes(m, {"DATA_SET_ID": "PHX-M-MECA-4-NIRDR-V1.0",
                        "PRODUCT_TYPE": m.pick("MECA_WCL_CP", "MECA_WCL_CV")},
                    m.pick("TABLE", "WCL_TABLE"), m.int(0, 1))


@where
def rems_report(m):
    return in_bytes(m, {"INSTRUMENT_HOST_NAME": "MARS SCIENCE LABORATORY",
                        "INSTRUMENT_ID": "REMS", "PRODUCT_ID": m.pick(
                            "RME_HSDEF__1", "HSREG__.DAT")},
                    "REMS_REPORT_TABLE", m.int(0, 1))


def misrowed(m, idents, name, short, claim_rows=None, eol="\r\n", rec=None,
             row=None):
    """
    an ASCII table whose rows are `short` bytes longer than the label says (or
    exactly `row`), with something else after it
    """
    if row:
        grow = m.fields(1, "t")
        grow[0][0] = "LAST"
        fields = m.fields(m.int(1, 2), "i")
        used = sum(w + 1 for *_, w in fields)
        grow[0][2] = row - len(eol) - used
        fields.append(grow[0])
    else:
        fields = m.fields(kinds="ir")
    lines, cols, starts, w = m.fixed(fields, eol=eol)
    k = m.int(0, 3)
    rec = rec(w) if rec else w
    m.save("P.TAB", m.junk(k * rec) + "".join(lines)
           + m.junk(m.int(0, 3) * 50))
    p = m.label(idents(w, m.rows), {name: at("P.TAB", k + 1)},
                [m.table(name, m.columns(fields, starts),
                         m.rows if claim_rows is None else claim_rows,
                         w - short)], record_bytes=rec)
    return p, [(name, text_table(cols))]


@where
def marsis_tec(m):
    """rows of 143 bytes, as many as the file has records"""
    return misrowed(m, lambda w, n: {
        "INSTRUMENT_ID": "MARSIS", "FILE_RECORDS": n,
        "DATA_SET_NAME": "MARS EXPRESS TEC DATA"}, "TABLE", m.int(0, 20),
        claim_rows=m.int(1, 30), row=143)


@where
def rpws_ancillary(m):
    """as many rows as the file has records"""
    return misrowed(m, lambda w, n: {
        "DATA_SET_ID": "CO-V/E/J/S/SS-RPWS-2-REFDR-V1.0",
        "PRODUCT_TYPE": "ANCILLARY", "FILE_RECORDS": n},
        "RPWS_TIME_ORDERED_TABLE", 0, claim_rows=m.int(1, 30))


@where
def lro_weather(m):
    return misrowed(m, lambda w, n: {
        "DATA_SET_ID": "LRO-L-RSS-1-TRACKING-V1.0"}, "WEAREC_TABLE", 1)


@where
def hartley_shape(m):
    """79-byte records that are labelled as 80 bytes"""
    names = ["PLATE_TABLE", "VERTEX_TABLE"]
    body, pointers, blocks, out, at_row = [], {}, [], [], 0
    for name in names:
        fields = m.fields(m.int(1, 2), "i") + m.fields(1, "t")
        fields[-1][0] = "LAST"
        fields[-1][2] = 77 - sum(w + 1 for *_, w in fields[:-1])
        n = m.int(1, 6)
        lines, cols, starts, w = m.fixed(fields, n)
        pointers[name] = at("P.TAB", at_row + 1)
        blocks.append(m.table(name, m.columns(fields, starts), n, 80))
        out.append((name, text_table(cols)))
        body += lines
        at_row += n
    m.save("P.TAB", body)
    p = m.label({"DATA_SET_ID": "DIF-C-HRIV/MRI-5-HARTLEY2-SHAPE-V1.0",
                 "PRODUCT_ID": "HARTLEY2-CARTESIAN-PLATE-MODEL"},
                pointers, blocks, record_bytes=80)
    return p, out


@where
def mars_express_atmosphere(m):
    return misrowed(m, lambda w, n: {
        "DATA_SET_ID": "MEX-M-MRS-5-OCC-V1.0"}, "ATM_TABLE", 2, row=278)


@where
def mars_express_radio(m):
    ids, name = m.pick((("ICL", "L1B"), "DOPPLER_TABLE"),
                       (("ODF", "L02"), "RANGING_TABLE"))
    return misrowed(m, lambda w, n: {
        "INSTRUMENT_HOST_NAME": "MARS EXPRESS", "INSTRUMENT_ID": "MRS",
        "PRODUCT_ID": f"M32{ids[0]}{ids[1]}_X.TAB"}, name, 1)


@where
def ebrocc_geometry(m):
    return misrowed(m, lambda w, n: {
        "DATA_SET_ID": m.pick(
            "ESO1M-SR-APPH-4-OCC-V1.0", "ESO22M-SR-APPH-4-OCC-V1.0",
            "IRTF-SR-URAC-4-OCC-V1.0", "PAL200-SR-CIRC-4-OCC-V1.0",
            "MCD27M-SR-IIRAR-4-OCC-V1.0"),
        "PRODUCT_ID": "X_GEOM_1"}, "SERIES", 2)


@where
def crism_multispectral(m):
    """rows are as long as records"""
    return misrowed(m, lambda w, n: {
        "DATA_SET_ID": "MRO-M-CRISM-5-RDR-MULTISPECTRAL-V1.0",
        "PRODUCT_ID": "T0000_MRRWV_1"}, "TABLE", 2)


@where
def msx_header(m):
    """a header as long as its file, whose label does not say so"""
    text = "ENVI\r\n" + "".join(
        f"key {i} = {m.int(0, 99)}\r\n" for i in range(m.int(1, 9)))
    m.save("P.HDR", text)
    p = m.label({"DATA_SET_ID": "MSX-L-SPIRIT3-2/4-V1.0"},
                {"ENVI_HEADER": q("P.HDR")},
                [["OBJECT", "ENVI_HEADER", [["HEADER_TYPE", "TEXT"],
                                            ["BYTES", q("N/A")]]]])
    return p, [("ENVI_HEADER", lines_of(text))]


def misfiled(m, idents, name, ext, wrong, record_bytes=True):
    """the file is named after the label, whatever the label says"""
    fields = m.fields(kinds="ir")
    stem = m.pick("P", "P_1", "A.B")
    lines, cols, starts, w = m.fixed(fields)
    m.save(stem + ext, lines)
    if name == "SPREADSHEET":
        m.save(stem + ext, [",".join(x.strip().split()) + "\r\n"
                            for x in lines])
        block = m.spreadsheet(name, fields, m.rows)
    else:
        block = m.table(name, m.columns(fields, starts), m.rows, w)
    p = m.label(idents, {name: q(wrong(stem + ext))}, [block],
                record_bytes=w, name=stem + ".LBL")
    return p, [(name, text_table(cols))]


@where
def cassini_dust(m):
    return misfiled(m, {"DATA_SET_ID": m.pick(
        "CO-D-CDA-3/4/5-DUST-V1.0", "CO-D-CDA-2-X")}, "TABLE", ".TAB",
        m.pick(lambda x: "OTHER.TAB", lambda x: "Q" + x, lambda x: x))


@where
def new_horizons(m):
    return misfiled(m, {"DATA_SET_ID": m.pick(
        "NH-P-PEPSSI-4-PLASMA-V1.0", "NH-X-SWAP-5-DERIVED-SOLARWIND-V1.0",
        "NH-P/PSA-LORRI/ALICE/REX-5-ATMOS-V1.0")}, "SPREADSHEET", ".csv",
        m.pick(lambda x: " " + x, lambda x: x))


@where
def voyager_jitter(m):
    return misfiled(m, {"DATA_SET_ID": "VG2-SR/UR/NR-PPS-2/4-OCC-V1.0",
                        "PRODUCT_TYPE": "JITTER"}, "SERIES", ".TAB",
                    m.pick(lambda x: "OTHER.TAB", lambda x: x))


@where
def mola_unknown_rows(m):
    """as many rows as fit from the pointer to the file's end"""
    t, body, cols = m.binary()
    rec = T.row_width(t)
    block = [["ROWS", q("UNK")] if b[0] == "ROWS" else b
             for b in T.table_block(t)[0]]

    def text(n):
        return render([
            ["PDS_VERSION_ID", "PDS3"], ["RECORD_TYPE", "FIXED_LENGTH"],
            ["RECORD_BYTES", str(rec)], ["FILE_RECORDS", q("UNK")],
            ["LABEL_RECORDS", str(n)],
            ["DATA_SET_ID", q("MGS-M-MOLA-3-PEDR-L1A-V1.0")],
            ["^PEDR_TABLE", str(n + 1)], ["OBJECT", "PEDR_TABLE", block]
        ]) + "END\r\n"
    n = -(-(len(text(9999)) + 9) // rec)
    m.save("P.B", text(n).ljust(n * rec).encode() + body)
    return m.d / "P.B", [("PEDR_TABLE", binary_table(cols))]


@where
def galileo_line_prefix(m):
    """the table of line prefixes is in the image's file"""
    h, w, pre = m.rows, m.int(1, 9), 8
    want = m.rng.integers(0, 255, (h, w)).astype("u1")
    words = m.rng.integers(0, 2 ** 15, (h, 4)).astype(">u2")
    m.save("P.IMG", b"".join(
        words[i].tobytes() + want[i].tobytes() for i in range(h)))
    cols = [["OBJECT", "COLUMN", [
        ["NAME", f"W{i}"], ["DATA_TYPE", "MSB_UNSIGNED_INTEGER"],
        ["START_BYTE", str(1 + 2 * i)], ["BYTES", "2"]]] for i in range(4)]
    p = m.label({"SPACECRAFT_NAME": "GALILEO ORBITER",
                 "INSTRUMENT_NAME": "SOLID_STATE_IMAGING"},
                {"IMAGE": at("P.IMG", 1), "IMAGE_LINE_PREFIX_TABLE":
                 m.pick("1", q("P.IMG"))},
                [["OBJECT", "IMAGE", [
                    ["LINES", str(h)], ["LINE_SAMPLES", str(w)],
                    ["SAMPLE_BITS", "8"],
                    ["SAMPLE_TYPE", "UNSIGNED_INTEGER"],
                    ["LINE_PREFIX_BYTES", str(pre)]]],
                 m.table("IMAGE_LINE_PREFIX_TABLE", cols, h, pre,
                         ["ROW_SUFFIX_BYTES", str(w)], fmt="BINARY")],
                record_bytes=pre + w)
    return p, [("IMAGE", array(want)), ("IMAGE_LINE_PREFIX_TABLE", binary_table(
        [(f"W{i}", list(words[:, i])) for i in range(4)]))]
