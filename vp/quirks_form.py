"""Objects of data sets whose labels misstate how values are stored."""
from __future__ import annotations

import numpy as np

from vp import tables as T
from vp.pds3 import q, render
from vp.quirks import (
    array, at, binary_table, cube_is, misrowed, qube_block,
    text_table, what)

SHORT = {"bytes": 2, "type": "MSB_UNSIGNED_INTEGER"}


# ------------------------------------------------------------------- helpers
def col(name, type_="MSB_UNSIGNED_INTEGER", bytes_=2, gap=0, **more):
    return {"kind": "col", "name": name, "type": type_, "bytes": bytes_,
            "gap": gap, **more}


def items(name, n, type_="MSB_UNSIGNED_INTEGER", bytes_=2, gap=0, **more):
    return {"kind": "items", "name": name, "type": type_, "bytes": bytes_,
            "gap": gap, "n": n, "pad": 0, "explicit_bytes": True, **more}


def some(m, n, start=0):
    """columns of any binary kind"""
    kinds = [("MSB_UNSIGNED_INTEGER", 1), ("MSB_UNSIGNED_INTEGER", 2),
             ("MSB_INTEGER", 4), ("LSB_INTEGER", 2), ("IEEE_REAL", 4),
             ("PC_REAL", 8), ("CHARACTER", 5)]
    return [col(f"X{start + i}", *m.pick(*kinds)) for i in range(n)]


def table_of(m, fields, rows=None, tail=0, **more):
    return {"fields": fields, "rows": rows or m.rows, "tail": tail,
            "prefix": 0, "suffix": 0, "order": None, **more}


def stmts(block, kind="COLUMN"):
    return [b[2] for b in block if b[0] == "OBJECT" and b[1] == kind]


def put(sts, key, value):
    for i, s in enumerate(sts):
        if s[0] == key:
            sts[i] = [key, str(value)]
            return
    sts.append([key, str(value)])


def drop(sts, key):
    sts[:] = [s for s in sts if s[0] != key]


def value(sts, key):
    return next(s[1] for s in sts if s[0] == key)


def encode(m, t):
    body, cols = T.encode(t, m.case["seed"])
    return body.tobytes(), cols


def product(m, idents, name, t, block, body=None, cols=None, key=None,
            diff=binary_table, file="P.DAT", before=0, **kw):
    """one binary table, `before` bytes into its file"""
    if body is None:
        body, cols = encode(m, t)
    k = m.int(0, 60)
    m.save(file, m.rng.bytes(k) + body + m.rng.bytes(m.int(0, 9)))
    p = m.label(idents, {key or name: at(file, k + 1, " <BYTES>")},
                [["OBJECT", name, block]],
                record_bytes=kw.pop("record_bytes", m.int(20, 90)), **kw)
    return p, [(key or name, diff(cols))]


def ascii_product(m, idents, name, lines, cols, block, key=None, **kw):
    k = m.int(0, 60)
    m.save("P.TAB", m.junk(k) + "".join(lines) + m.junk(m.int(0, 90)))
    p = m.label(idents, {key or name: at("P.TAB", k + 1, " <BYTES>")},
                [block], record_bytes=kw.pop("record_bytes", 50), **kw)
    return p, [(key or name, text_table(cols))]


def bits(m, name="B", width=None, lsb=False):
    width = width or m.int(1, 4)
    out, at_ = [], 0
    while at_ < width * 8 and len(out) < 5:
        at_ += m.pick(0, 0, 1)
        size = m.int(1, 9)
        if at_ + size > width * 8:
            break
        out.append({"start": at_, "size": size})
        at_ += size
    if not out:
        out = [{"start": 0, "size": width * 8}]
    return col(name, "MSB_BIT_STRING", width, bits=out, lsb=lsb,
               bit_type="MSB_UNSIGNED_INTEGER")


def image_block(h, w, bits_, type_, *extra):
    return ["OBJECT", "IMAGE", [
        ["LINES", str(h)], ["LINE_SAMPLES", str(w)],
        ["SAMPLE_BITS", str(bits_)], ["SAMPLE_TYPE", type_], *extra]]


# -------------------------------------------------------------- sample types
@what
def lroc_unsigned(m):
    """labelled signed, but unsigned"""
    h, w = m.int(1, 8), m.int(1, 8)
    want = m.rng.integers(0, 256, (h, w)).astype("u1")
    m.save("P.IMG", want.tobytes())
    p = m.label({"INSTRUMENT_ID": "LROC", "PRODUCT_TYPE": "EDR"},
                {"IMAGE": at("P.IMG", 1)},
                [image_block(h, w, 8, m.pick("LSB_INTEGER", "MSB_INTEGER"))],
                record_bytes=w)
    return p, [("IMAGE", array(want))]


@what
def jiram_order(m):
    """labelled big-endian, but little-endian"""
    ids = {"DATA_SET_ID": "JNO-J-JIRAM-3-RDR-V1.0", "PRODUCT_TYPE": "RDR"}
    if m.int(0, 1):
        h, w = m.int(1, 8), m.int(1, 8)
        want = m.rng.normal(0, 1e3, (h, w)).astype("<f4")
        m.save("P.IMG", want.tobytes())
        p = m.label(ids, {"IMAGE": at("P.IMG", 1)},
                    [image_block(h, w, 32, m.pick("IEEE_REAL", "MSB_REAL"))],
                    record_bytes=w)
        return p, [("IMAGE", array(want))]
    t = table_of(m, [items("X", m.int(1, 6), "PC_REAL", 4)])
    block = T.table_block(t)[0]
    put(stmts(block)[0], "DATA_TYPE", "IEEE_REAL")
    return product(m, ids, "TABLE", t, block)


@what
def venus_data_records(m):
    """bytes that are not said to be anything"""
    t = table_of(m, some(m, m.cols) + [col("N", "MSB_UNSIGNED_INTEGER", 1)]
                 + some(m, m.int(0, 2), 90))
    block = T.table_block(t)[0]
    put(stmts(block)[m.cols], "DATA_TYPE", q("N/A"))
    return product(m, {"DATA_SET_ID": "MGN-V-RDRS-5-GVDR-V1.0",
                       "PRODUCT_ID": "GVANF.1"}, "TABLE", t, block)


@what
def crater_bits(m):
    """bit strings of no byte order; numbers of no type"""
    t = table_of(m, some(m, m.cols) + [bits(m, "B", m.pick(1, 2, 4)),
                                       col("N", bytes_=m.pick(1, 2, 4))])
    block = T.table_block(t)[0]
    put(stmts(block)[m.cols], "DATA_TYPE", "BIT_STRING")
    put(stmts(block)[m.cols + 1], "DATA_TYPE", q("N/A"))
    return product(m, {"DATA_SET_ID": "LRO-L-CRAT-2-EDR-RAWDATA-V1.0"},
                   "TABLE", t, block)


@what
def nims_raw(m):
    """strings of bits of no byte order"""
    t = table_of(m, some(m, m.cols)
                 + [bits(m, "B", m.pick(1, 2, 3, 4), lsb=True),
                    col("N", "CHARACTER", m.int(1, 5))])
    block = T.table_block(t)[0]
    b = stmts(block)[m.cols]
    put(b, "DATA_TYPE", "BIT_STRING")
    for x in stmts(b, "BIT_COLUMN"):
        put(x, "BIT_DATA_TYPE", "LSB_UNSIGNED_INTEGER")
    put(stmts(block)[m.cols + 1], "DATA_TYPE", q("N/A"))
    return product(m, {"SPACECRAFT_NAME": "GALILEO_ORBITER",
                       "DATA_SET_ID": "GO-V/E-NIMS-2-EDR-V1.0"},
                   "TABLE", t, block)


@what
def ulysses_pulses(m):
    t = table_of(m, some(m, m.cols) + [bits(m)])
    block = T.table_block(t)[0]
    put(stmts(block)[m.cols], "DATA_TYPE", "BIT_STRING")
    return product(m, {"DATA_SET_ID": "ULY-J-EPAC-4-SUMM-PHA-24HR-V1.0",
                       "PRODUCT_ID": "P.BIN"}, "TABLE", t, block)


@what
def cassini_line_prefixes(m):
    """labelled little-endian, but big-endian"""
    t = table_of(m, [
        col(f"X{i}", m.pick("MSB_UNSIGNED_INTEGER", "MSB_INTEGER"),
            m.pick(2, 4)) for i in range(m.cols)] + [bits(m)])
    block = T.table_block(t)[0]
    for x in stmts(block)[:-1]:
        if m.int(0, 2):
            put(x, "DATA_TYPE", value(x, "DATA_TYPE").replace("MSB", "LSB"))
    put(stmts(block)[-1], "DATA_TYPE", "BIT_STRING")
    return product(m, {"DATA_SET_ID": m.pick(
        "CO-S-ISSNA/ISSWA-2-EDR-V1.0", "CO-E/V/J-ISSNA/ISSWA-2-EDR-V1.0",
        "CO-CAL-ISS-2-V1.0"), "SPACECRAFT_CLOCK_STOP_COUNT": 5},
        m.pick("A_TABLE", "X_TABLE"), t, block)


@what
def instruments_of_bits(m):
    """whatever type their columns of bits are said to have"""
    t = table_of(m, some(m, m.cols) + [bits(m)])
    block = T.table_block(t)[0]
    b = stmts(block)[-1]
    put(b, "DATA_TYPE", m.pick("MSB_UNSIGNED_INTEGER", "UNSIGNED_INTEGER",
                               "CHARACTER"))
    for x in stmts(b, "BIT_COLUMN"):
        put(x, "BIT_DATA_TYPE", m.pick("UNSIGNED_INTEGER", "BINARY"))
    return product(m, {"INSTRUMENT_NAME": m.pick(
        "ALPHA PARTICLE X-RAYSPECTROMETER",
        "JOVIAN AURORAL PLASMA DISTRIBUTIONS EXPERIMENT",
        "CHEMISTRY AND MINERALOGY INSTRUMENT",
        "MARS ADVANCED RADAR FOR SUBSURFACE ANDIONOSPHERE SOUNDING")},
        "TABLE", t, block)


@what
def jiram_bits(m):
    """the last bit starts elsewhere than its label says"""
    b = bits(m, "B", 2)
    b["bits"] = [x for x in b["bits"] if x["start"] + x["size"] < 16]
    b["bits"].append({"start": 15, "size": 1, "name": "NADIR_OFFSET_SIGN"})
    t = table_of(m, some(m, m.cols) + [b])
    block = T.table_block(t)[0]
    put(stmts(stmts(block)[-1], "BIT_COLUMN")[-1], "START_BIT",
        m.pick(1, 12, 15, 16))
    return product(m, {"INSTRUMENT_NAME": "JOVIAN INFRARED AURORAL MAPPER"},
                   "TABLE", t, block)


@what
def cassini_telemetry(m):
    """a column of bits with another keyword for its type"""
    t = table_of(m, some(m, m.cols) + [bits(m)])
    block = T.table_block(t)[0]
    for x in stmts(block)[:-1]:
        if "LSB" in value(x, "DATA_TYPE"):
            put(x, "DATA_TYPE", "MSB_INTEGER")
    b = stmts(block)[-1]
    drop(b, "DATA_TYPE")
    b.insert(1, ["BIT_DATA_TYPE", "BINARY"])
    t["fields"] = [f | {"type": "MSB_INTEGER"}
                   if f["type"] == "LSB_INTEGER" else f for f in t["fields"]]
    return product(m, {"DATA_SET_ID": "CO-S-ISSNA/ISSWA-2-EDR-V1.0"},
                   "X_TABLE", t, block)


# -------------------------------------------------------------------- blocks
@what
def waves_bursts(m):
    """objects whose names are not their pointers'"""
    t, u = table_of(m, some(m, m.cols)), table_of(m, some(m, m.int(1, 4)))
    a, acols = encode(m, t)
    b, bcols = encode(m, u)
    m.save("P.DAT", a + b)
    p = m.label({"DATA_SET_ID": "JNO-E/J/SS-WAV-3-CDR-BSTFULL-V1.0"},
                {"FREQ_OFFSET_TABLE": at("P.DAT", 1, " <BYTES>"),
                 "DATA_TABLE": at("P.DAT", len(a) + 1, " <BYTES>")},
                [["OBJECT", "DATA_TABLE", T.table_block(t)[0]],
                 ["OBJECT", "TABLE", T.table_block(u)[0]]], record_bytes=20)
    return p, [("FREQ_OFFSET_TABLE", binary_table(acols)),
               ("DATA_TABLE", binary_table(bcols))]


@what
def orpa_rows(m):
    """rows of 243 bytes, whatever the label says"""
    path, out = misrowed(m, lambda w, n: {
        "DATA_SET_ID": "PVO-V-ORPA-5-ELE/ION/PHOTO/UADS-V1.0",
        "PRODUCT_ID": "ORPA_LOW_RES_1"}, "TABLE", m.pick(0, 2), row=243)
    return path, out


@what
def ion_densities(m):
    """always labelled as 42 rows"""
    return misrowed(m, lambda w, n: {
        "DATA_SET_ID": "PVO-V-OIMS-4-IONDENSITY-12S-V1.0",
        "FILE_RECORDS": n}, "TABLE", 0, claim_rows=42)


@what
def galileo_particles(m):
    """rows as long as records"""
    return misrowed(m, lambda w, n: {
        "DATA_SET_ID": "GO-E-EPD-4-SUMM-V1.0", "PRODUCT_ID": "E1_X.TAB"},
        "TIME_SERIES", m.int(1, 9))


@what
def plasma_waves(m):
    """rows of a length that depends on the product's name"""
    row, pid = m.pick((366, "X_B.TAB"), (516, "X_E.TAB"))
    return misrowed(m, lambda w, n: {
        "INSTRUMENT_NAME": "PLASMA WAVE RECEIVER",
        "DATA_SET_ID": "GO-J-PWS-4-SUMM-SA60S-V1.0", "PRODUCT_ID": pid},
        m.pick("TABLE", "TIME_SERIES"), m.pick(0, 2), row=row)


@what
def neptune_magnetometer(m):
    return misrowed(m, lambda w, n: {
        "DATA_SET_ID": "VG2-N-MAG-4-RDR-HGCOORDS-12SEC-V1.0",
        "STANDARD_DATA_PRODUCT_ID": "ASCII DATA"}, "TABLE", 1, row=145)


@what
def voyager_fine(m):
    """57-byte rows are rows of 64 bytes"""
    row = m.pick(64, 64, 70)
    return misrowed(m, lambda w, n: {
        "DATA_SET_ID": "VG2-SS-PLS-3-RDR-FINE-RES-V1.0"}, "TABLE",
        7 if row == 64 else 0, row=row)


@what
def voyager_hourly(m):
    """a format file that is one byte short"""
    fields = [[f"X{i}", "i", w] for i, w in enumerate(
        [4, 4, 4, 5, 5, 5, 6, 6, 6])]
    fields[-1][1] = "r"
    lines, cols, starts, w = m.fixed(fields, gap=1)
    fmt = m.pick("VGR_PLS_HR_2017.FMT", "VGR_PLS_HR.FMT")
    short = fmt == "VGR_PLS_HR_2017.FMT"
    if short:
        lines = [x[:-2] + " " * (57 - w) + x[-2:] for x in lines]
        w = 57
    b = m.columns(fields, starts)
    if short:
        put(b[-1][2], "BYTES", 5)
    m.save(fmt, render(b))
    return ascii_product(
        m, {"DATA_SET_ID": "VG2-SS-PLS-4-SUMM-1HR-AVG-V1.0"}, "TABLE", lines,
        cols, ["OBJECT", "TABLE", [
            ["INTERCHANGE_FORMAT", "ASCII"], ["ROWS", str(m.rows)],
            ["COLUMNS", "9"], ["ROW_BYTES", str(w - short)],
            ["^STRUCTURE", q(fmt)]]])


@what
def uranus_ions(m):
    """names the wrong format file"""
    fields = m.fields(kinds="ir")
    lines, cols, starts, w = m.fixed(fields)
    m.save("SUMRY.FMT", render(m.columns(fields, starts)))
    if m.int(0, 1):
        m.save("OTHER.FMT", render(m.columns(m.fields(2))))
    return ascii_product(
        m, {"DATA_SET_ID": "VG2-U-PLS-5-SUMM-IONBR-48SEC-V1.0",
            "PRODUCT_ID": "SUMRY.DAT"}, "TIME_SERIES", lines, cols,
        ["OBJECT", "TIME_SERIES", [
            ["INTERCHANGE_FORMAT", "ASCII"], ["ROWS", str(m.rows)],
            ["COLUMNS", str(len(fields))], ["ROW_BYTES", str(w)],
            ["^STRUCTURE", q("OTHER.FMT")]]])


@what
def mariner_spectra(m):
    """a column whose place counts the prefix too"""
    t = table_of(m, [items("SPECTRUM", m.int(2, 9))], prefix=m.int(1, 30))
    block = T.table_block(t)[0]
    put(stmts(block)[0], "START_BYTE", t["prefix"] + 1)
    return product(m, {"DATA_SET_ID": "M9-M-IRIS-3-RDR-V1.0"},
                   m.pick("SPECTRAL_SERIES", "A_SPECTRUM"), t, block)


@what
def halley_radar(m):
    """columns without names"""
    fields = [["A", "i", 5], ["B", "i", 9], [">=1SEC", "i", 3],
              [">=8SEC", "i", 3]]
    lines, cols, starts, w = m.fixed(fields, eol="")
    b = m.columns(fields, starts)
    for x in b[2:]:
        if m.int(0, 2):
            drop(x[2], "NAME")
    m.save("P.TAB", lines)
    p = m.label({"DATA_SET_ID": m.pick(
        "IHW-C-MSNRDR-3-RDR-HALLEY-ETA-AQUAR-V1.0",
        "IHW-C-MSNRDR-3-RDR-HALLEY-ORIONID-V1.0")},
        {"TABLE": at("P.TAB", 1)}, [m.table("TABLE", b, m.rows, w)],
        record_bytes=w)
    return p, [("TABLE", text_table(cols))]


@what
def voyager_radio(m):
    """bytes of one of a column's many items"""
    t = table_of(m, [col("T", bytes_=4)] + [
        items(f"SWEEP{i}", 71, m.pick("MSB_INTEGER", "IEEE_REAL"), 4)
        for i in range(m.int(1, 3))])
    block = T.table_block(t)[0]
    for x in stmts(block)[1:]:
        drop(x, "ITEM_BYTES")
        put(x, "BYTES", 4)
    return product(m, {"DATA_SET_ID": m.pick(
        "VG2-S-PRA-3-RDR-LOWBAND-6SEC-V1.0",
        "VG2-N-PRA-3-RDR-LOWBAND-6SEC-V1.0")}, "TABLE", t, block)


@what
def voyager_radio_jupiter(m):
    """places in a container that do not start at its own start"""
    t = table_of(m, [col("T", bytes_=4), {
        "kind": "cont", "name": "SWEEPS", "reps": m.int(1, 4), "gap": 0,
        "tail": 0, "fields": [col("STATUS_WORD", bytes_=4),
                              items("DATA_CHANNELS", m.int(2, 5))]}])
    block = T.table_block(t)[0]
    for x in stmts(stmts(block, "CONTAINER")[0]):
        put(x, "START_BYTE", int(value(x, "START_BYTE")) + 4)
    return product(m, {"DATA_SET_ID": "VG2-J-PRA-3-RDR-LOWBAND-6SEC-V1.0"},
                   "TABLE", t, block)


@what
def wet_chemistry(m):
    """two columns labelled a byte or two too late"""
    t = table_of(m, some(m, 12) + [col("X12"), col("X13")])
    block = T.table_block(t)[0]
    for i, x in enumerate(stmts(block)):
        x.append(["COLUMN_NUMBER", str(i + 1)])
        if i >= 12:
            put(x, "START_BYTE", int(value(x, "START_BYTE")) + i - 11)
    return product(m, {"DATA_SET_ID": "PHX-M-MECA-2-NIEDR-V1.0",
                       "PRODUCT_TYPE": f"MECA-EM1{m.int(0, 2)}"},
                   "WCHEM_TABLE", t, block)


@what
def fourier_spectrometer(m):
    """wrong rows and types, up to an orbit"""
    t = table_of(m, [col("OBT OBSERVATION TIME", "PC_REAL", 8),
                     col("SCET OBSERVATION TIME", "PC_UNSIGNED_INTEGER", 8)]
                 + some(m, m.cols))
    body, cols = encode(m, t)
    block = T.table_block(t)[0]
    orbit = m.pick(8944, 8945, m.int(1, 8944), m.int(8945, 20000), "N/A")
    if orbit == "N/A" or orbit < 8945:
        put(block, "ROWS", m.int(1, 30))
        a, b = stmts(block)[:2]
        put(a, "DATA_TYPE", m.pick("PC_INTEGER", "PC_UNSIGNED_INTEGER"))
        put(b, "DATA_TYPE", m.pick("PC_INTEGER", "PC_REAL"))
    return product(m, {"DATA_SET_ID": "MEX-M-PFS-2-EDR-NOMINAL-V1.0",
                       "PRODUCT_ID": m.pick("RAW_1", "HK_2"),
                       "ORBIT_NUMBER": orbit, "FILE_RECORDS": m.rows},
                   "TABLE", t, block, body, cols)


@what
def ramp_tables(m):
    """pointers that are not named after their objects"""
    fields = m.fields()
    if m.int(0, 1):
        ids = {"INSTRUMENT_HOST_NAME": "MARS EXPRESS", "INSTRUMENT_ID": "MRS",
               "PRODUCT_ID": "M32ODF0L1B_RMP.TAB"}
        key = m.pick("DOPPLER_TABLE", "X_TABLE")
        grid, cols = m.cells(fields)
        lines, w = [x + "\r\n" for x in m.spread(grid)], 80
        starts = None
    else:
        ids = {"INSTRUMENT_HOST_NAME": "VENUS EXPRESS", "INSTRUMENT_ID": "VRA",
               "PRODUCT_ID": "V32_1B_RMP_1"}
        key = "DOPPLER_SBAND_TABLE"
        fields = m.fields(kinds="ir")
        lines, cols, starts, w = m.fixed(fields)
    m.save("P.TAB", lines)
    p = m.label(ids, {key: q("P.TAB")},
                [m.table("RAMP_TABLE", m.columns(fields, starts), m.rows, w)],
                record_bytes=w)
    return p, [(key, text_table(cols))]


@what
def sedan_crater(m):
    """lines and samples the other way round"""
    h, w = m.int(1, 9), m.int(1, 9)
    want = m.rng.integers(-999, 999, (h, w)).astype(">i2")
    m.save("P.IMG", want.tobytes())
    pid = m.pick("SCHOONER2X2", "SEDAN2X2", "BBMESA2X2")
    a, b = (w, h) if pid[0] == "S" else (h, w)
    p = m.label({"DATA_SET_ID": "WFF-E-ATM-1/5-V1.0", "PRODUCT_ID": pid},
                {"IMAGE": at("P.IMG", 1)},
                [image_block(a, b, 16, "MSB_INTEGER")], record_bytes=2 * w)
    return p, [("IMAGE", array(want))]


@what
def cassini_calibration(m):
    """line prefixes that are not there"""
    h, w = m.int(1, 9), m.int(1, 9)
    want = m.rng.integers(-999, 999, (h, w)).astype(">i2")
    ext, records = m.pick((".DA", m.int(5, 2000)), (".IMG", 1025))
    m.save("P" + ext, want.tobytes() + m.rng.bytes(40 * h))
    p = m.label({"DATA_SET_ID": "CO-CAL-ISS-2-V1.0", "FILE_RECORDS": records},
                {"IMAGE": at("P" + ext, 1)},
                [image_block(h, w, 16, "SUN_INTEGER",
                             ["LINE_PREFIX_BYTES", "24"])],
                record_bytes=2 * w)
    return p, [("IMAGE", array(want))]


@what
def cassini_formats(m):
    """format files named with the directories they used to be in"""
    t = table_of(m, some(m, m.cols))
    for f in t["fields"]:
        if f["type"] == "LSB_INTEGER":
            f["type"] = "MSB_INTEGER"
    name, key = m.pick(("TELEMETRY_TABLE", "^STRUCTURE"),
                       ("LINE_PREFIX_TABLE", "^LINE_PREFIX_STRUCTURE"))
    block, fmt = T.table_block(t, fmt_file="X")
    block = [s for s in block if s[0] != "^STRUCTURE"]
    block.append([key, q(m.pick("../../label/", "../label/", "")
                         + "PREFIX.FMT")])
    m.save("PREFIX.FMT", render(fmt))
    return product(m, {"DATA_SET_ID": m.pick(
        "CO-S-ISSNA/ISSWA-2-EDR-V1.0", "CO-E/V/J-ISSNA/ISSWA-2-EDR-V1.0"),
        "SPACECRAFT_CLOCK_STOP_COUNT": 7}, name, t, block)


@what
def ultraviolet_explorer(m):
    """an object named with a word twice"""
    h, w = m.int(1, 9), m.int(1, 9)
    want = m.rng.integers(0, 256, (h, w)).astype("u1")
    m.save("P.IMG", want.tobytes())
    b = image_block(h, w, 8, "UNSIGNED_INTEGER")
    b[1] = m.pick("QUALITY_IMAGE", "QUALITY_QUALITY_IMAGE")
    p = m.label({"DATA_SET_ID": "IUE-C-SWP-3-EDR-IUECDB-V1.0"},
                {"QUALITY_IMAGE": at("P.IMG", 1)}, [b], record_bytes=w)
    return p, [("QUALITY_IMAGE", array(want))]


@what
def kaguya_gamma_rays(m):
    """a table described as a spreadsheet"""
    fields = m.fields()
    fields[0][1:] = "i", 6
    grid, cols = m.cells(fields)
    m.save("P.CSV", [",".join(r) + "\r\n" for r in grid])
    p = m.label({"DATA_SET_ID": "SLN-L-GRS-5-NUCLIDE-MAP-V2.0"},
                {"TABLE": q("P.CSV")},
                [m.spreadsheet("SPREADSHEET", fields, m.rows)],
                record_type="STREAM")
    return p, [("TABLE", text_table(cols))]


@what
def kaguya_supplement(m):
    """four columns more than there are"""
    t = table_of(m, some(m, m.cols))
    body, cols = encode(m, t)
    # they come after the row
    more = dict(t, fields=t["fields"] + some(m, 4, 90))
    block = T.table_block(more)[0]
    put(block, "ROW_BYTES", T.row_width(t))
    return product(m, {"DATA_SET_ID": "SLN-L-SP-4-LEVEL2B1-V3.0"},
                   "ANCILLARY_AND_SUPPLEMENT_DATA", t, block, body, cols)


def columns_by_place(m, spec, width, rows, line_end="\r\n"):
    """rows of numbers at known places of known lengths"""
    fields = [[n, k, w] for n, k, _, w in spec]
    grid, cols = m.cells(fields, rows)
    lines = []
    for row in grid:
        line = [" "] * (width - len(line_end))
        for text, (_, _, s, w) in zip(row, spec):
            line[s - 1:s - 1 + w] = text.rjust(w)
        lines.append("".join(line) + line_end)
    return lines, cols


def undescribed(m, ids, spec, width, rows=None, claim=None, eol="\r\n",
                block="TABLE"):
    rows = rows or m.rows
    lines, cols = columns_by_place(m, spec, width, rows, eol)
    m.save("P.TAB", lines)
    few = m.fields(2)
    p = m.label(ids, {"TABLE": at("P.TAB", 1)},
                [m.table(block, m.columns(few), claim or rows,
                         m.int(50, 200))], record_bytes=width)
    return p, [("TABLE", text_table(cols))]


@what
def kaguya_sigma(m):
    """a table whose label says nothing right about it"""
    return undescribed(m, {"DATA_SET_ID": "SLN-L-LMAG-5-1D-SIGMA-ECS-V1.0"}, [
        ("TOP_RADIUS", "r", 1, 8), ("UNDER_RADIUS", "r", 10, 8),
        ("ELECTRICAL_CONDUCTANCE", "r", 19, 12)], 32, rows=2,
        claim=m.int(1, 9))


@what
def kaguya_field(m):
    return undescribed(m, {"DATA_SET_ID": "SLN-L-LMAG-3-MAG-TS-V1.0"}, [
        ("TIME", "t", 1, 19), ("X1", "r", 21, 8), ("Y1", "r", 30, 8),
        ("Z1", "r", 39, 8), ("Bx1", "r", 48, 7), ("By1", "r", 56, 7),
        ("Bz1", "r", 64, 7), ("X2", "r", 72, 10), ("Y2", "r", 83, 10),
        ("Z2", "r", 94, 10), ("Bx2", "r", 105, 7), ("By2", "r", 113, 7),
        ("Bz2", "r", 121, 7)], 129, block="TIME_SERIES")


# ---------------------------------------------------------------- structures
@what
def probe_counts(m):
    """a column of eight bytes that is labelled shorter"""
    fields = m.fields(max(2, m.cols), "ir")
    fields[1] = ["COUNTS", "i", 8]
    lines, cols, starts, w = m.fixed(fields)
    b = m.columns(fields, starts)
    put(b[1][2], "BYTES", m.int(1, 8))
    return ascii_product(
        m, {"DATA_SET_ID": "GP-J-NMS-3-ENTRY-V1.0"}, "TABLE", lines, cols,
        m.table("TABLE", b, m.rows, w))


@what
def particle_angles(m):
    """a byte more before each row's columns"""
    fields = m.fields(9, "i")
    lines, cols, starts, w = m.fixed(fields, first=2)
    b = m.columns(fields, [s - 1 for s in starts])
    return ascii_product(
        m, {"DATA_SET_ID": "GO-E-EPD-2-SAMP-PAD-V1.0",
            "PRODUCT_ID": "E1PAD_7.TAB"}, "TIME_SERIES", lines, cols,
        m.table("TIME_SERIES", b, m.rows, w))


@what
def dust_counter(m):
    """the last column starts at byte 62"""
    fields = [[f"X{i}", "i", 5] for i in range(10)] + [["LAST", "i", 7]]
    lines, cols, starts, w = m.fixed(fields)
    lines = [x[:60] + " " + x[60:] for x in lines]
    starts[-1] = 62
    b = m.columns(fields, starts)
    put(b[-1][2], "START_BYTE", 61)
    block = m.table("TABLE", b, m.rows, w + 1)
    block[2].insert(0, ["DESCRIPTION", q("encounter data of it")])
    return ascii_product(
        m, {"DATA_SET_ID": f"VEGA{m.int(1, 2)}-C-DUCMA-3-RDR-HALLEY-V1.0"},
        "TABLE", lines, cols, block)


@what
def named_one(m):
    """a column whose name is a number"""
    fields = m.fields(kinds="ir")
    fields[0][0] = "1"
    lines, cols, starts, w = m.fixed(fields)
    b = m.columns(fields, starts)
    put(b[0][2], "NAME", "1")
    return ascii_product(
        m, {"DATA_SET_ID": m.pick("MRO-M-MCS-4-RDR-V1.0",
                                  "MRO-M-MCS-2-EDR-V1.0")}, "TABLE", lines,
        cols, m.table("TABLE", b, m.rows, w))


@what
def solar_wind(m):
    """two columns of twelve bytes"""
    fields = m.fields(max(4, m.cols), "ir")
    fields[2][1:] = ["r", 12]
    fields[3][1:] = ["r", 12]
    lines, cols, starts, w = m.fixed(fields)
    b = m.columns(fields, starts)
    for x in b[2:4]:
        put(x[2], "BYTES", m.int(1, 12))
    return ascii_product(
        m, {"DATA_SET_ID": "MEX-SUN-ASPERA3-4-SWM-V1.0"}, "TABLE", lines,
        cols, m.table("TABLE", b, m.rows, w))


@what
def orbit_data_file(m):
    """a column of two bytes that is labelled otherwise"""
    t = table_of(m, some(m, 7) + [col("X7", "MSB_UNSIGNED_INTEGER", 2)])
    block = T.table_block(t)[0]
    put(stmts(block)[7], "BYTES", m.pick(1, 4, 8))
    return product(m, {"INSTRUMENT_HOST_NAME": "MARS GLOBAL SURVEYOR",
                       "INSTRUMENT_ID": "RSS", "PRODUCT_TYPE": "ODF"},
                   "ODF3B_TABLE", t, block)


@what
def evolved_gas(m):
    """times of eight bytes that are labelled as four"""
    t = table_of(m, [col("A", bytes_=4), col("TEGA_TIME", "MSB_INTEGER", 8)]
                 + some(m, m.cols))
    block, fmt = T.table_block(t, fmt_file="TEGA_SCRDR.FMT")
    for i, x in enumerate(stmts(fmt)):
        x.append(["COLUMN_NUMBER", str(i + 1)])
        if i > 1:
            put(x, "START_BYTE", int(value(x, "START_BYTE")) - 4)
    put(stmts(fmt)[1], "BYTES", 4)
    m.save("TEGA_SCRDR.FMT", render(fmt))
    return product(m, {"DATA_SET_ID": "PHX-M-TEGA-4-SCRDR-V1.0"},
                   "TIME_SERIES", t, block)


@what
def electrometer(m):
    """places 36 bytes off"""
    t = table_of(m, [{
        "kind": "cont", "name": "TBL0 DATA", "reps": m.int(1, 3), "gap": 0,
        "tail": 0, "fields": some(m, m.int(1, 4))}])
    block = T.table_block(t)[0]
    c = stmts(block, "CONTAINER")[0]
    put(c, "NAME", q("TBL0 DATA"))
    fmt = [s for s in c if s[0] == "OBJECT"]
    drop(c, "OBJECT")
    c.append(["^STRUCTURE", q("TBL_0_STATE_DATA.FMT")])
    for x in stmts(fmt):
        put(x, "START_BYTE", int(value(x, "START_BYTE")) + 36)
    m.save("TBL_0_STATE_DATA.FMT", render(fmt))
    return product(m, {"DATA_SET_ID": "PHX-M-MECA-2-NIEDR-V1.0"},
                   "TBL_TABLE", t, block)


@what
def halley_spectra(m):
    """a column whose name has another keyword"""
    t = table_of(m, [col("FLUX", *m.pick(("MSB_INTEGER", 2),
                                         ("IEEE_REAL", 4)))])
    block = T.table_block(t)[0]
    x = stmts(block)[0]
    drop(x, "NAME")
    x.insert(0, ["COLUMN_NAME", "FLUX"])
    return product(m, {"DATA_SET_ID": "IHW-C-SPEC-2-EDR-HALLEY-V1.0"},
                   "SPECTRUM", t, block)


@what
def solid_state_imager(m):
    """bytes and bits of one item that are labelled as the column's"""
    t = table_of(m, [col("A"), items("MANY", m.int(2, 5)),
                     bits(m, "B", 4)] + some(m, m.int(0, 2)))
    b = t["fields"][2]
    b["bits"] = [{"start": 0, "size": m.int(1, 6), "items": m.int(2, 5),
                  "pad": 0}, {"start": 30, "size": 2}]
    block = T.table_block(t)[0]
    x = stmts(block)[1]
    drop(x, "ITEM_BYTES")
    put(x, "BYTES", 2)
    y = stmts(stmts(block)[2], "BIT_COLUMN")[0]
    size = value(y, "ITEM_BITS")
    drop(y, "ITEM_BITS")
    if size == "1" and m.int(0, 1):
        drop(y, "BITS")
    else:
        put(y, "BITS", size)
    return product(m, {"SPACECRAFT_NAME": "GALILEO ORBITER",
                       "INSTRUMENT_NAME": m.pick(
                           "SOLID_STATE_IMAGING",
                           "SOLID STATE IMAGING SYSTEM")},
                   "TELEMETRY_TABLE", t, block)


@what
def midas_control(m):
    """a container that repeats, then a column"""
    t = table_of(m, [{
        "kind": "cont", "name": "CONTROL_DATA_BLOCK", "reps": m.int(1, 4),
        "gap": 0, "tail": 0, "fields": [col(f"C{i}") for i in range(4)]},
        col("CHECKSUM")], prefix=46)
    block = T.table_block(t)[0]
    put(block, "NAME", "CONTROL_DATA")
    return product(m, {"DATA_SET_ID": "RO-C-MIDAS-3-PRL-SAMPLES-V1.0",
                       "PRODUCT_ID": "SPS_1"}, "TIME_SERIES", t, block)


@what
def prefixed_items(m):
    """a column of many items between a prefix and a suffix"""
    ids, name = m.pick(
        ({"DATA_SET_ID": "RO-C-MIDAS-3-PRL-SAMPLES-V1.0",
          "PRODUCT_ID": "FSC_1"}, "FREQUENCY_SERIES"),
        ({"DATA_SET_ID": "RO/RL-C-CONSERT-3-X-V1.0", "DATA_SET_NAME":
          "ROSETTA-ORBITER CONSERT DATA"}, m.pick("I_TABLE", "Q_TABLE")))
    t = table_of(m, [items("S", m.int(2, 9), *m.pick(
        ("MSB_INTEGER", 2), ("PC_REAL", 4), ("LSB_INTEGER", 4)))],
        prefix=m.int(1, 20), suffix=m.int(1, 9))
    return product(m, ids, name, t, T.table_block(t)[0])


# -------------------------------------------------------------------- others
@what
def cassini_cubes(m):
    """cubes whose order is not said"""
    b, y, x = m.int(2, 3), m.int(2, 6), m.int(2, 6)
    want = m.rng.integers(-9999, 9999, (b, y, x)).astype(">i2")
    m.save("P.QUB", want.tobytes())
    block = qube_block(b, y, x)
    if m.int(0, 1):
        drop(block[2], "AXIS_NAME")
        block[2].append(["AXIS_NAME", "(BAND,SAMPLE,LINE)"])
        block[2] = [["CORE_ITEMS", f"({b},{x},{y})"]
                    if s[0] == "CORE_ITEMS" else s for s in block[2]]
    p = m.label({"INSTRUMENT_HOST_NAME": "CASSINI_ORBITER"},
                {"QUBE": at("P.QUB", 1)}, [block], record_bytes=2)
    return p, [("QUBE", cube_is(want))]


@what
def compact_spectrometer(m):
    """a special value that no label mentions"""
    h, w = m.int(1, 8), m.int(1, 8)
    want = m.rng.integers(0, 3, (h, w)).astype(">f4")
    want[m.rng.integers(0, 2, (h, w)) > 0] = 65535
    m.save("P.IMG", want.tobytes())
    p = m.label({"INSTRUMENT_ID": "CRISM"}, {"IMAGE": at("P.IMG", 1)},
                [image_block(h, w, 32, "IEEE_REAL")], record_bytes=4 * w)
    return p, [("IMAGE", array(want)), ("scaled IMAGE", lambda got: (
        None if isinstance(got, np.ma.MaskedArray) and np.array_equal(
            np.ma.getmaskarray(got), want == 65535) else str(got)[:80]))]


@what
def venus_magnetometer(m):
    """a label with a degree sign"""
    fields = m.fields(kinds="ir")
    lines, cols, starts, w = m.fixed(fields)
    fn = m.pick("MAG_", "BIO_") + "X_DOY001_V1"
    m.save(fn + ".DAT", lines)
    p = m.label({"NOTE": "1.5\xb0 of it", "X": m.int(0, 99)},
                {"TABLE": q(fn + ".DAT")},
                [m.table("TABLE", m.columns(fields, starts), m.rows, w)],
                record_bytes=w, name=fn + ".TAB")
    return p, [("TABLE", text_table(cols)), ("metadata NOTE", lambda got: (
        None if got == "1.5\xb0 of it" else repr(got)))]
