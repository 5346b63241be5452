"""Products of data sets with mistakes of several kinds."""
from __future__ import annotations

import gzip

import numpy as np

from vp import fits as F
from vp import pds4 as P
from vp.pds3 import q, render
from vp.quirks import (
    array, at, cube_is, exact, qube_block, text_table,
    what, where)
from vp.quirks_fits import EMPTY, table
from vp.quirks_form import (
    col, product, put, some, stmts, table_of)


@where
def themis_zipped(m):
    """compressed files, whether their labels say so or not"""
    b, y, x = m.int(1, 3), m.int(1, 6), m.int(1, 6)
    want = m.rng.integers(-9999, 9999, (b, y, x)).astype(">i2")
    rec, k = m.int(2, 50), m.int(0, 4)
    body = gzip.compress(m.rng.bytes(k * rec) + want.tobytes())
    m.save("P.QUB.gz", body)
    p = m.label({"INSTRUMENT_ID": "THEMIS", "FILE_RECORDS": 1},
                {"QUBE": at(m.pick("P.QUB.gz", "P.QUB"), k + 1)},
                [qube_block(b, y, x)], record_bytes=rec)
    return p, [("QUBE", cube_is(want))]


@where
def huygens_xdr(m):
    """an image whose pointer says it is a document"""
    h, w = m.int(1, 9), m.int(1, 9)
    want = m.rng.integers(-999, 999, (h, w)).astype(">i2")
    k = m.int(0, 99)
    m.save("P.XDR", m.rng.bytes(k) + want.tobytes() + m.rng.bytes(5))
    p = m.label({"INSTRUMENT_HOST_NAME": "HUYGENS PROBE"},
                {"XDR_DOCUMENT": at("P.XDR", k + 1, " <BYTES>")},
                [["OBJECT", "IMAGE", [
                    ["LINES", str(h)], ["LINE_SAMPLES", str(w)],
                    ["SAMPLE_BITS", "16"], ["SAMPLE_TYPE", "MSB_INTEGER"]]]],
                record_bytes=w * 2)
    return p, [("XDR_DOCUMENT", array(want))]


# ----------------------------------------------------------------- Chang'e
LAX = ["CE6-L_GRAS_LMS-M_SCI_N_1.2B", "CE6-L_GRAS_LMS-S_SCI_N_1.2B",
       "CE6-L_GRAS_LMS-N_SCI_N_1.2B", "CE5-L_GRAS_LMS-N_SCI_N_1.2B",
       "CE5-L_GRAS_LMS-M_SCI_N_1.2B", "CE4_GRAS_VNIS-SD_SCI_N_1.2B"]
SPACES = ["CE4_GRAS_ASAN-SCI_SCI_N_1.2B", "CE4_GRAS_LND-DPSL_SCI_N_1.2A",
          "CE4_GRAS_LND-ThN_SCI_N_1.2A", "CE4_GRAS_LND-TID_SCI_N_1.2A"]


def fields4(m, n):
    names = ["TIME", "Counts", "X (m)", "flux", "y-1", "Z"]
    return [[names[i % 6] + str(i), "ir"[m.int(0, 1)], 9] for i in range(n)]


def record4(m, fields, rows, starts, width, group=None):
    """a table whose types are not those of its data"""
    kids = [P.el("Field_Character", [
        P.el("name", n), P.el("field_number", str(i + 1)),
        P.el("field_location", str(s), unit="byte"),
        P.el("data_type", m.pick("ASCII_Integer", "ASCII_Boolean",
                                 "ASCII_Real")),
        P.el("field_length", str(w), unit="byte")])
        for i, ((n, _, w), s) in enumerate(zip(fields, starts))]
    for name, reps, start in group or ():
        kids.append(P.el("Group_Field_Character", [
            P.el("name", name), P.el("repetitions", str(reps)),
            P.el("fields", "1"), P.el("groups", "0"),
            P.el("group_location", str(start), unit="byte"),
            P.el("group_length", str(reps * 10), unit="byte"),
            P.el("Field_Character", [
                P.el("name", "x"), P.el("field_number", "1"),
                P.el("field_location", "1", unit="byte"),
                P.el("data_type", "ASCII_Boolean"),
                P.el("field_length", "9", unit="byte")])]))
    return P.el("Table_Character", [
        P.el("offset", "0", unit="byte"), P.el("records", str(rows)),
        P.el("record_delimiter", "Carriage-Return Line-Feed"),
        P.el("Record_Character", [
            P.el("fields", str(len(fields))),
            P.el("groups", str(len(group or ()))),
            P.el("record_length", str(width), unit="byte")] + kids)])


def save4(m, name, node, lines):
    """the label's name is the data file's and an L"""
    m.save(name, lines)
    return P.write(m.d, P.product([(name, [node])]), {}, label=name + "L")


@what
def change_lax_tables(m):
    """columns as they are, not as they are labelled"""
    fields = fields4(m, max(2, m.cols))
    lines, cols, starts, w = m.fixed(fields)
    return (save4(m, m.pick(*LAX), record4(m, fields, m.rows, starts, w),
                  lines), [("TABLE_0", text_table(cols))])


@what
def change_spaced_tables(m):
    """columns divided by any number of spaces"""
    fields = fields4(m, max(2, m.cols))
    groups, start = [], 1 + 10 * len(fields)
    for i in range(m.int(0, 2)):
        groups.append((f"Group {i}", m.int(1, 4), start))
        start += 10 * groups[-1][1]
    everything = fields + [[f"{g}_{r + 1}", "r", 9]
                           for g, n, _ in groups for r in range(n)]
    grid, cols = m.cells(everything)
    lines = [x.strip() + "\r\n" for x in m.spread(grid)]
    starts = [1 + 10 * i for i in range(len(fields))]
    return (save4(m, m.pick(*SPACES), record4(
        m, fields, m.rows, starts, start + 1, groups), lines),
        [("TABLE_0", text_table(cols))])


@what
def chandrayaan_spectra(m):
    """a FITS table the label cannot lead to"""
    h = table(m, "SPECTRUM")
    body, info = F.build([EMPTY, h], m.case["seed"])
    h = info[1]
    stem = m.pick("ch2_cla_l1_20200101T000000000", "ch2_cla_l1_1.2", "ch2_cla_l1_")
    m.save(stem + ".fits", body)
    width = dict((c[0], c[1]) for c in h["cards"])["NAXIS1"]
    t = {"form": "binary", "records": h["rows"], "nodes": [
        {"kind": "field", "name": "row", "type": "ASCII_String",
         "bytes": width, "gap": 0}]}
    P.place(t["nodes"])
    nodes = [P.header(("name", "header_Data"), h["header_at"],
                      h["header_size"], "FITS 3.0"),
             P.table(t, ("name", "data"), h["data_at"], h["size"], width)]
    p = P.write(m.d, P.product([(stem + ".fits", nodes)]), {},
                label=stem + ".xml")

    def rows(got):
        if getattr(got, "dtype", None) is None or not got.dtype.names:
            return f"not records: {type(got).__name__}"
        for (c, want, _), name in zip(h["want"], got.dtype.names):
            have = np.asarray(got[name]).reshape(h["rows"], -1)
            for j, w in enumerate(want):
                if name != c["name"] or not np.array_equal(
                        have[:, j], w, equal_nan=np.asarray(w).dtype.kind == "f"):
                    return f"column {name}[{j}]: {have[:, j]}, expected {w}"
        return None

    def head(got):
        for key, want, *_ in h["cards"]:
            if key.startswith(("TTYPE", "TFORM", "NAXIS")) and (
                    got.get(key) != want):
                return f"{key} is {got.get(key)!r}, not {want!r}"
        return None
    return p, [("data", rows), ("header_Data", head)]


@what
def change_labels(m):
    """labels in another encoding"""
    text = m.pick("嫦娥一号", "干涉成像光谱仪 IIM", "中国 CNSA")
    h, w = m.int(1, 6), m.int(1, 6)
    want = m.rng.integers(0, 255, (h, w)).astype("u1")
    name = (m.pick("CE1_BMYK_IIM", "CE2_BMYK_CCD", "CE3_BMYK_PCAM") + "_SCI_N_1"
            + m.pick(".01", ".2A", ".2B", ".2C", ".3A"))
    sts = [["PDS_VERSION_ID", "PDS3"], ["RECORD_TYPE", "FIXED_LENGTH"],
           ["RECORD_BYTES", str(w)], ["NOTE", q(text)]]
    block = ["OBJECT", "IMAGE", [
        ["LINES", str(h)], ["LINE_SAMPLES", str(w)], ["SAMPLE_BITS", "8"],
        ["SAMPLE_TYPE", "UNSIGNED_INTEGER"]]]

    def label(n):
        return (render(sts + [["^IMAGE", str(n)], block])
                + "END\r\n").encode("gb18030")
    n = -(-(len(label(10 ** 5)) + 5) // w)
    m.save(name, b"")
    (m.d / name).write_bytes(label(n + 1).ljust(n * w) + want.tobytes())
    return m.d / name, [("IMAGE", array(want)), ("metadata NOTE", exact(text))]


# ----------------------------------------------------------------- others
@what
def surveyor_occultation(m):
    """the sixth column starts at byte 80"""
    t = table_of(m, [col(f"A{i}", "CHARACTER", 15) for i in range(5)]
                 + [col("F", "MSB_INTEGER", 4, gap=4)] + some(m, m.cols, 6))
    block = T_block(t)
    put(stmts(block)[5], "START_BYTE", m.pick(1, 70, 76, 81))
    return product(m, {"INSTRUMENT_HOST_NAME": "MARS GLOBAL SURVEYOR",
                       "INSTRUMENT_NAME": "RADIO SCIENCE SUBSYSTEM",
                       "PRODUCT_TYPE": "ECS"}, "TABLE", t, block)


def T_block(t):
    from vp import tables as T
    return T.table_block(t)[0]


@what
def compression_ratio(m):
    """one column of a binary table is text, whatever its type"""
    t = table_of(m, some(m, m.cols) + [
        col("COMPRESSION_RATIO", "CHARACTER", m.int(3, 9))] + some(m, 2, 50))
    block = T_block(t)
    put(stmts(block)[m.cols], "DATA_TYPE", "ASCII_REAL")
    return product(m, {"SPACECRAFT_NAME": "GALILEO ORBITER",
                       "INSTRUMENT_NAME": "SOLID STATE IMAGING SYSTEM"},
                   "LINE_PREFIX_TABLE", t, block)


@what
def mutual_impedance(m):
    """tables of any spacing"""
    fields = m.fields(max(2, m.cols), "ir")
    grid, cols = m.cells(fields, m.rows + 1)
    heads = m.pick([], [["H" + str(i) for i in range(len(fields))]])
    m.save("P.TAB", [x + "\r\n" for x in m.spread(heads + grid)])
    cs = m.columns(fields)
    p = m.label({"INSTRUMENT_NAME": "ROSETTA PLASMA CONSORTIUM - MUTUAL "
                                    "IMPEDANCE PROBE"},
                {"SPECTRUM_TABLE": q("P.TAB")},
                [m.table("SPECTRUM_TABLE", cs, m.rows, sum(
                    w + 1 for *_, w in fields) - 1)],
                record_bytes=m.int(20, 90))
    return p, [("SPECTRUM_TABLE", text_table(cols))]


@what
def lunar_trajectory(m):
    from vp.quirks_form import undescribed
    return undescribed(m, {"DATA_SET_ID": "SLN-L-RISE-5-TRAJ-V1.0"}, [
        ("DATE", "t", 2, 6), ("GREENWICH_TIME_HHMM", "t", 9, 4),
        ("GREENWICH_TIME_SS", "r", 15, 8), ("X", "r", 23, 13),
        ("Y", "r", 36, 13), ("Z", "r", 49, 13), ("VX", "r", 62, 12),
        ("VY", "r", 74, 12), ("VZ", "r", 86, 12), ("LAT", "r", 98, 11),
        ("LON", "r", 109, 11), ("HEIGHT", "r", 120, 13)], 134)


@what
def lunar_anomalies(m):
    from vp.quirks_form import columns_by_place
    spec = [(n, "r", 1 + 9 * i, 8) for i, n in enumerate(
        ["LATITUDE", "LONGITUDE", "X", "Y", "Z", "F", "X1", "Y2", "Z2", "F2"]
    )] + [("A", "i", 91, 4)]
    lines, cols = columns_by_place(m, spec, 96, 60)
    m.save("P.TAB", "".join(lines) * 1074)
    few = m.fields(2)
    p = m.label({"DATA_SET_ID": "SLN-L-LMAG-5-MA-GRID-V1.0"},
                {"TABLE": at("P.TAB", 1)},
                [m.table("TABLE", m.columns(few), m.int(1, 99), 30)],
                record_bytes=96)

    def diff(got):
        if got.shape != (64440, 11):
            return f"shape {got.shape}"
        first = text_table(cols)(got.iloc[:60])
        if first:
            return first
        a = got.to_numpy(float)
        return None if np.array_equal(a, np.tile(a[:60], (1074, 1))) else (
            "rows differ")
    return p, [("TABLE", diff)]


@what
def huygens_entry(m):
    """names of columns that the label cannot hold"""
    fields = m.fields(8 + m.int(0, 3))
    lines, cols, starts, w = m.fixed(fields)
    m.save("HUY_DTWG_ENTRY_AERO.TAB", lines)
    p = m.label({"INSTRUMENT_HOST_NAME": "HUYGENS PROBE"},
                {"TABLE": at("HUY_DTWG_ENTRY_AERO.TAB", 1)},
                [m.table("TABLE", m.columns(fields, starts), m.rows, w)],
                record_bytes=w)
    for i, n in ((5, "KNUDSEN FREESTR. HARD SPHERE NR. [=2.8351E-8/RHO]"),
                 (6, "KNUDSEN NR. [=1.2533*SQRT(2)*Ma/Re]"),
                 (7, "REYNOLD NR. [=RHO*VREL*D/Mu]")):
        cols[i] = (n, cols[i][1])
    return p, [("TABLE", text_table(cols))]
