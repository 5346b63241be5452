"""Tables of data sets whose labels do not describe their text well enough."""
from __future__ import annotations

from vp.pds3 import q, render
from vp.quirks import at, lines_of, text_table, what


def csv_lines(grid, sep=",", eol="\r\n"):
    return [sep.join(row) + eol for row in grid]


def wrong(m, fields):
    """columns whose places in the label have nothing to do with the file"""
    starts, pos = [], 1
    for _ in fields:
        starts.append(pos)
        pos += m.int(1, 4)
    return m.columns(fields, starts, [1] * len(fields))


def either(m, name, fields, rows=None):
    """a block of a table read without regard to its columns' places"""
    rows = m.rows if rows is None else rows
    if "SPREADSHEET" in name:
        return m.spreadsheet(name, fields, rows)
    return m.table(name, wrong(m, fields), rows, m.int(60, 200))


def delimited(m, idents, name, lines, fields, rows=None, file="P.TAB",
              **kw):
    m.save(file, lines)
    return m.label(idents, {name: q(file)}, [either(m, name, fields, rows)],
                   record_bytes=m.int(50, 200),
                   **{"record_type": "STREAM", **kw})


def whitespace(m, idents, name="TABLE"):
    """columns are where white space says"""
    fields = m.fields()
    grid, cols = m.cells(fields)
    p = delimited(m, idents, name,
                  [x + "\r\n" for x in m.spread(grid)], fields)
    return p, [(name, text_table(cols))]


@what
def odyssey_maps(m):
    return whitespace(m, {"DATA_SET_ID": "ODY-M-GRS-5-ELEMENTS-V1.0"})


@what
def halley_curves(m):
    return whitespace(m, {"DATA_SET_ID": "IHW-C-IRFCURV-3-EDR-HALLEY-V2.0"})


@what
def voyager_lecp(m):
    return whitespace(m, {"DATA_SET_ID": m.pick(
        "VG1-J-LECP-4-SUMM-SECTOR-15MIN-V1.1",
        "VG2-U-LECP-4-RDR-STEP-12.8MIN-V1.0")})


@what
def mars_express_orbit_data(m):
    return whitespace(m, {
        "INSTRUMENT_HOST_NAME": "MARS EXPRESS", "INSTRUMENT_ID": "MRS",
        "PRODUCT_ID": "M32ODF0L1B_X.TAB"},
        m.pick("DOPPLER_TABLE", "RANGING_TABLE", "TABLE"))


@what
def cassini_mimi(m):
    """as many lines of headings as the kind of file has"""
    fields = m.fields()
    grid, cols = m.cells(fields)
    lines = csv_lines(grid)
    idents = {"DATA_SET_ID": m.pick(
        "CO-S-MIMI-4-CHEMS-CALIB-V1.0", "CO-S-MIMI-4-LEMMS-CALIB-V1.0",
        "CO-S-MIMI-4-INCA-CALIB-V1.0", "CO-E/J/S/SW-MIMI-2-LEMMS-UNCALIB-V1.0",
        "CO-SSA-RADAR-3-ABDR-SUMMARY-V1.0", "CO-S-MIMI-4-ANYTHING-V1.0")}
    ds = idents["DATA_SET_ID"]
    if "ANYTHING" in ds:
        idents |= {"INSTRUMENT_HOST_NAME": "CASSINI ORBITER",
                   "PRODUCT_TYPE": "ANCILLARY"}
    full = m.int(0, 1) and "CALIB" in ds and "UNCALIB" not in ds
    file = m.pick("CHEMS_FULL_2004001.CSV", "X_FULL.TAB") if full else (
        m.pick("CHEMS_AVG_2004001.CSV", "X.TAB"))
    if "UNCALIB" in ds or full and "CHEMS" in ds:
        # the file has names of its own
        cols = [(f"FILE_{n}", v) for n, v in cols]
        lines = [",".join(n for n, _ in cols) + "\r\n"] + (
            [f"units{i},of,it\r\n" for i in range(3)] if full else []) + lines
    elif "SUMMARY" not in ds:
        lines = [f"headings {i}\r\n" for i in range(4 if full else 7)] + lines
    name = m.pick("SPREADSHEET", "X_SPREADSHEET")
    p = delimited(m, idents, name, lines, fields, file=file)
    return p, [(name, text_table(cols))]


@what
def own_names(m):
    """the file's first line names its columns"""
    fields = m.fields()
    grid, cols = m.cells(fields)
    cols = [(f"FILE_{n}", v) for n, v in cols]
    idents, name = m.pick(
        ({"INSTRUMENT_ID": "CHEMIN"}, m.pick("SPREADSHEET", "A_SPREADSHEET")),
        ({"DATA_SET_ID": "MSL-M-SAM-2-RDR-L0-V1.0",
          "PRODUCT_ID": "Q_QMS_L0_1"}, m.pick("TABLE", "SPEC_TABLE")))
    p = delimited(m, idents, name,
                  [",".join(n for n, _ in cols) + "\n"]
                  + csv_lines(grid, eol="\n"), fields)
    return p, [(name, text_table(cols))]


@what
def rover_places(m):
    """the label's names replace the file's"""
    fields = m.fields()
    grid, cols = m.cells(fields)
    p = delimited(m, {"DATA_SET_ID": "MSL-M-ROVER-6-RDR-PLACES-V1.0"},
                  "SPREADSHEET",
                  [",".join(f"c{i}" for i in range(len(cols))) + "\n"]
                  + csv_lines(grid, eol="\n"), fields)
    return p, [("SPREADSHEET", text_table(cols))]


@what
def null_bytes(m):
    """null bytes between rows"""
    fields = m.fields()
    grid, cols = m.cells(fields)
    pad = "\0" * m.int(1, 20)
    idents = m.pick(
        {"SPACECRAFT_NAME": "MAGELLAN", "NOTE": "Geometry of it"},
        {"DATA_SET_ID": "GO-J-NIMS-4-ADR-SL9IMPACT-V1.0", "PRODUCT_ID":
         "G_" + m.pick("CAL_DATA.TAB", "G_DATA.TAB", "R_DATA.TAB")})
    p = delimited(m, idents, "TABLE",
                  [x + pad for x in csv_lines(grid)], fields)
    return p, [("TABLE", text_table(cols))]


@what
def magellan_occultation(m):
    """a line break in the middle of some rows"""
    fields = m.fields(max(2, m.cols), "ir")
    lines, cols, starts, w = m.fixed(fields, eol="\r\n")
    for i, x in enumerate(lines):
        if m.int(0, 1):
            # between two of the columns, where it changes nothing but places
            k = starts[m.int(1, len(fields) - 1)] - 1
            lines[i] = x[:k] + "\n" + x[k:]
    m.save("P.TAB", lines)
    block = m.table("TABLE", m.columns(fields, starts), m.rows, w)
    p = m.label({"DATA_SET_ID": "MGN-V-RSS-5-OCC-PROF-RTPD-V1.0",
                 "FILE_RECORDS": m.rows}, {"TABLE": q("P.TAB")}, [block],
                record_bytes=w)
    return p, [("TABLE", text_table(cols))]


@what
def diviner_gridded(m):
    """numbers and NaNs below a line of headings"""
    fields = m.fields(kinds="ir")
    grid, cols = m.cells(fields)
    cols = [(n, [float(x) for x in v]) for n, v in cols]
    for i, row in enumerate(grid):
        for j in range(len(row)):
            if m.int(0, 5) == 0:
                row[j] = m.pick("NaN", "   NaN")
                cols[j][1][i] = float("nan")
    p = delimited(m, {"INSTRUMENT_ID": "DLRE",
                      "PRODUCT_TYPE": m.pick("GCP", "PCP", "PRP")}, "TABLE",
                  ["some,headings\r\n"] + csv_lines(grid, ", "), fields)
    return p, [("TABLE", text_table(cols))]


@what
def galileo_density(m):
    """semicolons, and two lines of headings"""
    fields = m.fields()
    grid, cols = m.cells(fields)
    p = delimited(
        m, {"DATA_SET_ID": "GO-J-PWS-5-DDR-PLASMA-DENSITY-FULL-V1.0"},
        "SPREADSHEET", ["about this file\r\n",
                        ";".join(f"h{i}" for i in range(len(cols))) + "\r\n"]
        + csv_lines(grid, ";"), fields)
    return p, [("SPREADSHEET", text_table(cols))]


@what
def ulysses_sky_maps(m):
    """seventeen lines of headings, then white space"""
    fields = m.fields()
    grid, cols = m.cells(fields)
    m.save("P.TAB", [f"heading {i}\r\n" for i in range(17)]
           + [x + "\r\n" for x in m.spread(grid, ("  ", "\t", "   "))])
    # (places as wide as the columns: no gaps)
    starts = [1 + 3 * i for i in range(len(fields))]
    m.save("GASDATA.FMT", render(m.columns(fields, starts,
                                           [3] * len(fields))))
    p = m.label({"DATA_SET_ID": "ULY-J-GAS-5-SKY-MAPS-V1.0"},
                {"TABLE": q("P.TAB")},
                [["OBJECT", "TABLE", [
                    ["INTERCHANGE_FORMAT", "ASCII"], ["ROWS", str(m.rows)],
                    ["ROW_BYTES", str(3 * len(fields))],
                    ["COLUMNS", str(len(fields))], ["^STRUCTURE", q("GASDATA.FMT")]]]], record_bytes=200)
    return p, [("TABLE", text_table(cols))]


@what
def no_line_breaks(m):
    """rows follow each other without line breaks"""
    fields = m.fields()
    lines, cols, starts, w = m.fixed(fields, eol="")
    ds, file = m.pick(
        (m.pick("IHW-C-PPFLX-3-RDR-HALLEY-V1.0",
                "IHW-C-MSNVIS-3-RDR-HALLEY-ORIONID-V1.0",
                "IHW-C-IRPHOT-3-RDR-HALLEY-V1.0"), "P.TAB"),
        ("ICE-C-ULECA-3-RDR-GIACOBIN-ZIN-V1.0", "TRAJ_ICE.TAB"))
    k = m.int(0, 3)
    m.save(file, m.junk(k * w) + "".join(lines))
    p = m.label({"DATA_SET_ID": ds}, {"TABLE": at(file, k + 1)},
                [m.table("TABLE", m.columns(fields, starts), m.rows, w)],
                record_bytes=w)
    return p, [("TABLE", text_table(cols))]


@what
def voyager_comments(m):
    """headings, and lines in the middle that start with VOYAGER"""
    fields = m.fields()
    grid, cols = m.cells(fields)
    lines = csv_lines(grid)
    for _ in range(m.int(0, 2)):
        lines.insert(m.int(0, len(lines)), "VOYAGER 1 LECP,DATA\r\n")
    p = delimited(m, {"DATA_SET_ID": "VG1-S-LECP-3-RDR-STEP-6MIN-V1.0"},
                  "SPREADSHEET",
                  [",".join(f"h{i}" for i in range(len(cols))) + "\r\n"]
                  + lines, fields)
    return p, [("SPREADSHEET", text_table(cols))]


@what
def viking_seismometer(m):
    """a column that is not there, another that is not labelled"""
    kind = m.pick("event_wind_summary.tab", "x_summary.tab",
                  "event_data.csv", "high_rate.csv", "EVENT_X.CSV",
                  "HIGH_WIND.CSV")
    fields = m.fields(max(m.cols, 7) if "wind" in kind else None)
    grid, cols = m.cells(fields)
    labelled = list(fields)
    if "summary" in kind:
        lines = [x + "\r\n" for x in m.spread(grid)]
        labelled.insert(m.int(7 if "wind" in kind else 0, len(labelled)),
                        ["SEISMIC_TIME_SOLS", "r", 5])
        if "wind" in kind:
            extra = m.fields(1, "i")
            g, c = m.cells(extra)
            lines = [x + "\r\n" for x in m.spread(
                [row[:7] + e + row[7:] for row, e in zip(grid, g)])]
            cols.insert(7, ("ORIGINAL_LINES_COUNT", c[0][1]))
    else:
        lines = csv_lines(grid)
        if "high" not in kind.lower():
            labelled.insert(m.int(0, len(labelled)), ["SEISMIC_SOL", "i", 5])
    name = m.pick("TABLE", "SPREADSHEET")
    p = delimited(m, {"DATA_SET_ID": "VL2-M-SEIS-5-RDR-V1.0"}, name, lines,
                  labelled, file=kind)
    return p, [(name, text_table(cols))]


@what
def aspera_images(m):
    """some rows have one comma more"""
    fields = m.fields()
    grid, cols = m.cells(fields)
    more = m.int(0, 1)
    lines = [",".join(row + [""] * (more if i == 0 else m.int(0, more)))
             + "\r\n" for i, row in enumerate(grid)]
    p = delimited(m, {"DATA_SET_ID": "MEX-M-ASPERA3-2-EDR-IMA-V1.0"},
                  "SPREADSHEET", lines, fields)
    return p, [("SPREADSHEET", text_table(cols))]


@what
def rover_radio(m):
    """the label counts rows wrong"""
    fields = m.fields()
    grid, cols = m.cells(fields)
    p = delimited(m, {"DATA_SET_ID": f"MER{m.int(1, 2)}-M-RSS-1-EDR-V1.0",
                      "PRODUCT_TYPE": "UHFD"}, "SPREADSHEET",
                  csv_lines(grid), fields, rows=m.int(1, 30))
    return p, [("SPREADSHEET", text_table(cols))]


@what
def atomic_force(m):
    """a header of four rows, then blocks of 512"""
    names = ["AFM_F_ERROR_TABLE", "AFM_F_HEIGHT_TABLE", "AFM_B_ERROR_TABLE",
             "AFM_B_HEIGHT_TABLE"]
    head = m.fields(max(2, m.cols))
    low = m.int(0, 1)  # names that start with a small letter
    if low:
        head[m.int(0, len(head) - 1)][0] = "low"
    grid, hcols = m.cells(head, 4)
    lines, blocks, want = csv_lines(grid), [], []
    hb = wrong(m, head)
    for b in hb:
        b[2] = [["NAME", "low"] if s == ["NAME", q("low")] else s
                for s in b[2]]
        b[2].insert(0, b[2].pop(1))  # COLUMN_NUMBER first
    blocks.append(m.table("AFM_HEADER_TABLE", hb, 4, 100))
    want.append(("AFM_HEADER_TABLE", text_table(hcols)))
    pointers = {"AFM_HEADER_TABLE": at("P.TAB", 1)}
    for i, name in enumerate(names[:m.int(1, 4)]):
        fields = m.fields(2, "ir")
        grid, cols = m.cells(fields, 512)
        lines += csv_lines(grid)
        blocks.append(m.table(name, wrong(m, fields), 512, 100))
        pointers[name] = at("P.TAB", 5 + 512 * i)
        want.append((name, text_table(cols)))
    m.save("P.TAB", lines)
    p = m.label({"DATA_SET_ID": "PHX-M-MECA-4-NIRDR-V1.0",
                 "INSTRUMENT_ID": "MECA_AFM"}, pointers, blocks,
                record_bytes=100)
    return p, want


@what
def mini_rf_housekeeping(m):
    """the first row has one column only"""
    rows = [[f"S{m.text('t', 9)}", f"S{m.text('t', 5)}", m.text("t", 4)]
            for _ in range(m.rows)]
    lines = ["S_TITLE\r\n"] + csv_lines(rows)
    fields = [["A", "t", 9], ["B", "t", 9], ["C", "t", 4]]
    cols = [(n, [r[i] for r in rows]) for i, (n, *_) in enumerate(fields)]

    def diff(got):
        first = got.iloc[0].tolist() if len(got) else None
        if not first or first[0] != "S_TITLE" or not all(
                x != x for x in first[1:]):
            return f"first row {first}"
        return text_table(cols)(got.iloc[1:].reset_index(drop=True))
    p = delimited(m, {"DATA_SET_ID": "LRO-L-MRFLRO-1-PDR-V1.0",
                      "PRODUCT_ID": "HK_1"}, "SPREADSHEET", lines, fields,
                  rows=m.rows + 1)
    return p, [("SPREADSHEET", diff)]


@what
def rover_weather_raw(m):
    """tables of comma-separated lines, found by their line numbers"""
    out, blocks, pointers, lines = [], [], {}, []
    for i in range(m.int(1, 3)):
        name = m.pick("A_TABLE", "SCI_TABLE") + str(i)
        for _ in range(m.int(0, 2)):
            lines.append("1,2,3\r\n" if len(lines) % 2 else "x,y\r\n")
        fields = m.fields()
        n = m.int(1, 8)
        grid, cols = m.cells(fields, n)
        pointers[name] = at("P.TAB", len(lines) + 1)
        lines += csv_lines(grid)
        blocks.append(m.table(name, wrong(m, fields), n, 390))
        out.append((name, text_table(cols)))
    m.save("P.TAB", lines)
    p = m.label({"INSTRUMENT_HOST_NAME": "MARS SCIENCE LABORATORY",
                 "INSTRUMENT_ID": "REMS", "PRODUCT_ID": "SP_____EDR"},
                pointers, blocks, record_bytes=399)
    return p, out


@what
def rover_weather_reduced(m):
    """missing values are words"""
    fields = m.fields(kinds="r")
    grid, cols = m.cells(fields)
    for i, row in enumerate(grid):
        for j in range(len(row)):
            if m.int(0, 4) == 0:
                row[j] = m.pick(" UNK", "    UNK", "     UNK", "      UNK",
                                "       UNK", "   NULL", "    NULL")
                cols[j][1][i] = float("nan")
    p = delimited(m, {"INSTRUMENT_HOST_NAME": "MARS SCIENCE LABORATORY",
                      "INSTRUMENT_ID": "REMS", "DATA_SET_ID":
                      "MSL-M-REMS-5-MODRDR-V1.0"}, "REMS_SCIENCE_TABLE",
                  csv_lines(grid), fields)
    return p, [("REMS_SCIENCE_TABLE", text_table(cols))]


@what
def lro_weather_times(m):
    """colons separate columns too"""
    n = m.int(2, 5)
    fields = m.fields(n, "i")
    grid, cols = m.cells(fields)
    lines = ["a line of headings\r\n"]
    for row in grid:
        lines.append(row[0] + "".join(
            m.pick(":", " ", "   ") + x for x in row[1:]) + "\r\n")
    ids = {"INSTRUMENT_HOST_NAME": "LUNAR RECONNAISSANCE ORBITER",
           "INSTRUMENT_NAME": "RADIO SCIENCE SUBSYSTEM"}
    p = delimited(m, ids, "WEAREC_TABLE", lines, fields)
    return p, [("WEAREC_TABLE", text_table(cols))]


@what
def prospector_outages(m):
    """six columns by their places, commas or not"""
    fields = m.fields(6, "i")
    lines, cols, starts, w = m.fixed(fields, gap=2)
    for i, line in enumerate(lines):
        line = list(line)
        for s, (_, _, b) in list(zip(starts, fields))[:-1]:
            line[s - 1 + b] = m.pick(",", ",", " ")
        lines[i] = "".join(line)
    m.save("P.TAB", lines)
    p = m.label({"INSTRUMENT_HOST_NAME": "LUNAR PROSPECTOR",
                 "PRODUCT_ID": "OUTAGES"}, {"TABLE": q("P.TAB")},
                [m.table("TABLE", m.columns(fields, starts), m.rows, w)],
                record_bytes=w)
    return p, [("TABLE", text_table(cols))]


@what
def vera_raw(m):
    """columns named in the file, after a header of any length"""
    fields = m.fields(kinds="ir")
    lines, cols, starts, w = m.fixed(fields, gap=2, eol="\n")
    names = [f"N{i}_{n.replace(' ', '')}" for i, (n, *_) in enumerate(fields)]
    head = [f"<tag {i}> text of it\n" for i in range(m.int(1, 6))]
    # columns are wherever their values line up
    m.save("P.RAW", "".join(head) + "// " + "  ".join(names) + "\n"
           + "".join(lines))
    p = m.label({"INSTRUMENT_HOST_NAME": "VENUS EXPRESS",
                 "INSTRUMENT_ID": "VRA", "PRODUCT_TYPE": "UDR",
                 "PRODUCT_ID": "P.RAW"}, {"X_TABLE": q("P.RAW")}, [],
                record_bytes=80)
    return p, [("X_TABLE", text_table(
        [(n, v) for n, (_, v) in zip(names, cols)]))]


@what
def spede_plasma(m):
    """sixty-four lines of headings, and any number of commas"""
    names = ["DATE", "JULIAN_DATE", "SHADOW", "SC_MX_SUN_ANGLE",
             "SC_MY_SUN_ANGLE", "SC_MZ_SUN_ANGLE", "SC_SA_ANGLE", "GSE_X",
             "GSE_Y", "GSE_Z", "LSE_X", "LSE_Y", "LSE_Z", "TIME_INCREMENT"]
    names += [f"{x}_{i:02d}" for x in ("BIAS", "MEASUREMENT", "FLAGS")
              for i in range(40)]
    fields = [[n, "t" if n == "DATE" else m.pick("i", "r"), 8] for n in names]
    grid, cols = m.cells(fields)
    m.save("PD_40_X.TAB", [f"heading {i}\r\n" for i in range(64)] + [
        "".join(x + m.pick(",", ",", ",,", ", ") for x in row[:-1])
        + row[-1] + "\r\n" for row in grid])
    few = m.fields()
    p = m.label({"INSTRUMENT_ID": "SPEDE", "FILE_NAME": "PD_40_X.TAB"},
                {"TABLE": q("PD_40_X.TAB")},
                [m.table("TABLE", wrong(m, few), m.rows, 200)],
                record_bytes=200)
    return p, [("TABLE", text_table(cols))]


@what
def crism_observations(m):
    """values that are not available"""
    n = m.int(49, 55)
    text = {0, 44, 46, 47, 48}
    fields = [[f"F{i}", "t" if i in text else "r", 8] for i in range(n)]
    grid, cols = m.cells(fields)
    for i, row in enumerate(grid):
        for j in range(len(row)):
            if j not in text and m.int(0, 9) == 0:
                row[j] = "N/A" + " " * m.pick(2, 3, 13, 23)
                cols[j][1][i] = float("nan")
    p = delimited(m, {"INSTRUMENT_ID": "CRISM", "PRODUCT_TYPE": "ANCILLARY",
                      "PRODUCT_ID": "OBS_1"}, "TABLE", csv_lines(grid), fields)
    return p, [("TABLE", text_table(cols))]


MCS = """QUAL DATE UTC SCLK L_S SOLAR_DIST ORB_NUM GQUAL SOLAR_LAT SOLAR_LON
SOLAR_ZEN LTST PROFILE_LAT PROFILE_LON PROFILE_RAD PROFILE_ALT LIMB_ANG
ARE_RAD SURF_LAT SURF_LON SURF_RAD T_SURF T_SURF_ERR T_NEAR_SURF
T_NEAR_SURF_ERR DUST_COLUMN DUST_COLUMN_ERR H2OVAP_COLUMN H2OVAP_COLUMN_ERR
H2OICE_COLUMN H2OICE_COLUMN_ERR CO2ICE_COLUMN CO2ICE_COLUMN_ERR P_SURF
P_SURF_ERR P_RET_ALT P_RET P_RET_ERR RQUAL P_QUAL T_QUAL DUST_QUAL
H2OVAP_QUAL H2OICE_QUAL CO2ICE_QUAL SURF_QUAL OBS_QUAL""".split()
MCS += [f"REF_SCLK_{i}" for i in range(10)]
MCS += [f"REF_{x}_{i}" for i in range(10) for x in ("DATE", "UTC")]
MCS += """1_layer PRES T T_ERR DUST DUST_ERR H2OVAP H2OVAP_ERR H2OICE
H2OICE_ERR CO2ICE CO2ICE_ERR ALT LAT LON""".split()


@what
def climate_sounder(m):
    """each record is a line about several lines of data"""
    kinds = ["t" if n in ("QUAL", "DATE", "UTC") or n.startswith(
        ("REF_DATE", "REF_UTC")) else "t" if n == "1_layer" else "i" if
        n in ("ORB_NUM", "GQUAL") or n.endswith("QUAL") else "r" for n in MCS]
    fields = [[n, k, 8] for n, k in zip(MCS, kinds)]
    reps, records = m.int(1, 5), m.int(1, 4)
    meta, _ = m.cells(fields[:77], records)
    body, _ = m.cells(fields[77:], records * reps)
    lines, rows = [], []
    for i in range(records):
        lines.append(",".join(
            q(x) if k == "t" else x for x, k in zip(meta[i], kinds))
            + " " * m.int(0, 40) + "\r\n")
        for row in body[i * reps:(i + 1) * reps]:
            lines.append(",".join([q(row[0])] + row[1:])
                         + " " * m.int(0, 4) + "\r\n")
            rows.append(meta[i] + row)
    cols = [(n, [int(r[j]) if k == "i" else float(r[j]) if k == "r" else r[j]
                 for r in rows]) for j, (n, k) in enumerate(zip(MCS, kinds))]
    width, k = 100, m.int(0, 3)
    m.save("P.TAB", m.junk(k * width) + "".join(lines))
    few = m.fields(2)
    p = m.label({"DATA_SET_ID": "MRO-M-MCS-5-DDR-V6.0"},
                {"TABLE": at("P.TAB", k + 1)},
                [["OBJECT", "TABLE", [
                    ["INTERCHANGE_FORMAT", "ASCII"], ["ROWS", str(records)],
                    ["ROW_BYTES", "100"], ["COLUMNS", "2"],
                    *wrong(m, few),
                    ["OBJECT", "CONTAINER", [
                        ["NAME", "PROFILE"], ["START_BYTE", "50"],
                        ["BYTES", "10"], ["REPETITIONS", str(reps)],
                        *wrong(m, few)]]]]], record_bytes=width)
    return p, [("TABLE", text_table(cols))]


@what
def odyssey_notes(m):
    """a table, and notes whose pointer says they are a table too"""
    fields = m.fields(kinds="ir")
    lines, cols, starts, w = m.fixed(fields)
    notes = "".join(f"note {i}: about it\n" for i in range(m.int(1, 5)))
    m.save("P.TAB", lines)
    m.save("P.TXT", notes)
    name = "TIME_SERIES" + m.pick("", "_NOTES")
    text = render([
        ["PDS_VERSION_ID", "PDS3"],
        ["DATA_SET_ID", q("ODY-M-GRS-2-EDR-V1.0")],
        ["PRODUCT_TYPE", "E_KERNEL"],
        ["OBJECT", "FILE", [
            ["RECORD_TYPE", "FIXED_LENGTH"], ["RECORD_BYTES", str(w)],
            ["FILE_RECORDS", str(m.rows)], ["^TIME_SERIES", q("P.TAB")],
            m.table("TIME_SERIES", m.columns(fields, starts), m.rows, w)]],
        ["OBJECT", "FILE", [
            ["RECORD_TYPE", "STREAM"], [f"^{name}", q("P.TXT")],
            ["OBJECT", name, [["INTERCHANGE_FORMAT", "ASCII"],
                              ["DESCRIPTION", q("notes")]]]]]]) + "END\r\n"
    m.save("P.LBL", text)
    keys = ("TIME_SERIES", name) if "NOTES" in name else (
        "TIME_SERIES_0", "TIME_SERIES_1")
    return m.d / "P.LBL", [(keys[0], text_table(cols)),
                           (keys[1], lines_of(notes))]
