"""Objects that are known not to be readable, beside others that are."""
from __future__ import annotations

from vp.pds3 import q
from vp.quirks import array, at, unsupported
from vp.quirks_fits import EMPTY, image, product, table


def nothing(got):
    """no data: at most what the label says of the object"""
    kind = type(got).__name__
    return f"{kind} instead of nothing" if kind in (
        "ndarray", "DataFrame", "str", "bytes", "Image") else None


# identifiers, names of objects, sometimes a file name
OBJECTS = {
    "spectrometer_errors": (
        {"INSTRUMENT_ID": "APXS"},
        ["ERROR_CONTROL_TABLE", "A_ERROR_CONTROL_TABLE"]),
    "magnetometer_records": (
        {"INSTRUMENT_NAME": "TRIAXIAL FLUXGATE MAGNETOMETER",
         "DATA_SET_ID": "GO-J-MAG-2-EDR-RAWDATA-V1.0"}, ["TABLE"]),
    "camera_replies": (
        {"INSTRUMENT_NAME": "CHEMISTRY CAMERA REMOTE MICRO-IMAGER"},
        ["IMAGE_REPLY_TABLE"]),
    "themis_headers": (
        {"DATA_SET_ID": "ODY-M-THM-5-IRGEO-V2.0"}, ["HEADER", "HISTORY"]),
    "cassini_calibrations": (
        {"DATA_SET_ID": "CO-CAL-ISS-2-V1.0", "FILE_RECORDS": 1025},
        ["TELEMETRY_TABLE", "LINE_PREFIX_TABLE"]),
    "magellan_orbits": (
        {"SPACECRAFT_NAME": "MAGELLAN"}, ["TABLE"], "p.img"),
    "galileo_cubes": (
        {"DATA_SET_ID": "GO-A-SSI-3-GASPRA-CALIMAGES-V1.0",
         "PRODUCT_ID": "A.QUB"}, ["HEADER"]),
    "chemin_headers": ({"INSTRUMENT_ID": "CHEMIN"}, ["HEADER"]),
    "rover_files": (
        {"DATA_SET_ID": "MSL-M-SAM-2-RDR-L0-V1.0"}, ["FILE", "A_FILE"]),
    "nims_spectra": (
        {"INSTRUMENT_ID": "NIMS", "SPACECRAFT_NAME": "GALILEO_ORBITER"},
        ["SAMPLE_SPECTRUM_QUBE"]),
    "moon_samples": (
        {"DATA_SET_ID": "BUGLAB-L-BUG-4-APOLLO-SAMPLES-V1.0"}, ["HEADER"]),
    "alpha_particles": (
        {"DATA_SET_ID": "MSL-M-APXS-4/5-RDR-V1.0"}, ["HEADER"]),
    "venus_history": (
        {"INSTRUMENT_HOST_NAME": "VENUS EXPRESS", "INSTRUMENT_ID": "=VIRTIS"},
        ["HISTORY"]),
    "kaguya_plasma": (
        {"DATA_SET_ID": "SLN-L-PACE-3-PBF1-V3.0"}, ["TIME_SERIES"]),
    "kaguya_results": (
        {"DATA_SET_ID": "SLN-L-SP-3-LEVEL2B1-V2.0"},
        ["L2D_RESULT_ARRAY", "A_L2D_RESULT_ARRAY"]),
    "kaguya_terrain": (
        {"DATA_SET_ID": "SLN-L-TC-4-DEM-ORTHO-V1.0"}, ["QA_FILENAME"]),
    "kaguya_energy": (
        {"DATA_SET_ID": "SLN-L-GRS-3-ENG-SPECTRUM-V1.0"}, ["TABLE"]),
    "change_prefixes": ({"SPACECRAFT_NAME": "=CE1"}, ["IMAGE_PREFIX"]),
    "change_targets": (
        {"SPACECRAFT_NAME": "=CE3"}, ["CAL_TARGET_DATA"],
        "CE3_BMYK_VNIS-CC_SCI_1.LBL"),
    "tiff_tags": ({}, ["TIFF_HEADER", "TIFF_TAGS", "A_TIFF_HEADER"]),
    "internal_objects": ({}, ["PDS_OBJECT", "A_PDS_OBJECT"]),
}


def plain(m, idents, names, label="P.LBL"):
    h, w = m.int(1, 6), m.int(1, 6)
    want = m.rng.integers(-9999, 9999, (h, w)).astype(">i2")
    k = m.int(0, 50)
    m.save("DATA.IMG", m.rng.bytes(k) + want.tobytes() + m.rng.bytes(300))
    names = [n for n in names if m.int(0, 1)] or [m.pick(*names)]
    pointers = {n: at("DATA.IMG", m.int(1, 3), m.pick("", " <BYTES>"))
                for n in names}
    pointers["A_B_IMAGE"] = at("DATA.IMG", k + 1, " <BYTES>")
    fields = m.fields(2, "i")
    blocks = [["OBJECT", "A_B_IMAGE", [
        ["LINES", str(h)], ["LINE_SAMPLES", str(w)], ["SAMPLE_BITS", "16"],
        ["SAMPLE_TYPE", "MSB_INTEGER"]]]]
    for n in names:
        if m.int(0, 2):
            blocks.append(
                ["OBJECT", n, [["BYTES", "8"], ["DESCRIPTION", q("X")]]]
                if "TABLE" not in n and "SERIES" not in n else
                m.table(n, m.columns(fields), m.rows, 40))
    p = m.label(idents, dict(sorted(
        pointers.items(), key=lambda _: m.rng.random())),
        sorted(blocks, key=lambda _: m.rng.random()), record_bytes=40,
        name=label)
    hidden = any("TIFF" in n or "PDS_OBJECT" in n for n in names)
    return p, [("hidden " + n if hidden else n, nothing) for n in names] + [
        ("A_B_IMAGE", array(want))]


def register(name, idents, names, label="P.LBL"):
    def quirk(m):
        return plain(m, idents, names, label)
    quirk.__name__ = name
    unsupported(quirk)


for _name, _spec in OBJECTS.items():
    register(_name, *_spec)


@unsupported
def whole_products(m):
    """everything in some products"""
    idents = m.pick(
        {"INSTRUMENT_HOST_NAME": "VENUS EXPRESS", "INSTRUMENT_ID": "VRA",
         "PRODUCT_ID": "V32ICL1A_TNF_1"},
        {"DATA_SET_ID": "MRO-M-MCS-5-DDR-V1.0"})
    fields = m.fields(kinds="ir")
    lines, cols, starts, w = m.fixed(fields)
    m.save("P.TAB", lines)
    p = m.label(idents, {"TABLE": at("P.TAB", 1), "IMAGE": at("P.TAB", 1)},
                [m.table("TABLE", m.columns(fields, starts), m.rows, w)],
                record_bytes=w)
    return p, [("TABLE", nothing), ("IMAGE", nothing)]


@unsupported
def dawn_history(m):
    """headers of parts that are not there"""
    p, want = product(
        m, {"INSTRUMENT_HOST_NAME": "DAWN",
            "DATA_SET_ID": "DAWN-A-FC2-2-EDR-V1.0"}, [image(m), table(m, "X")],
        {"IMAGE": (0, "data", None), "TABLE": (1, "data", None),
         "HISTORY": (1, "header", "wrong")})
    return p, [(k, nothing if k == "HISTORY" else d) for k, d in want]


@unsupported
def lunar_ultraviolet_raw(m):
    """tables that may have no rows"""
    parts = [("ACQUISITION_LIST_TABLE", "Acquisition List"),
             ("FRAME_DATA_TABLE", "Raw Frame Data"),
             ("CALCULATED_COUNTRATE_TABLE", "Calculated Countrate"),
             ("LTS_DATA_TABLE", "LTS Data"),
             ("HOUSEKEEPING_TABLE", "Housekeeping Data")]
    hs, objs, empty = [EMPTY], {}, []
    for i, (name, ext) in enumerate(parts):
        h = table(m, ext)
        if m.int(0, 2) == 0:
            h["rows"] = 0
            empty.append(name)
        hs.append(h)
        if m.int(0, 2):
            objs[name] = (i + 1, "data", None)
    objs[name] = (i + 1, "data", None)
    p, want = product(m, {"DATA_SET_ID": "LRO-L-LAMP-2-EDR-V1.0"}, hs, objs)
    return p, [(k, nothing if k in empty else d) for k, d in want]
