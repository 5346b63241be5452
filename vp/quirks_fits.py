"""FITS files of data sets whose labels misplace their parts."""
from __future__ import annotations

from vp import fits as F
from vp.quirks import at, where

EMPTY = {"kind": "image", "bitpix": 8, "shape": [], "scale": None,
         "fill": "bits", "name": None, "extra": [], "bscale": 1, "bzero": 0}


def image(m, name=None, shape=None):
    return dict(EMPTY, bitpix=m.pick(8, 16, 32, -32, -64), name=name,
                shape=shape or [m.int(1, 6), m.int(1, 6)],
                fill=m.pick("bits", "ramp"))


def table(m, name=None):
    return {"kind": "bintable", "rows": m.rows, "name": name, "extra": [],
            "cols": [{"name": f"C{i}", "code": m.pick("B", "I", "J", "D"),
                      "repeat": m.int(1, 3), "dim": None, "scale": None}
                     for i in range(m.cols)]}


def cards(h):
    return lambda got: F.diff_header(got, h["cards"])


def data(h):
    return lambda got: F.diff_hdu(got, h)


def some_record(m, body):
    """a place that need not be one of a part of the file"""
    return m.int(1, len(body) // 2880 + 1)


def product(m, idents, hs, objs, name="P.FIT"):
    """
    objs: {name: (HDU number, "data"/"header", place in the label)}; a place
    is a record, None for the right one and "wrong" for any
    """
    body, info = F.build(hs, m.case["seed"])
    m.save(name, body)
    pointers, blocks, out = {}, [], []
    for key, (i, part, place) in objs.items():
        h = info[i]
        if place is None:
            place = h[part + "_at"] // 2880 + 1
        if place == "wrong":
            place = some_record(m, body)
        pointers[key] = place if isinstance(place, str) else at(name, place)
        blocks.append(["OBJECT", key, (
            [["HEADER_TYPE", "FITS"], ["BYTES", str(h["header_size"])]]
            if part == "header" else [["LINES", "1"], ["LINE_SAMPLES", "1"],
                                      ["SAMPLE_BITS", "8"]])])
        out.append((key, (cards if part == "header" else data)(h)))
    p = m.label(idents, pointers, blocks, record_bytes=2880)
    return p, out


def others(m, n=None):
    return [m.pick(image, table)(m, f"X{i}")
            for i in range(m.int(0, 3) if n is None else n)]


@where
def saturn_ring_plane(m):
    """each band of a cube has a pointer"""
    names = [f"{x}_IMAGE" for x in ("PC1", "WF2", "WF3", "WF4")]
    objs = {n: (0, "data", "wrong") for n in names[:m.int(1, 4)]}
    if m.int(0, 1):
        objs["HEADER"] = (0, "header", 1)
    return product(m, {"DATA_SET_ID": "HST-S-WFPC2-3-RPX-V1.0"},
                   [image(m, shape=[m.int(1, 3), m.int(1, 5), m.int(1, 5)])]
                   + others(m), objs)


@where
def epoxi_masks(m):
    hs = [image(m)] + others(m)
    hs.insert(m.int(1, len(hs)), image(m, "MASK"))
    i = next(i for i, h in enumerate(hs) if h["name"] == "MASK")
    objs = {"IMAGE": (0, "data", None), "EXT_MASK_IMAGE": (i, "data", "wrong"),
            "EXT_MASK_HEADER": (i, "header", "wrong")}
    return product(m, {"INSTRUMENT_ID": "HRIV",
                       "PRODUCT_TYPE": "RADIANCE_DECONVOLVED"}, hs, objs)


@where
def mercury_calibrations(m):
    return product(m, {"DATA_SET_ID": "MSGR-H-MDIS-6-CAL-V1.0"},
                   [image(m)] + others(m), {"IMAGE": (0, "data", "wrong"),
                                            "HEADER": (0, "header", 1)})


@where
def comet_impact_standards(m):
    return product(m, {"DATA_SET_ID": "MSSSO-J-CASPIR-3-RDR-SL9-STDS-V1.0"},
                   [image(m)] + others(m), {"IMAGE": (0, "data", "wrong"),
                                            "HEADER": (0, "header", 1)})


@where
def venus_and_mars_cameras(m):
    """the calibrated image is in the second HDU"""
    return product(m, {"DATA_SET_ID": "MEX-M-VMC-3-RDR-V1.0"},
                   [image(m), image(m, "X")] + others(m),
                   {"IMAGE": (1, "data", "wrong")})


LAMP = {"Acquisition List": ("ACQUISITION_LIST", "TABLE"),
        "Calibrated Pixel List Mode Data": ("CAL_PIXELLIST_DATA", "TABLE"),
        "Ancillary Data": ("ANCILLARY_DATA", "TABLE"),
        "Calculated Countrate": ("CAL_CALCULATED_COUNTRATE", "TABLE"),
        "Reduced Count Rate": ("CAL_CALCULATED_COUNTRATE", "TABLE"),
        "LTS Data": ("LTS_DATA", "TABLE"),
        "Housekeeping Data": ("HOUSEKEEPING", "TABLE"),
        "Wavelength Lookup Image": ("WAVELENGTH_LOOKUP", "IMAGE"),
        "Calibrated Histogram Mode Data": ("CAL_HISTOGRAM_DATA", "IMAGE")}


@where
def lunar_ultraviolet(m):
    """parts are found by the names of their HDUs"""
    names = [x for x in LAMP if m.int(0, 1)] or ["LTS Data"]
    if "Calculated Countrate" in names and "Reduced Count Rate" in names:
        names.remove(m.pick("Calculated Countrate", "Reduced Count Rate"))
    order = [int(i) for i in m.rng.permutation(len(names))]
    names = [names[i] for i in order]
    hs, objs = [image(m)], {}
    for i, ext in enumerate(names):
        stem, kind = LAMP[ext]
        hs.append(table(m, ext) if kind == "TABLE" else image(m, ext))
        if m.int(0, 1):
            objs[stem + "_HEADER"] = (i + 1, "header", "wrong")
        if "HISTOGRAM" in stem:
            for j in range(m.int(1, 3)):
                objs[f"{stem}_IMAGE_{j}"] = (i + 1, "data", "wrong")
        else:
            objs[f"{stem}_{kind}"] = (i + 1, "data", "wrong")
    return product(m, {"DATA_SET_ID": "LRO-L-LAMP-3-RDR-V1.0",
                       "INSTRUMENT_ID": "LAMP", "PRODUCT_TYPE": "RDR"},
                   hs, objs)


CALIBRATED = [("CALIBRATED_SPECTRAL", "IMAGE"), ("ACQUISITION_LIST", "TABLE"),
              ("CALIBRATED_PHOTON_LIST", "TABLE"), ("ANCILLARY_DATA", "TABLE"),
              ("CALIBRATED_ANALOG_COUNT_RATE", "TABLE"),
              ("CALIBRATED_DIGITAL_COUNT_RATE", "TABLE"),
              ("HOUSEKEEPING", "TABLE"), ("WAVELENGTH_LOOKUP", "IMAGE"),
              ("MASK_INFORMATION", "TABLE")]
RAW = [("SPECTRAL_VS_SPATIAL", "IMAGE"), ("SPATIAL_VS_TIME", "QUBE"),
       ("FRAME_LIST", "TABLE"), ("SCAN_MIRROR_POSITIONS", "TABLE"),
       ("RAW_FRAME", "TABLE"), ("ANALOG_COUNT_RATE", "TABLE"),
       ("DIGITAL_COUNT_RATE", "TABLE"),
       ("PULSE_HEIGHT_DISTRIBUTION_LA", "QUBE"),
       ("PULSE_HEIGHT_DISTRIBUTION_STELLAR", "QUBE"),
       ("PULSE_HEIGHT_DISTRIBUTION_STIM", "QUBE"),
       ("HOUSEKEEPING", "TABLE"), ("PARAMETER_LIST", "TABLE")]


@where
def jupiter_ultraviolet(m):
    """parts are found by the order of the mission's HDUs"""
    parts, idents = m.pick(
        (CALIBRATED, {"PRODUCT_TYPE": "RDR",
                      "DATA_SET_ID": "JNO-J-UVS-3-RDR-V1.0"}),
        (RAW, {"PRODUCT_TYPE": "EDR", "DATA_SET_ID": "JNO-J-UVS-2-EDR-V3.0"}))
    hs, objs = [], {}
    for i, (stem, kind) in enumerate(parts):
        hs.append(table(m, f"X{i}") if kind == "TABLE" else image(
            m, f"X{i}" if i else None))
        if m.int(0, 2) == 0:
            objs[f"{stem}_{kind}"] = (i, "data", "wrong")
        if m.int(0, 3) == 0:
            objs[f"{stem}_HEADER"] = (i, "header", "wrong")
    if not objs:
        objs["{}_{}".format(*parts[1])] = (1, "data", "wrong")
    return product(m, idents, hs, objs)
