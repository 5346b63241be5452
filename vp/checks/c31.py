"""C31: special cases for particular missions never capture other products."""
import re

from vp.checks import c08, c13, c19, c25
from vp import products as PR
from vp.common import fills, get, read, seeds, st, warned
from vp.core import Check, Suite, require
from vp.families import FAMILIES
from vp import objects as O
from vp.pds3 import q, render

# regular expressions among the families -> texts that match them
MATCHING = {
    "(HEADER|DATA)_TABLE": ["HEADER_TABLE", "DATA_TABLE"],
    "MER[12]-M-RSS-1-EDR-V1.0": ["MER1-M-RSS-1-EDR-V1.0"],
    "GP-J-(NMS|ASI)-3-ENTRY-V1.0": ["GP-J-NMS-3-ENTRY-V1.0",
                                    "GP-J-ASI-3-ENTRY-V1.0"],
    "VEGA.-C-PUMA.*": ["VEGA1-C-PUMA1-2-RDR-HALLEY-V1.0"],
    "MRO-M-MCS-(4-RDR|2-EDR)-V1.0": ["MRO-M-MCS-4-RDR-V1.0",
                                     "MRO-M-MCS-2-EDR-V1.0"],
    "CO-(CAL-ISS|[S/EVJ-]+ISSNA/ISSWA-2)": [
        "CO-CAL-ISSNA/ISSWA-2-EDR-V1.0", "CO-S-ISSNA/ISSWA-2-EDR-V1.0"],
    "IHW-C-MSNRDR-3-RDR-HALLEY-(ETA-AQUAR|ORIONID)-V1.0": [
        "IHW-C-MSNRDR-3-RDR-HALLEY-ORIONID-V1.0"],
    "MECA-EM1[012]": ["MECA-EM11"],
    "STRIP|VISIBL|IMAGE|IR_|TIME|SUN|SOLAR": ["STRIP_1.TAB", "IMAGE01.DAT",
                                              "X_TIME.DAT", "SOLAR.TAB"],
    "DARK|STRIP|VIS_EX|SUN|VISIBL|TIME|SOLAR|IMAGE": [
        "DARK2.TAB", "VIS_EX.TAB", "SUNS.TAB", "A_IMAGE_B.DAT"],
}
FIELDS = ["DATA_SET_ID", "DATA_SET_NAME", "DATA_QUALITY_DESC", "FILE_NAME",
          "FILE_RECORDS", "INSTRUMENT_ID", "INSTRUMENT_HOST_NAME",
          "INSTRUMENT_NAME", "NOTE", "PRODUCT_ID", "PRODUCT_TYPE",
          "SPACECRAFT_NAME", "STANDARD_DATA_PRODUCT_ID"]
OTHERS = ["TARGET_NAME", "MISSION_NAME", "MISSION_PHASE_NAME",
          "OBSERVATION_ID", "PRODUCER_ID", "DESCRIPTION", "FILTER_NAME",
          "SOFTWARE_VERSION_ID", "PRODUCT_VERSION_ID", "SOURCE_PRODUCT_ID",
          "OBSERVATION_TYPE", "EXPOSURE_DURATION", "PROCESSING_LEVEL_ID",
          "SPACECRAFT_CLOCK_STOP_COUNT", "INSTRUMENT_MODE_ID", "DATA_TYPE_ID",
          "DETECTOR_ID", "STANDARD_DATA_PRODUCT_TYPE", "RATIONALE_DESC"]
WORDS = ["IMAGE", "TIME", "SUN", "STRIP", "TABLE", "RDR", "EDR", "CAL", "HK",
         "GEOM", "ODF", "MARS", "ORBITER", "CAMERA", "PROBE", "VENUS", "IR_",
         "DARK", "SOLAR", "V1.0", "V2.0", "-M-", "-L-", "CO-", "VG1-", "VG2-",
         "RSS", "MOC", "ISS", "PWA", "L1B", "SPS", "SUMM", "FC2", "GRS"]
# object names that are read in the ordinary way
NAMES = ["TABLE", "IMAGE", "HEADER", "QUBE", "ARRAY", "SERIES", "TIME_SERIES",
         "SPECTRUM", "DATA_TABLE", "HEADER_TABLE", "SPREADSHEET",
         "SPECTRUM_TABLE", "QUALITY_IMAGE", "FREQUENCY_SERIES",
         "ERROR_CONTROL_TABLE", "HISTOGRAM"]
RARE = ["ODF3B_TABLE", "WEAREC_TABLE", "ATM_TABLE", "DOPPLER_TABLE",
        "REMS_REPORT_TABLE", "REMS_SCIENCE_TABLE", "RANGING_TABLE",
        "RPWS_TIME_ORDERED_TABLE", "TBL_TABLE", "TABLE_1", "SPECTRAL_SERIES",
        "TELEMETRY_TABLE", "IMAGE_REPLY_TABLE", "ENVI_HEADER", "I_TABLE",
        "WCHEM_TABLE", "HEADER_TABLE_2", "Q_TABLE", "INDEX_TABLE",
        "IMAGE_HEADER", "ERROR_IMAGE", "FREQ_OFFSET_TABLE",
        "L2D_RESULT_ARRAY", "DATA_ARRAY"]


def matches(condition, value):
    _, op, want = condition
    if op == "eq":
        return value in want
    value = str(value)
    return {"has": lambda: want in value,
            "startswith": lambda: value.startswith(tuple(want)),
            "endswith": lambda: value.endswith(tuple(want)),
            "match": lambda: re.match(want, value) is not None,
            "search": lambda: re.search(want, value) is not None}[op]()


def belongs(family, ids, names):
    """may a product with these identifiers and objects be one of these?"""
    where, conditions = family
    by_name = [c for c in conditions if c[0] == "@name"]
    return all(matches(c, ids.get(c[0], "")) for c in conditions
               if c[0] != "@name") and (
        not by_name or any(all(matches(c, n) for c in by_name)
                           for n in names))


@st.composite
def satisfying(draw, conditions):
    """a text that meets all of the conditions on one keyword"""
    for _, op, want in conditions:
        if op == "eq":
            return draw(st.sampled_from(want))
        if op in ("match", "search"):
            return draw(st.sampled_from(MATCHING[want]))
    text = ""
    for _, op, want in conditions:
        if op == "startswith":
            text = draw(st.sampled_from(want)) + text
    text += "".join(
        draw(st.sampled_from(["", "-", "X"])) + want
        for _, op, want in conditions if op == "has")
    return text + draw(st.sampled_from(["", "-V2.0", "01"])) + "".join(
        want[0] for _, op, want in conditions if op == "endswith")


@st.composite
def generic(draw, field=None):
    """[python value, how to write it]"""
    text = draw(st.one_of(
        st.text("ABCDEXYZ0123456789-_/. ", min_size=1, max_size=20).map(
            lambda s: s.strip() or "A"),
        st.lists(st.sampled_from(WORDS), min_size=1, max_size=3).map(
            "_".join)))
    how = draw(st.sampled_from(["text"] * 6 + ["set", "tuple", "int", "real",
                                               "null", "empty", "na"]))
    if how in ("set", "tuple"):
        return [text, how]
    if how == "int":
        return [draw(st.integers(0, 2000)), how]
    return [{"real": 1.5, "null": "NULL", "empty": "", "na": "N/A"}.get(
        how, text), how]


@st.composite
def altered(draw, value):
    """something like this text, but not it"""
    if not isinstance(value, str) or not value:
        return draw(generic())
    i = draw(st.integers(0, len(value) - 1))
    out = draw(st.sampled_from([
        value[:i] + value[i + 1:], value[:i] + "Z" + value[i + 1:],
        value[:i] + "_" + value[i:], "X" + value, value + "X", value + " B",
        value[:max(1, i)], value[i:], value.lower(), value.title(),
        value.replace("-", "_"), value.replace(" ", "_"),
        value.replace("_", " "), value.split(" ")[0], value.split("-")[0]]))
    return [out.strip() or "A", "text"]


def group(conditions):
    out = {}
    for c in conditions:
        out.setdefault(c[0], []).append(c)
    return out


@st.composite
def identifiers(draw, family, names):
    """
    keywords of a product with these objects: {field: [value, how]}, those of
    a member of this family in all respects but one
    """
    ids = {}
    if family is not None:
        _, conditions = family
        by_field = group(c for c in conditions if c[0] != "@name")
        for f, cs in by_field.items():
            ids[f] = [draw(satisfying(cs)), "text"]
        spoil = draw(st.sampled_from(sorted(by_field)))
        how = draw(st.sampled_from(["drop", "alter", "alter", "generic",
                                    "swap", "names"]))
        if how == "drop":
            del ids[spoil]
        elif how == "alter":
            ids[spoil] = draw(altered(ids[spoil][0]))
        elif how == "generic":
            ids[spoil] = draw(generic(spoil))
        elif how == "swap":
            other = draw(st.sampled_from(FIELDS))
            ids[spoil], ids[other] = ids.get(other), ids[spoil]
    for f in draw(st.lists(st.sampled_from(FIELDS), max_size=4)):
        ids.setdefault(f, draw(generic(f)))
    ids = {k: v for k, v in ids.items() if v is not None}
    # make sure that it is none of the specially-handled ones
    for fam in FAMILIES:
        while belongs(fam, {k: v[0] for k, v in ids.items()}, names):
            fields = [c[0] for c in fam[1] if c[0] in ids]
            if not fields:
                return None  # cannot be helped: these names suffice
            del ids[draw(st.sampled_from(fields))]
    return ids


@st.composite
def keywords(draw, family, names):
    ids = draw(identifiers(family, names))
    if ids is None:
        return None
    order = draw(st.permutations(sorted(ids)))
    statements = [[k, *ids[k]] for k in order]
    for k in draw(st.lists(st.sampled_from(OTHERS), max_size=4, unique=True)):
        statements.insert(draw(st.integers(0, len(statements))),
                          [k, *draw(generic())])
    return {"statements": statements,
            "place": draw(st.sampled_from(
                ["top", "top", "bottom", "group", "first object"]))}


def text_of(value, how):
    if how in ("int", "real"):
        return str(value)
    if how == "set":
        return "{" + q(value) + ", " + q("OTHER") + "}"
    if how == "tuple":
        return "(" + q(value) + ", " + q("OTHER") + ")"
    if how in ("null", "na") or how == "empty":
        return {"null": "NULL", "na": "N/A", "empty": '""'}[how]
    return q(value) if isinstance(value, str) else str(value)


def kind_for(name, draw):
    for word, kinds in (("TABLE", ["table", "ascii"]), ("HEADER", ["header"]),
                        ("HISTOGRAM", ["histogram"]),
                        ("SPREADSHEET", ["ascii"]),
                        ("ARRAY", ["array"]), ("QUBE", ["qube"]),
                        ("IMAGE", ["image"])):
        if word in name:
            return draw(st.sampled_from(kinds))
    return draw(st.sampled_from(["table", "ascii"]))


@st.composite
def objects(draw, family):
    names = draw(st.lists(st.sampled_from(NAMES + ["TABLE", "IMAGE"] * 3),
                          min_size=1, max_size=3, unique=True))
    by_name = [c for c in family[1] if c[0] == "@name"] if family else []
    if by_name and draw(st.integers(0, 4)):
        meant = [n for n in NAMES + RARE if all(matches(c, n)
                                                for c in by_name)]
        if meant:
            name = draw(st.sampled_from(meant))
            names = [name] + [n for n in names if n != name][:1]
    out = []
    for name in draw(st.permutations(names)):
        kind = kind_for(name, draw)
        o = {"kind": kind, "name": name, **draw(O.BODY[kind]())}
        if kind == "table" and draw(st.integers(0, 2)) == 0:
            f = draw(c13.bit_fields(0))
            f["bits"][-1]["name"] = draw(st.sampled_from(
                ["NADIR_OFFSET_SIGN", "SPARE", "TLM_FRMT_ID"]))
            o["t"]["fields"].append(f)
            o["t"]["order"] = None
        out.append(o)
    return out


def families(which):
    return st.one_of(st.just(None), *[st.sampled_from(which)] * 6)


@st.composite
def cases(draw):
    family = draw(families(RELEVANT))
    objs = draw(objects(family))
    names = [o["name"] for o in objs] + ["LABEL"]
    lay = draw(c08.layouts(len(objs)))
    return {"objs": objs, "layout": lay, "fill": draw(fills()),
            "seed": draw(seeds()), "keywords": draw(keywords(family, names))}


RELEVANT = [f for f in FAMILIES if f[0] not in ("fits_start_byte",
                                                "pds4_cases")]
FITS_ONLY = [f for f in FAMILIES if f[0] == "fits_start_byte"]


def statements(kw):
    return [[k, text_of(v, how)] for k, v, how in kw["statements"]]


def run(case, ctx):
    kw = case["keywords"]
    if kw is None:
        return
    objs = case["objs"]
    with ctx.building():
        built, wants = [], []
        for i, o in enumerate(objs):
            payload, block, want = O.build(o, case["seed"] + i, case["fill"])
            built.append((o["name"], payload, block, o["kind"]))
            wants.append(want)
        paths = []
        for sub, more in (("plain", None), ("named", statements(kw))):
            d = ctx.dir / sub
            d.mkdir()
            lay = dict(case["layout"])
            its = built
            if more and kw["place"] == "first object":
                n, p, b, k = built[0]
                its = [(n, p, b + more, k)] + built[1:]
            elif more and kw["place"] == "group":
                lay["bottom"] = [["GROUP", "PARAMETERS", more]]
            elif more:
                lay[kw["place"]] = more
            paths.append(c08.write(its, lay, d))
    ctx.tag(kw["place"], *{how for _, _, how in kw["statements"]})
    ctx.nontrivial(len(kw["statements"]) > 0)
    plain, named = (read(p) for p in paths)
    require(sorted(named.keys()) == sorted(plain.keys()), lambda: (
        f"with other descriptive keywords there are {named.keys()}, not "
        f"{plain.keys()}"))
    for o, want in zip(objs, wants):
        O.check(named, o, want, "with other descriptive keywords: ")
        got = get(named, o["name"])
        base = get(plain, o["name"])
        require(c25.same(got, base), lambda: (
            f"{o['name']} differs with other descriptive keywords"))
        if o["kind"] in ("image", "qube", "array"):
            require(c25.same(named.get_scaled(o["name"]),
                             plain.get_scaled(o["name"])), lambda: (
                f"scaled {o['name']} differs with other descriptive "
                f"keywords"))


# --------------------------------------------------- FITS files with labels
@st.composite
def fits_cases(draw):
    c = draw(c19.cases("PDS3"))
    for f in c["files"]:
        f["far"] = None
    names = [o["name"] for o in c["objs"]] + ["LABEL"]
    return {"case": c, "keywords": draw(keywords(draw(
        families(FITS_ONLY + FITS_ONLY + RELEVANT)), names))}


def run_fits(case, ctx):
    kw = case["keywords"]
    if kw is None:
        return
    with ctx.building():
        paths = []
        for sub in ("plain", "named"):
            d = ctx.dir / sub
            d.mkdir()
            path, files, keys = c19.write_pds3(case["case"], d)
            if sub == "named":
                text = path.read_bytes().decode()
                more = statements(kw)
                if kw["place"] in ("group", "first object"):
                    more = [["GROUP", "PARAMETERS", more]]
                head, tail = text.split("\n", 1)
                if kw["place"] == "bottom":
                    body = text.rstrip()
                    assert body.endswith("END")
                    text = body[:-3] + render(more) + "END\r\n"
                else:
                    text = head + "\n" + render(more) + tail
                path.write_bytes(text.encode())
            paths.append(path)
    ctx.tag(kw["place"], "fits")
    ctx.nontrivial(len(kw["statements"]) > 0)
    plain, named = (read(p) for p in paths)
    require(sorted(named.keys()) == sorted(plain.keys()), lambda: (
        f"with other descriptive keywords there are {named.keys()}, not "
        f"{plain.keys()}"))
    for k in keys:
        a, b = get(named, k), get(plain, k)
        require(c25.same(a, b), lambda: (
            f"{k} differs with other descriptive keywords: {str(a)[:200]}, "
            f"not {str(b)[:200]} ({warned(named)})"))


# ------------------------------------------------------- names of directories
PLACES = ["CE1", "CE2_P.2A", "CE3.01", "slice", "price.01", "MAG_1_DOY_V1.TAB",
          "_DOY_BIO_", "_V1.TAB", "HUY_DTWG_ENTRY_AERO", "TRAJ_ICE", ".txt",
          "x.img", "ODF", "ch2_cla_l1_2020", "CE6-L_GRAS_LMS-M_SCI_P.2B",
          "CE6-L_GRAS_LMS-N", "CE5-L_GRAS_LMS-N_SCI.2B", "SCI", ".2B", ".2A",
          "CE4_GRAS_ASAN-SCI_SCI.2B", "CE4_GRAS_VNIS-SD_SCI.2B",
          "CE4_GRAS_LND-TID_SCI.2A", "CE3_BMYK_VNIS-CC_SCI_", "IMQ", "a.fits",
          "p.xml", "data.gz"]
NOTES = ["R\u00e9sum\u00e9", "10 \u00b5m", "\u4e2d\u6587", "plain", "\u03b1\u03b2\u00b0"]


@st.composite
def places(draw):
    case = draw(PR.products(["pds3", "pds3", "prefix", "pds4", "pds4",
                             "pds4fits"]))
    if case["kind"] == "pds4":
        for o in case["objs"]:
            if draw(st.booleans()):
                o["ident"] = draw(st.sampled_from(
                    [[None, ""], [None, ""], ["id", "data"]]))
                break
    return {"case": case, "note": draw(st.sampled_from(NOTES)),
            "inside": draw(st.lists(st.sampled_from(PLACES), min_size=1,
                                    max_size=3)),
            "together": draw(st.booleans())}


def run_places(case, ctx):
    with ctx.building():
        where = (["_".join(case["inside"])] if case["together"]
                 else case["inside"])
        paths = []
        for i, parts in enumerate([["plain"], ["special"] + where]):
            d = ctx.dir.joinpath(*parts)
            d.mkdir(parents=True)
            path, keys = PR.write(case["case"], d)
            if path.suffix.lower() == ".lbl":
                text = path.read_bytes()
                assert text.rstrip().endswith(b"END")
                path.write_bytes(
                    text.rstrip()[:-3] + f'NOTE = "{case["note"]}"\r\nEND\r\n'
                    .encode())
            paths.append(path)
    ctx.tag(case["case"]["kind"])
    ctx.nontrivial(True)
    plain, moved = (read(p) for p in paths)
    require(list(plain.keys()) == list(moved.keys()), lambda: (
        f"objects {moved.keys()}, but {plain.keys()} in another directory"))
    for k in plain.keys():
        a, b = get(moved, k), get(plain, k)
        require(c25.same(a, b), lambda: (
            f"{k} is {str(a)[:200]}, but {str(b)[:200]} in another directory "
            f"({warned(moved)})"))
    require(moved.metaget_("NOTE") == plain.metaget_("NOTE"), lambda: (
        f"NOTE is {moved.metaget_('NOTE')!r}, but "
        f"{plain.metaget_('NOTE')!r} in another directory"))


CHECK = Check(
    property="C31",
    rule=("an ordinary product is written without and with identifying "
          "keywords that no specially-handled product has (often those of "
          "one in all respects but one), or in two directories; non-trivial = "
          "some keyword given, or in two directories"),
    suites=[Suite("keywords", cases, run, quick=3000, thorough=60000),
            Suite("fits", fits_cases, run_fits, quick=200, thorough=8000),
            Suite("places", places, run_places, quick=300, thorough=8000)],
    assumptions=[
        "the specially-handled products are those of vp/families.py"],
)
