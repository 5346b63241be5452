"""C34: objects are what the classes at the ends of their names say."""
from vp.core import Check, Suite, require
from vp.common import fills, read, seeds, st
from vp import objects as O
from vp.checks import c08

CLASS = {"image": ["IMAGE"], "qube": ["QUBE"],
         "table": ["TABLE", "SERIES", "SPECTRUM"],
         "ascii": ["TABLE", "SERIES"],
         "histogram": ["HISTOGRAM"], "array": ["ARRAY"],
         "header": ["HEADER"]}
# what kinds of data are about; some hold the names of classes or begin or
# end with them
WORDS = ["CONTEXT", "TEXTURE", "DESCENT", "PROFILE", "SUBARRAY", "FILTER",
         "DETECTOR_ARRAY", "DISARRAY", "FULL_FRAME", "THUMBNAIL", "L2",
         "PORTABLE", "TURNTABLE", "STABLE", "IMAGER", "IMAGE", "TABLE",
         "HISTOGRAM", "SPECTRUM", "POWER_SPECTRUM", "TIME_SERIES", "ARRAY",
         "HEADER", "SPECTRAL", "FILE", "TEXT", "QUBIT", "CONTAINER",
         "DESCRIPTION", "FILENAME", "SERIESES", "DESCENDING", "RED", "NEW",
         "FILENAMES", "QUALITY", "COLUMN", "DOCUMENT", "ERROR", "HEADERS",
         "INSTRUCTION", "RECONSTRUCTED", "STRUCTURAL", "FILED", "PROFILES",
         "MAP_PROJECTION", "CATALOG", "HISTORY", "HISTOGRAMS", "TEXTS",
         "DESCRIBED", "QUICK", "CUBE", "SPREAD", "SHEET", "SERIAL", "SERIES",
         "SPECTRA", "LABELED", "OBJECT", "DATA_OBJECT", "STANDARD", "UNTITLED",
         "XDR", "NAME", "LINE", "FIXED", "SUFFICIENT", "CONTAINED", "TAB"]


@st.composite
def cases(draw):
    objs = draw(O.objects(max_objects=4))
    names = set()
    for o in objs:
        words = draw(st.lists(st.sampled_from([
            w for w in WORDS if o["kind"] != "histogram"
            or not w.startswith("HEADER")]), max_size=2))
        name = "_".join(words + [draw(st.sampled_from(CLASS[o["kind"]]))])
        while name in names or name.startswith("HEADER_HEADER"):
            name = "X_" + name
        names.add(name)
        o["name"] = name
    return {"objs": objs, "layout": draw(c08.layouts(len(objs))),
            "fill": draw(fills()), "seed": draw(seeds())}


def run(case, ctx):
    with ctx.building():
        built, wants = [], []
        for i, o in enumerate(case["objs"]):
            payload, block, want = O.build(o, case["seed"] + i, case["fill"])
            built.append((o["name"], payload, block, o["kind"]))
            wants.append((o, want))
        label = c08.write(built, case["layout"], ctx.dir)
    ctx.tag(*{o["kind"] for o, _ in wants})
    ctx.nontrivial(any("_" in o["name"] for o, _ in wants))
    data = read(label)
    keys = sorted(x for x in data.keys() if x != "LABEL")
    require(keys == sorted(o["name"] for o, _ in wants),
            lambda: f"keys {keys}")
    for o, want in wants:
        O.check(data, o, want)


CHECK = Check(
    property="C34",
    rule=("1-4 objects of all kinds whose names end in the names of their "
          "classes and begin with other words, some of which are or contain "
          "names of other classes; each must be read as what it is; "
          "non-trivial = some name has several words"),
    suites=[Suite("names", cases, run, quick=1200, thorough=30000)],
    assumptions=[
        "names that contain PREFIX, SUFFIX, STRUCTURE or TIFF are left out "
        "(they have meanings of their own here), as are HISTOGRAMs of HEADERs"
    ],
)
