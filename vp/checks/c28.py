"""C28: opening a product by its data file or by its label."""
import os
import warnings
from pathlib import Path

from vp.core import Check, Suite, Violation, require
from vp.common import read, st
from vp import objects as O
from vp import pds4 as P4
from vp import products as P
from vp.checks import c08, c19
from vp.checks.c25 import same
from vp.checks.c27 import flatten

NAMES = ["a.dat", "B.1.IMG", "x y.dat", "scan-7.TAB", "\u00fcn\u00ef.img",
         "DATA", "img.01.dat", "V1.0_c.QUB", "E0001.dat"]
DIRS = ["d", "my data", "v1.0", "data.lbl", "\u00e9t\u00e9", "deep/er", "A.XML"]
EXTS = {"PDS3": [".lbl", ".LBL", ".Lbl"],
        "PDS4": [".xml", ".XML", ".lblx", ".LBLX", ".Xml"]}


@st.composite
def ways(draw):
    return {"via": draw(st.sampled_from(["label", "data", "data", "both",
                                         "elsewhere"])),
            "form": draw(st.sampled_from(["absolute", "relative", "dot", "up",
                                          "beside"])),
            "type": draw(st.sampled_from(["str", "Path"])),
            "case": draw(st.sampled_from(["same", "same", "lower", "upper"])),
            "opener": draw(st.sampled_from(["read", "open", "Data",
                                            "fastread"])),
            "bare": draw(st.booleans()),
            "skip": draw(st.integers(0, 3)) == 0}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["pds3", "pds3", "pds4", "pds4", "pds3fits",
                                 "pds4fits"]))
    p = draw(P.products([kind]))
    if kind == "pds3":
        p["layout"] |= {"attached": False, "names": [
            f"{i}{draw(st.sampled_from(NAMES))}"
            for i in range(len(p["objs"]))]}
    elif kind == "pds4":
        p["name"] = draw(st.sampled_from(NAMES))
    return {"product": p, "which": draw(st.integers(0, 3)),
            "ext": draw(st.sampled_from(EXTS[kind[:4].upper()])),
            "dir": draw(st.sampled_from(DIRS)),
            "decoys": draw(st.lists(st.sampled_from(
                ["z{}.lbl", "{}2.xml", "{}.txt", "{}.lbl.bak", "q.LBL",
                 "{}_.lblx", "{}.xm", "lbl"]), unique=True, max_size=3)),
            # a label in another format beside the one read
            "twin": draw(st.sampled_from([None, None, ".lbl", ".xml", ".lblx",
                                          ".LBL", ".XML"])),
            "ways": draw(st.lists(ways(), min_size=2, max_size=5))}


DECOY = b"PDS_VERSION_ID = PDS3\r\nNOTE = \"another product\"\r\nEND\r\n"


def write(case, d):
    """-> (label, data file)"""
    p, kind = case["product"], case["product"]["kind"]
    if kind == "pds3":
        built = []
        for i, o in enumerate(p["objs"]):
            payload, block, _ = O.build(o, p["seed"] + i, p["fill"])
            built.append((o["name"], payload, block, o["kind"]))
        label = c08.write(built, p["layout"], d)
    elif kind == "pds4":
        body, nodes, _, _ = P.build_pds4(p["objs"], p["seed"])
        label = P4.write(d, P4.product([(p["name"], nodes)]),
                         {p["name"]: body})
    else:
        label, _ = c19.write(p["case"], d, kind[:4].upper())
    files = sorted(f for f in d.iterdir() if f != label)
    data = files[case["which"] % len(files)]
    named = Path(data.stem if data.suffix == ".gz" else data.name)
    label = label.rename(d / (named.stem + case["ext"]))
    if case["twin"] and case["twin"].lower() != label.suffix.lower():
        twin = label.with_suffix(case["twin"])
        if twin.name.lower() != data.name.lower():
            twin.write_bytes(DECOY)
    for decoy in case["decoys"]:
        decoy = d / decoy.format(named.stem)
        if not decoy.exists():
            decoy.write_bytes(DECOY)
    return label, data


def spell(path, way, d):
    """a way to give the path of a file; the working directory is d's parent"""
    name = path.name
    if way["case"] != "same" and way["opener"] != "fastread":
        name = getattr(name, way["case"])()
    parent = path.parent
    form = way["form"]
    rel = parent.relative_to(Path.cwd()) if form != "absolute" else None
    out = {"absolute": lambda: f"{parent}/{name}",
           "relative": lambda: f"{rel}/{name}",
           "dot": lambda: f"./{rel}/{name}",
           "up": lambda: f"{rel}/../{rel.name}/{name}",
           "beside": lambda: name}[form]()
    return Path(out) if way["type"] == "Path" else out


def contents(data):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        keys = list(data.keys())
        return keys, {k: data[k] for k in keys}


def run(case, ctx):
    import pdr

    home = os.getcwd()
    with ctx.building():
        d = ctx.dir / case["dir"]
        d.mkdir(parents=True)
        label, data = write(case, d)
    kind = case["product"]["kind"]
    twins = bool(case["twin"]) and case["twin"].lower() != label.suffix.lower()
    ctx.tag(kind, *["twin labels"] * twins)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = read(label)
    want_keys, want = contents(ref)
    want_meta = flatten(ref.metadata)
    require(want_meta, "no metadata")
    try:
        for way in case["ways"]:
            os.chdir(d if way["form"] == "beside" else ctx.dir)
            via, opener = way["via"], getattr(pdr, way["opener"])
            if via == "elsewhere" and ref.standard == "PDS4":
                via = "both"
            if way["opener"] == "fastread":
                via = "label"
            if twins and via == "data":
                via = "both"
            target, kwargs, moved = data, {}, None
            if data.suffix == ".gz" and way["bare"]:
                target = data.with_suffix("")
            if via == "label":
                target = label
            elif via == "both":
                kwargs["label_fn"] = spell(label, way, d)
            elif via == "elsewhere":
                moved = ctx.dir / f"elsewhere{label.suffix}"
                label.rename(moved)
                kwargs["label_fn"] = str(moved)
            fn = spell(target, way, d)
            if (way["skip"] and way["case"] == "same" and target.exists()
                    and way["opener"] != "fastread"):
                kwargs["skip_existence_check"] = True
            what = f"{way['opener']}({fn!r}, {kwargs})"
            ctx.tag("via " + via, way["form"])
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    got = opener(fn, **kwargs)
                except Exception as ex:
                    raise Violation(f"{what}, label {label.name}: "
                                    f"{type(ex).__name__}: {ex}") from ex
            os.chdir(home)  # where it was opened from no longer matters
            keys, objects = contents(got)
            require(flatten(got.metadata) == want_meta, lambda: (
                f"{what}, label {label.name}: metadata "
                f"{flatten(got.metadata)[:5]} instead of {want_meta[:5]}"))
            require(keys == want_keys, lambda: (
                f"{what}, label {label.name}: keys {keys}, not {want_keys}"))
            for k in keys:
                require(same(objects[k], want[k]), lambda: (
                    f"{what}: {k} is {str(objects[k])[:200]!r}, not "
                    f"{str(want[k])[:200]!r}"))
            ctx.nontrivial(via != "label")
            if moved:
                moved.rename(label)
        if twins:
            return
        # without a label, there is nothing to load
        label.unlink()
        try:
            read(label)
        except (FileNotFoundError, ValueError):
            pass
        else:
            raise Violation(f"{label.name} is gone, but can be read")
        if "fits" not in kind and b"^" not in data.read_bytes():
            try:
                keys = list(read(data).keys())
            except ValueError:
                return
            require(set(keys) <= {"LABEL"},
                    lambda: f"{data.name} has no label, but lists {keys}")
    finally:
        os.chdir(home)


CHECK = Check(
    property="C28",
    rule=(
        "A product with a detached label (PDS3 with any mix of objects and "
        "files; PDS4; FITS files, possibly gzipped, under either kind of "
        "label) in a generated directory, the label sharing the stem of one "
        "of its data files, with an extension in any letter case, among files "
        "with similar names. It is read by the label's absolute path, then "
        "in two to five other ways: by the data file (under the name it has "
        "on disk, in another letter case, with or without its compression "
        "suffix), by the label, or by both, the label being beside the data "
        "or, under PDS3, elsewhere; absolute, relative, dotted; str or Path; "
        "read, open, Data or fastread; the working directory changes between "
        "opening and loading. Metadata, keys and every object must be equal "
        "each time. Then the label is deleted: reading it must raise, and the "
        "data file must be rejected or list no objects. Non-trivial: opened "
        "at least once by its data file."
    ),
    suites=[Suite("open", cases, run, quick=260, thorough=16000)],
    assumptions=[
        "one file of a directory matches the label's name regardless of its "
        "case, and one label its stem",
        "text files without a label are read as labels by design, so those "
        "that hold a pointer character are left out",
    ],
)
