"""C24: PDS4 label content is available as metadata."""
import warnings

import numpy as np

from vp.core import Check, Suite, require
from vp.common import get, read, seeds, st
from vp import pds4 as P

TAGS = ["title", "name", "start_date_time", "Time_Coordinates", "comment",
        "Target_Identification", "A", "b_c", "x-y", "sp:Bin", "sp:center",
        "disp:note", "Mission_Area", "type", "Observing_System", "élan",
        "value", "file_size", "lid_reference"]
SPACES = {"sp": "http://pds.nasa.gov/pds4/sp/v1",
          "disp": "http://pds.nasa.gov/pds4/zz/v1"}
TEXTS = ["1", "0", "-1.5", "2004-02-29T00:00:00Z", "N/A", "a b", "x < y & z",
         "\"quoted\" 'text'", "é☃ ü", "null", "true", "00123", "1e5", "]]>",
         "two\n   lines of text", "  padded  ", "long " * 60]
RESERVED = ["metadata", "filename", "keys", "label", "index"]
DEFAULTS = [None, "default", 0, [1]]
NAMES = ["data", "Image Primary", "obj-x", "data_0", "data 1", "DATA", "metadata",
         "filename", "keys", "label", "index"]


@st.composite
def nodes(draw, depth):
    out = []
    for _ in range(draw(st.integers(0 if depth < 3 else 1, 5))):
        tag = draw(st.sampled_from(TAGS))
        attrs = draw(st.sampled_from(
            [{}, {}, {}, {"unit": "m/s"}, {"a": "1", "b": "two & three"}]))
        kind = draw(st.integers(0, 9))
        if depth and kind < 4:
            content = draw(nodes(depth - 1))
        elif kind == 9:
            content = None
        else:
            content = draw(st.sampled_from(TEXTS))
        out.append([tag, content, attrs])
        # repeated siblings
        while draw(st.integers(0, 5)) == 0:
            out.append([tag, draw(st.sampled_from(TEXTS)), {}])
    return out


@st.composite
def objects(draw):
    kind = draw(st.sampled_from(["array", "array", "table", "header"]))
    how = draw(st.sampled_from(["id", "name", "name", "both", None]))
    name = draw(st.sampled_from(NAMES))
    if how in ("id", "both"):
        name = name.replace(" ", "_")
    return {"kind": kind, "ident": [how, name]}


@st.composite
def cases(draw):
    areas = draw(st.lists(st.lists(objects(), min_size=1, max_size=4),
                          min_size=1, max_size=3))
    # local identifiers are unique
    seen = set()
    for area in areas:
        for o in area:
            how, name = o["ident"]
            if how in ("id", "both"):
                while name in seen:
                    name += "x"
                seen.add(name)
                o["ident"] = [how, name]
    return {
        "areas": areas,
        "area_kinds": sorted(draw(st.integers(0, 3)) for _ in areas),
        "tree": draw(nodes(3)), "discipline": draw(nodes(2)),
        "lookups": draw(st.lists(st.tuples(
            st.sampled_from(TAGS + ["missing", "file_name", "axes", "offset",
                                    "logical_identifier", "Discipline_Area"]),
            st.sampled_from(["metaget", "metaget_", "metablock_"]),
            st.integers(0, 3)), max_size=8)),
        "eol": draw(st.sampled_from(["\n", "\r\n"])),
        "comments": draw(st.integers(0, 3)) == 0,
        "bom": draw(st.integers(0, 7)) == 0,
        "prolog": draw(st.integers(0, 2)) == 0,
        "label": draw(st.sampled_from(["product.xml", "p.lblx", "a.b.xml"])),
        "seed": draw(seeds()),
    }


AREA_KINDS = ["File_Area_Observational", "File_Area_Observational_Supplemental",
              "File_Area_Ancillary", "File_Area_Browse"]


def build(case):
    """-> (root, {file: bytes}, [(key if unique, kind, expected)])"""
    areas, files, objs = [], {}, []
    rng = np.random.default_rng(case["seed"])
    counts = {"ARRAY": 0, "TABLE": 0, "HEADER": 0}
    for i, area in enumerate(case["areas"]):
        body, kids, fn = b"", [], f"f{i}.dat"
        for o in area:
            kind, at = o["kind"].upper(), len(body)
            if kind == "ARRAY":
                want = rng.integers(0, 200, 4).astype("u1")
                body += want.tobytes()
                kids.append(P.array("Array", o["ident"], at, [4],
                                    "UnsignedByte"))
            elif kind == "TABLE":
                t = {"form": "binary", "records": 2, "pad": 0, "nodes": [
                    {"kind": "field", "name": "X", "type": "UnsignedByte",
                     "bytes": 1, "gap": 0}]}
                b, rec = P.build_table(t, case["seed"] + len(objs))
                body += b
                kids.append(P.table(t, o["ident"], at, len(b), rec))
                want = t
            else:
                want = bytes(rng.integers(65, 90, 9, dtype="u1"))
                body += want
                kids.append(P.header(o["ident"], at, 9))
            key = P.key_for(o["ident"], kind, counts[kind])
            counts[kind] += 1
            objs.append((key, kind, want))
        files[fn] = body
        areas.append(P.el(AREA_KINDS[case["area_kinds"][i]], [
            P.el("File", [P.el("file_name", fn)]), *kids]))
    root = P.el("Product_Observational", [
        P.el("Identification_Area", [
            P.el("logical_identifier", "urn:nasa:pds:vp:x:y"),
            P.el("title", "t & t")]),
        P.el("Observation_Area", case["tree"] + [
            P.el("Discipline_Area", case["discipline"])]),
        *areas], xmlns=P.NS, **{f"xmlns:{k}": v for k, v in SPACES.items()})
    return root, files, objs


def text_of(root, case):
    out = P.document(root, case["eol"]).decode("utf-8")
    if case["comments"]:
        out = out.replace("<Observation_Area>",
                          "<!-- <title>no</title> --><Observation_Area>"
                          "<!-- é -->", 1)
    if case["prolog"]:
        head, rest = out.split("?>", 1)
        out = (head + '?>' + case["eol"] + '<?xml-model href="x.sch" '
               'schematypens="http://purl.oclc.org/dsdl/schematron"?>' + rest)
    b = out.encode("utf-8")
    return b"\xef\xbb\xbf" + b if case["bom"] else b


def denote(kids):
    """[(tag, text | None | [...])], repeats moved up to their first sibling"""
    out = []
    for tag, content, _ in kids:
        v = denote(content) if isinstance(content, list) and content else (
            content if isinstance(content, str) else None)
        at = [i for i, (t, _) in enumerate(out) if t == tag]
        out.insert(at[-1] + 1 if at else len(out), (tag, v))
    return out


def diff(got, want, path=""):
    if isinstance(want, list):
        if not hasattr(got, "items"):
            return f"{path}: {got!r} is not a block"
        g = list(got.items())
        if [k for k, _ in g] != [k for k, _ in want]:
            return f"{path}: {[k for k, _ in g]}, expected {[k for k, _ in want]}"
        for (k, a), (_, b) in zip(g, want):
            d = diff(a, b, f"{path}/{k}")
            if d:
                return d
        return None
    if want is None:
        ok = got is None or got == "" or (hasattr(got, "items") and not got)
        return None if ok else f"{path}: {got!r}, expected nothing"
    if not isinstance(got, str) or got.split() != want.split():
        return f"{path}: {got!r}, expected {want!r}"
    return None


def first(tree, key):
    for k, v in tree:
        if k == key:
            return True, v
    for _, v in tree:
        if isinstance(v, list):
            ok, got = first(v, key)
            if ok:
                return ok, got
    return False, None


def count(tree, key):
    return sum((k == key) + (count(v, key) if isinstance(v, list) else 0)
               for k, v in tree)


def run(case, ctx):
    with ctx.building():
        root, files, objs = build(case)
        for name, b in files.items():
            (ctx.dir / name).write_bytes(b)
        label = ctx.dir / case["label"]
        label.write_bytes(text_of(root, case))
        tree = denote([root])
    ids = [k for k, _, _ in objs]
    ctx.tag(f"{len(case['areas'])} files", *(
        ["duplicate names"] if len(set(ids)) < len(ids) else []),
        *(["repeats"] if any(count(tree, t) > 1 for t in TAGS) else []))
    ctx.nontrivial(sum(count(tree, t) for t in TAGS) > 3)
    data = read(label)
    d = diff(data.metadata, tree)
    require(d is None, lambda: f"metadata: {d}")
    for i, (key, op, default) in enumerate(case["lookups"]):
        found, want = first(tree, key)
        n, default = count(tree, key), DEFAULTS[default]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            got = (data.metablock_(key) if op == "metablock_"
                   else getattr(data, op)(key, default))
        where = f"lookup {i}: {op}({key!r}), {n} occurrences"
        loud = any("More than one" in str(x.message) for x in w)
        require(loud == (op == "metaget" and n > 1),
                lambda: f"{where}: warning {loud}")
        if op == "metablock_":
            if not found or want is None:
                continue
            want = want if isinstance(want, list) else tree
        elif not found or want is None:
            require(got is default or got is None or want is None and (
                not got), lambda: f"{where}: {got!r}")
            continue
        d = diff(got, want, "")
        require(d is None, lambda: f"{where}: {d}")
    keys = data.keys()
    require(keys[-1] == "label" and len(keys) == len(objs) + 1 and len(
        set(keys)) == len(keys), lambda: f"keys {keys} for objects {ids}")
    for got, want in zip(keys, ids):
        require(got == want if (
            ids.count(want) == 1 and want not in RESERVED) else want in got,
                lambda: f"keys {keys}, expected {ids} + ['label']")
    for key, (_, kind, want) in zip(keys, objs):
        got = get(data, key)
        if kind == "ARRAY":
            ok = P.same(got, want)
        elif kind == "TABLE":
            ok = P.diff_table(got, want) is None
        else:
            ok = (got.encode() if isinstance(got, str) else bytes(got)) == want
        require(ok, lambda: f"{key} ({kind}) of {keys}: {str(got)[:80]}")


CHECK = Check(
    property="C24",
    rule=("PDS4 labels with random element trees (19 tags in three "
          "namespaces, attributes, repeats, empty elements, comments, "
          "processing instructions, byte order marks) and 1-12 objects in up "
          "to three file areas, with names that may repeat; the metadata must "
          "be the tree, lookups the model's answers, and the keys one per "
          "object plus the label, each loading its own data; non-trivial = "
          "more than three generated elements"),
    suites=[Suite("labels", cases, run, quick=800, thorough=30000)],
    assumptions=[
        "attributes are not part of the metadata; runs of white space in text "
        "are equivalent; repeated siblings are listed together",
        "an object whose name is not unique, or is that of an attribute of "
        "pdr.Data, may get a suffix",
        "local identifiers are unique; names need not be",
    ],
)
