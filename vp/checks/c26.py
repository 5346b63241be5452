"""C26: damaged files and definitions affect nothing but what they hold."""
import copy
import random
import warnings

import numpy as np

from vp.core import Check, Suite, require
from vp.common import fills, read, seeds, st
from vp import fits as F
from vp import objects as O
from vp import pds4 as P4
from vp import products as P
from vp.checks import c07, c08, c19
from vp.checks.c25 import same
from vp.pds3 import compress_bytes, junk

DAMAGE = ["missing", "missing", "cut", "cut", "cut", "empty"]


@st.composite
def damage(draw):
    return {"how": draw(st.sampled_from(DAMAGE)),
            "which": draw(st.integers(0, 3)),
            "at": draw(st.floats(0, 1)), "edge": draw(st.integers(0, 3)),
            "delta": draw(st.sampled_from([-1, 0, 1])),
            "order": draw(seeds()), "debug": draw(st.integers(0, 3)) == 0,
            "zip": draw(st.sampled_from([None, None, "gz", "bz2", "zip"]))}


@st.composite
def pds3_cases(draw):
    objs = draw(O.objects(min_objects=2))
    lay = draw(c08.layouts(len(objs)))
    return {"objs": objs, "layout": lay, "fill": draw(fills()),
            "seed": draw(seeds()), "damage": draw(damage())}


@st.composite
def pds4_cases(draw):
    objs = [draw(P.pds4_objects(i)) for i in range(draw(st.integers(2, 5)))]
    return {"objs": objs, "files": sorted(draw(st.lists(
        st.integers(0, 2), min_size=len(objs), max_size=len(objs)))),
        "seed": draw(seeds()), "damage": draw(damage())}


@st.composite
def fits_cases(draw):
    return {"hdus": [draw(F.hdus(True))] + draw(
        st.lists(F.hdus(), min_size=1, max_size=3)),
        "seed": draw(seeds()), "damage": draw(damage())}


def hurt(dam, d, placed):
    """
    damage one of the files; placed: [(file, offset, size)]
    -> (file, bytes that are left of it or None if it is gone)
    """
    files = sorted({f for f, _, _ in placed})
    fn = files[dam["which"] % len(files)]
    path = d / (fn + "." + dam["zip"] if dam["zip"] else fn)
    size = path.stat().st_size
    if dam["how"] == "missing":
        path.unlink()
        return fn, None
    if dam["zip"]:
        left = 0 if dam["how"] == "empty" else min(
            int(size * dam["at"]), size - 1)
        if dam["delta"] > 0 and dam["how"] == "cut":  # not compressed at all
            path.write_bytes(junk(size, dam["order"]))
        else:
            with open(path, "r+b") as f:
                f.truncate(left)
        return fn, None  # no telling what can still be decompressed
    if dam["how"] == "empty":
        left = 0
    else:
        edges = sorted({x for f, a, n in placed if f == fn
                        for x in (a, a + n)})
        left = (edges[dam["edge"] % len(edges)] + dam["delta"]
                if dam["at"] < 0.4 else int(size * dam["at"]))
        left = max(dam.get("floor", 0), min(left, size - 1))
    with open(path, "r+b") as f:
        f.truncate(left)
    return fn, left


def open_it(label, dam):
    from dustgoggles.tracker import TrivialTracker

    if not dam["debug"]:
        return read(label)
    return read(label, debug=True, tracker=TrivialTracker())


def load(data, name):
    """-> (object, warnings)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        obj = data[name]
    return obj, [str(x.message) for x in w]


def is_data(v):
    return isinstance(v, np.ndarray | str | bytes) or type(
        v).__name__ == "DataFrame"


def shuffled(xs, seed):
    xs = list(xs)
    random.Random(seed).shuffle(xs)
    return xs


def fallback(data, name, fn, whole=None):
    """
    what an object that cannot be loaded gives; whole: what it was before, if
    all of it might still be there
    """
    try:
        value, said = load(data, name)
    except Exception:
        require(data.debug, f"{name}: raised out of debug mode")
        return
    if whole is not None and (same(value, whole) or is_data(value) and (
            isinstance(whole, str | bytes)
            or type(whole).__name__ == "DataFrame") and prefix(value, whole)):
        return
    require(not is_data(value), lambda: (
        f"{name} is {str(value)[:150]!r}, but {fn} is damaged"))
    require(said, f"{name}: no warning that {fn} is damaged")
    if data.standard == "PDS3":
        require(value is data.metaget_(name)
                or value == data.metaget_(name),
                lambda: f"{name}: {str(value)[:150]!r} is not its metadata")
    else:
        require(hasattr(value, "items"),
                lambda: f"{name}: {str(value)[:150]!r} is not its metadata")


def rows_of(v):
    return v[:] if isinstance(v, str | bytes) else len(v)


def prefix(got, want):
    """is got the beginning of want?"""
    if type(got).__name__ != type(want).__name__:
        return False
    if isinstance(want, str | bytes):
        return want.startswith(got)
    if len(got) > len(want) or list(got.columns) != list(want.columns):
        return False
    return all(str(a) == str(b) or bool(np.all(a == b))
               for i in range(got.shape[1])
               for a, b in zip(got.iloc[:-1, i], want.iloc[:, i]))


def drive(case, label, d, placed, keys, kinds, ctx, data_only=False):
    """
    placed: [(file, offset, size)]; data_only: whether these are files that
    might be compressed
    """
    dam = case["damage"]
    if data_only:
        with ctx.building():
            for f in {f for f, _, _ in placed} if dam["zip"] else ():
                (d / (f + "." + dam["zip"])).write_bytes(
                    compress_bytes((d / f).read_bytes(), dam["zip"], f))
                (d / f).unlink()
    else:
        dam["zip"] = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        whole = read(label)
        before = {k: whole[k] for k in list(whole.keys())}
    with ctx.building():
        fn, left = hurt(dam, d, placed)
    ctx.tag(dam["how"], *([dam["zip"]] if dam["zip"] else []), *(["debug"] if dam["debug"] else []))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = open_it(label, dam)
    listed = list(data.keys())
    if data.standard == "FITS":  # what is in it is only known from the file
        require(listed == list(before)[:len(listed)],
                lambda: f"keys {listed}, undamaged {list(before)}")
    else:
        require(listed == list(before),
                lambda: f"keys {listed}, undamaged {list(before)}")
    intact = 0
    for i in shuffled(range(len(keys)), dam["order"]):
        name, (f, at, size) = keys[i], placed[i]
        if f != fn or (left is not None and at + size <= left):
            intact += 1
            value, said = load(data, name)
            require(same(value, before[name]), lambda: (
                f"{name}, which is undamaged, is {str(value)[:150]!r}, was "
                f"{str(before[name])[:150]!r} ({said})"))
        elif name not in listed:
            pass
        elif dam["how"] == "missing":
            fallback(data, name, fn)
        elif dam["zip"]:
            fallback(data, name, fn, before[name])
        elif kinds[i] in ("table", "ascii", "header", "histogram"):
            try:
                value, said = load(data, name)
            except Exception:
                require(dam["debug"], f"{name}: raised out of debug mode")
                continue
            if is_data(value):
                require(prefix(value, before[name]), lambda: (
                    f"{name}, of which {max(0, left - at)} of {size} bytes are left, "
                    f"is {str(value)[:150]!r}, was "
                    f"{str(before[name])[:150]!r} ({said})"))
            else:
                require(said, f"{name}: no warning that {fn} is damaged")
        else:
            fallback(data, name, fn)
    ctx.nontrivial(intact > 0 and intact < len(keys))
    # everything else is still there
    for k in before.keys() - set(keys):
        value, said = load(data, k)
        require(same(value, before[k]), lambda: (
            f"{k} is {str(value)[:150]!r} ({said})"))


def run_pds3(case, ctx):
    with ctx.building():
        built = []
        for i, o in enumerate(case["objs"]):
            payload, block, _ = O.build(o, case["seed"] + i, case["fill"])
            built.append((o["name"], payload, block, o["kind"]))
        lay = case["layout"]
        label = c08.write(built, lay, ctx.dir)
        if lay["attached"]:
            # damage what follows the label
            dam = case["damage"]
            dam["how"] = "cut"
            first = min(a for _, a, _ in lay["placed"])
            dam["at"] = max(dam["at"], (first + 1) / label.stat().st_size)
    drive(case, label, ctx.dir, lay["placed"], [o["name"] for o in case["objs"]],
          [o["kind"] for o in case["objs"]], ctx, not lay["attached"])


def run_pds4(case, ctx):
    with ctx.building():
        areas, blobs, placed, keys = [], {}, [], []
        counts = {}
        for f in sorted(set(case["files"])):
            objs = [o for o, g in zip(case["objs"], case["files"]) if g == f]
            body, nodes, _, _ = P.build_pds4(objs, case["seed"] + f)
            fn = f"data{f}.dat"
            areas.append((fn, nodes))
            blobs[fn] = body
            at, sizes = P.pds4_extents(objs, case["seed"] + f)
            placed += [(fn, a, n) for a, n in zip(at, sizes)]
        for o in case["objs"]:
            kind = o["kind"].upper()
            keys.append(P4.key_for(o["ident"], kind, counts.get(kind, 0)))
            counts[kind] = counts.get(kind, 0) + 1
        label = P4.write(ctx.dir, P4.product(areas), blobs)
    drive(case, label, ctx.dir, placed, keys,
          [o["kind"] for o in case["objs"]], ctx)


@st.composite
def other_cases(draw):
    kind = draw(st.sampled_from(["prefix", "pds3fits", "pds4fits"]))
    if kind == "prefix":
        p = draw(c07.cases())
    else:
        p = draw(c19.cases(kind[:4].upper()))
        p["gz"] = False
        for f in p["files"]:
            f["far"] = None
    return {"kind": kind, "p": p, "damage": draw(damage()),
            "format": draw(st.booleans())}


def run_other(case, ctx):
    p, d = case["p"], ctx.dir
    ctx.tag(case["kind"])
    if case["kind"] == "prefix":
        with ctx.building():
            label, results = c07.write(p, d)
        formats = sorted(d.glob("*.fmt"))
        if formats and case["format"]:
            return no_format(case, label, formats, results, ctx)
        size = (d / "prod.dat").stat().st_size
        case["damage"]["how"] = {"cut": "empty"}.get(
            case["damage"]["how"], case["damage"]["how"])
        drive(case, label, d, [("prod.dat", 0, size)] * len(results),
              [n for n, _ in results],
              ["table" if n.endswith("TABLE") else "image"
               for n, _ in results], ctx)
        return ctx.nontrivial()
    writer = c19.write_pds3 if case["kind"] == "pds3fits" else c19.write_pds4
    with ctx.building():
        label, files, keys = writer(p, d)
    placed, kinds = [], []
    for o in p["objs"]:
        name, info = files[o["file"]]
        h = info[o["hdu"]]
        placed.append((name, 0, h["data_at"] + (
            h["size"] if o["part"] == "data" else 0)))
        kinds.append("fits")
    drive(case, label, d, placed, keys, kinds, ctx,
          case["kind"] == "pds3fits")


def no_format(case, label, formats, results, ctx):
    """a format file of a line prefix table is gone"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        before = read(label)
        before.load_all()
    gone = formats[case["damage"]["which"] % len(formats)]
    gone.unlink()
    number = int("".join(c for c in gone.stem if c.isdigit()))
    ctx.tag("no format file")
    ctx.nontrivial()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = open_it(label, case["damage"])
    for i in shuffled(range(len(results)), case["damage"]["order"]):
        name = results[i][0]
        if i == 2 * number + 1:
            fallback(data, name, gone.name)
        else:
            value, said = load(data, name)
            require(same(value, before[name]), lambda: (
                f"{name} is {str(value)[:150]!r} without {gone.name}, was "
                f"{str(before[name])[:150]!r} ({said})"))


def run_fits(case, ctx):
    d = ctx.dir
    with ctx.building():
        # names that are not unique depend on what else there is
        for i, h in enumerate(case["hdus"][1:]):
            h["name"] = f"HDU{i}"
        body, info = F.build(case["hdus"], case["seed"])
        (d / "a.fits").write_bytes(body)
        dam = case["damage"]
        dam["how"] = "cut"
        # the first header at least is there
        dam["floor"] = info[0]["data_at"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        keys = list(read(d / "a.fits").keys())
    require(len(keys) == len(info), lambda: f"keys {keys}")
    placed = [("a.fits", 0, h["data_at"] + h["size"]) for h in info]
    drive(case, d / "a.fits", d, placed, keys, ["fits"] * len(keys), ctx)


GARBAGE = ['"JUNK"', "0", "-1", "N/A", "(1, 2)", '""', "1.5", "99999",
           "UNK", "16 <BITS>", "2004-01-01", "{}", "'X'"]


@st.composite
def definition_cases(draw):
    objs = draw(O.objects(min_objects=2))
    return {"objs": objs, "layout": draw(c08.layouts(len(objs))),
            "fill": draw(fills()), "seed": draw(seeds()),
            "victim": draw(st.integers(0, 3)), "order": draw(seeds()),
            "edits": draw(st.lists(st.tuples(
                st.sampled_from(["drop", "drop", "garble", "garble",
                                 "rename", "twice", "drop block"]),
                st.integers(0, 60), st.sampled_from(GARBAGE)),
                min_size=1, max_size=3))}


def statements(block):
    """every (list, index) of statements, however deep"""
    out = []
    for i, s in enumerate(block):
        out.append((block, i))
        if s[0] in ("OBJECT", "GROUP"):
            out += statements(s[2])
    return out


def garble(block, edits):
    for how, i, value in edits:
        places = statements(block)
        if not places:
            return
        where, j = places[i % len(places)]
        if how in ("drop", "drop block"):
            where.pop(j)
        elif how == "twice":
            where.insert(j, where[j])
        elif where[j][0] in ("OBJECT", "GROUP"):
            where[j][1 if how == "rename" else 1] = "THING"
        elif how == "rename":
            where[j][0] = "X_" + where[j][0].strip("^")
        else:
            where[j][1] = value


def run_definitions(case, ctx):
    with ctx.building():
        built, lay = [], case["layout"]
        for i, o in enumerate(case["objs"]):
            payload, block, _ = O.build(o, case["seed"] + i, case["fill"])
            built.append([o["name"], payload, block, o["kind"]])
        a, b = ctx.dir / "a", ctx.dir / "b"
        a.mkdir(), b.mkdir()
        good = c08.write(built, dict(lay), a)
        v = case["victim"] % len(built)
        block = copy.deepcopy(built[v][2])
        garble(block, case["edits"])
        if any(how == "drop block" for how, _, _ in case["edits"]):
            block = []
        built[v][2] = block
        bad = c08.write(built, dict(lay), b)
    ctx.tag(built[v][3], *{how for how, _, _ in case["edits"]})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        whole, data = read(good), read(bad)
        before = {k: whole[k] for k in list(whole.keys()) if k != "LABEL"}
    require(sorted(data.keys()) == sorted(whole.keys()),
            lambda: f"keys {data.keys()}, undamaged {whole.keys()}")
    for i in shuffled(range(len(built)), case["order"]):
        name = built[i][0]
        value, said = load(data, name)
        if i == v:
            require(is_data(value) or said, lambda: (
                f"{name}, whose definition is damaged, gives "
                f"{str(value)[:100]!r} without a warning"))
            ctx.nontrivial(not is_data(value))
        else:
            require(same(value, before[name]), lambda: (
                f"{name} is {str(value)[:150]!r}, was "
                f"{str(before[name])[:150]!r} ({said})"))


CHECK = Check(
    property="C26",
    rule=("products of several objects (PDS3 of all kinds, line prefix "
          "tables, PDS4, FITS on its own and behind labels) of which one file "
          "is deleted, emptied or cut (often at or next to an object's "
          "edges), one format file is deleted, or one definition is edited "
          "(statements dropped, garbled, renamed, repeated); intact objects "
          "must equal those of the undamaged product, broken ones must warn "
          "and give their metadata (tables and text: or a prefix); "
          "non-trivial = some objects intact and some not"),
    suites=[Suite("pds3", pds3_cases, run_pds3, quick=500, thorough=20000),
            Suite("pds4", pds4_cases, run_pds4, quick=300, thorough=12000),
            Suite("other", other_cases, run_other, quick=300, thorough=12000),
            Suite("definitions", definition_cases, run_definitions, quick=300,
                  thorough=12000),
            Suite("fits", fits_cases, run_fits, quick=150, thorough=6000)],
    assumptions=[
        "the last row of a table cut short may be incomplete",
        "FITS files on their own keep at least their first header, since they "
        "are the only description of what is in them",
        "an object in debug mode may raise instead of warning",
    ],
)
