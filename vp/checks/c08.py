"""C08: how objects are located makes no difference."""
from vp.core import Check, Suite, require
from vp.common import fills, read, seeds, st
from vp import objects as O
from vp.pds3 import junk, q, render

SIZES = [1, 7, 16, 37, 64, 80, 512]


@st.composite
def layouts(draw, n):
    """how n objects are laid out"""
    attached = draw(st.integers(0, 3)) == 0
    lay = {
        "attached": attached,
        "files": [0] * n if attached or draw(st.booleans()) else draw(
            st.lists(st.integers(0, n - 1), min_size=n, max_size=n)),
        "record_bytes": draw(st.sampled_from(SIZES)),
        "ptrs": draw(st.lists(st.sampled_from(
            ["record", "bytes", "file"]), min_size=n, max_size=n)),
        "gaps": draw(st.lists(st.sampled_from(
            [0, 0, 0, 0, 1, 1, 2, 2, 70, 70, 1500]), min_size=n, max_size=n)),
        "order": draw(st.permutations(range(n))),
        "trailer": draw(st.sampled_from([0, 0, 1, 100])),
        "own": draw(st.lists(st.sampled_from([None, None, None, 5, 24]),
                             min_size=n, max_size=n)),
        "seed": draw(seeds()), "stem": draw(st.sampled_from(["a", "B"])),
        "blocks_first": draw(st.booleans()),
        "units": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
    }
    # each file described by its own FILE object, with its own record size
    lay["file_objects"] = not attached and draw(st.integers(0, 3)) == 0
    lay["file_records"] = draw(st.lists(st.sampled_from(SIZES), min_size=n,
                                        max_size=n))
    return lay


@st.composite
def cases(draw):
    objs = draw(O.objects())
    n = len(objs)
    return {"objs": objs, "layouts": [draw(layouts(n)), draw(layouts(n))],
            "fill": draw(fills()), "seed": draw(seeds())}


def write(built, lay, d):
    """built: [(name, payload, block)]; -> label path"""
    n = len(built)
    fname = [lay["names"][f] if "names" in lay else f"{lay['stem']}{f}.dat"
             for f in lay["files"]]
    rbs = [lay["file_records"][f] if lay["file_objects"]
           else lay["record_bytes"] for f in lay["files"]]
    own = list(lay["own"])
    ptrs = list(lay["ptrs"])
    first_in_file = {}
    for i in lay["order"]:
        first_in_file.setdefault(fname[i], i)
    for i in range(n):
        if ptrs[i] == "file" and (
                lay["attached"] or first_in_file[fname[i]] != i):
            ptrs[i] = "bytes"
        # RECORD_BYTES inside a text object's definition means something else
        if built[i][3] not in ("image", "qube", "table", "histogram"):
            own[i] = None

    def positions(base):
        ends, pos = {f: base for f in fname}, [0] * n
        for i in lay["order"]:
            at = ends[fname[i]]
            if ptrs[i] != "file":
                at += lay["gaps"][i]
            if ptrs[i] == "record":
                rb = own[i] or rbs[i]
                at = -(-at // rb) * rb
            pos[i] = at
            ends[fname[i]] = at + len(built[i][1])
        return pos

    def text(pos):
        groups = {}
        blocks = {}
        for i in range(n):
            name, _, block, _ = built[i]
            f = q(fname[i].upper() if i % 2 and "names" not in lay
                  else fname[i])
            if ptrs[i] == "file":
                v = f
            else:
                v = (str(pos[i] // (own[i] or rbs[i]) + 1)
                     + " <RECORDS>" * lay.get("units", [False] * n)[i]
                     if ptrs[i] == "record" else f"{pos[i] + 1} "
                     + ["<BYTES>", "<bytes>"][
                         lay.get("units", [False] * n)[i]])
                if not lay["attached"]:
                    v = f"({f}, {v})"
            block = block + ([["RECORD_BYTES", str(own[i])]] if own[i] else [])
            groups.setdefault(fname[i], []).append([f"^{name}", v])
            blocks.setdefault(fname[i], []).append(["OBJECT", name, block])
        sts = [["PDS_VERSION_ID", "PDS3"]] + lay.get("top", [])
        if lay["file_objects"]:
            for f in groups:
                i = fname.index(f)
                sts.append(["OBJECT", lay.get("file_object", "FILE"), [
                    ["FILE_NAME", q(f)], ["RECORD_TYPE", "FIXED_LENGTH"],
                    ["RECORD_BYTES", str(rbs[i])]]
                    + (blocks[f] + groups[f] if lay["blocks_first"]
                       else groups[f] + blocks[f])])
        else:
            sts += [["RECORD_TYPE", "FIXED_LENGTH"],
                    ["RECORD_BYTES", str(lay["record_bytes"])]]
            g = [x for f in groups for x in groups[f]]
            b = [x for f in groups for x in blocks[f]]
            sts += b + g if lay["blocks_first"] else g + b
        sts += lay.get("bottom", [])
        return (render(sts) + "END\r\n").encode()

    base, blobs = 0, {}
    if lay["attached"]:
        for _ in range(60):
            pos = positions(base)
            t = text(pos)
            if len(t) <= base:
                break
            base = len(t) + 8
        blobs[fname[0]] = bytearray(t + b" " * (base - len(t)))
    else:
        pos = positions(0)
        t = text(pos)
    lay["placed"] = [(fname[i], pos[i], len(built[i][1])) for i in range(n)]
    for i in lay["order"]:
        b = blobs.setdefault(fname[i], bytearray())
        b += junk(pos[i] - len(b), lay["seed"] + i)
        b += built[i][1]
    for f, b in blobs.items():
        (d / f).write_bytes(bytes(b) + junk(lay["trailer"], lay["seed"] + 99))
    if lay["attached"]:
        return d / fname[0]
    (d / "label.lbl").write_bytes(t)
    return d / "label.lbl"


def run(case, ctx):
    objs = case["objs"]
    with ctx.building():
        built, wants = [], []
        for i, o in enumerate(objs):
            payload, block, want = O.build(o, case["seed"] + i, case["fill"])
            built.append((o["name"], payload, block, o["kind"]))
            wants.append(want)
    ctx.nontrivial(len(objs) > 1 or any(
        p != "file" for x in case["layouts"] for p in x["ptrs"]))
    for k, lay in enumerate(case["layouts"]):
        d = ctx.dir / f"layout{k}"
        with ctx.building():
            d.mkdir()
            label = write(built, lay, d)
        ctx.tag("attached" if lay["attached"] else "detached",
                "file objects" if lay["file_objects"] else "flat",
                f"files={len(set(lay['files']))}",
                *{p for p in lay["ptrs"]}, *{o["kind"] for o in objs})
        data = read(label)
        keys = sorted(x for x in data.keys() if x != "LABEL")
        require(keys == sorted(o["name"] for o in objs),
                lambda: f"keys {keys}")
        for o, want in zip(objs, wants):
            O.check(data, o, want, f"layout {k}: ")


@st.composite
def searches(draw):
    objs = draw(O.objects())
    n = len(objs)
    lay = draw(layouts(n)) | {"attached": False, "file_objects": False}
    lay["names"] = [draw(st.sampled_from(["", "", "sub/", "SUB/"]))
                    + f"{lay['stem']}{i}.dat" for i in range(n)]
    places = draw(st.integers(0, 3))
    return {"objs": objs, "layout": lay, "fill": draw(fills()),
            "seed": draw(seeds()), "places": places,
            # which copies of each file there are: 0 is the label's directory
            "at": [sorted(draw(st.sets(st.integers(0, places), min_size=1)))
                   for _ in range(n)],
            "case": [draw(st.sampled_from(["same", "same", "upper"]))
                     for _ in range(n * (places + 1))],
            "missing": draw(st.booleans()),
            "alone": draw(st.booleans())}


def run_search(case, ctx):
    """files in search paths, the first that has a file giving it"""
    objs, lay, places = case["objs"], case["layout"], case["places"]
    with ctx.building():
        built, wants = [], []
        for i, o in enumerate(objs):
            payload, block, want = O.build(o, case["seed"] + i, case["fill"])
            built.append((o["name"], payload, block, o["kind"]))
            wants.append(want)
        dirs = [ctx.dir / f"p{i}" for i in range(places + 1)]
        for d in dirs:
            for sub in ("sub", "SUB"):
                (d / sub).mkdir(parents=True)
        label = write(built, lay, dirs[0])
        for j, f in enumerate(sorted({f for f, _, _ in lay["placed"]})):
            blob = (dirs[0] / f).read_bytes()
            (dirs[0] / f).unlink()
            for k, at in enumerate(sorted(case["at"][j])):
                target = dirs[at] / f
                if case["case"][j * (places + 1) + at] == "upper":
                    target = target.with_name(target.name.upper())
                # the first copy is the real one
                target.write_bytes(blob if k == 0 else junk(
                    len(blob), case["seed"] + k))
        paths = [str(d) for d in dirs[1:]]
        if case["missing"]:
            paths.insert(0, str(ctx.dir / "nowhere"))
    ctx.tag(f"{len(paths)} search paths",
            *{f"copies={len(x)}" for x in case["at"]})
    ctx.nontrivial(any(min(x) > 0 or len(x) > 1 for x in case["at"]))
    if len(paths) == 1 and case["alone"]:
        paths = paths[0]
    data = read(label, search_paths=paths)
    keys = sorted(x for x in data.keys() if x != "LABEL")
    require(keys == sorted(o["name"] for o in objs), lambda: f"keys {keys}")
    for o, want in zip(objs, wants):
        O.check(data, o, want, f"search paths {paths}: ")


CHECK = Check(
    property="C08",
    rule=("1-4 objects of all kinds written twice with independent physical "
          "layouts (record/byte/file pointers, attached or detached label, "
          "shared or separate files, FILE objects with their own record "
          "sizes, gaps, trailing bytes, order); both must give exactly what "
          "was encoded. search: the files are in the label's directory, in "
          "its subdirectories or in up to three further search paths, later "
          "paths holding other files with the same names; non-trivial = several objects or a non-file pointer"),
    suites=[Suite("layouts", cases, run, quick=1200, thorough=24000),
            Suite("search", searches, run_search, quick=400, thorough=9000)],
    assumptions=["a definition's own RECORD_BYTES governs its pointer"],
)
