"""C09: filename case and compression do not change what is read."""
import gzip

from vp.core import Check, Suite, require
from vp.common import expect_array, fills, get, read, seeds, st
from vp import objects as O
from vp.checks import c05, c08, c10, c11, c12
from vp import tables as T
from vp.pds3 import compress_bytes, junk, q, render, write_product

STEMS = ["a", "B2", "w1294561143_1", "Obs-01", "FC.21A", "x y", "m1_gz",
         "zip", "c.gz", "E_1.0"]
EXTS = [".dat", ".IMG", ".tab", ".DAT", ".qub", ".gz1", ".b"]
HOWS = ["gz", "bz2", "zip"]


@st.composite
def cases(draw):
    objs = draw(O.objects(max_objects=3))
    n = len(objs)
    lay = draw(c08.layouts(n))
    stems = draw(st.lists(st.sampled_from(STEMS), min_size=n, max_size=n,
                          unique_by=str.lower))
    names = [s + draw(st.sampled_from(EXTS)) for s in stems]
    files = []
    for _ in range(n):
        f = {"flip": draw(st.one_of(st.just(0), st.integers(1, 2 ** 12))),
             "how": draw(st.sampled_from([None, None, *HOWS])),
             "named": draw(st.integers(0, 3)) == 0,
             "ext_upper": draw(st.booleans()),
             "parts": draw(st.sampled_from([1, 1, 2])),
             "rivals": draw(st.lists(st.sampled_from(
                 ["upper", "lower", *HOWS]), max_size=3, unique=True)),
             "decoys": draw(st.lists(st.integers(0, 9), max_size=4,
                                     unique=True))}
        files.append(f)
    return {"objs": objs, "lay": lay, "names": names, "files": files,
            "structure": draw(st.lists(st.sampled_from(
                [None, None, "here", "label"]), min_size=n, max_size=n)),
            "fmt_flip": draw(st.sampled_from([0, 1, 511])),
            "fmt_how": draw(st.sampled_from([None, None, *HOWS])),
            "elsewhere": not lay["attached"] and draw(st.integers(0, 3)) == 0,
            "label_flip": draw(st.sampled_from([0, 0, 1, 5, 1023])),
            "fill": draw(fills()), "seed": draw(seeds())}


def flip(name, mask):
    return "".join(
        c.swapcase() if mask >> (i % 12) & 1 else c
        for i, c in enumerate(name))


def canon(name):
    """what a file's name may stand for"""
    name = name.lower()
    out = {name}
    for h in HOWS:
        if name.endswith("." + h):
            out.add(name[:-len(h) - 1])
    return out


def decoys(name):
    stem, _, ext = name.rpartition(".")
    return [name + "x", "x" + name, stem + "_1." + ext, stem + "." + ext + "l",
            stem + "." + ext[:-1], name + ".bak", name + ".gz.old",
            stem[:-1] + "." + ext, name + ".Z", stem + ".x." + ext]


def run(case, ctx):
    objs, lay = case["objs"], dict(case["lay"])
    with ctx.building():
        built, wants = [], []
        d = ctx.dir / "p" / "data" / "sub"
        d.mkdir(parents=True)
        fmts = []
        for i, o in enumerate(objs):
            payload, block, want = O.build(o, case["seed"] + i, case["fill"])
            if o["kind"] == "table" and case["structure"][i]:
                fn = f"cols{i}.fmt"
                fmts.append((fn, render([b for b in block if len(b) == 3]),
                             case["structure"][i]))
                block = [b for b in block if len(b) < 3] + [
                    ["^STRUCTURE", q(fn)]]
            built.append((o["name"], payload, block, o["kind"]))
            wants.append(want)
        names = []
        for name, f in zip(case["names"], case["files"]):
            if f["named"] and f["how"]:
                s = "." + f["how"]
                name += s.upper() if f["ext_upper"] else s
            names.append(name)
        lay["names"] = names
        label = c08.write(built, lay, d)
        changed = bool(fmts)
        dd = d
        if case["elsewhere"]:
            dd = ctx.dir / "elsewhere"
            dd.mkdir()
            for p in list(d.iterdir()):
                if p != label:
                    p.rename(dd / p.name)
            ctx.tag("search path")
        for fn, text, where in fmts:
            if case["elsewhere"]:
                where = "here"
            fd = d if where == "here" else ctx.dir / "p" / "LABEL"
            fd.mkdir(exist_ok=True)
            disk = flip(fn, case["fmt_flip"])
            if case["fmt_how"]:
                disk += "." + case["fmt_how"]
            (fd / disk).write_bytes(compress_bytes(
                text.encode(), case["fmt_how"], fn))
            ctx.tag(f"structure {where}", f"structure {case['fmt_how']}")
        for k, (name, f) in enumerate(zip(names, case["files"])):
            if not (dd / name).exists():
                continue
            raw = (dd / name).read_bytes()
            (dd / name).unlink()
            how, disk = f["how"], flip(name, f["flip"])
            if how and not f["named"]:
                disk += "." + (how.upper() if f["ext_upper"] else how)
            if how == "gz" and f["parts"] > 1:  # two gzip members
                h = len(raw) // 2
                raw = (gzip.compress(raw[:h], mtime=0)
                       + gzip.compress(raw[h:], mtime=0))
            else:
                raw = compress_bytes(raw, how, name) if how else raw
            (dd / disk).write_bytes(raw)
            changed |= disk != name or bool(how)
            ctx.tag(f"how={how}", "exact name" if disk == name
                    else "other name")
            # an exactly-named file wins over any other variant
            if disk == name:
                for r in f["rivals"]:
                    rn = {"upper": name.upper(), "lower": name.lower()}.get(
                        r, name + "." + r)
                    if not (dd / rn).exists():
                        (dd / rn).write_bytes(compress_bytes(
                            junk(300, k), r if r in HOWS else None))
                        ctx.tag("rivals")
                        changed = True
            for x in f["decoys"]:
                dn = decoys(name)[x]
                if any(canon(dn) & ({m.lower()} | canon(m)) for m in names):
                    continue
                if not (dd / dn).exists():
                    (dd / dn).write_bytes(junk(300, k + x))
                    ctx.tag("decoys")
        if not lay["attached"] and case["label_flip"]:
            label.rename(d / flip(label.name, case["label_flip"]))
            changed = True
        ctx.nontrivial(changed)
        ctx.tag("attached" if lay["attached"] else "detached",
                *{o["kind"] for o in objs})
    extra = {"search_paths": [str(dd)]} if case["elsewhere"] else {}
    data = read(label, **extra)
    keys = sorted(x for x in data.keys() if x != "LABEL")
    require(keys == sorted(o["name"] for o in objs), lambda: f"keys {keys}")
    require(data.metaget_("PDS_VERSION_ID") == "PDS3", "metadata lost")
    for o, want in zip(objs, wants):
        O.check(data, o, want)
        block = data.metablock_(o["name"])
        require(block is not None and block is not data.metadata,
                lambda: f"{o['name']} has no definition")


@st.composite
def text_cases(draw):
    """text tables, whose start may have to be found by reading the file"""
    kind = draw(st.sampled_from(["c11", "c12"]))
    case = draw({"c11": c11, "c12": c12}[kind].cases())
    case["ptr"] = draw(st.sampled_from(["line", "line", case["ptr"]]))
    return {"kind": kind, "table": case,
            "how": draw(st.sampled_from([None, *HOWS])),
            "flip": draw(st.integers(0, 2 ** 12))}


def text_run(case, ctx):
    def tamper(label):
        for p in list(ctx.dir.iterdir()):
            if p.suffix not in (".tab", ".csv"):
                continue
            raw = p.read_bytes()
            p.unlink()
            name = flip(p.name, case["flip"])
            if case["how"]:
                name += "." + case["how"]
                raw = compress_bytes(raw, case["how"], p.name)
            (ctx.dir / name).write_bytes(raw)
            ctx.tag(f"how={case['how']}")
        return label
    {"c11": c11, "c12": c12}[case["kind"]].run(case["table"], ctx, tamper)
    ctx.tag("text")


@st.composite
def labelled_cases(draw):
    """the label says which file a compressed file unpacks to"""
    objs = draw(O.objects(max_objects=3))
    lay = draw(c08.layouts(len(objs)))
    lay |= {"attached": False, "file_objects": True,
            "file_object": "UNCOMPRESSED_FILE", "files": [0] * len(objs)}
    how = draw(st.sampled_from(HOWS))
    name = draw(st.sampled_from(STEMS)) + draw(st.sampled_from(EXTS))
    packed = draw(st.sampled_from([
        name + "." + how, name.rpartition(".")[0] + "." + how,
        "packed." + how, "P_0001.X." + how]))
    return {"alone": draw(st.sampled_from([None, None, "un", "packed"])),
            "objs": objs, "lay": lay, "how": how,
            "name": name, "packed": packed.upper() if draw(st.booleans())
            else packed,
            "stored": draw(st.sampled_from(["packed", "packed", "plain",
                                            "both"])),
            "pointed": draw(st.sampled_from(["name", "name", "packed"])),
            "first": draw(st.booleans()),
            "flips": draw(st.lists(st.one_of(
                st.just(0), st.integers(0, 2 ** 12)), min_size=2,
                max_size=2)),
            "fill": draw(fills()), "seed": draw(seeds())}


def labelled_run(case, ctx):
    objs, lay, how = case["objs"], dict(case["lay"]), case["how"]
    with ctx.building():
        built, wants = [], []
        for i, o in enumerate(objs):
            payload, block, want = O.build(o, case["seed"] + i, case["fill"])
            built.append((o["name"], payload, block, o["kind"]))
            wants.append(want)
        lay["names"] = [case[case["pointed"]]] * len(objs)
        block = ["OBJECT", "COMPRESSED_FILE", [
            ["FILE_NAME", q(case["packed"])], ["RECORD_TYPE", "UNDEFINED"],
            ["ENCODING_TYPE", q(how.upper())],
            ["INTERCHANGE_FORMAT", "BINARY"],
            ["UNCOMPRESSED_FILE_NAME", q(case["name"])],
            ["REQUIRED_STORAGE_BYTES", "12345"]]]
        # there may be only one of the two definitions beside a plain file
        alone = (case["alone"] if case["stored"] == "plain"
                 and case["pointed"] == "name" else None)
        if alone != "un":
            lay["top" if case["first"] else "bottom"] = [block]
        if alone == "packed":
            lay |= {"file_objects": False, "file_object": None}
        label = c08.write(built, lay, ctx.dir)
        if case["pointed"] == "packed":
            text = label.read_bytes().decode()
            at = text.index("UNCOMPRESSED_FILE\r\n")
            text = text[:at] + text[at:].replace(
                q(case["packed"]), q(case["name"]), 1)
            label.write_bytes(text.encode())
        raw = (ctx.dir / lay["names"][0]).read_bytes()
        (ctx.dir / lay["names"][0]).unlink()
        if case["stored"] != "packed":
            (ctx.dir / flip(case["name"], case["flips"][0])).write_bytes(raw)
        if case["stored"] != "plain":
            (ctx.dir / flip(case["packed"], case["flips"][1])).write_bytes(
                compress_bytes(raw, how, case["name"]))
    ctx.tag("labelled", how, case["stored"])
    ctx.nontrivial(case["stored"] != "plain")
    data = read(label)
    keys = sorted(x for x in data.keys() if x != "LABEL")
    require(keys == sorted(o["name"] for o in objs), lambda: f"keys {keys}")
    for o, want in zip(objs, wants):
        O.check(data, o, want)


@st.composite
def large_cases(draw):
    """images and tables of megabytes"""
    kind = draw(st.sampled_from(["c05", "c05", "c10"]))
    case = draw({"c05": c05, "c10": c10}[kind].large())
    if draw(st.integers(0, 2)) == 0:
        if kind == "c10":
            case["t"]["rows"] = draw(st.integers(1, 60))
            case["t"]["tail"] = draw(st.integers(15000, 60000))
        else:
            case["gap"] = draw(st.integers(15000, 60000))
    return {"kind": kind, "case": case | {"attached": False},
            "how": draw(st.sampled_from(HOWS))}


def large_run(case, ctx):
    c, how = case["case"], case["how"]
    with ctx.building():
        if case["kind"] == "c05":
            name = "IMAGE"
            payload, want = c05.encode(c)
            block = c05.block_of(c)
        else:
            name = c["obj"]
            body, want = T.encode(c["t"], c["seed"], c["fill"])
            payload, (block, _) = body.tobytes(), T.table_block(c["t"])
        label, _, _ = write_product(
            ctx.dir, [(name, payload, block)], gap=c["gap"],
            trailer=c["trailer"], seed=c["seed"], compress=how,
            ptr="bytes" if c["ptr"] == "bytes" else "record")
    ctx.tag("large", case["kind"], how)
    ctx.nontrivial(len(payload) > 50000 or c["gap"] > 1000)
    data = read(label)
    if case["kind"] == "c05":
        expect_array(data, name, want)
    else:
        d = T.diff_table(get(data, name), want)
        require(d is None, lambda: d)


CHECK = Check(
    property="C09",
    rule=("1-3 objects of all kinds in files that are renamed in letter case "
          "and/or compressed (gzip incl. multi-member, bzip2, zip), next to "
          "similarly named decoys and, if exactly named, to rival variants; "
          "non-trivial = some file is not plainly stored under its own name "
          "or has rivals; and ASCII tables and spreadsheets (see C11, C12) "
          "in renamed or compressed files, and compressed images and tables "
          "of up to several MB"),
    suites=[Suite("names", cases, run, quick=1200, thorough=24000),
            Suite("labelled", labelled_cases, labelled_run, quick=400,
                  thorough=12000),
            Suite("large", large_cases, large_run, quick=40, thorough=1000),
            Suite("text", text_cases, text_run, quick=600, thorough=16000)],
    assumptions=["file names have an extension"],
)
