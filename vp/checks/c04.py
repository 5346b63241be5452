"""C04: objects with duplicated names."""
from vp.core import Check, Suite, require
from vp.common import expect_array, get, read, seeds, st, warned
from vp.pds3 import junk, pixels, q, render
from vp import tables as T

IMAGES = ["IMAGE", "BROWSE_IMAGE", "IMAGE_MAP"]
TABLES = ["TABLE", "ERROR_TABLE", "DATA_TABLE"]
# longer names, some with parts of words that mean something to pdr
WORDS = ["DESCENT", "DESCENDING", "STRUCTURAL", "CONTEXT", "FILE", "PROFILE",
         "HEADERS", "DESCRIBED", "FILENAME", "TEXTURE", "RED", "MAP_2"]
TEXTS = ["DESCRIPTION", "DESC"]


@st.composite
def cases(draw):
    few = draw(st.booleans())
    n = draw(st.integers(2, 5) if few else st.integers(6, 13))
    pool = draw(st.lists(st.sampled_from(IMAGES + TABLES + TEXTS),
                         min_size=1, max_size=3, unique=True))
    pool = [f"{draw(st.sampled_from(WORDS))}_{x}" if x not in TEXTS + ["IMAGE_MAP"]
            and draw(st.integers(0, 3)) == 0 else x for x in pool]
    names = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n))
    style = draw(st.sampled_from(["flat", "flat", "files"]))
    objs = []
    for i, name in enumerate(names):
        if name in TEXTS:
            objs.append({"name": name, "kind": "text", "n": 5 + i})
        elif any(name.endswith(x) for x in IMAGES):
            objs.append({
                "name": name, "kind": "image",
                "lines": draw(st.integers(1, 4)),
                "samples": draw(st.integers(1, 4)),
                "type": draw(st.sampled_from([
                    ["MSB_UNSIGNED_INTEGER", 1, ">u1"],
                    ["LSB_INTEGER", 2, "<i2"], ["PC_REAL", 4, "<f4"],
                    ["MSB_UNSIGNED_INTEGER", 2, ">u2"]]))})
        else:
            objs.append({
                "name": name, "kind": "table",
                "rows": draw(st.integers(1, 4)),
                "fields": draw(T.fields(depth=0, kinds=("num",),
                                        max_fields=2))})
    return {
        "objs": objs, "style": style,
        "sizes": draw(st.lists(st.integers(1, 3), min_size=n, max_size=n)),
        "order": draw(st.permutations(range(n))),
        "interleave": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
        "separate": draw(st.booleans()),
        "ptr": draw(st.sampled_from(["record", "bytes"])),
        "gap": draw(st.integers(0, 2)), "seed": draw(seeds()),
    }


def payload(o, seed):
    """-> (bytes, block, expected)"""
    if o["kind"] == "text":
        txt = f"text number {seed} " + "x" * o["n"]
        return txt.encode(), None, txt
    if o["kind"] == "image":
        t, w, dt = o["type"]
        a = pixels("bits", seed, o["lines"] * o["samples"], dt).reshape(
            o["lines"], o["samples"])
        return a.tobytes(), [
            ["LINES", str(o["lines"])], ["LINE_SAMPLES", str(o["samples"])],
            ["SAMPLE_TYPE", t], ["SAMPLE_BITS", str(w * 8)]], a
    t = {"fields": o["fields"], "rows": o["rows"], "tail": 0}
    body, cols = T.encode(t, seed)
    return body.tobytes(), T.table_block(t)[0], cols


def same_name_order(order, names):
    """`order` rearranged so that objects of one name stay in order"""
    queues = {}
    for i, n in enumerate(names):
        queues.setdefault(n, []).append(i)
    return [queues[names[i]].pop(0) for i in order]


def write(case, d):
    rb = 16
    names = [o["name"] for o in case["objs"]]
    ptrs, blocks, want = [], [], []
    blobs, fn = {}, "all.dat"
    for i, o in enumerate(case["objs"]):
        body, block, expected = payload(o, case["seed"] + i)
        if o["kind"] == "text":
            f = f"note{i}.txt"
            (d / f).write_bytes(body)
            ptrs.append([f"^{o['name']}", q(f.upper())])
        else:
            if case["separate"]:
                fn = f"part{i}.dat"
            blob = blobs.setdefault(fn, bytearray())
            pad = case["gap"] * rb + (-len(blob)) % rb
            blob += junk(pad, case["seed"] + 50 + i)
            pos = (str(len(blob) // rb + 1) if case["ptr"] == "record"
                   else f"{len(blob) + 1} <BYTES>")
            ptrs.append([f"^{o['name']}", f"({q(fn.upper())}, {pos})"])
            blob += body
        blocks.append(["OBJECT", o["name"], block] if block else None)
        want.append(expected)
    for f, blob in blobs.items():
        (d / f).write_bytes(bytes(blob))
    head = [["PDS_VERSION_ID", "PDS3"], ["RECORD_TYPE", "FIXED_LENGTH"],
            ["RECORD_BYTES", str(rb)]]
    body = []
    if case["style"] == "flat":
        late = []
        for p, inter in zip(ptrs, case["interleave"]):
            body.append(p)
            if inter:
                body.append(["NOTE", q(f"about {p[0][1:]}")])
        order = same_name_order(case["order"], names)
        late = [blocks[i] for i in order if blocks[i]]
        body += late
    else:
        i = 0
        for size in case["sizes"]:
            part = list(range(i, min(i + size, len(ptrs))))
            if not part:
                break
            body.append(["OBJECT", "FILE", (
                [["RECORD_TYPE", "FIXED_LENGTH"], ["RECORD_BYTES", str(rb)]]
                + [ptrs[k] for k in part]
                + [blocks[k] for k in part if blocks[k]])])
            i += size
    label = d / "prod.lbl"
    label.write_bytes((render(head + body) + "END\r\n").encode())
    return label, T.indexed(names), want


def run(case, ctx):
    with ctx.building():
        label, names, want = write(case, ctx.dir)
    ctx.nontrivial(any(n.split("_")[-1].isdigit() for n in names))
    ctx.tag(case["style"], f"duplicates={sum(n[-1].isdigit() for n in names)}")
    data = read(label)
    keys = [k for k in data.keys() if k != "LABEL"]
    require(len(set(keys)) == len(keys), lambda: f"repeated keys: {keys}")
    require(keys == names, lambda: f"keys {keys}, expected {names}")
    order = case["order"]
    for i in order:
        name, o, expected = names[i], case["objs"][i], want[i]
        if o["kind"] == "text":
            got = get(data, name)
            require(got == expected, lambda: f"{name}: {got!r}")
        elif o["kind"] == "image":
            expect_array(data, name, expected)
        else:
            d = T.diff_table(get(data, name), expected)
            require(d is None, lambda: f"{name}: {d} {warned(data)}")
    for i in order:
        if case["objs"][i]["kind"] == "image":
            block = data.metablock_(names[i])
            require(block["LINES"] == case["objs"][i]["lines"]
                    and block["LINE_SAMPLES"] == case["objs"][i]["samples"],
                    lambda: f"definition of {names[i]}: {block}")


CHECK = Check(
    property="C04",
    rule=("labels with 2-13 IMAGE/TABLE/text pointers drawn from one to three "
          "names, definitions shuffled but in order within each name, flat or "
          "inside FILE objects; keys must be the suffixed names in order and "
          "every object must have its own values and definition; non-trivial "
          "= at least one duplicated name"),
    suites=[Suite("duplicates", cases, run, quick=700, thorough=20000)],
    assumptions=["each duplicated name has as many definitions as pointers"],
)
