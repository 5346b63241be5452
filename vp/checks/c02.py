"""C02: metadata lookups: precedence, defaults, duplicate warnings, history."""
import warnings
from fractions import Fraction

from vp.core import Check, Suite, require
from vp.common import read, st
from vp import pvlgen as P

KEYS = ["NAME", "LINES", "IMAGE", "TABLE", "COLUMN", "A", "B_KEY", "PDS_ID"]
SET_KEYS = KEYS + ["^TABLES", "^STRUCTURE"]
ASK = SET_KEYS + ["MISSING", "name", "LINE", ""]
NEAR = ["COLUMNS", "IMAGE_NAME", "LINE", "TABEL", "B", "KEY_B", "ID", "NAMES",
        "PDS", "INAME", "LINESA", "ABLE", "COLUM", "MAGE", "PDS_KEY", "TABLES",
        "STRUCTURE", "STRUCTURES"]
DEFAULTS = [None, 0, "", "default", 1.5, True, -1, 1, [], [1, 2], {"a": 1}]
OPS = ["metaget", "metaget_", "metablock", "metablock_", "metaget_fuzzy"]


def simple_values():
    return st.one_of(P.ints(), P.strings(), P.symbols(), P.quantities(),
                     P.sequences())


@st.composite
def nodes(draw, depth=3):
    out = []
    for _ in range(draw(st.integers(0 if depth < 3 else 1, 6))):
        if depth and draw(st.integers(0, 2)) == 0:
            out.append({"b": draw(st.sampled_from(["OBJECT", "GROUP"])),
                        "n": draw(st.sampled_from(KEYS)),
                        "s": draw(nodes(depth - 1)), "e": "named"})
        else:
            out.append({"k": draw(st.sampled_from(SET_KEYS)),
                        "v": draw(simple_values()), "wrap": False, "c": None})
    return out


def once(tree, seen):
    """the tree without repetitions of pointers (those get numbered)"""
    return [n | ({"s": once(n["s"], seen)} if "b" in n else {}) for n in tree
            if "b" in n or n["k"][0] != "^" or not (
                n["k"] in seen or seen.add(n["k"]))]


@st.composite
def cases(draw):
    ops = draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(OPS[:4] + OPS),
        "key": st.sampled_from(ASK), "near": st.sampled_from(NEAR),
        "default": st.integers(0, len(DEFAULTS) - 1),
        "on": st.sampled_from(["data", "metadata"]),
        "warn": st.booleans(),
    }), min_size=1, max_size=14))
    return {"tree": once(draw(nodes()), set()), "ops": ops}


def first(tree, key):
    """model: (found, value) -- this level's own keys, then its blocks"""
    for k, v in tree:
        if k == key:
            return True, v
    for _, v in tree:
        if isinstance(v, list):
            ok, got = first(v, key)
            if ok:
                return ok, got
    return False, None


def count(tree, key):
    return sum((k == key) + (count(v, key) if isinstance(v, list) else 0)
               for k, v in tree)


def keys_of(tree):
    for k, v in tree:
        yield k
        if isinstance(v, list):
            yield from keys_of(v)


def common(a, b):
    """length of the longest common subsequence"""
    row = [0] * (len(b) + 1)
    for x in a:
        new = [0]
        for j, y in enumerate(b):
            new.append(row[j] + 1 if x == y else max(row[j + 1], new[j]))
        row = new
    return row[-1]


def nearest(tree, text):
    """keys that are most similar to the text"""
    ratio = {k: Fraction(2 * common(k, text), len(k) + len(text))
             for k in keys_of(tree)}
    return {k for k, r in ratio.items() if r == max(ratio.values())}


def same(got, want):
    if isinstance(want, list):  # a block
        return P.is_map(got) and P.diff_tree(got, want) is None
    return P.same_value(got, want)


def run(case, ctx):
    with ctx.building():
        lay = {"eol": "\r\n", "width": 10, "indent": 2, "blank": 0,
               "sep": ", ", "comments": False}
        # the whole metadata is compared with the tree when a lookup falls
        # back to it, so pdr must see precisely the tree: no extra keys
        txt = P.render_tree(case["tree"], lay)
        tree = P.denote(case["tree"])
        path = ctx.dir / "x.lbl"
        path.write_bytes((txt + "END\r\n").encode())
    data = read(path)
    dup = False
    for i, op in enumerate(case["ops"]):
        key, name = op["key"], op["op"]
        target = data if op["on"] == "data" else data.metadata
        if name == "metaget_fuzzy":
            target = data.metadata
            if count(tree, key) == 0:
                near = nearest(tree, op["near"])
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    got = target.metaget_fuzzy(op["near"])
                require(any(same(got, first(tree, k)[1]) for k in near),
                        lambda: f"metaget_fuzzy({op['near']!r}) gave {got!r},"
                        f" not the value of one of {near}\n{txt}")
                ctx.tag("near")
                continue
        n = count(tree, key)
        found, val = first(tree, key)
        default = DEFAULTS[op["default"]]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            f = getattr(target, name)
            if name == "metaget":
                got = f(key, default, op["warn"])
            elif name == "metaget_":
                got = f(key, default)
            elif name == "metablock":
                got = f(key, op["warn"])
            else:
                got = f(key)
        where = (f"step {i}: {op['on']}.{name}({key!r}, default={default!r}, "
                 f"warn={op['warn']})\n{txt}")
        if "metablock" in name:
            want = None if not found else (
                val if isinstance(val, (list, dict)) else tree)
        else:
            want = val if found else default
        if not found and "metaget" in name:
            require(got is default or (type(got) is type(default)
                    and got == default),
                    lambda: f"missing key gave {got!r}: {where}")
        else:
            require(same(got, want) if want is not None else got is None,
                    lambda: f"got {str(got)[:200]!r}, expected "
                            f"{str(want)[:200]!r}: {where}")
        loud = n > 1 and (name in ("metaget", "metablock") and op["warn"]
                          or name == "metaget_fuzzy")
        dups = [x for x in w if "More than one" in str(x.message)]
        require(bool(dups) == loud,
                lambda: f"{n} occurrences, {len(dups)} warnings: {where}")
        ctx.tag(name, "missing" if not found else
                ("dup" if n > 1 else "single"),
                "block" if isinstance(val, list) else "value")
        dup |= n > 1
    ctx.nontrivial(dup and len(case["ops"]) > 2)


CHECK = Check(
    property="C02",
    rule=(
        "A case is a generated metadata tree over eight key names (so keys "
        "repeat at and across levels) and a sequence of up to 14 lookups "
        "(metaget, metaget_, metablock, metablock_, "
        "metaget_fuzzy with keys that exist or resemble ones that do; via the product or its metadata; with varied "
        "defaults). Every result and warning is compared with a model that "
        "searches the tree. Non-trivial: at least three lookups and a key "
        "that occurs more than once among those looked up."
    ),
    suites=[Suite("lookups", cases, run, quick=2000, thorough=60000)],
    assumptions=[
        "of several equally similar keys metaget_fuzzy may choose any",
        "a quantity with units is a mapping, so a block lookup returns it",
    ],
)
