"""C01: PVL labels parse to exactly what was written."""
from vp.core import Check, Suite, require
from vp.common import read, st
from vp import pvlgen as P


@st.composite
def cases(draw):
    return {"tree": draw(P.trees()), "lay": draw(P.layouts()),
            "head": draw(st.booleans())}


def build(case):
    nodes = case["tree"]
    if case["head"]:
        nodes = [{"k": "PDS_VERSION_ID", "v": {"t": "sym", "v": "PDS3"},
                  "wrap": False, "c": None}] + nodes
    txt = P.render_tree(nodes, case["lay"])
    return nodes, txt


def kinds(nodes, out):
    for n in nodes:
        if "b" in n:
            out.add("block:" + n["b"])
            kinds(n["s"], out)
        else:
            out.add(n["v"]["t"])
    return out


def flat(want):
    out = []
    for k, v in want:
        if isinstance(v, list):
            out += flat(v)
        out.append(k)
    return out


def run(case, ctx):
    with ctx.building():
        nodes, txt = build(case)
        want = P.denote(nodes)
        eol = case["lay"]["eol"]
        path = ctx.dir / "x.lbl"
        path.write_bytes((txt + "END" + eol).encode())
    ks = kinds(nodes, set())
    ctx.tag(*ks)
    ctx.nontrivial(len(ks) >= 2)
    data = read(path)
    diff = P.diff_tree(data.metadata, want)
    require(diff is None, lambda: f"{diff}\n--- label:\n{txt[:900]}")
    # every key that was written is known to the lookup interface, and only
    # those (pdr.Data.metadata.fieldcounts counts the keys of all levels)
    absent = object()
    for k in set(flat(want)):
        require(data.metaget_(k, absent) is not absent,
                lambda: f"lookup of {k} finds nothing\n{txt[:900]}")


CHECK = Check(
    property="C01",
    rule=(
        "A case is a generated tree of PVL statements (typed values, nested "
        "OBJECT/GROUP blocks, duplicate keys) and a text layout (line "
        "endings, indentation, alignment, blank lines, comments, wrapped "
        "values). The label is rendered, read with pdr.read and compared "
        "with the tree: same keys in the same order at every level, values "
        "equal with the same Python types. Non-trivial: at least two "
        "different kinds of value or block."
    ),
    suites=[Suite("pvl", cases, run, quick=1600, thorough=80000)],
    assumptions=[
        "labels are laid out one statement per line",
        "quoted text holds no double quote, and, if it goes on over lines, no "
        "comment opener; '=' occurs in "
        "continued lines of text only with lowercase letters early on (the "
        "parser tells statements from continued text by their first eight "
        "characters, by design)",
        "sequences hold at least two items",
    ],
)
