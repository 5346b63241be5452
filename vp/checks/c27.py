"""C27: malformed labels are read or rejected cleanly."""
import random
import time
import warnings

from vp.core import Check, Suite, require
from vp.common import read, seeds, st
from vp import products as P
from vp import pvlgen as G

TOKENS = [b"OBJECT", b"END_OBJECT", b"GROUP", b"BEGIN_OBJECT", b"END", b"=",
          b"\nEND\r\n", b"^", b"^IMAGE", b"^TABLE", b"(", b")", b"{", b"}",
          b'"', b"'", b"<", b">", b"<BYTES>", b"#", b"16#FF#", b"/*", b"*/",
          b"\r\n", b"\n", b"\0\0\0", b"\\", b"\xff", b"\xc3", b"NULL", b"-",
          b"1e999", b"{{1}, {2}}", b"{[1]}", b"((", b"\\N{X}", b"\\x", b"\t",
          b"= =", b"LINES = ", b"{}", b"()", b"( )", b"\"\"", b"<>", b"2##",
          b"0#1#", b"99#1#", b"'\\", b"\xef\xbb\xbf", b"__import__('os')",
          b"[1, 2]", b"^STRUCTURE", b"1_000", b"0x10", b"0o7", b"010", b"1j",
          b"...", b"None", b"*2", b"9" * 5000, b"<!DOCTYPE", b"&lt;", b"&x;",
          b"</", b"<a>", b"]]>", b"<![CDATA[", b"xmlns=\"\"", b"<?", b"-->"]

KINDS = ["pvl", "pvl", "product", "product", "pds4", "bytes", "tokens"]


@st.composite
def edits(draw):
    return draw(st.lists(st.tuples(
        st.sampled_from(["cut", "delete", "insert", "insert", "insert",
                         "flip", "repeat", "swap", "line", "lines"]),
        st.integers(0, 10 ** 6), st.integers(0, 10 ** 6),
        st.integers(0, len(TOKENS) - 1)), max_size=6))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    case = {"kind": kind, "edits": draw(edits()), "seed": draw(seeds()),
            "ext": draw(st.sampled_from(
                [".lbl", ".LBL", ".lbl", ".img", ".dat", ".tab", ".fmt",
                 "", ".lbl.gz"]))}
    if kind == "pvl":
        case |= {"tree": draw(G.trees()), "lay": draw(G.layouts())}
    elif kind == "product":
        case["product"] = draw(P.products(["pds3", "prefix", "pds3fits"]))
    elif kind == "pds4":
        case["product"] = draw(P.products(["pds4", "pds4fits"]))
        case["ext"] = draw(st.sampled_from([".xml", ".lblx", ".xml"]))
    elif kind == "bytes":
        case["n"] = draw(st.integers(0, 300))
        case["ext"] = draw(st.sampled_from(
            [case["ext"], ".xml", ".lblx"]))
    else:
        case["tokens"] = draw(st.lists(
            st.integers(0, len(TOKENS) - 1), max_size=40))
        case["ext"] = draw(st.sampled_from([case["ext"], ".xml"]))
    return case


def mutate(text, ops):
    for how, i, j, t in ops:
        n = len(text)
        i, j = sorted((i % (n + 1), j % (n + 1)))
        if how == "cut":
            text = text[:j]
        elif how == "delete":
            text = text[:i] + text[min(j, i + 40):]
        elif how == "insert":
            text = text[:i] + TOKENS[t] + text[i:]
        elif how == "flip" and i < n:
            text = text[:i] + bytes([text[i] ^ (1 << t % 8)]) + text[i + 1:]
        elif how == "repeat":
            text = text[:i] + text[i:j] * 2 + text[j:]
        else:
            lines = text.split(b"\n")
            a, b = i % len(lines), j % len(lines)
            if how == "swap":
                lines[a], lines[b] = lines[b], lines[a]
            elif how == "line":
                lines.pop(a)
            else:
                lines[a:a] = [lines[b]] * (1 + t % 4)
            text = b"\n".join(lines)
    return text


def snapshot(d):
    return {str(p): p.read_bytes() for p in sorted(d.rglob("*"))
            if p.is_file()}


def exercise(path, ctx):
    """open it; whatever it yields has to be usable"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            data = read(path)
        except ValueError:
            ctx.tag("rejected")
            return None
        ctx.tag("read")
        keys = list(data.keys())
        require(len(set(keys)) == len(keys) or "keys" in keys,
                lambda: f"keys {keys}")
        str(data), repr(data), str(data.metadata)
        for k in list(data.metadata.fieldcounts):
            data.metaget_(k), data.metablock_(k)
    return data


def run(case, ctx):
    import gzip

    with ctx.building():
        kind = case["kind"]
        if kind == "pvl":
            text = (G.render_tree(case["tree"], case["lay"])
                    + "END" + case["lay"]["eol"]).encode()
        elif kind == "bytes":
            text = random.Random(case["seed"]).randbytes(case["n"])
        elif kind == "tokens":
            text = b"".join(TOKENS[t] for t in case["tokens"])
        else:
            label, _ = P.write(case["product"], ctx.dir)
            text = label.read_bytes()
            label.unlink()
        text = mutate(text, case["edits"])
        path = ctx.dir / f"product{case['ext']}"
        path.write_bytes(gzip.compress(text) if path.suffix == ".gz" else text)
        before = snapshot(ctx.dir)
    ctx.tag(kind)
    data = exercise(path, ctx)
    ctx.nontrivial(bool(case["edits"]) and data is not None)
    require(snapshot(ctx.dir) == before, "files were changed")


# ------------------------------------------------- one corrupted statement
GARBAGE = [b.decode("latin-1") for b in TOKENS
           if not any(x in b for x in (b"=", b"/*", b"\n", b"\r", b"\0", b'"'))]
GARBAGE += ['"a" b', '""', "5 <", "> 5", "<>", "END", "END_OBJECT", "OBJECT",
            "1 2 3", "16#XYZ#", "2#2#", "1 <KM", "(1, 2", "1)", "{1", "}{",
            "N/A <KM>", "-", "--5", "1.2.3", "1e", "'", "((1,2),3", "(,)",
            "#", "##", "# #", "1 # 2", "a#", "<M> 5", "5 <M> <S>", "{,}",
            "(5 <M>, 6 <S", "({1}, 2)", "''", "f'x'", "b'x'", "\\", "\\N",
            "lambda: 5", "*", "[", "]", "[[1], {}]", "{1: 2}", "{[]}"]


@st.composite
def one_bad(draw):
    return {"tree": draw(G.trees()), "lay": draw(G.layouts()),
            "which": draw(st.integers(0, 1000)),
            "how": draw(st.sampled_from(
                ["garbage", "garbage", "garbage", "empty", "drop"])),
            "bad": " ".join(draw(st.lists(st.sampled_from(GARBAGE),
                                          min_size=1, max_size=3)))}


def slots(nodes):
    for i, n in enumerate(nodes):
        if "b" in n:
            yield from slots(n["s"])
        else:
            yield nodes, i


def flatten(block):
    out = []
    for k, v in block.items():
        if isinstance(v, type(block)) or hasattr(v, "getall"):
            out += [("block", k), *flatten(v), ("end", k)]
        else:
            out.append((k, repr(sorted(map(repr, v)))
                        if isinstance(v, set) else repr(v)))
    return out


def one_bad_run(case, ctx):
    with ctx.building():
        tree, lay = case["tree"], case["lay"]
        good = G.render_tree(tree, lay) + "END" + lay["eol"]
        where = list(slots(tree))
        if not where:
            return
        nodes, i = where[case["which"] % len(where)]
        serial = case["which"] % len(where)
        key = nodes[i]["k"]
        if case["how"] == "drop":
            nodes.pop(i)
        else:
            v = case["bad"] if case["how"] == "garbage" else ""
            nodes[i] = {"k": key, "v": {"t": "sym", "v": v}, "wrap": False,
                        "c": None}
        bad = G.render_tree(tree, lay) + "END" + lay["eol"]
        (ctx.dir / "good.lbl").write_bytes(good.encode())
        (ctx.dir / "bad.lbl").write_bytes(bad.encode())
    ctx.tag("one statement", case["how"])
    want = flatten(read(ctx.dir / "good.lbl").metadata)
    data = exercise(ctx.dir / "bad.lbl", ctx)
    require(data is not None, lambda: f"rejected\n{bad[:900]}")
    got = flatten(data.metadata)
    # the statement's own place among the values
    at = [j for j, (k, _) in enumerate(want)
          if k not in ("block", "end")][serial]
    del want[at]
    if case["how"] != "drop":
        require(at < len(got) and got[at][0] == key,
                lambda: f"{key} is gone: {got}\n{bad[:900]}")
        del got[at]
    require(got == want, lambda: (
        f"corrupting {key} changed "
        f"{[(a, b) for a, b in zip(got, want) if a != b][:3]}, "
        f"{len(got)} values instead of {len(want)}\n--- label:\n{bad[:900]}"))
    ctx.nontrivial(len(want) >= 2)


# ------------------------------------------------------------ large labels
PIECES = [t for t in TOKENS if len(t) < 100] + [
    b"^IMAGE = 5\r\n", b"^IMAGE_0 = 5\r\n", b"^TABLE = 1\r\n",
    b"OBJECT = IMAGE\r\n A = 5\r\nEND_OBJECT = IMAGE\r\n",
    b"OBJECT = IMAGE\r\n", b"END_OBJECT = IMAGE\r\n", b"GROUP = A\r\n",
    b"A = 5\r\n", b'A = "', b"A = (", b"A = {", b"1, ", b'"a", ', b"1 <M>, ",
    b"1 <", b"<", b">", b"-1", b"A_", b" ", b"1#", b"16#A", b"text text ",
    b"\nEND ", b"\nEND  \n", b"A = A = A\r\n", b"A\r\n", b"^A_STRUCTURE = 1\n",
    b"/* a */\r\n", b"/*/", b"*//*", b"^DESCRIPTION = \"A\"\r\n", b"1.",
    b"1e5", b"E+", b"^LINE_PREFIX_TABLE = 1\r\n", b"\0", b"\r", b"<a>",
    b"<a ", b"a='b' ", b"&amp;", b"<!-- "]


@st.composite
def large(draw):
    piece = st.integers(0, len(PIECES) - 1)
    return {"parts": draw(st.lists(st.tuples(
        st.lists(piece, min_size=1, max_size=3),
        st.sampled_from([1, 30, 1000, 3000])), min_size=1, max_size=4)),
        "ext": draw(st.sampled_from([".lbl", ".lbl", ".lbl", ".xml",
                                     ".img"])),
        "close": draw(st.integers(0, 60))}


LIMIT = 45_000
SECONDS = 40


def large_run(case, ctx):
    from pdr.parselabel.pds3 import parse_pvl  # noqa: F401  (warm import)

    with ctx.building():
        text = b""
        for pieces, n in case["parts"]:
            part = b"".join(PIECES[i] for i in pieces)
            text += part * min(n, max(1, (LIMIT - len(text)) // len(part)))
        # blocks that are never closed leave nothing to look at
        text += b"\r\nEND_OBJECT\r\n" * case["close"] + b"END\r\n"
        path = ctx.dir / f"product{case['ext']}"
        path.write_bytes(text)
    ctx.tag("large")
    start = time.process_time()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            data = read(path)
            ctx.nontrivial(len(text) > 5000)
            if text.count(b"OBJECT = ") + text.count(b"GROUP = ") < 100:
                str(data.metadata)
        except ValueError:
            pass
    spent = time.process_time() - start
    require(spent < SECONDS, f"{len(text)} bytes took {spent:.0f} s")


CHECK = Check(
    property="C27",
    rule=(
        "mutants: a well-formed PVL tree, PDS3 or PDS4 product label, random "
        "bytes or a soup of PVL/XML/Python tokens, with up to six edits "
        "(cuts, deletions, insertions of delimiters and keywords, flipped "
        "bits, repeated or exchanged lines), opened as a detached or attached "
        "label; it has to give a product whose keys are unique and whose "
        "metadata can be printed and looked up, or ValueError, and leave the "
        "files alone. Non-trivial: edited, and not rejected. statement: one "
        "statement of a PVL tree has its value replaced by junk, emptied or "
        "removed; all others have to read as before. Non-trivial: there are "
        "at least two others. large: up to 45 KB of repeated pathological "
        "fragments must be read or rejected in 40 s of CPU time (it takes "
        "well under 1 s). Non-trivial: over 5 KB, and not rejected."
    ),
    suites=[Suite("mutants", cases, run, quick=1100, thorough=100000),
            Suite("statement", one_bad, one_bad_run, quick=600,
                  thorough=40000),
            Suite("large", large, large_run, quick=100, thorough=4000)],
    assumptions=[
        "junk values of the statement suite stay on their line and hold no "
        "'=', comment opener, null bytes (which end a label) or unbalanced "
        "double quote, which could "
        "legitimately extend over what follows",
        "blocks are nested less than 1000 deep where a label has to be "
        "accepted, and less than 100 deep where it has to be printed",
    ],
)
