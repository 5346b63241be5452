"""C22: PDS4 tables are read field by field."""
from vp.core import Check, Suite, require
from vp.common import big, get, read, seeds, st, warned
from vp import pds4 as P


def cases(form):
    @st.composite
    def make(draw):
        n = draw(st.sampled_from([1, 1, 1, 2, 3]))
        return {
            "tables": [draw(P.tables(form)) for _ in range(n)],
            "idents": [[draw(P.idents()), f"table{i}"] for i in range(n)],
            "gaps": [draw(st.sampled_from([0, 0, 1, 33])) for _ in range(n)],
            "kind": draw(st.sampled_from(
                ["Product_Observational"] * 4 + sorted(P.AREA))),
            "inventory": form == "delimited" and draw(st.integers(0, 3)) == 0,
            "loads": list(draw(st.permutations(range(n)))),
            "trailer": draw(st.sampled_from([0, 0, 1, 90])),
            "seed": draw(seeds()),
        }
    return make


def large(form, only=None):
    def long(draw, case):
        for t in case["tables"]:
            t["records"] = draw(st.integers(250, 2500))

    def longest(draw, case):
        t = case["tables"][0]
        t["nodes"] = [n for n in t["nodes"] if n["kind"] == "field"][:1] or (
            t["nodes"][:1])
        t["records"] = draw(st.integers(32000, 70000))

    def apart(draw, case):
        case["gaps"] = [draw(st.integers(10 ** 5, 3 * 10 ** 6))
                        for _ in case["gaps"]]

    def wide(draw, case):
        """records about as long as one, two or more bytes count"""
        t = case["tables"][0]
        t["records"] = draw(st.integers(1, 3))
        fields = [n for n in t["nodes"] if n["kind"] == "field"]
        if not fields:
            fields = [draw(P.field(form))]
            t["nodes"] = fields + t["nodes"]
        if draw(st.booleans()):
            t["nodes"] = fields = fields[:draw(st.sampled_from([1, 1, 2]))]
            t["nulls"] = False
        draw(st.sampled_from(fields)).update(
            type="ASCII_String", full=True, bytes=draw(st.sampled_from(
                [128, 256, 32768, 65536])) + draw(st.integers(-6, 2)))

    if only == "wide":
        return lambda: big(cases(form), wide)
    return lambda: big(cases(form), long, longest, apart, wide)


def run(case, ctx):
    ts = case["tables"]
    with ctx.building():
        built = [P.build_table(t, case["seed"] + i) for i, t in enumerate(ts)]
        body, offsets = P.lay_out(
            [(g, b) for g, (b, _) in zip(case["gaps"], built)],
            case["seed"], case["trailer"])
        nodes = [P.table(t, ident, o, len(b), rec) for t, ident, o, (b, rec)
                 in zip(ts, case["idents"], offsets, built)]
        kind = "Product_Collection" if case["inventory"] else case["kind"]
        if case["inventory"]:
            for node in nodes:
                node[0] = "Inventory"
        label = P.write(ctx.dir, P.product([("t.dat", nodes)], kind=kind),
                        {"t.dat": body})
        keys = [P.key_for(ident, "TABLE", i)
                for i, ident in enumerate(case["idents"])]
    kinds = {f["type"] for t in ts for f, _ in P.flatten(t["nodes"])}
    ctx.tag(*kinds, kind, *{f"groups {len(r)} deep" for t in ts
                      for _, r in P.flatten(t["nodes"])},
            *(["empty fields"] if any(t.get("nulls") for t in ts) else []))
    ctx.nontrivial(sum(len(P.columns(t)) for t in ts) > 1)
    data = read(label)
    require(data.keys() == keys + ["label"], lambda: f"keys {data.keys()}")
    for i in case["loads"]:
        df = get(data, keys[i])
        d = P.diff_table(df, ts[i])
        require(d is None, lambda: f"{keys[i]}: {d} ({warned(data)})")


CHECK = Check(
    property="C22",
    rule=("PDS4 products with 1-3 binary, character or delimited tables of "
          "1-12 records, in products of several kinds with collection "
          "inventories: fields of every binary and ASCII type, gaps, up to "
          "two groups nested up to two deep with padding, any offset, all "
          "four field delimiters, both record delimiters, quoting and empty "
          "fields; every cell must have the stored value, and bytes between "
          "and around fields and tables are random; non-trivial = more than "
          "one column"),
    suites=[
        Suite("binary", cases("binary"), run, quick=400, thorough=15000),
        *(Suite(f"large {form}", large(form), run, quick=24, thorough=400)
          for form in ("binary", "character", "delimited")),
        Suite("character", cases("character"), run, quick=300, thorough=12000),
        Suite("delimited", cases("delimited"), run, quick=400, thorough=15000),
        Suite("wide delimited", large("delimited", "wide"), run, quick=60,
              thorough=1500),
    ],
    assumptions=[
        "spaces at the ends of text values are not compared",
        "empty numeric and boolean fields of delimited tables must read as "
        "missing values; fixed-width tables have none",
        "no bit fields within packed data fields; groups nest at most two deep",
    ],
)
