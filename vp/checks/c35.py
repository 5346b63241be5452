"""C35: objects of data sets that misplace them."""
import warnings

from vp.core import Check, Suite, require
from vp.common import get, read, seeds, st, warned
from vp import quirks as Q
from vp import tables as T
from vp import (  # noqa: F401 (they register quirks)
    quirks_fits, quirks_form, quirks_more, quirks_not, quirks_read)


@st.composite
def cases(draw, names):
    return {"quirk": draw(st.sampled_from(names)), "seed": draw(seeds()),
            "rows": draw(st.integers(1, 8)), "cols": draw(st.integers(1, 6)),
            "dir": draw(st.sampled_from(Q.DIRS)),
            "table": draw(T.tables(depth=0, prefixes=False, items=False))}


def has(data, key):
    """is `key` ("NAME", "scaled NAME", "metadata KEY", "hidden NAME") there"""
    kind, _, name = key.rpartition(" ")
    return kind == "metadata" or (name in data.keys()) == (kind != "hidden")


def value(data, key):
    kind, _, name = key.rpartition(" ")
    if kind == "hidden":
        return None
    if kind == "metadata":
        return data.metaget(name)
    if kind == "scaled":
        return data.get_scaled(name)
    return get(data, key)


def run(group):
    def go(case, ctx):
        with ctx.building():
            m = Q.Maker(case, ctx.dir)
            path, want = group[case["quirk"]](m)
        ctx.tag(case["quirk"])
        ctx.nontrivial(case["rows"] > 1)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            data = read(path)
            for key, diff in (want if case["seed"] % 2 else want[::-1]):
                require(has(data, key), lambda: (
                    f"{case['quirk']}: {key}: keys are {data.keys()}"))
                d = diff(value(data, key))
                require(d is None, lambda: (
                    f"{case['quirk']}: {key}: {d} ({warned(data)})"))
    return go


def suites(group, quick, thorough):
    """several, so that each has enough cases of every quirk"""
    names, n = sorted(group), 12
    parts = [names[i::-(-len(names) // n)]
             for i in range(-(-len(names) // n))]
    return [Suite(f"part{i + 1}", lambda p=p: cases(p), run(group),
                  quick=quick * len(p), thorough=thorough * len(p))
            for i, p in enumerate(parts)]


MADE = ("{} kinds of products with a mistake described in pdr/formats, written "
        "as their files are, with 1-8 rows, 1-6 further columns or bands, "
        "surroundings and directories of any kind, ")
COMMON = [
    "the mistakes are as the documentation of pdr/formats states them (no "
    "archived products are available)",
    "each product has one mistake, and labels are otherwise right",
]

CHECK = Check(
    property="C35",
    rule=(MADE.format(len(Q.WHERE)) + "in any loading order: offsets in other "
          "units, from the file's end or at fixed places, other files, rows "
          "longer than labelled, unknown numbers of rows, wrong HDUs; each "
          "object must have the values written; non-trivial = more than one "
          "row"),
    suites=suites(Q.WHERE, 100, 1500),
    assumptions=COMMON,
)
