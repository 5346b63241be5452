"""C25: lazy loading, reloading and the index over call sequences."""
import warnings

import numpy as np

from vp.core import Check, Suite, Violation, require
from vp.common import read, st
from vp import objects as O
from vp import products as P
from vp.pds3 import q, render

OPS = ["get", "get", "get", "attr", "load", "load", "reload", "reload", "all",
       "load_all", "in", "len", "unloaded", "repr", "keys", "iterate",
       "bad_load", "bad_get", "scaled", "metadata", "edit"]


@st.composite
def cases(draw):
    p = draw(P.products())
    case = {"product": p, "ops": draw(st.lists(
        st.tuples(st.sampled_from(OPS), st.integers(0, 11)),
        min_size=1, max_size=25))}
    # more pointers, for labels that can have them
    case["extra"] = draw(st.lists(st.sampled_from(
        ["DESCRIPTION", "X_DESC", "LABEL_TEXT", "MISSING_IMAGE", "GONE_TABLE"]),
        unique=True, max_size=3)) if p["kind"] in (
        "pds3", "prefix", "pds3fits") and draw(st.booleans()) else []
    return case


IGNORED = ("DESCRIPTION", "X_DESC")


def add_pointers(label, extra):
    text = label.read_bytes()
    end = b"END\r\n"
    at = text.index(b"\r\n" + end) + 2
    more = []
    for name in extra:
        fn = f"{name.lower()}.{'dat' if name in MISSING else 'txt'}"
        more.append([f"^{name}", q(fn.upper())])
        if name in MISSING:
            more.append(["OBJECT", name, [["LINES", "2"], ["COLUMNS", "1"]]])
        else:
            (label.parent / fn).write_bytes(f"text of {name}\r\n".encode())
    label.write_bytes(text[:at] + render(more).encode() + text[at:])


MISSING = ("MISSING_IMAGE", "GONE_TABLE")


def same(a, b):
    if type(a).__name__ != type(b).__name__:
        return False
    if hasattr(a, "to_string") and type(a).__name__ == "Label":
        return a.to_string() == b.to_string()
    if isinstance(a, np.ndarray) and a.dtype.kind == "c":
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(
            a, b, equal_nan=True)
    if isinstance(a, np.ndarray) and a.dtype != b.dtype:
        return False
    if type(a).__name__ == "DataFrame":
        return frames_equal(a, b)
    if hasattr(a, "items"):
        x, y = list(a.items()), list(b.items())
        return len(x) == len(y) and all(
            k == m and (v == w or (v != v and w != w) or str(v) == str(w))
            for (k, v), (m, w) in zip(x, y))
    return bool(np.all(O.same_object(a, b)))


def frames_equal(a, b):
    if list(a.columns) != list(b.columns) or list(a.dtypes) != list(b.dtypes):
        return False
    a, b = a.reset_index(drop=True), b.reset_index(drop=True)
    return a.shape == b.shape and all(
        x is y or x == y or (x != x and y != y)
        or (isinstance(x, complex | np.complexfloating)
            and np.array_equal(x, y, equal_nan=True))
        for i in range(a.shape[1])
        for x, y in zip(a.iloc[:, i], b.iloc[:, i]))


class Fresh:
    """values from products nothing else was done to"""

    def __init__(self, label, keys):
        self.label, self.known, self.base = label, {}, set(keys)

    def __call__(self, name):
        if name not in self.known:
            data = read(self.label)
            if name not in self.base:
                data.load_all()  # it comes with another object
            self.known[name] = data[name]
        return self.known[name]


def run(case, ctx):
    with ctx.building():
        label, want_keys = P.write(case["product"], ctx.dir)
        extra = case["extra"] if label.suffix.lower() == ".lbl" else []
        add_pointers(label, extra) if extra else None
    ctx.tag(case["product"]["kind"], *{o for o, _ in case["ops"]},
            *(["extra"] if extra else []))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        drive(case, label, want_keys and want_keys + list(extra), ctx)


def drive(case, label, want_keys, ctx):
    from pdr.pdr import AlreadyLoadedError

    data = read(label)
    base = list(data.keys())
    require(want_keys is None or sorted(base) == sorted(want_keys),
            lambda: f"keys {base}, expected {want_keys}")
    fresh = Fresh(label, base)
    # opening a PDS4 product reads its label
    loaded, log = {"label"} & set(base), []
    ctx.nontrivial(len(base) > 1 and len(case["ops"]) > 3)

    def fail(msg):
        raise Violation(f"{msg}\nafter: {'; '.join(log)}")

    def check_value(name, value):
        if not same(value, fresh(name)):
            fail(f"{name} is {str(value)[:150]!r}, a fresh read gives "
                 f"{str(fresh(name))[:150]!r}")

    def invariants():
        keys = list(data.keys())
        if keys[:len(base)] != base or len(set(keys)) != len(keys):
            fail(f"keys {keys}, at first {base}")
        for k in keys[len(base):]:
            if not any(k.startswith(x + "_HEADER") for x in loaded):
                fail(f"unexpected key {k}")
            loaded.add(k)
        if "fits" in case["product"]["kind"]:
            # a header is loaded along with the data it belongs to
            loaded.update(k for k in keys if k not in data.unloaded()
                          and "HEADER" in k and loaded - {"label"})
        if set(data.unloaded()) != set(keys) - loaded:
            fail(f"unloaded() is {data.unloaded()}, but {sorted(loaded)} "
                 f"were loaded of {keys}")
        if len(data.unloaded()) != len(set(data.unloaded())):
            fail(f"unloaded() is {data.unloaded()}")
        return keys

    for op, i in case["ops"]:
        keys = list(data.keys())
        name = keys[i % len(keys)]
        log.append(f"{op} {name}")
        if op == "get":
            value = data[name]
            loaded.add(name)
            check_value(name, value)
            if data[name] is not value:
                fail(f"{name} is another object each time")
        elif op == "attr":
            value = getattr(data, name)
            loaded.add(name)
            check_value(name, value)
        elif op == "load":
            if name in loaded:
                try:
                    data.load(name)
                except AlreadyLoadedError:
                    pass
                else:
                    fail(f"loading {name} again without reload did not raise")
            else:
                data.load(name)
                loaded.add(name)
        elif op == "reload":
            data.load(name, reload=True)
            loaded.add(name)
            check_value(name, data[name])
        elif op == "edit" and name in loaded:
            # a reload brings the stored values back
            value = data[name]
            if isinstance(value, np.ndarray) and value.size:
                if not value.flags.writeable:
                    continue
                value[...] = value.ravel()[::-1].reshape(value.shape)
                value[...] = 0
            elif type(value).__name__ == "DataFrame" and value.size:
                value.drop(index=value.index, inplace=True)
            else:
                continue
            if i % 4 == 0 and name not in IGNORED:
                log.append("reload all")
                data.load("all", reload=True)
                loaded |= {k for k in data.keys() if k not in IGNORED}
            else:
                data.load(name, reload=True)
            check_value(name, data[name])
        elif op in ("all", "load_all"):
            data.load("all") if op == "all" else data.load_all()
            loaded |= {k for k in data.keys() if k not in IGNORED}
        elif op == "in":
            if name not in data or "NO SUCH" in data or "keys" in data:
                fail(f"membership of {name}")
        elif op == "len":
            if len(data) != len(data.keys()):
                fail(f"len is {len(data)} for keys {data.keys()}")
        elif op == "unloaded":
            pass
        elif op == "repr":
            text = repr(data) + str(data)
            missing = [k for k in data.keys() if k not in text]
            if missing:
                fail(f"{missing} not in {text!r}")
        elif op == "iterate" and i < 2:
            got = list(data)
            loaded |= set(data.keys())
            for k, v in zip(data.keys(), got):
                check_value(k, v)
        elif op == "bad_load":
            for bad in ("NO SUCH", "metadata", "keys", name.lower() + "?"):
                for kw in ({}, {"reload": True}):
                    try:
                        data.load(bad, **kw)
                    except KeyError:
                        continue
                    fail(f"load({bad!r}) did not raise KeyError")
        elif op == "bad_get":
            try:
                data["NO SUCH"]
            except (KeyError, AttributeError):
                pass
            else:
                fail("data['NO SUCH'] gave something")
        elif op == "scaled":
            if type(fresh(name)).__name__ == "ndarray" and (
                    case["product"]["kind"] != "gif"):
                data.get_scaled(name)
                loaded.add(name)
                check_value(name, data[name])
        elif op == "metadata":
            data.metaget_("LINES")
            data.metablock_(name)
        invariants()
    for k in list(data.keys()):
        check_value(k, data[k])
        loaded.add(k)
        invariants()


CHECK = Check(
    property="C25",
    rule=("products of every standard (PDS3 of all object kinds with line "
          "prefixes, text files and missing files, PDS4, FITS on its own and "
          "behind labels, GIF) put through up to 25 random operations (get, "
          "attribute, load, reload, load all, membership, length, unloaded, "
          "string forms, iteration, unknown names, scaling, editing and "
          "reloading); a model of what is listed and loaded and values of "
          "products nothing else was done to are the oracle; non-trivial = "
          "several objects and more than three operations"),
    suites=[Suite("histories", cases, run, quick=700, thorough=30000)],
    assumptions=[
        "headers of FITS objects may be listed and loaded with the object",
        "load-all leaves documentation pointers (as documented) alone",
    ],
)
