"""
C33: histories of reading, looking at and modifying several products, each in a
forked process of its own, against what one reading in a fresh process gives.
"""
import gc
import hashlib
import io
import locale
import os
import pickle
import signal
import sys
import tempfile
import warnings

import numpy as np

from vp.core import Check, Hang, HarnessError, Suite, Violation, require
from vp.common import read, seeds, st
from vp import products as P
from vp.checks import c25, c32

KINDS = P.KINDS + ["jpeg", "msl"]
OPS = ["open", "open", "get", "get", "get", "scaled", "edit", "edit", "edit",
       "meta", "browse", "show", "print", "all", "observe", "data", "drop",
       "walk"]


@st.composite
def products(draw):
    kind = draw(st.sampled_from(KINDS))
    if kind == "jpeg":
        return {"kind": kind, "size": [draw(st.integers(20, 90)),
                                       draw(st.integers(20, 90))],
                "seed": draw(seeds()),
                "cut": draw(st.sampled_from([0, 0.2, 0.6]))}
    if kind == "msl":
        case = draw(c32.msl_cases())
        return case | {"kind": kind, "w8": min(case["w8"], 30),
                       "h8": min(case["h8"], 8)}
    p = draw(P.products([kind]))
    if kind in ("pds3", "prefix", "pds3fits"):
        p["extra"] = draw(st.lists(st.sampled_from(
            ["DESCRIPTION", "X_DESC", "LABEL_TEXT", "MISSING_IMAGE"]),
            unique=True, max_size=2))
    return p


def write(p, d):
    if p["kind"] == "jpeg":
        from PIL import Image

        buf = io.BytesIO()
        Image.fromarray(c32.content("noise", p["seed"], (*p["size"], 3))).save(
            buf, "JPEG")
        body = buf.getvalue()
        (d / "a.jpg").write_bytes(body[:int(len(body) * (1 - p["cut"]))])
        return d / "a.jpg"
    if p["kind"] == "msl":
        blob, _ = c32.msl_build(p)
        return c32.msl_write(p, d, blob)
    path, _ = P.write(p, d)
    if p.get("extra"):
        c25.add_pointers(path, p["extra"])
    return path


@st.composite
def cases(draw):
    n = draw(st.integers(1, 3))
    ops = draw(st.lists(
        st.tuples(st.sampled_from(OPS), st.integers(0, 11),
                  st.integers(0, 11)), min_size=2, max_size=25))
    return {"products": [draw(products()) for _ in range(n)], "ops": ops,
            "twin": draw(st.booleans())}


# ------------------------------------------------------- what a reading gives
def digest(b):
    return hashlib.sha1(b).hexdigest()[:16]


def canon(v):
    """a picklable form of a loaded object, equal for equal objects"""
    name = type(v).__name__
    if isinstance(v, np.ma.MaskedArray):
        return ("masked", canon(v.filled(v.dtype.type(0))),
                canon(np.ma.getmaskarray(v)))
    if isinstance(v, np.ndarray):
        if v.dtype.kind == "O":
            return ("array", str(v.shape), [repr(x) for x in v.ravel()])
        return ("array", v.dtype.str, str(v.shape), digest(
            np.ascontiguousarray(v).tobytes()))
    if name == "DataFrame":
        return ("table", [str(c) for c in v.columns],
                [str(t) for t in v.dtypes],
                digest(repr([v.iloc[:, i].tolist()
                             for i in range(v.shape[1])]).encode()))
    if hasattr(v, "to_string"):
        return (name, v.to_string())
    if hasattr(v, "items"):
        return (name, [(str(k), canon(x)) for k, x in v.items()])
    if isinstance(v, (set, frozenset)):
        return (name, sorted(map(repr, v)))
    return (name, repr(v))


def quiet(f, *args, **kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*args, **kwargs)


def one(data, name):
    try:
        return canon(quiet(data.__getitem__, name))
    except Exception as ex:
        return ("raised", type(ex).__name__)


def one_scaled(data, name):
    try:
        return canon(quiet(data.get_scaled, name))
    except Exception as ex:
        return ("raised", type(ex).__name__)


def everything(path):
    """all that one reading of a product gives"""
    try:
        data = quiet(read, path)
    except Exception as ex:
        return {"opening": ("raised", type(ex).__name__)}
    out = {"index": [str(k) for k in data.keys()],
           "standard": str(data.standard), "metadata": canon(data.metadata)}
    for name in list(data.keys()):
        out["object " + name] = one(data, name)
    out["index after loading"] = [str(k) for k in data.keys()]
    again = quiet(read, path)
    for name in list(again.keys()):
        out["scaled " + name] = one_scaled(again, name)
    return out


# -------------------------------------------------------------- process state
def settings():
    return {
        "working directory": os.getcwd(), "environment": dict(os.environ),
        "sys.path": list(sys.path), "np.geterr": dict(np.geterr()),
        "print options": repr(np.get_printoptions()),
        "locale": locale.setlocale(locale.LC_ALL),
        "umask": umask(),
        "warning filters": [repr(f) for f in warnings.filters],
        "stdout": id(sys.stdout), "stderr": id(sys.stderr),
    }


def umask():
    m = os.umask(0o77)
    os.umask(m)
    return m


def tree(*roots):
    out = {}
    for root in roots:
        for p in sorted(root.rglob("*")):
            s = p.stat()
            out[str(p)] = (s.st_mode, s.st_size, s.st_mtime_ns,
                           digest(p.read_bytes()) if p.is_file() else None)
        s = root.stat()
        out[str(root)] = (s.st_mode, s.st_mtime_ns)
    return out


def open_files():
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if target.startswith("/") and not target.startswith("/dev/"):
            out.append(target)
        elif target.startswith("/dev/shm/"):
            out.append(target)
    return sorted(out)


def apart(ctx, f):
    """run f() in a forked process and hand back what it returns"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL, 50)
            try:
                out = ("ok", f())
            except Violation as ex:
                out = ("violation", str(ex))
            except BaseException as ex:
                import traceback

                out = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as pipe:
                pickle.dump(out, pipe)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as pipe:
        raw = pipe.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGVTALRM:
        raise Hang
    if not raw:
        raise HarnessError(f"a forked reading died: status {status}")
    kind, value = pickle.loads(raw)
    if kind == "violation":
        raise Violation(value)
    if kind == "error":
        raise HarnessError(value)
    return value


# ---------------------------------------------------------------- modifying
def edit(v):
    """modify an object in place, every way it lets us"""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size:
            v[...] = v.ravel()[::-1].reshape(v.shape)
            flat = v.reshape(-1)
            if v.dtype.kind in "iu":
                np.invert(v, out=v)
            elif v.dtype.kind in "fc":
                v[...] = 0.5
            elif v.dtype.kind == "S":
                v[...] = b"?"
            del flat
        return
    if type(v).__name__ == "DataFrame":
        for i in range(v.shape[1]):
            try:
                v.isetitem(i, v.iloc[::-1, i].to_numpy())
            except Exception:
                pass
        try:
            v.iloc[0, 0] = 0
        except Exception:
            pass
        v.drop(columns=list(v.columns[:1]), inplace=True)
        return
    if hasattr(v, "clear"):
        deep(v)


def deep(v):
    """empty a nested mapping or list from the inside out"""
    items = list(v.values()) if hasattr(v, "values") else (
        list(v) if isinstance(v, list) else [])
    for x in items:
        if hasattr(x, "clear"):
            deep(x)
    try:
        v.clear()
    except Exception:
        pass


def history(case, paths, base, outdir):
    """run the history; every reading of unmodified things must give what the
    first reading gave"""
    live, done = [], []

    def check(what, got, want):
        if got != want:
            raise Violation(
                f"{what} gives {str(got)[:300]}, but {str(want)[:300]} in a "
                f"fresh process; after {' '.join(done)[-600:]}")

    def observe(i):
        got = everything(paths[i])
        for k in base[i].keys() | got.keys():
            check(f"product {i} ({case['products'][i]['kind']}): {k}",
                  got.get(k), base[i].get(k))

    for op, a, b in case["ops"]:
        done.append(f"{op}({a},{b})")
        if op == "open" or not live:
            i = a % len(paths)
            try:
                data = quiet(read, paths[i])
            except Exception:
                continue
            live.append({"i": i, "data": data, "edited": set(),
                         "meta": False})
            continue
        if op == "observe":
            observe(a % len(paths))
            continue
        me = live[a % len(live)]
        data, want = me["data"], base[me["i"]]
        names = list(data.keys())
        name = names[b % len(names)] if names else None
        if name is None:
            continue
        clean = not me["edited"] and not me["meta"]
        what = f"product {me['i']}: {name}"
        if op == "get":
            got = one(data, name)
            if clean and "object " + name in want:
                check(what, got, want["object " + name])
        elif op == "scaled":
            got = one_scaled(data, name)
            if clean and "scaled " + name in want:
                check(what + " scaled", got, want["scaled " + name])
        elif op == "edit":
            try:
                v = quiet(data.__getitem__, name)
            except Exception:
                continue
            edit(v)
            me["edited"].add(name)
        elif op == "meta":
            me["meta"] = True
            if b % 3 == 0:
                got = data.metablock_(name)
                if hasattr(got, "clear"):
                    deep(got)
            else:
                deep(data.metadata)
        elif op == "browse":
            try:
                quiet(data.dump_browse, outpath=outdir)
            except Exception:
                pass
        elif op == "show":
            try:
                quiet(data.show, name)
            except Exception:
                pass
        elif op == "print":
            repr(data), str(data), repr(data.metadata)
        elif op == "all":
            try:
                quiet(data.load_all)
            except Exception:
                pass
        elif op == "data":
            for fn in sorted(paths[me["i"]].parent.rglob("*")):
                if fn.is_file():
                    try:
                        quiet(read, fn)
                    except Exception:
                        pass
        elif op == "drop":
            live.remove(me)
        elif op == "walk":
            if not clean:
                continue
            for n in list(data.keys()):
                try:
                    quiet(data.metablock_, n)
                    quiet(data.metaget, n)
                except Exception:
                    pass
            if case["products"][me["i"]]["kind"] == "msl":
                continue  # MSL EDRs' blocks are completed when they are read
            check(f"product {me['i']}: metadata", canon(data.metadata),
                  want.get("metadata"))
    for i in range(len(paths)):
        observe(i)
    live.clear()
    # frames of handled exceptions and the like are let go
    sys.last_value = None
    gc.collect()


def run(case, ctx):
    with ctx.building():
        warm()
        paths, dirs = [], []
        for i, p in enumerate(case["products"]):
            d = ctx.dir / f"p{i}"
            d.mkdir()
            paths.append(write(p, d))
            dirs.append(d)
        if case["twin"]:
            # the same product's files, elsewhere, with other contents
            import shutil

            d = ctx.dir / "twin"
            shutil.copytree(dirs[0], d)
            paths.append(d / paths[0].relative_to(dirs[0]))
            dirs.append(d)
            for f in sorted(d.rglob("*")):
                if f.is_file() and f != paths[-1]:
                    b = bytearray(f.read_bytes())
                    b[len(b) // 2:] = b[len(b) // 2:][::-1]
                    f.write_bytes(bytes(b))
            case["products"].append(case["products"][0])
        outdir, cwd, tmp = (ctx.dir / x for x in ("out", "cwd", "tmp"))
        for x in (outdir, cwd, tmp):
            x.mkdir()
        kinds = sorted({p["kind"] for p in case["products"]})
        ctx.tag(*kinds, f"products {len(paths)}", *{o for o, _, _ in
                                                    case["ops"]})
        ctx.nontrivial(sum(o in ("edit", "meta") for o, _, _ in
                           case["ops"]) > 0 and len(case["ops"]) > 3)

    def enter():
        os.chdir(cwd)
        os.environ.update(HOME=str(tmp), TMPDIR=str(tmp))
        tempfile.tempdir = str(tmp)

    def fresh(path):
        enter()
        return everything(path)

    base = [apart(ctx, lambda p=p: fresh(p)) for p in paths]
    before = tree(*dirs, cwd, tmp)

    def whole():
        enter()
        was, files = settings(), open_files()
        history(case, paths, base, outdir)
        now = settings()
        for k in was:
            if was[k] != now[k]:
                raise Violation(f"process-wide setting changed: {k} was "
                                f"{str(was[k])[:200]}, now {str(now[k])[:200]}")
        left = [f for f in open_files() if f not in files]
        require(not left, lambda: f"still open although nothing that was read "
                                  f"is in use any more: {left[:5]}")

    apart(ctx, whole)
    after = tree(*dirs, cwd, tmp)
    for k in before.keys() | after.keys():
        require(before.get(k) == after.get(k),
                lambda: f"{k} was {before.get(k)}, now {after.get(k)}")


WARM = []


def warm():
    """import what pdr imports lazily, so that forked processes need not, and
    so that what imports do to the process is not taken for pdr's doing"""
    if WARM:
        return
    WARM.append(1)
    import importlib

    for m in ("astropy.io.fits", "pvl", "PIL.JpegImagePlugin",
              "PIL.GifImagePlugin", "PIL.TiffImagePlugin", "pandas",
              "matplotlib", "matplotlib.cm", "pdr.pds4_tools", "pdr.browsify",
              "pdr.loaders.datawrap", "pdr.loaders.table", "pdr.loaders.image",
              "pdr.loaders.text", "pdr.loaders.handlers", "pdr._scaling",
              "pdr.parselabel.pds3", "pdr.pil_utils", "dustgoggles.tracker"):
        try:
            importlib.import_module(m)
        except ImportError:
            pass


CHECK = Check(
    property="C33",
    rule="the history modifies something in place and has more than 3 steps",
    suites=[Suite("histories", cases, run, quick=400, thorough=8000)],
    assumptions=[
        "browse files go where dump_browse is told to put them",
        "settings watched: working directory, environment, sys.path, numpy "
        "error state and print options, locale, umask, warning filters; "
        "files still open after everything is dropped",
    ],
)
