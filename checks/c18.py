"""C18: a failed dump leaves the destination untouched."""
import collections
import functools
import gzip
import io
import os
import pathlib
import shutil
import stat
import tempfile
import threading
import warnings

import numpy as np

from vk import core, estimators as es, values, zoo
from vk.rt import brief

RULE = "a distinct evaluation is one (structure, position, unpersistable element, sink, compression) whose dump raised and whose destination was compared with its state before the call; non-trivial = every one of them"
LEVEL = "fault_enumeration"
TECHNIQUE = ("runtime monitor around dump: snapshots of the destination (bytes, existence, kind, mode, position, recorded write calls) before and after calls made to fail by an element substituted at enumerated positions of "
             "containers, objects, arrays and fitted estimators, by exceptions of many types raised at the n-th state taken, and at the JSON stage")
LEVEL_NOTE = "every catalogue value that cannot be persisted x every container position x every sink kind; every attribute of fitted estimators; random nested structures; payloads up to 40 MB (quick 20 MB) before the failing element"
REQUIRED = {"failed_dumps": 2500, "poisons": 15, "contexts": 25, "sinks": 12, "est_positions": 150, "existing_kept": 500, "absent_kept": 200, "fileobj_kept": 500, "nth_state": 100, "large": 6}

OLD = b"PK\3\4 the bytes that were there before \0\xff" * 50


def plan(tier, seed):
    q = tier == "quick"
    return ([dict(name="enum", part=p, parts=4, timeout_s=850) for p in range(4)] + core.spread("random", 3000 if q else 150000, 4 if q else 12, timeout_s=850)
            + [dict(name="models", n=60 if q else 1500, timeout_s=850), dict(name="nth", n=300 if q else 6000, timeout_s=850), dict(name="large", mb=20 if q else 40, timeout_s=850)])


def run(ctx, shard):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    os.chdir(ctx.tmpdir())
    ctx.sinks_seen = set()
    globals()["run_" + shard["name"]](ctx, shard)
    ctx.count("sinks", len(ctx.sinks_seen))
    os.chdir("/")


# ---------------------------------------------------------------- what cannot be persisted
class Raises:
    def __init__(self, exc, how="getstate"):
        self.exc, self.how = exc, how

    def __getstate__(self):
        if self.how == "getstate":
            raise self.exc
        return {}

    def __reduce_ex__(self, p):
        if self.how == "reduce":
            raise self.exc
        return super().__reduce_ex__(p)

    def __reduce__(self):
        if self.how == "reduce":
            raise self.exc
        return super().__reduce__()


class PropertyDict:
    """whose attributes cannot be looked at"""

    @property
    def __dict__(self):
        raise OSError("no attributes")


class OddModule:
    pass


OddModule.__module__ = 5


class OddState:
    def __getstate__(self):
        return (i for i in [1])


class Countdown:
    """raises when its state is taken for the n-th time (over all instances)"""
    left = 0
    exc = None

    def __init__(self, v):
        self.v = v

    def __getstate__(self):
        Countdown.left -= 1
        if Countdown.left == 0:
            raise Countdown.exc
        return {"v": self.v}


class Unhappy(Exception):
    pass


EXCS = [RuntimeError("x"), TypeError("x"), AttributeError("x"), ValueError("x"), KeyError("x"), OSError(5, "x"), MemoryError("x"), RecursionError("x"), ImportError("x"), StopIteration("x"), NotImplementedError("x"), EOFError("x"),
        UnicodeError("x"), AssertionError("x"), Unhappy("x"), KeyboardInterrupt("x"), SystemExit("x"), GeneratorExit("x"), zoo.RaisesBase("x"), FileNotFoundError(2, "x"), PermissionError(13, "x")]


def _deep(n):
    x = []
    for _ in range(n):
        x = [x]
    return x


def poisons():
    import sys
    out = {"raises_" + type(e).__name__: functools.partial(Raises, e) for e in EXCS}
    out["raises_reduce"] = lambda: Raises(RuntimeError("x"), "reduce")
    out.update(propdict=PropertyDict, oddmodule=OddModule, oddmoduletype=lambda: OddModule, oddstate=OddState, deep=lambda: _deep(sys.getrecursionlimit() + 50), file=lambda: open(os.devnull), thread=threading.Thread,
               objdtype=lambda: np.array([(1, threading.Lock())], dtype=[("a", int), ("b", object)]))
    out.update(values.SPECIALS)
    return out


def fails(thunk, sio):
    """None if the value can be persisted, otherwise why not"""
    try:
        v = thunk()
    except Exception:
        return None
    try:
        sio.dumps(v)
    except BaseException as e:
        return type(e).__name__
    return None


# ---------------------------------------------------------------- where it is put
def _oarr(x, shape=(2, 2), at=(1, 0)):
    a = np.empty(shape, object)
    a[...] = 0
    a[at] = x
    return a


def _attr(t, x, *a):
    o = t(*a)
    o.extra = x
    return o


def _defaultdict(x):
    d = collections.defaultdict(list)
    d["a"] = 1
    d["b"] = x
    return d


def _set_cls(x):
    return {1, x}


CONTEXTS = {
    "bare": lambda x: x, "list first": lambda x: [x, 1, np.arange(3)], "list last": lambda x: [np.arange(3), b"ab", x], "list middle": lambda x: [np.arange(2), x, np.arange(4)], "tuple": lambda x: (1, "a", x), "dict value": lambda x: {"a": np.eye(2), "b": x},
    "dict first value": lambda x: {"a": x, "b": np.eye(2)}, "int keyed": lambda x: {1: x}, "ordered": lambda x: collections.OrderedDict([("a", 1), ("b", x)]), "defaultdict": _defaultdict, "set": _set_cls, "object array": _oarr,
    "object array 0d": lambda x: _oarr(x, (), ()), "object array last": lambda x: _oarr(x, (3,), 2), "attribute": lambda x: zoo.Plain(a=1, b=x), "attribute of attribute": lambda x: zoo.Plain(a=zoo.Plain(b=[x])),
    "state": lambda x: zoo.GetSet([x]), "partial arg": lambda x: functools.partial(zoo.func, x), "partial kw": lambda x: functools.partial(zoo.func, x=x), "partial attr": lambda x: _attr(functools.partial, x, zoo.func), "namedtuple": lambda x: zoo.Point(1, x),
    "reduce args": lambda x: zoo.ReduceArgs(1, x), "bound method": lambda x: zoo.Plain(a=x).meth, "list subclass": lambda x: zoo.MyList([1, x]), "dict subclass": lambda x: zoo.MyDict(a=x),
    "nested 6": lambda x: [{"a": (zoo.Plain(b=[{"c": x}]),)}], "nested 60": lambda x: functools.reduce(lambda a, i: [a] if i % 3 else {"k": a}, range(60), x), "after shared": lambda x: (lambda s: [s, s, {"a": s}, x])(np.arange(5.)), "twice": lambda x: [x, x], "masked fill": lambda x: [np.ma.masked_array([1, 2], [0, 1]), x],
    "after generator": lambda x: [np.random.default_rng(1), np.random.RandomState(1), x], "before generator": lambda x: {"x": x, "g": np.random.default_rng(1)}, "after sparse": lambda x: [values.sp.csr_matrix(np.eye(3)), x],
    "estimator param": lambda x: _est(x), "fitted attr": lambda x: _fitted(x), "pipeline step": lambda x: _pipe(x), "kwarg of transformer": lambda x: _ft(x), "slice": lambda x: slice(0, x), "key": lambda x: {x: 1}, "tuple key": lambda x: {(1, x): 1},
    "many members": lambda x: [np.arange(i) for i in range(40)] + [x],
}


def _est(x):
    from sklearn.linear_model import LogisticRegression
    return LogisticRegression(C=x)


def _fitted(x):
    from sklearn.linear_model import LinearRegression
    e = LinearRegression().fit(np.eye(3), [1, 2, 3])
    e.note_ = x
    return e


def _pipe(x):
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import StandardScaler
    return Pipeline([("a", StandardScaler().fit(np.eye(2))), ("b", x)])


def _ft(x):
    from sklearn.preprocessing import FunctionTransformer
    return FunctionTransformer(np.log1p, kw_args={"a": x})


# ---------------------------------------------------------------- sinks
def snap(p):
    """all that can be seen of a path"""
    try:
        st = os.lstat(p)
    except FileNotFoundError:
        return None
    kind = stat.S_IFMT(st.st_mode)
    if kind == stat.S_IFLNK:
        return ("link", os.readlink(p), snap(os.path.realpath(p)))
    if kind == stat.S_IFDIR:
        return ("dir", sorted(os.listdir(p)))
    with open(p, "rb") as f:
        return ("file", st.st_mode, f.read())


class PathSink:
    def __init__(self, where, before, form=str, watch=()):
        self.where, self.form, self.watch = where, form, [where, *watch]
        self.dest = form(where)
        self.before = [snap(p) for p in self.watch]
        self.existing = before

    def changed(self):
        now = [snap(p) for p in self.watch]
        for p, a, b in zip(self.watch, self.before, now):
            if a != b:
                return f"{p}: {brief(a, 90)} became {brief(b, 90)}"

    def close(self):
        pass


class FileSink:
    """an open file object: position and content behind it, and the bytes that reach it"""

    def __init__(self, f, get=None, tell=True, path=None):
        self.dest, self.get, self.tell = f, get, tell
        self.before = (f.tell() if tell else None, get() if get else None)
        self.existing = None

    def changed(self):
        f = self.dest
        if f.closed:
            return "the file object was closed"
        now = (f.tell() if self.tell else None, None)
        if hasattr(f, "flush"):
            f.flush()
        now = (now[0], self.get() if self.get else None)
        if now != self.before:
            return f"(position, content) {brief(self.before, 90)} became {brief(now, 90)}"
        if self.tell and f.tell() != self.before[0]:
            return f"position {f.tell()} after flush"
        if getattr(f, "received", 0):
            return f"{f.received} bytes were written to the file object"

    def close(self):
        try:
            self.dest.close()
        except Exception:
            pass


class Recorder:
    """a file object that offers nothing but write (and counts)"""
    closed = False

    def __init__(self):
        self.received = 0

    def write(self, b):
        self.received += len(b)
        return len(b)


class RecorderIO(io.BytesIO):
    received = 0

    def write(self, b):
        self.received += len(b)
        return super().write(b)

    def writelines(self, ls):
        for x in ls:
            self.write(x)


class Raw(io.RawIOBase):
    def __init__(self):
        self.received = 0

    def writable(self):
        return True

    def write(self, b):
        self.received += len(b)
        return len(b)


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _fresh():
    for n in os.listdir("."):
        if os.path.isdir(n) and not os.path.islink(n):
            shutil.rmtree(os.path.abspath(n))
        else:
            os.unlink(n)


def _existing(name="old.skops", content=OLD):
    with open(name, "wb") as f:
        f.write(content)
    return name


def sink_str_existing(r):
    return PathSink(_existing(), True)


def sink_path_existing(r):
    return PathSink(_existing("old.bin"), True, pathlib.Path)


def sink_abs_existing(r):
    return PathSink(os.path.abspath(_existing()), True, r.choice([str, pathlib.Path]))


def sink_archive_existing(r):
    import skops.io as sio
    return PathSink(_existing("model.skops", sio.dumps({"a": [1, np.arange(3)]})), True, r.choice([str, pathlib.Path]))


def sink_empty_existing(r):
    return PathSink(_existing("empty", b""), True, r.choice([str, pathlib.Path]))


def sink_readonly_existing(r):
    p = _existing()
    os.chmod(p, 0o444)
    return PathSink(p, True, r.choice([str, pathlib.Path]))


def sink_link_existing(r):
    _existing("target")
    os.symlink("target", "link.skops")
    return PathSink("link.skops", True, r.choice([str, pathlib.Path]), ["target"])


def sink_hardlink_existing(r):
    _existing("target")
    os.link("target", "hard.skops")
    return PathSink("hard.skops", True, r.choice([str, pathlib.Path]), ["target"])


def sink_str_new(r):
    return PathSink(r.choice(["new.skops", "new", "é ü.zip"]), False)


def sink_path_new(r):
    return PathSink("new2.skops", False, pathlib.Path)


def sink_sub_new(r):
    os.makedirs("d", exist_ok=True)
    return PathSink("d/new.skops", False, r.choice([str, pathlib.Path]), ["d"])


def sink_dangling(r):
    os.symlink("nothing", "dangling.skops")
    return PathSink("dangling.skops", False, r.choice([str, pathlib.Path]), ["nothing"])


def sink_missing_dir(r):
    return PathSink("nodir/new.skops", False, r.choice([str, pathlib.Path]), ["nodir"])


def sink_directory(r):
    os.makedirs("isdir", exist_ok=True)
    return PathSink("isdir", True, r.choice([str, pathlib.Path]))


def sink_wb(r):
    return FileSink(open("f", "wb"), lambda: _read("f"))


def sink_unbuffered(r):
    f = open("f", "wb", buffering=0)
    f.write(b"abc")
    return FileSink(f, lambda: _read("f"))


def sink_append(r):
    _existing("f")
    return FileSink(open("f", "ab"), lambda: _read("f"))


def sink_rplus(r):
    _existing("f")
    f = open("f", "r+b")
    f.seek(r.randrange(len(OLD)))
    return FileSink(f, lambda: _read("f"))


def sink_positioned(r):
    f = open("f", "wb")
    f.write(b"x" * r.randrange(1, 9999))
    f.flush()
    return FileSink(f, lambda: _read("f"))


def sink_bytesio(r):
    b = io.BytesIO(OLD)
    b.seek(r.choice([0, 7, len(OLD)]))
    return FileSink(b, b.getvalue)


def sink_recorder(r):
    return FileSink(Recorder(), tell=False)


def sink_recorderio(r):
    b = RecorderIO()
    return FileSink(b, b.getvalue)


def sink_raw(r):
    return FileSink(Raw(), tell=False)


def sink_buffered_raw(r):
    raw = Raw()
    return FileSink(io.BufferedWriter(raw, r.choice([16, 8192])), lambda: raw.received, tell=False)


def sink_spooled(r):
    f = tempfile.SpooledTemporaryFile(max_size=r.choice([0, 50]))
    f.write(b"abc")
    return FileSink(f)


def sink_tempfile(r):
    f = tempfile.NamedTemporaryFile(dir=".")
    return FileSink(f, lambda: _read(f.name))


def sink_gzip(r):
    f = gzip.GzipFile("g.gz", "wb")
    return FileSink(f)


def sink_pipe(r):
    a, b = os.pipe()
    os.set_blocking(a, False)
    os.set_blocking(b, False)  # nobody reads: what does not fit must fail, not wait
    f = os.fdopen(b, "wb")

    def got():
        try:
            return os.read(a, 100)
        except BlockingIOError:
            return b""
    s = FileSink(f, got, tell=False)
    s.close = lambda: (f.close(), os.close(a))
    return s


SINKS = {k[5:]: f for k, f in list(globals().items()) if k.startswith("sink_")}


def try_dump(ctx, r, obj, label, sink=None, must_fail=True):
    """the dump of an object that cannot be persisted"""
    import skops.io as sio
    from checks_common import COMPRESSIONS
    _fresh()
    sn = sink or r.choice(sorted(SINKS))
    s = SINKS[sn](r)
    comp, lvl = r.choice(COMPRESSIONS)
    kw = {} if r.random() < .4 else {"compression": comp} if lvl is None else {"compression": comp, "compresslevel": lvl}
    what = f"{label}: sink {sn} {kw}"
    try:
        try:
            sio.dump(obj, s.dest, **kw)
            raised = None
        except BaseException as e:
            raised = e
        if raised is None:
            if must_fail:
                ctx.violation("no-exception", f"{what}: dump did not raise")
            else:
                ctx.count("accepted")
            return False
        ctx.count("failed_dumps")
        ctx.sinks_seen.add(sn)
        ctx.count("existing_kept" if s.existing else "absent_kept" if s.existing is False else "fileobj_kept")
        ctx.ev((label, sn, tuple(kw.items())))
        why = s.changed()
        if why:
            ctx.violation("touched", f"{what}: dump raised {type(raised).__name__}, but {why}")
        return True
    finally:
        s.close()


def bad_ones(ctx, sio):
    out = {}
    for name, thunk in poisons().items():
        if fails(thunk, sio):
            out[name] = thunk
    return out


def run_enum(ctx, shard):
    """every unpersistable element at every position"""
    import skops.io as sio
    bad = bad_ones(ctx, sio)
    if shard["part"] == 0:
        ctx.count("poisons", len(bad))
        ctx.count("contexts", len(CONTEXTS))
        ctx.sample(sorted(bad))
    names = sorted(SINKS)
    k = 0
    for pn, thunk in bad.items():
        for cn, c in CONTEXTS.items():
            k += 1
            if k % shard["parts"] != shard["part"]:
                continue
            for _ in ctx.items([f"{pn}/{cn}"]):
                try:
                    obj = c(thunk())
                except Exception:
                    continue  # not hashable
                r = ctx.rng(pn, cn)
                try:
                    sio.dumps(obj)
                    if "key" in cn:  # str and int subclasses can be keys
                        continue
                    ctx.violation("no-exception", f"{pn} in {cn}: dumps did not raise")
                    continue
                except BaseException:
                    pass
                for sn in r.sample(names, 3):
                    try_dump(ctx, r, obj, f"{pn} in {cn}", sn)
    # every sink with every exception type
    for k, e in enumerate(EXCS):
        if k % shard["parts"] != shard["part"]:
            continue
        for sn in names:
            for _ in ctx.items([f"exc {type(e).__name__}/{sn}"]):
                try_dump(ctx, ctx.rng(k, sn), [np.arange(3), Raises(e)], f"{type(e).__name__}", sn)


def run_random(ctx, shard):
    import skops.io as sio
    bad = bad_ones(ctx, sio)
    names = sorted(bad)
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        g = values.Gen(r)
        pn = r.choice(names)
        x = bad[pn]()
        path = []
        for _ in range(r.randrange(1, 7)):
            cn = r.choice(sorted(CONTEXTS)) if r.random() < .6 else "siblings"
            path.append(cn)
            try:
                if cn == "siblings":
                    sib = [g.supported(2) for _ in range(r.randrange(1, 5))]
                    sib.insert(r.randrange(len(sib) + 1), x)
                    x = sib if r.random() < .5 else {f"k{j}": v for j, v in enumerate(sib)} if r.random() < .5 else tuple(sib)
                else:
                    x = CONTEXTS[cn](x)
            except Exception:
                pass
        ctx.sample(f"{pn} through {path}")
        try_dump(ctx, r, x, f"{pn} through {path}", must_fail="key" not in path and "tuple key" not in path)


def run_models(ctx, shard):
    """each attribute of fitted estimators replaced"""
    import skops.io as sio
    for i, r in ctx.cases(0, shard["n"]):
        est = es.composition(r, 1)
        try:
            X, y, H, kw = es.data(r, r.choice(["dense", "df"]), est)
            est = es.fit(est, X, y, kw)
            sio.dumps(est)
        except Exception:
            continue
        spots = []
        stack, seen = [(est, "")], set()
        while stack:
            o, p = stack.pop()
            if id(o) in seen or len(spots) > 400:
                continue
            seen.add(id(o))
            d = o if type(o) is dict else getattr(o, "__dict__", None) if not isinstance(o, type) else None
            if isinstance(d, dict):
                for k, v in d.items():
                    spots.append((o, d, k, f"{p}.{k}"))
                    stack.append((v, f"{p}.{k}"))
            elif type(o) in (list, tuple):
                if type(o) is list:
                    spots += [(o, o, j, f"{p}[{j}]") for j in range(len(o))]
                stack += [(v, f"{p}[{j}]") for j, v in enumerate(o)]
        r.shuffle(spots)
        for o, d, k, p in spots[:12]:
            old = d[k]
            mark = Raises(RuntimeError("x"))
            d[k] = mark
            try:
                if isinstance(o, (dict, list)):
                    certain = False  # it may be part of something that is not persisted
                else:
                    try:
                        st = o.__getstate__() if hasattr(o, "__getstate__") else d
                        certain = False if not isinstance(st, dict) else any(v is mark for v in st.values()) and o is est
                    except Exception:
                        certain = False
                if try_dump(ctx, r, est, f"model {i} {type(est).__name__}{p}", must_fail=certain):
                    ctx.count("est_positions")
            finally:
                d[k] = old


def run_nth(ctx, shard):
    """the n-th state that is taken fails: all points in the middle of an archive"""
    for i, r in ctx.cases(0, shard["n"]):
        g = values.Gen(r)
        n = r.randrange(1, 12)
        objs = [Countdown([r.randrange(9), np.arange(r.randrange(9)), g.scalar()]) for _ in range(n)]
        obj = objs[0]
        for o in objs[1:]:
            obj = r.choice([lambda: [obj, o], lambda: {"a": o, "b": obj}, lambda: (o, b"bytes", obj), lambda: zoo.Plain(a=obj, b=np.eye(2), c=o)])()
        for k in sorted(r.sample(range(1, n + 1), min(n, 3))):
            Countdown.left, Countdown.exc = k, r.choice(EXCS)
            try_dump(ctx, r, obj, f"{type(Countdown.exc).__name__} at state {k} of {n}")
            ctx.count("nth_state")
        # and afterwards the very same object can be written
        Countdown.left = 0
        import skops.io as sio
        try:
            sio.dump(obj, "ok.skops")
            os.unlink("ok.skops")
        except Exception as e:
            ctx.violation("after-failure", f"nth {i}: dump without a failing element raised {type(e).__name__}: {e}")


def run_large(ctx, shard):
    """payloads beyond any buffer before the failing element"""
    r = ctx.rng("large")
    rs = np.random.RandomState(0)
    big = rs.rand(shard["mb"] * 2 ** 17)
    small = [rs.bytes(3000) for _ in range(400)]
    for sn in sorted(SINKS):
        for _ in ctx.items([f"large {sn}"]):
            for kw_r in range(1):
                try_dump(ctx, r if sn != "gzip" else ctx.rng(sn), [big, Raises(RuntimeError("x"))], "after a large array", sn)
                try_dump(ctx, r, {"a": small, "b": big[:10000], "c": Raises(KeyboardInterrupt())}, "after many members", sn)
            ctx.count("large")
