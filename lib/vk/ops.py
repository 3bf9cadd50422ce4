"""Operations on the public API, repeatable from (kind, number), for the comparison of contexts (C20).

An operation is prepared (its arguments are made, without skops), run (the calls to skops, possibly in several steps with
other operations in between) and finished (its results are turned into text, without skops).
"""
from __future__ import annotations

import io
import json
import os
import pathlib
import pickle
import random
import re
import shutil
import sys
import threading
import types
import warnings

import numpy as np
from sklearn.experimental import enable_halving_search_cv, enable_iterative_imputer  # noqa

from . import arch, hostile, values, zoo
from .canon import canon

# what differs between fresh processes by nature: file objects and locks have addresses, time stamps...
SKIP_SPECIALS = {"memmap"}
SPECIALS = [s for s in values.SPECIALS if s[0] not in SKIP_SPECIALS]


# ---------------------------------------------------------------- text of results
def norm(s, d=None):
    if d:
        s = s.replace(str(d), "<DIR>")
    s = re.sub(r"PlotSection\([^)\n]*perm[^)\n]*\)", "PlotSection(<DIR>)", s)  # a path that may be shortened
    s = re.sub(r"=[^\n]*<style>#sk-[^\n]*", "=<style>", s)  # a shortened repr of a diagram, whose ids differ in length
    s = re.sub(r"0x[0-9a-fA-F]{6,}", "<ADDR>", s)
    s = re.sub(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}", "<UUID>", s)
    s = re.sub(r"sk-(container|estimator)(-id)?-\d+", r"sk-\1\2-N", s)
    return re.sub(r"\b\d{12,20}\b", "<ID>", s)


def exc(e, d=None):
    return f"raised {type(e).__module__}.{type(e).__qualname__}: " + norm(str(e), d)[:3000]


def text(x):
    return json.dumps(x, sort_keys=False, default=repr, ensure_ascii=True)


def loaded(v):
    return text(canon(v))


class Bad(str):
    """a result that contradicts itself"""


# ---------------------------------------------------------------- standard output by thread
class Out(io.TextIOBase):
    def __init__(self, under):
        self.under = under
        self.here = threading.local()

    def write(self, s):
        b = getattr(self.here, "buf", None)
        if b is None:
            return self.under.write(s)
        b.append(s)
        return len(s)

    def flush(self):
        if getattr(self.here, "buf", None) is None:
            self.under.flush()

    def isatty(self):
        return False

    @property
    def encoding(self):
        return "utf-8"

    def begin(self):
        self.here.buf = []

    def end(self):
        b, self.here.buf = self.here.buf, None
        return "".join(b)


def install_out():
    if not isinstance(sys.stdout, Out):
        sys.stdout = Out(sys.stdout)
    return sys.stdout


# ---------------------------------------------------------------- objects that call skops while they are dumped or loaded
class Nested:
    """dumps and loads other objects from inside of its hooks"""

    on = threading.local()

    def __init__(self, value, other, data):
        self.value, self.other, self.data = value, other, data

    def __getstate__(self):
        if getattr(self.on, "yes", False):
            import skops.io as sio
            sio.dumps([self.value, self.other, self.value])
            sio.get_untrusted_types(data=self.data)
            try:
                sio.dumps([self.value, lambda: 1])
            except Exception:
                pass
        return {"value": self.value, "other": self.other, "data": self.data, "again": self.value}

    def __setstate__(self, s):
        self.__dict__.update(s)
        if getattr(self.on, "yes", False):
            import skops.io as sio
            self.inner = canon(sio.loads(self.data, trusted=sio.get_untrusted_types(data=self.data)))
            del self.inner


# ---------------------------------------------------------------- fixtures
def make_fixtures(d, seed, n_values=60, n_est=14):
    """archives, fitted estimators and cards, written in a process of its own"""
    from . import estimators
    import skops.io as sio
    from skops.card import Card
    r = random.Random(f"fixtures|{seed}")
    fx = dict(archives=[], hostile=[], corrupt=[], estimators=[], cards=[])
    warnings.simplefilter("ignore")
    genuine = []
    donors = []
    g = hostile.genuine()
    for k, (schema, members) in sorted(g.items()):
        genuine.append(arch.write(schema, members))
        donors.append((schema, members))
    for i in range(n_values):
        v = values.Gen(random.Random(f"fxv|{seed}|{i}")).supported(r.choice([1, 2, 3]))
        if r.random() < .5:
            v = [v, zoo.Plain(a=1, b=v), r.choice([zoo.func, zoo.Point(1, 2), zoo.Outer.Inner(), zoo.Colour.RED, np.exp])]
        try:
            genuine.append(sio.dumps(v))
        except Exception:
            pass
    for i in range(n_est):
        rr = random.Random(f"fxe|{seed}|{i}")
        try:
            est = estimators.composition(rr, r.choice([0, 1, 1, 2]))
            X, y = np.random.RandomState(i).rand(40, 6), np.arange(40) % 2
            with warnings.catch_warnings(), estimators.limit(8):
                warnings.simplefilter("ignore")
                est.fit(X, y)
            data = sio.dumps(est)
            b = pickle.dumps(est)
        except Exception:
            continue
        genuine.append(data)
        fx["estimators"].append(b)
    # the same generators in several archives
    for i in range(6):
        rr = random.Random(f"fxg|{seed}|{i}")
        kinds = [np.random.PCG64, np.random.MT19937, np.random.Philox, np.random.SFC64, np.random.PCG64DXSM]
        rngs = [np.random.Generator(k(3)) for k in rr.sample(kinds, 2)] + [np.random.RandomState(4), np.random.RandomState(k(3)) if (k := kinds[i % 5]) else None]
        v = rr.sample(rngs, rr.choice([1, 2, 3]))
        try:
            genuine.append(sio.dumps(v if i % 2 else {"r": v, "p": zoo.Plain(a=v[0], b=np.arange(3))}))
        except Exception:
            pass
    fx["archives"] = genuine
    names = ["canary.A", "canary.sub.B", "zzz.Q", "builtins.object", "vk.zoo.Plain"]
    for i in range(40):
        rr = random.Random(f"fxh|{seed}|{i}")
        try:
            if i % 2:
                s, m = rr.choice(donors)
                s, m = hostile.mutate(rr, s, m, names, donors)
            else:
                lab, b, root = rr.choice(list(hostile.enumerated(rr, names=[rr.choice(names[:3])], protocols=(rr.choice([0, 1, 2]),))))
                fx["hostile"].append(b.archive(root))
                continue
            fx["hostile"].append(arch.write(s, m))
        except Exception:
            continue
    for i in range(24):
        rr = random.Random(f"fxc|{seed}|{i}")
        data = rr.choice(genuine)
        k = rr.randrange(6)
        s, m = arch.read(data)
        try:
            if k == 0:
                data = data[: rr.randrange(len(data))]
            elif k == 1 and m:
                m.pop(rr.choice(sorted(m)))
                data = arch.write(s, m)
            elif k == 2:
                s["protocol"] = rr.choice([None, "x", 99, -1])
                data = arch.write(s, m)
            elif k == 3:
                s["__loader__"] = rr.choice(["NoNode", "ListNode", "ObjectNode", "JsonNode"])
                data = arch.write(s, m)
            elif k == 4:
                ns = list(arch.walk(s))
                p, n = rr.choice(ns)
                n.pop(rr.choice(sorted(n)))
                data = arch.write(s, m)
            else:
                data = arch.write(s, m, raw_schema=rr.choice(["", "{", "[]", "null", "{}"]))
        except Exception:
            continue
        fx["corrupt"].append(data)
    # cards as text
    for i in range(10):
        rr = random.Random(f"fxm|{seed}|{i}")
        lines = []
        for j in range(rr.randrange(2, 9)):
            lines.append("#" * rr.choice([1, 1, 2, 2, 3]) + " " + rr.choice(["Intro", "Usage", "Größe", "Part"]) + f" {j}\n")
            lines.append(rr.choice(["Some text\nover lines.\n", "* a\n* b\n  * c\n", "| a | b |\n|---|---|\n| 1 | 2 |\n", "```python\nx = 1\n```\n", "> quote\n", "1. one\n2. two\n", "*em* **strong** `code`\n", "![fig](fig.png)\n"]))
        fx["cards"].append("---\nlicense: mit\n---\n\n" * rr.randrange(2) + "\n".join(lines))
    for i in range(20):
        with open(os.path.join(d, f"fig{i}.png"), "wb") as f:
            f.write(b"PNG%d" % i)
    with open(os.path.join(d, "fixtures.pkl"), "wb") as f:
        pickle.dump(fx, f)


def read_fixtures(d):
    with open(os.path.join(d, "fixtures.pkl"), "rb") as f:
        return pickle.load(f)


# ---------------------------------------------------------------- the operations
KINDS = {}


def kind(weight=1):
    def deco(f):
        KINDS[f.__name__] = (f, weight)
        return f
    return deco


def value(r, fx):
    k = r.randrange(10)
    g = values.Gen(random.Random(r.random()))
    if k < 4:
        return g.supported(r.choice([1, 2, 3]))
    if k < 6:
        return g.anything(r.choice([1, 2, 3]))
    if k < 8:
        return r.choice(SPECIALS)[1]()
    if k == 8 and fx["estimators"]:
        return pickle.loads(r.choice(fx["estimators"]))
    return [np.exp, {"a": values.scipy.special.expit}, zoo.Plain(a=np.sqrt)]


@kind(5)
def dumps(r, d, fx):
    import skops.io as sio
    v = value(r, fx)
    kw = r.choice([{}, {}, dict(compression=8), dict(compression=8, compresslevel=1)])
    return lambda: sio.dumps(v, **kw), lambda x: text(arch.normalise(x))


@kind(2)
def ufuncs(r, d, fx):
    """ufuncs do not know their module: all modules are searched for them, with warnings silenced"""
    import skops.io as sio
    v = [r.choice(values.UFUNCS) for _ in range(r.choice([1, 2, 3]))] + [{"a": zoo.Plain(a=r.choice(values.UFUNCS))}]
    return lambda: sio.dumps(v), lambda x: text(arch.normalise(x))


@kind(1)
def dump_path(r, d, fx):
    import skops.io as sio
    v = value(r, fx)
    p = r.choice([str, pathlib.Path])(os.path.join(d, r.choice(["a.skops", "b.bin"])))

    def call():
        sio.dump(v, p)
        with open(p, "rb") as f:
            return f.read()
    return call, lambda x: text(arch.normalise(x))


@kind(1)
def dumps_twice(r, d, fx):
    """the same object twice, with other things in between"""
    import skops.io as sio
    v = value(r, fx)

    def call():
        a = sio.dumps(v)
        yield
        b = sio.dumps(v)
        yield
        return a, b

    def fin(x):
        a, b = (text(arch.normalise(y)) for y in x)
        return a if a == b else Bad(f"two calls of dumps on one object differ: {first(a, b)}")
    return call, fin


def first(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, i - 80):i + 120]!r} and ...{b[max(0, i - 80):i + 120]!r}"


@kind(2)
def dumps_mutated(r, d, fx):
    """an object is dumped, changed in place and dumped again: as if it had been made that way"""
    import skops.io as sio
    seed = r.random()

    def make(changed):
        rr = random.Random(seed)
        g = values.Gen(random.Random(seed))
        inner = [g.leaf(), {"k": g.leaf()}]
        o = zoo.Plain(a=inner, b=np.arange(4.0))
        c = {"list": inner, "obj": o, "arr": np.zeros(3), "set": {1, 2}, "same": inner}
        new = g.leaf()
        if changed:
            w = rr.randrange(6)
            if w == 0:
                inner.append(new)
            elif w == 1:
                c["arr"][1] = 5
            elif w == 2:
                o.__dict__["c"] = new
            elif w == 3:
                c["set"].add(3)
            elif w == 4:
                c["list"] = inner = list(inner)
            else:
                inner[1]["k2"] = new
        return c, (rr, inner, o, new)
    live, (_, inner, o, new) = make(False)
    twin = make(True)[0]

    def call():
        sio.dumps(live)
        yield
        rr = random.Random(seed)
        w = rr.randrange(6)
        if w == 0:
            inner.append(new)
        elif w == 1:
            live["arr"][1] = 5
        elif w == 2:
            o.__dict__["c"] = new
        elif w == 3:
            live["set"].add(3)
        elif w == 4:
            live["list"] = list(inner)
        else:
            inner[1]["k2"] = new
        a = sio.dumps(live)
        yield
        b = sio.dumps(twin)
        return a, b

    def fin(x):
        a, b = (text(arch.normalise(y)) for y in x)
        return a if a == b else Bad(f"an object changed in place after it was dumped, and one that was made that way, differ: {first(a, b)}")
    return call, fin


@kind(2)
def id_reuse(r, d, fx):
    """objects that live at the same address one after the other"""
    import skops.io as sio
    seed = r.random()
    n = r.randrange(4, 12)

    def call():
        rr = random.Random(seed)
        out, ids = [], set()
        for i in range(n):
            k = rr.randrange(5)
            v = {0: lambda: [i, [i]], 1: lambda: {"a": [i]}, 2: lambda: zoo.Plain(a=i), 3: lambda: np.full(3, i), 4: lambda: [zoo.Point(i, i)]}[k]()
            ids.add(id(v))
            out.append(sio.dumps(v))
            del v
            if rr.random() < .2:
                yield
        return out
    return call, lambda x: text([arch.normalise(y) for y in x])


def archive(r, fx):
    return r.choice(fx["archives"] * 3 + fx["hostile"] + fx["corrupt"])


@kind(4)
def untrusted(r, d, fx):
    import skops.io as sio
    data = archive(r, fx)
    if r.random() < .3:
        p = os.path.join(d, "u.skops")
        with open(p, "wb") as f:
            f.write(data)
        return lambda: sio.get_untrusted_types(file=r.choice([p, pathlib.Path(p)])), text
    return lambda: sio.get_untrusted_types(data=data), text


@kind(2)
def untrusted_edited(r, d, fx):
    """the caller changes the list it was given"""
    import skops.io as sio
    data = r.choice(fx["archives"])

    def call():
        a = sio.get_untrusted_types(data=data)
        keep = list(a)
        a += ["zzz.Fake", "builtins.int"]
        a.sort(reverse=True)
        yield
        b = sio.get_untrusted_types(data=data)
        return keep, b

    def fin(x):
        return text(x[0]) if x[0] == x[1] else Bad(f"get_untrusted_types returned {x[0]!r}, and {x[1]!r} after the caller changed the first list")
    return call, fin


@kind(4)
def loads(r, d, fx):
    """genuine archives with all types trusted, or none, or some"""
    import skops.io as sio
    data = r.choice(fx["archives"])
    how = r.choice(["all", "all", "none", "some", "less"])

    def call():
        t = sio.get_untrusted_types(data=data)
        if how == "none":
            return sio.loads(data, trusted=r.choice([None, [], ()]))
        if how == "some":
            t = t + ["zzz.Other", "os.system"]
        if how == "less":
            t = t[:-1]
        keep = list(t)
        yield
        v = sio.loads(data, trusted=t)
        if t != keep:
            return Bad(f"loads changed its argument trusted from {keep} to {t}")
        return v

    def fin(v):
        if isinstance(v, Bad):
            return v
        out = loaded(v)
        if len(LIVE_LOADS) < 30:
            LIVE_LOADS.append((v, out))
        return out
    return call, fin


LIVE_LOADS = []  # (what was loaded, its text at that time)


def live_loads():
    """what became of the loaded objects that the caller still holds"""
    owner = {}
    for i, (v, was) in enumerate(LIVE_LOADS):
        now = loaded(v)
        if now != was:
            return f"what load {i} of {len(LIVE_LOADS)} gave was changed by later calls: {first(was, now)}"
        for j, o in mutables(v).items():
            if j in owner and owner[j][0] != i:
                return f"loads {owner[j][0]} and {i} share a {type(o).__name__}: {repr(o)[:200]}"
            owner[j] = (i, o)
    return None


@kind(2)
def loads_edited(r, d, fx):
    """what was loaded is changed in place; the next load gives the original again, and shares nothing with it"""
    import skops.io as sio
    data = r.choice(fx["archives"])

    def call():
        t = sio.get_untrusted_types(data=data)
        v = sio.loads(data, trusted=t)
        keep = loaded(v)
        scribble(v)
        yield
        w = sio.loads(data, trusted=t)
        return keep, v, w

    def fin(x):
        keep, v, w = x
        again = loaded(w)
        if keep != again:
            return Bad(f"loading again after the first result was changed gives something else: {first(keep, again)}")
        both = mutables(v).keys() & mutables(w).keys()
        if both:
            return Bad(f"two loads share {[type(mutables(v)[i]).__name__ for i in both][:4]}")
        return keep
    return call, fin


@kind(1)
def loads_corrupt(r, d, fx):
    import skops.io as sio
    data = r.choice(fx["corrupt"])
    return lambda: sio.loads(data, trusted=[]), loaded


@kind(1)
def loads_hostile(r, d, fx):
    """archives that name what does not exist, without trust"""
    import skops.io as sio
    data = r.choice(fx["hostile"])

    def call():
        t = sio.get_untrusted_types(data=data)
        if not t:
            return "nothing untrusted"
        return sio.loads(data)
    return call, text


@kind(2)
def same_path(r, d, fx):
    """one path, whose content is replaced by other content of the same size and time"""
    import skops.io as sio
    datas = [r.choice(fx["archives"]) for _ in range(r.choice([2, 3]))]
    if r.random() < .5:
        # equal size: pad with a comment
        n = max(map(len, datas)) + 10
        datas = [pad(x, n) for x in datas]
    p = os.path.join(d, "same.skops")

    def call():
        out = []
        for x in datas:
            with open(p, "wb") as f:
                f.write(x)
            os.utime(p, (10**9, 10**9))
            yield
            t = sio.get_untrusted_types(file=p)
            a = sio.load(p, trusted=t)
            b = sio.loads(x, trusted=sio.get_untrusted_types(data=x))
            rows, rows2 = [], []
            sio.visualize(p, sink=lambda nodes, show, **k: rows.extend(row(n) for n in nodes))
            sio.visualize(x, sink=lambda nodes, show, **k: rows2.extend(row(n) for n in nodes))
            out.append((t, loaded(a), loaded(b), rows, rows2))
        return out

    def fin(out):
        for t, a, b, rows, rows2 in out:
            if a != b:
                return Bad(f"load of a path whose content was replaced gives something else than loads of its content: {first(a, b)}")
            if rows != rows2:
                return Bad("visualize of a path whose content was replaced shows something else than of its content")
        return text([(t, a, rows) for t, a, b, rows, _ in out])
    return call, fin


def pad(data, n):
    """the archive with a comment at its end, so that it has n bytes"""
    import zipfile
    b = io.BytesIO(data)
    with zipfile.ZipFile(b, "a") as z:
        z.comment = b"x" * (n - len(data))
    return b.getvalue()


def row(n):
    return [n.level, str(n.key), str(n.val), bool(n.is_self_safe), bool(n.is_safe), bool(getattr(n, "is_last", False))]


@kind(3)
def visualize(r, d, fx):
    import skops.io as sio
    data = archive(r, fx)
    kw = dict(show=r.choice(["all", "untrusted", "trusted"]))
    if r.random() < .4:
        kw["trusted"] = r.choice([["vk.zoo.Plain"], [], ["vk.zoo.func", "canary.A"]])
    mode = r.choice(["rows", "text", "text", "plain"])

    def call():
        if mode == "rows":
            rows = []
            sio.visualize(data, sink=lambda nodes, show, **k: rows.extend([row(n) for n in nodes] + [show]), **kw)
            return rows
        out = sys.stdout
        out.begin()
        try:
            sio.visualize(data, **dict(kw, **(dict(use_colors=False, tag_unsafe="[U]", tag_safe="[S]") if mode == "plain" else {})))
        except BaseException:
            out.end()
            raise
        return out.end()
    return call, text


@kind(1)
def visualize_nested(r, d, fx):
    """a sink that itself loads, dumps and visualizes"""
    import skops.io as sio
    data, other = r.choice(fx["archives"]), r.choice(fx["archives"])

    def call():
        rows, inner, plain = [], [], []

        def sink(nodes, show, **k):
            for i, n in enumerate(nodes):
                rows.append(row(n))
                if i == 1:
                    inner.append(sio.get_untrusted_types(data=other))
                    sio.visualize(other, sink=lambda nodes, show, **k: inner.append([row(n) for n in nodes]))
                    sio.dumps([1, {"a": 2}])
        sio.visualize(data, sink=sink)
        yield
        sio.visualize(data, sink=lambda nodes, show, **k: plain.extend(row(n) for n in nodes))
        return rows, inner, plain

    def fin(x):
        rows, inner, plain = x
        return text([rows, inner]) if rows == plain else Bad("a sink that calls skops sees something else than one that does not")
    return call, fin


@kind(2)
def nested(r, d, fx):
    """calls from inside of __getstate__ and __setstate__"""
    import skops.io as sio
    g = values.Gen(random.Random(r.random()))
    shared = [g.leaf(), {"a": g.leaf()}]
    small = [x for x in fx["archives"] if len(x) < 20000]
    v = [shared, Nested(shared, g.supported(1), r.choice(small)), {"s": shared, "n": Nested(shared, 2, r.choice(small))}]

    def call():
        a = sio.dumps(v)
        yield
        Nested.on.yes = True
        try:
            b = sio.dumps(v)
            t = sio.get_untrusted_types(data=b)
            x = sio.loads(b, trusted=t)
        finally:
            Nested.on.yes = False
        y = sio.loads(a, trusted=sio.get_untrusted_types(data=a))
        return a, b, x, y

    def fin(z):
        a, b = text(arch.normalise(z[0])), text(arch.normalise(z[1]))
        if a != b:
            return Bad(f"dumps differs when a __getstate__ calls skops: {first(a, b)}")
        x, y = loaded(z[2]), loaded(z[3])
        if x != y:
            return Bad(f"loads differs when a __setstate__ calls skops: {first(x, y)}")
        return a
    return call, fin


@kind(1)
def failing(r, d, fx):
    """what cannot be dumped, nested in what can"""
    import skops.io as sio
    bad = r.choice([zoo.RaisesGetState(), zoo.RaisesReduce(), lambda: 1, threading.Lock(), zoo.local_class(), (i for i in ()), object()])
    v = r.choice([lambda: [np.arange(3), {"a": bad}], lambda: zoo.Plain(a=[bad], b=1), lambda: bad, lambda: {"x": np.zeros(2), "y": (1, [bad])}])()
    p = os.path.join(d, "failing.skops")

    def call():
        if r.random() < .5:
            return sio.dumps(v)
        sio.dump(v, p)
    return call, lambda x: text(arch.normalise(x)) if x else "done"


# ---------------------------------------------------------------- identity of what results hold
ATOMS = (type(None), bool, int, float, complex, str, bytes, type, types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType, np.ufunc, np.dtype, np.generic)


def mutables(v, stop=()):
    """id -> object for the mutable containers, arrays and instances inside of a value"""
    out, stack = {}, [v]
    seen = set(stop)
    while stack:
        o = stack.pop()
        if id(o) in seen or isinstance(o, ATOMS):
            continue
        seen.add(id(o))
        t = type(o)
        if isinstance(o, (list, dict, set, bytearray, np.ndarray)):
            out[id(o)] = o
            if isinstance(o, np.ndarray) and o.size and o.flags.writeable:
                out["memory", o.__array_interface__["data"][0]] = o
            if isinstance(o, np.ma.MaskedArray) and o.mask is not np.ma.nomask:
                stack.append(np.asarray(o.mask))
        elif isinstance(o, np.random.BitGenerator):
            out[id(o)] = o
        elif isinstance(o, np.random.Generator):
            out[id(o)] = o
            stack.append(o.bit_generator)
        elif isinstance(o, np.random.RandomState):
            out[id(o)] = o
            stack.append(o._bit_generator)
        elif hasattr(o, "__dict__") and t.__module__.split(".")[0] in ("vk", "skops", "sklearn", "scipy"):
            if not isinstance(o, __import__("enum").Enum) and o is not zoo.SINGLETON:
                out[id(o)] = o
            else:
                continue
        if isinstance(o, dict):
            stack += list(dict.values(o)) + list(dict.keys(o))
        elif isinstance(o, (list, tuple, set, frozenset)):
            stack += list(o)
        elif isinstance(o, np.ndarray) and o.dtype == object:
            stack += list(o.ravel())
        st = getattr(o, "__dict__", None)
        if isinstance(st, dict):
            stack += list(st.values())
    return out


def scribble(v):
    """changes everything mutable inside of a value"""
    for o in list(mutables(v).values()):
        try:
            if isinstance(o, np.ndarray):
                if o.dtype == object:
                    o[...] = None
                elif o.flags.writeable:
                    o.view(np.ndarray)[...] = np.zeros((), o.dtype)
            elif type(o) is list:
                o.append("scribble")
            elif type(o) is dict:
                o["scribble"] = 1
            elif type(o) is set:
                o.add("scribble")
            elif isinstance(o, bytearray):
                o += b"x"
            elif isinstance(o, np.random.Generator):
                o.random(3)
            elif isinstance(o, np.random.RandomState):
                o.rand(3)
            elif type(o).__module__.startswith(("vk.", "sklearn.")) and isinstance(getattr(o, "__dict__", None), dict):
                o.__dict__["scribble"] = 1
        except Exception:
            pass


# ---------------------------------------------------------------- cards
def shared_args():
    """arguments that several cards are given (the same objects, in one process)"""
    if "template" not in SHARED:
        SHARED.update(template={"Intro": "hello", "Intro/Deep": "deep", "Metrics": "nothing yet"}, template2={"A": "a", "B/C": "bc"}, metrics={"acc": .5, "f1": .25},
                      table={"a": [1, 2], "b": ["x", "y|z"]}, table2={"Größe": [1.5], "n": [None]})
        import pandas as pd
        SHARED["df"] = pd.DataFrame({"a": [1, 2], "b": ["x", "y"]})
    return SHARED


SHARED = {}
LIVE_CARDS = []  # (card, arguments)

TITLES = ["A", "B", "Intro", "Model description", "Metrics", "Größe", "x y"]


def _path(r):
    return "/".join(r.choice(TITLES) for _ in range(r.choice([1, 1, 2, 3])))


def _model(r, fx, d):
    from sklearn.linear_model import LogisticRegression
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import StandardScaler
    k = r.randrange(5)
    if k == 0 and fx["estimators"]:
        return pickle.loads(r.choice(fx["estimators"]))
    if k == 1:
        return make_pipeline(StandardScaler(), LogisticRegression(C=r.randrange(9)))
    if k == 2:
        p = os.path.join(d, f"m{r.randrange(3)}.pkl")
        with open(p, "wb") as f:
            pickle.dump(LogisticRegression(C=r.randrange(9)), f)
        return r.choice([p, pathlib.Path(p)])
    return LogisticRegression(C=r.randrange(9))


def card_steps(r, d, fx, card, n, log, plots):
    """random edits and readings; every result and every exception goes to the log"""
    from skops.card._model_card import Section  # noqa: only for the type of what select returns
    sh = shared_args()

    def figure():
        return f"fig{r.randrange(20)}.png"  # made with the fixtures, in the working directory
    for i in range(n):
        op = r.choice(["add", "add", "add", "plot", "table", "metrics", "metrics", "hyper", "mplot", "delete", "edit", "edit", "flag", "toc", "render", "render", "repr", "save", "sub", "fail"] + ["perm"] * plots)
        try:
            if op == "add":
                card.add(folded=r.random() < .2, **{_path(r): f"text {i}" for _ in range(r.choice([1, 1, 2]))})
            elif op == "plot":
                card.add_plot(description=r.choice([None, "plot of it"]), alt_text=r.choice([None, "alt"]), folded=r.random() < .2, **{_path(r): figure()})
            elif op == "table":
                card.add_table(folded=r.random() < .3, description=r.choice([None, "table of it"]), **{_path(r): sh[r.choice(["table", "table2", "df"])]})
            elif op == "metrics":
                kw = dict(sh["metrics"]) if r.random() < .3 else {r.choice(["acc", "f1", "auc", "mse"]): r.randrange(100) / 4 for _ in range(r.choice([1, 2]))}
                sec = r.choice([None, "Metrics", "Intro/Scores"])
                card.add_metrics(**kw, **({"section": sec} if sec else {}), description=r.choice([None, "scores"]))
            elif op == "hyper":
                card.add_hyperparams(section=r.choice(["Hyper", "A/Hyper"]), description=r.choice([None, "params"]))
            elif op == "mplot":
                card.add_model_plot(section=r.choice(["Plot", "B/Plot"]), description=r.choice([None, "diagram"]))
            elif op == "delete":
                card.delete(r.choice([_path(r), _path(r).split("/")]))
            elif op == "edit":
                s = card.select(_path(r))
                w = r.randrange(3)
                if w == 0:
                    s.content = f"edited {i}"
                elif w == 1:
                    s.title = f"renamed {i}"
                else:
                    s.subsections.clear()
            elif op == "flag":
                s = card.select(_path(r))
                s.visible, s.folded = r.random() < .6, r.random() < .4
            elif op == "sub":
                log.append(repr(card.select(r.choice(TITLES)).select(r.choice(TITLES)).content))
            elif op == "toc":
                log.append(card.get_toc())
            elif op == "render":
                log.append(card.render())
            elif op == "repr":
                log.append(repr(card) + str(card))
            elif op == "save":
                p = os.path.join(d, "card.md")
                card.save(p, copy_files=r.random() < .2)
                with open(p, encoding="utf-8") as f:
                    log.append(f.read())
            elif op == "perm":
                imp = types.SimpleNamespace(importances_mean=np.array([.1, .3]) * (1 + r.randrange(5)), importances=np.array([[.1, .2], [.3, .4]]) * (1 + r.randrange(5)))
                p = os.path.join(d, f"perm{i}.png")
                card.add_permutation_importances(imp, np.array(["x", "y"]), plot_file=p, plot_name=f"perm {r.randrange(9)}", overwrite=True)
                with open(p, "rb") as f:
                    log.append("png " + __import__("hashlib").sha1(f.read()).hexdigest())
            else:
                w = r.randrange(4)
                if w == 0:
                    card.select("no such/section")
                elif w == 1:
                    card.add_plot(**{"": "x.png"})
                elif w == 2:
                    card.add_table(**{"T": {"a": [1], "b": []}})
                else:
                    card.delete([])
        except Exception as e:
            log.append(exc(e, d))
        yield
    log.append(card.render())
    log.append(card.get_toc())


def _card(r, d, fx, plots):
    from skops.card import Card
    sh = shared_args()
    model = _model(r, fx, d)
    kw = dict(template=r.choice(["skops", "skops", None, sh["template"], sh["template2"]]), model_diagram=r.choice(["auto", False, "auto", "Diagram"]))
    n = r.randrange(6, 25)

    def call():
        log = []
        card = Card(model, **kw)
        LIVE_CARDS.append((card, [model, *sh.values()]))
        yield
        yield from card_steps(r, d, fx, card, n, log, plots)
        return log
    return call, lambda log: norm("\n=====\n".join(log), d)


@kind(6)
def card(r, d, fx):
    return _card(r, d, fx, 0)


@kind(1)
def card_plots(r, d, fx):
    return _card(r, d, fx, 3)


@kind(2)
def card_path_model(r, d, fx):
    """a card of a model file that is replaced while the card lives"""
    from skops.card import Card
    from sklearn.linear_model import LogisticRegression
    p = os.path.join(d, "model.pkl")
    cs = [r.randrange(1, 9) for _ in range(3)]

    def write(c):
        with open(p, "wb") as f:
            pickle.dump(LogisticRegression(C=float(c)), f)
        os.utime(p, (10**9, 10**9))

    def call():
        out = []
        write(cs[0])
        card = Card(r.choice([p, pathlib.Path(p)]), model_diagram=False, template=None)
        out.append(repr(card.get_model()))
        for c in cs:
            write(c)
            yield
            out.append(repr(card.get_model()))
            out.append(card.add_hyperparams(section=f"H{len(out)}").render())
        return out
    return call, lambda out: norm("\n".join(out), d)


@kind(1)
def card_table_edited(r, d, fx):
    """two cards are given the same table and the same template; one of them is changed"""
    from skops.card import Card
    from sklearn.linear_model import LogisticRegression
    m = LogisticRegression()
    template = {"A": "a", "A/B": "b", "C": "c"}
    keep = dict(template)

    def call():
        tmpl = r.choice([template, "skops", None])
        one, two = Card(m, template=tmpl), Card(m, template=tmpl)
        three = Card(m, template=tmpl)
        before = two.render()
        LIVE_CARDS.extend([(one, [m, template]), (two, [m, template])])
        yield
        one.add(**{"A/New": "new", "Model description": "x", "Top": "t"})
        one.add_metrics(acc=.5)
        one.add_table(T={"a": [1]})
        for k in ("A", "Model description"):
            s = one.select(k) if k in ("A", "Model description") else None
            s.content, s.folded, s.visible = "changed", True, True
            s.subsections.clear()
        one.delete("Top")
        yield
        after = two.render()
        two.add_metrics(f1=.25)
        three.add_metrics(f1=.25)
        return before, after, two.render(), three.render(), one.render(), Card(m, template=tmpl).render()

    def fin(x):
        x = [norm(y, d) for y in x]
        if x[0] != x[1]:
            return Bad(f"a card changed when another one was edited: {first(x[0], x[1])}")
        if x[2] != x[3]:
            return Bad(f"metrics of one card differ from those of another: {first(x[2], x[3])}")
        if x[5] != x[0]:
            return Bad(f"a new card differs from one made before another one was edited: {first(x[0], x[5])}")
        if template != keep:
            return Bad(f"the template was changed: {template}")
        return text(x)
    return call, fin


@kind(2)
def parsed(r, d, fx):
    """a card read by pandoc, edited and rendered; parsing again gives the original"""
    from skops.card import parse_modelcard
    p = os.path.join(d, "read.md")
    texts = [r.choice(fx["cards"]) for _ in range(2)]

    def call():
        out = []
        for t in texts:
            with open(p, "w", encoding="utf-8") as f:
                f.write(t)
            yield
            a = parse_modelcard(p)
            LIVE_CARDS.append((a, []))
            ra = a.render()
            out.append(ra)
            a.add(**{"New": "new"}).add_metrics(acc=1)
            for k in list(a._data) if hasattr(a, "_data") else []:
                a.select(k.replace("/", "\\/")).content = "edited"
            yield
            b = parse_modelcard(p)
            LIVE_CARDS.append((b, []))
            out.append(b.render())
        return out

    def fin(x):
        for a, b in zip(x[::2], x[1::2]):
            if a != b:
                return Bad(f"parsing a card again, after the first one was edited, gives something else: {first(a, b)}")
        return norm("\n====\n".join(x), d)
    return call, fin


def shared_between_cards():
    """what two cards hold in common, other than what they were given"""
    owner = {}
    for i, (c, args) in enumerate(LIVE_CARDS):
        stop = set()
        for a in args:
            stop.add(id(a))
            stop.update(mutables(a))
        mine = {}
        for k, v in vars(c).items():
            if k in ("model", "_model"):
                continue
            mine.update(mutables(v, stop))
        for j, o in mine.items():
            if j in owner and owner[j][0] != i:
                return f"cards {owner[j][0]} and {i} share a {type(o).__name__}: {repr(o)[:200]}"
            owner[j] = (i, o)
    return None


# ---------------------------------------------------------------- operations by number
def names():
    out = []
    for k, (f, w) in KINDS.items():
        out += [k] * w
    return out


class Op:
    """one execution of an operation"""

    def __init__(self, kind, no, d, fx):
        self.kind, self.no = kind, no
        self.d = d
        os.makedirs(d, exist_ok=True)
        # nothing that differs between executions may be known to the operation
        call, self.fin = KINDS[kind][0](random.Random(f"op|{kind}|{no}"), d, fx)
        self.call = call
        self.raw = self.error = None
        self.gen = None
        self.done = False

    def step(self):
        """run up to the next point where others may run; True when it is finished"""
        try:
            if self.gen is None:
                x = self.call()
                if not isinstance(x, types.GeneratorType):
                    self.raw, self.done = x, True
                    return True
                self.gen = x
            next(self.gen)
            return False
        except StopIteration as e:
            self.raw = e.value
        except Exception as e:
            self.error = exc(e, self.d)
        self.done = True
        return True

    def run(self):
        while not self.step():
            pass
        return self

    def result(self):
        try:
            if self.error is not None:
                return self.error
            if isinstance(self.raw, Bad):
                return self.raw
            return self.fin(self.raw)
        finally:
            self.raw = None

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)
