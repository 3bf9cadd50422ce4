"""Seeded generators of values.

`Gen(rng).supported(depth)`: the families that must round-trip (C05).
`Gen(rng).anything(depth)`: those plus everything else Python objects can be (C04).
`specials()`: an enumerated catalogue of awkward values, (name, thunk) pairs.
"""
from __future__ import annotations

import array
import collections
import datetime
import decimal
import fractions
import functools
import io
import itertools
import math
import operator
import pathlib
import re
import threading
import time
import types
import uuid
import weakref

import numpy as np
import scipy.sparse as sp
import scipy.special

from . import zoo

STRS = ["", "a", "b", "content", "key_types", "__class__", "__loader__", "__id__", "attrs", "type", "file",
        "nul\0in", "é", "日本", "😀", "\ud800", " lead", "trail ", "new\nline", "\t", "1", "1.0", "True", "None",
        "null", "true", "nan", "[1]", "{}", '"', "\\", "x" * 300, "a/b", "..", "\x1f", "[b]", "instance_attrs"]
INTS = [0, 1, -1, 2, 7, 255, 256, -2**31, 2**31, 2**53 + 1, 2**63, -2**63 - 1, 10**40, -10**40]
FLTS = [0.0, -0.0, 1.0, 0.1, -1.5, 1e308, 5e-324, float("inf"), float("-inf"), float("nan"), 1e16, 1 / 3, 123456789.125]
SIMPLE_DTYPES = ["?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f2", "f4", "f8", "c8", "c16", "g", "G",
                 "S1", "S5", "U1", "U4", "V3", "M8[D]", "M8[ns]", "M8[25us]", "m8[s]", "m8", "S0", "U0"]
UFUNCS = [np.exp, np.log1p, np.add, np.sqrt, np.maximum, scipy.special.expit, scipy.special.gammaln, scipy.special.jv]
TYPES = [int, str, float, bool, list, dict, np.float64, np.int8, np.ndarray, np.str_, np.bool_, collections.OrderedDict,
         zoo.Plain, zoo.Point, bytes, complex]
BITGENS = [np.random.MT19937, np.random.PCG64, np.random.PCG64DXSM, np.random.Philox, np.random.SFC64]


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.np = np.random.default_rng(rng.getrandbits(64))

    # ---------- scalars
    def scalar(self):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return r.choice([None, True, False])
        if k == 1:
            return r.choice(INTS) if r.random() < .6 else r.randrange(-10**6, 10**6)
        if k == 2:
            return r.choice(FLTS) if r.random() < .6 else r.gauss(0, 1e3)
        if k == 3:
            return r.choice(STRS)
        if k == 4:
            return "".join(chr(r.choice([r.randrange(32, 127), r.randrange(0, 0x300), r.randrange(0x10000, 0x10ffff)]))
                           for _ in range(r.randrange(6)))
        return r.randrange(100)

    # ---------- numpy
    def shape(self, maxd=3, allow0=True):
        r = self.r
        nd = r.choice([0, 1, 1, 1, 2, 2, 3, 4][: 5 + maxd] if allow0 else [1, 1, 2, 2, 3])
        return tuple(r.choice([0, 1, 2, 3, 3, 5] if allow0 else [1, 2, 3, 4]) for _ in range(nd))

    def dtype(self, structured=True):
        r = self.r
        if structured and r.random() < .15:
            n = r.randrange(1, 4)
            fields = []
            for i in range(n):
                nm = r.choice(["a", "b", "é", "f f", "x1"]) + str(i)
                f = [nm, self.dtype(structured=r.random() < .3)]
                if r.random() < .2 and f[1].itemsize:
                    f.append((r.randrange(1, 3),))
                fields.append(tuple(f))
            return np.dtype(fields, align=r.random() < .3)
        dt = np.dtype(r.choice(SIMPLE_DTYPES))
        if r.random() < .3:
            dt = dt.newbyteorder(r.choice("<>"))
        return dt

    def fill(self, shape, dt):
        n = int(np.prod(shape, dtype=int))
        if dt.names is not None:
            a = np.zeros(shape, dt)
            for nm in dt.names:
                f = a[nm]
                f[...] = self.fill(f.shape, f.dtype)
            return a
        if dt.itemsize == 0:
            return np.zeros(shape, dt)
        k = dt.kind
        if k in "biu":
            raw = self.np.integers(0, 256, n * dt.itemsize, dtype=np.uint8).tobytes()
            a = np.frombuffer(raw, dtype=dt, count=n).copy()
            if k == "b":
                a = a.view("u1") % 2 == 1
        elif k in "fc":
            a = (self.np.standard_normal(n) * 10.0 ** self.np.integers(-5, 5, n)).astype(dt)
            if n:
                for _ in range(self.r.randrange(3)):
                    a[self.r.randrange(n)] = self.r.choice([np.nan, np.inf, -np.inf, -0.0, 0.0])
        elif k in "mM":
            a = self.np.integers(-10**5, 10**5, n).astype("i8").astype(dt)
            if n and self.r.random() < .4:
                a[self.r.randrange(n)] = "NaT"
        elif k == "S":
            a = np.array([bytes(self.np.integers(1, 255, self.r.randrange(dt.itemsize + 1), dtype=np.uint8)) for _ in range(n)], dtype=dt)
        elif k == "U":
            m = dt.itemsize // 4
            a = np.array(["".join(chr(int(c)) for c in self.np.integers(1, 0x2ff, self.r.randrange(m + 1))) for _ in range(n)], dtype=dt)
        elif k == "V":
            a = np.frombuffer(self.np.integers(0, 256, n * dt.itemsize, dtype=np.uint8).tobytes(), dtype=dt, count=n).copy()
        else:
            raise AssertionError(k)
        return a.reshape(shape)

    def array(self):
        r = self.r
        a = self.fill(self.shape(), self.dtype())
        k = r.random()
        if k < .25:
            a = np.asfortranarray(a)
        elif k < .35 and a.ndim:
            a = a[::-1]
        elif k < .45 and a.ndim > 1:
            a = a.T
        elif k < .5 and a.ndim and a.shape[0] > 1:
            a = a[::2]
        elif k < .54:
            a = np.broadcast_to(a, (2,) + a.shape)
        elif k < .58:
            a.flags.writeable = False
        return a

    def npscalar(self):
        dt = self.dtype(structured=self.r.random() < .2)
        s = self.fill((1,), dt)[0]
        if isinstance(s, np.str_) and s.endswith("\0"):
            return np.str_("a")
        return s

    def masked(self):
        r = self.r
        dt = np.dtype(r.choice(["f8", "i4", "?", "c16", "U3", "M8[D]", "f4", ">i8", [("a", "i4"), ("b", "f8")]]))
        sh = self.shape(2)
        data = self.fill(sh, dt)
        k = r.randrange(4)
        if k == 0:
            m = np.ma.MaskedArray(data)
        else:
            mk = self.np.random(sh) < .4
            if dt.names:
                mm = np.zeros(sh, np.ma.make_mask_descr(dt))
                for n in dt.names:
                    mm[n] = self.np.random(sh) < .4
                mk = mm
            m = np.ma.MaskedArray(data, mask=mk)
            if r.random() < .3 and dt.names is None:
                m.fill_value = data.flat[0] if data.size else np.zeros(1, dt)[0]
            if r.random() < .3:
                m.harden_mask()
        return m

    def objarray(self):
        """non-empty object arrays of rank >= 1 with scalar cells"""
        r = self.r
        sh = tuple(r.randrange(1, 4) for _ in range(r.randrange(1, 4)))
        a = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            a[i] = r.choice([self.scalar, lambda: r.choice(STRS), lambda: None])()
        return np.asfortranarray(a) if r.random() < .2 else a

    def rng_obj(self):
        r = self.r
        k = r.randrange(3)
        if k == 0:
            g = np.random.RandomState(r.randrange(2**32))
            if r.random() < .4:
                g = np.random.RandomState(r.choice(BITGENS)(r.randrange(10**6)))
            for _ in range(r.randrange(4)):
                g.standard_normal()  # odd counts leave a cached gauss value
                if r.random() < .3:
                    g.randint(10)
            return g
        seed = r.choice([r.randrange(2**64), [1, 2, r.randrange(100)], r.getrandbits(128)])
        bg = r.choice(BITGENS)
        if r.random() < .3:
            ss = np.random.SeedSequence(seed, spawn_key=(1, 2))
            if r.random() < .5:
                ss.spawn(2)
            g = np.random.Generator(bg(ss))
        else:
            g = np.random.Generator(bg(seed))
        if r.random() < .3:
            g.bit_generator.seed_seq.spawn(r.randrange(1, 3))
        for _ in range(r.randrange(4)):
            r.choice([lambda: g.standard_normal(3), lambda: g.integers(10, dtype="u4"), lambda: g.random(dtype="f4"),
                      lambda: g.bytes(3)])()
        return g

    def sparse(self):
        r = self.r
        f = r.choice(["csr", "csc", "coo", "bsr", "dia"])
        arr = r.random() < .5
        dt = r.choice(["f8", "f4", "i8", "i4", "c16", "?", "u1"])
        m, n = r.choice([1, 2, 4, 6]), r.choice([1, 2, 4, 6])
        if r.random() < .1:
            m, n = r.choice([(0, 3), (3, 0)]) if f in ("csr", "csc", "coo") else (1, 1)
        d = self.fill((m, n), np.dtype(dt))
        if d.dtype.kind in "fc":
            d = np.nan_to_num(d)
        d = np.where(self.np.random((m, n)) < .5, d, np.zeros((), d.dtype)).astype(dt)
        x = sp.coo_array(d) if arr else sp.coo_matrix(d)
        if f == "coo" and r.random() < .3 and x.nnz:  # duplicates, explicit zeros, unsorted
            data = np.concatenate([x.data, x.data[:1], np.zeros(1, x.dtype)])
            row = np.concatenate([x.row, x.row[:1], x.row[:1]])
            col = np.concatenate([x.col, x.col[:1], x.col[:1]])
            x = type(x)((data, (row, col)), shape=(m, n))
        x = x.asformat(f)
        if f in ("csr", "csc") and r.random() < .3 and x.nnz > 1:
            x.indices = x.indices[::-1].copy()
            x.has_sorted_indices = False
            try:
                x.check_format()
            except ValueError:
                x = (sp.coo_array(d) if arr else sp.coo_matrix(d)).asformat(f)
        return x

    def npnum(self):
        """numpy numbers usable as dict keys"""
        r = self.r
        dt = np.dtype(r.choice(["i1", "u2", "i4", "i8", "u8", "f2", "f4", "f8", "c8", "c16", "?", "g"]))
        x = self.fill((1,), dt)[0]
        return dt.type(3) if x != x else x

    def key(self):
        r = self.r
        k = r.random()
        if k < .4:
            return r.choice(STRS)
        if k < .6:
            return r.choice(INTS) if r.random() < .5 else r.randrange(-5, 5)
        if k < .75:
            x = r.choice(FLTS)
            return 2.5 if x != x else x
        return self.npnum()

    def leaf(self):
        r = self.r
        k = r.randrange(24)
        if k < 6:
            return self.scalar()
        if k == 6:
            return r.choice([bytes, bytearray])(self.np.integers(0, 256, r.randrange(40), dtype=np.uint8).tobytes())
        if k == 7:
            o = lambda: r.choice([None, 0, 1, -3, 10**20, "a", 1.5, True])  # noqa
            return slice(o(), o(), o())
        if k in (8, 9, 10):
            return self.array()
        if k in (11, 12):
            return self.npscalar()
        if k == 13:
            return self.dtype()
        if k == 14:
            return self.masked()
        if k == 15:
            return self.objarray()
        if k == 16:
            return self.rng_obj()
        if k in (17, 18):
            return self.sparse()
        if k == 19:
            return r.choice(UFUNCS)
        if k == 20:
            return r.choice(TYPES)
        if k == 21:
            return r.choice([operator.attrgetter("a"), operator.attrgetter("a.b", "c"), operator.itemgetter(0),
                             operator.itemgetter("k", 1, None), operator.methodcaller("upper"),
                             operator.methodcaller("split", ",", 1), operator.itemgetter(slice(1, 2))])
        return self.scalar()

    # ---------- C05
    def supported(self, depth=3, leaf=None):
        r = self.r
        leaf = leaf or self.leaf
        if depth <= 0 or r.random() < .25:
            return leaf()
        k = r.randrange(9)
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        sub = lambda: self.supported(depth - 1, leaf)  # noqa
        if k == 0:
            return [sub() for _ in range(n)]
        if k == 1:
            return tuple(sub() for _ in range(n))
        if k == 2:
            s = set()
            for _ in range(n):
                x = r.choice([self.scalar(), r.choice(STRS), (r.randrange(3), r.choice(STRS)), r.choice([b"x", b""]), self.npnum()])
                s.add(x)
            return s
        if k in (3, 4):
            return {self.key(): sub() for _ in range(n)}
        if k == 5:
            return collections.OrderedDict((self.key(), sub()) for _ in range(n))
        if k == 6:
            return collections.defaultdict(r.choice([None, list, int, dict, zoo.func]), {self.key(): sub() for _ in range(n)})
        if k == 7:
            return functools.partial(r.choice([zoo.func, np.exp, int, zoo.Plain, scipy.special.expit, operator.itemgetter(1)]),
                                     *[sub() for _ in range(n)], **{f"k{i}": sub() for i in range(r.randrange(3))})
        return zoo.Point(sub(), sub())

    # ---------- C04
    def anyleaf(self):
        r = self.r
        if r.random() < .45:
            return self.leaf()
        name, thunk = r.choice(SPECIALS)
        self.last_special = name
        return thunk()

    def anykey(self):
        r = self.r
        if r.random() < .5:
            return self.key()
        return r.choice([None, True, False, np.bool_(True), np.bool_(False), 1, "1", 1.0, "1.0", "true", "null", "None", "nan",
                         "1 ", "true ", " 1", np.str_("1"), np.str_("a"), np.int64(1), np.float32(1), np.float64(.1), b"a",
                         (1, 2), frozenset([1]), zoo.MyStr("a"), zoo.MyInt(1), zoo.Level.LOW, zoo.Colour.RED, zoo.SEnum.A, 1j,
                         float("nan"), float("inf"), decimal.Decimal(1), datetime.date(2020, 1, 1), np.datetime64("2020-01-01"),
                         np.bytes_(b"a"), zoo.func, int, 10**30, -0.0, np.longdouble("0.1"), np.clongdouble(1j), range(2), ...,
                         "Infinity", "inf", "-0.0", "e", True, fractions.Fraction(1, 3), np.timedelta64(1, "s"), zoo.Point(1, 2)])

    def anything(self, depth=3):
        r = self.r
        if depth <= 0 or r.random() < .2:
            return self.anyleaf()
        k = r.randrange(16)
        n = r.choice([0, 1, 1, 2, 2, 3])
        sub = lambda: self.anything(depth - 1)  # noqa
        if k == 0:
            return [sub() for _ in range(n)]
        if k == 1:
            return tuple(sub() for _ in range(n))
        if k in (2, 3, 4):
            return {self.anykey(): sub() for _ in range(n)}
        if k == 5:
            t = r.choice([collections.OrderedDict, zoo.MyDict, zoo.MyOrdered, collections.UserDict])
            return t((self.anykey(), sub()) for _ in range(n))
        if k == 6:
            d = r.choice([collections.defaultdict, zoo.MyDefault])(r.choice([None, list, zoo.func, lambda: 3]))
            d.update({self.anykey(): sub() for _ in range(n)})
            return d
        if k == 7:
            return self.attrs(r.choice([zoo.Plain, zoo.Sub, zoo.GetStateOnly])(**{r.choice(["a", "b", "key_types", "content", "x1"]): sub() for _ in range(n)}))
        if k == 8 and r.random() < .25:
            pair = r.choice([lambda: ({}, {self.anykey(): sub() for _ in range(n)}), lambda: (None, {"b": sub(), "a": sub()}), lambda: ({"b": sub(), "a": 1}, None), lambda: ([], sub())])()
            return r.choice([lambda: zoo.GetSetTuple(*pair), lambda: zoo.GetSetScalar(pair), lambda: zoo.GetSetScalar(list(pair)), lambda: zoo.ReduceArgs(*pair)])()
        if k == 8:
            return r.choice([zoo.GetSet(sub()), zoo.GetSetTuple(sub(), sub()), zoo.GetSetScalar(sub()), zoo.ReduceArgs(sub(), sub()),
                             zoo.ReduceArgsNone(sub()), zoo.SlotsState(sub(), sub()), zoo.Slots(sub(), sub()), zoo.SlotsDict(sub(), q=sub()),
                             zoo.ReduceOther(sub()), zoo.GetSetFalsy(r.choice([0, 3])), zoo.GetAttrDynamic(a=sub())])
        if k == 9:
            t = r.choice([zoo.MyList, zoo.InitList, collections.UserList, zoo.SortedList_])
            x = t(*[sub() for _ in range(n)]) if t is zoo.InitList else t([sub() for _ in range(n)])
            return self.attrs(x)
        if k == 10:
            return r.choice([zoo.Point, zoo.PointD, zoo.SubPoint])(sub(), sub())
        if k == 11:
            sh = r.choice([(), (0,), (1,), (2,), (3,), (2, 2), (1, 3), (2, 0), (0, 2), (2, 1, 2)])
            a = np.empty(sh, dtype=object)
            for i in np.ndindex(*sh):
                a[i] = sub()
            k2 = r.random()
            return np.asfortranarray(a) if k2 < .2 else (a.T if k2 < .4 else a)
        if k == 12:
            f = r.choice([zoo.func, int, zoo.Plain().meth, zoo.Plain.cmeth, zoo.wrapped, zoo.Plain])
            p = r.choice([functools.partial, functools.partial, zoo.MyPartial])(f, *[sub() for _ in range(n)], k=sub())
            if r.random() < .3:
                p.note = sub()
            return p
        if k == 13:
            a = self.fill(self.shape(), self.dtype()).view(r.choice([zoo.MyArray, zoo.InfoArray]))
            if r.random() < .3:
                a.info = r.choice([None, "x", [1]])
            return a
        if k == 14:
            o = r.choice([zoo.Plain, zoo.Sub])(v=sub())
            return r.choice([o.meth, o.meth, type(o).cmeth, o.cmeth, getattr(o, "sup", o.meth)() if isinstance(o, zoo.Sub) else o.meth])
        return self.supported(depth - 1)

    def attrs(self, o):
        r = self.r
        if r.random() < .3 and hasattr(o, "__dict__"):
            for _ in range(r.randrange(1, 3)):
                setattr(o, r.choice(["tag", "content", "_p", "key_types"]), self.anyleaf())
        return o


def _cyc():
    a = []
    a.append(a)
    return a


def _cycd():
    a = {}
    a["x"] = [a]
    return a


def _cyco():
    p = zoo.Plain()
    p.me = p
    return p


def _oarr():
    a = np.empty(2, dtype=object)
    a[0], a[1] = [1, 2], [3, 4]
    return a


def _oarr_t():
    a = np.empty((2, 1), dtype=object)
    a[0, 0], a[1, 0] = (1, 2), np.arange(3)
    return a


def _lru():
    return functools.lru_cache(zoo.func)


def _withattr(t, *a):
    o = t(*a)
    o.extra = [1]
    return o


def _bg_shared():
    b = np.random.PCG64(3)
    return [np.random.Generator(b), np.random.Generator(b)]


def _slotlist():
    s = zoo.SlotList([1])
    s.tag = 2
    return s


def _ma_shared():
    d = np.arange(3.0)
    return [d, np.ma.MaskedArray(d, [0, 1, 0], copy=False)]


def _spattr():
    return sp.csr_matrix(np.eye(2))


SPECIALS = [
    ("frozenset", lambda: frozenset([1, "a"])), ("deque", lambda: collections.deque([1, 2], 3)),
    ("Counter", lambda: collections.Counter("aab")), ("ChainMap", lambda: collections.ChainMap({1: 2}, {"a": 3})),
    ("range", lambda: range(1, 9, 2)), ("complex", lambda: 1 - 2j), ("ellipsis", lambda: ...), ("notimpl", lambda: NotImplemented),
    ("bytearr", lambda: bytearray(b"abc")), ("memoryview", lambda: memoryview(b"abc")), ("arrayarr", lambda: array.array("d", [1, 2])),
    ("object", object), ("date", lambda: datetime.date(2020, 1, 2)), ("datetime", lambda: datetime.datetime(2020, 1, 2, 3, 4, 5, 6, fold=1)),
    ("datetimetz", lambda: datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(hours=2), "x"))),
    ("time", lambda: datetime.time(1, 2, 3, fold=1)), ("timedelta", lambda: datetime.timedelta(1, 2, 3)), ("tz", lambda: datetime.timezone.utc),
    ("decimal", lambda: decimal.Decimal("1.10")), ("decnan", lambda: decimal.Decimal("sNaN")), ("fraction", lambda: fractions.Fraction(1, 3)),
    ("uuid", lambda: uuid.UUID(int=7)), ("purepath", lambda: pathlib.PurePosixPath("a/b")), ("path", lambda: pathlib.Path("/tmp/x")),
    ("ns", lambda: types.SimpleNamespace(a=1, b=[2])), ("mappingproxy", lambda: types.MappingProxyType({"a": 1})),
    ("exc", lambda: ValueError("a", 2)), ("excattr", lambda: _withattr(ValueError, "x")), ("customerror", lambda: zoo.CustomError(1, "b")),
    ("regex", lambda: re.compile("a+")), ("lock", threading.Lock), ("gen", lambda: (i for i in [1])), ("iter", lambda: iter([1, 2])),
    ("zip", lambda: zip([1], [2])), ("map", lambda: map(len, ["a"])), ("count", lambda: itertools.count(3)), ("property", lambda: property(len)),
    ("stringio", lambda: io.StringIO("abc")), ("bytesio", lambda: io.BytesIO(b"abc")), ("weakref", lambda: weakref.ref(zoo.Plain)),
    ("module", lambda: math), ("struct_time", lambda: time.gmtime(0)), ("genalias", lambda: list[int]), ("union", lambda: int | None),
    ("typevar", lambda: __import__("typing").TypeVar("T")), ("typingopt", lambda: __import__("typing").Optional[int]),
    ("lambda", lambda: (lambda: 1)), ("renamed", lambda: zoo.renamed), ("wrapped", lambda: zoo.wrapped), ("shadowed", lambda: zoo._original_shadow),
    ("localfunc", zoo.local_func), ("closure", lambda: zoo.closure(3)), ("localcls", zoo.local_class), ("localobj", lambda: zoo.local_class()()),
    ("shadowcls", zoo.local_shadow), ("shadowobj", lambda: zoo.local_shadow()()), ("nestedcls", lambda: zoo.Outer.Inner),
    ("nestedobj", lambda: zoo.Outer.Inner()), ("nestedshadow", lambda: zoo.Outer.Plain()), ("nestedshadowcls", lambda: zoo.Outer.Plain),
    ("static", lambda: zoo.Plain.smeth), ("plainfunc", lambda: zoo.Plain.meth), ("bound", lambda: zoo.Plain(a=1).meth),
    ("boundsub", lambda: zoo.Sub(a=1).meth), ("boundsuper", lambda: zoo.Sub(a=1).sup()), ("classmeth", lambda: zoo.Plain.cmeth),
    ("boundbuiltin", lambda: [].append), ("strmeth", lambda: "abc".upper), ("dictget", lambda: {1: 2}.get), ("fromkeys", lambda: dict.fromkeys),
    ("descr", lambda: str.upper), ("wrapperdescr", lambda: int.__add__), ("methwrapper", lambda: (3).__add__), ("len", lambda: len),
    ("mathfn", lambda: math.sin), ("npsum", lambda: np.sum), ("npfn", lambda: np.linalg.norm), ("rand", lambda: np.random.rand),
    ("boundrs", lambda: np.random.RandomState(0).rand), ("frompyfunc", lambda: np.frompyfunc(len, 1, 1)), ("vectorize", lambda: np.vectorize(len)),
    ("lru", _lru), ("partialmethod", lambda: functools.partialmethod(len, 1)), ("mcaller_kw", lambda: operator.methodcaller("f", 1, k=2)),
    ("cmp_to_key", lambda: functools.cmp_to_key(zoo.func)), ("staticm", lambda: staticmethod(len)), ("super", lambda: super(zoo.Sub, zoo.Sub())),
    ("mylist", lambda: zoo.MyList([1])), ("mylist_attr", lambda: _withattr(zoo.MyList, [1])), ("mydict", lambda: zoo.MyDict(a=1)),
    ("mydict_attr", lambda: _withattr(zoo.MyDict, {"a": 1})), ("myset", lambda: zoo.MySet([1])), ("myset_attr", lambda: _withattr(zoo.MySet, [1])),
    ("mytuple", lambda: zoo.MyTuple((1,))), ("mystr", lambda: zoo.MyStr("a")), ("myint", lambda: zoo.MyInt(3)), ("myfloat", lambda: zoo.MyFloat(3)),
    ("mybytes", lambda: zoo.MyBytes(b"a")), ("mybytearray", lambda: zoo.MyByteArray(b"a")), ("myfrozen", lambda: zoo.MyFrozen([1])),
    ("slotlist", _slotlist), ("initdict", lambda: zoo.InitDict(1, 2)), ("filterdict", lambda: zoo.FilterDict(a=1)), ("initlist", lambda: zoo.InitList(1, 2)),
    ("point", lambda: zoo.Point(1, [2])), ("subpoint", lambda: zoo.SubPoint(1, 2)), ("subpoint_attr", lambda: _withattr(zoo.SubPoint, 1, 2)),
    ("pointd", lambda: zoo.PointD(1)), ("enum", lambda: zoo.Colour.RED), ("enumt", lambda: zoo.Colour.BOTH), ("intenum", lambda: zoo.Level.HIGH),
    ("flag", lambda: zoo.Flags.A | zoo.Flags.B), ("strenum", lambda: zoo.SEnum.A), ("slots", lambda: zoo.Slots(1, 2)), ("slotsd", lambda: zoo.SlotsDict(1, z=2)),
    ("slotsst", lambda: zoo.SlotsState(1, [2])), ("reduceargs", lambda: zoo.ReduceArgs(1, [2])), ("reducenone", lambda: zoo.ReduceArgsNone(1)),
    ("reducestate", lambda: zoo.ReduceState(1)), ("reduceother", lambda: zoo.ReduceOther(1)), ("reducestr", lambda: zoo.SINGLETON),
    ("reducesub", lambda: zoo.ReduceSubclassed(1, 2)), ("newargs", lambda: zoo.NewArgs(3)), ("getset", lambda: zoo.GetSet([1])),
    ("pairstate", lambda: zoo.GetSetTuple({}, {"b": 1, "a": 2})), ("pairstate_n", lambda: zoo.GetSetTuple(None, {"b": 1, "a": 2})), ("pairstate_t", lambda: zoo.GetSetTuple({"z": 1, "c": 2}, {})),
    ("pairstate_l", lambda: zoo.GetSetTuple([], {"b": 1, 1: 2})), ("scalarstate_d", lambda: zoo.GetSetScalar({"z": 1, "a": [2]})), ("scalarstate_t", lambda: zoo.GetSetScalar((None, {"b": 1, "a": 2}))),
    ("scalarstate_e", lambda: zoo.GetSetScalar((None, {}))), ("getset_d", lambda: zoo.GetSet({"z": 1, "a": 2})), ("plain_order", lambda: zoo.Plain(z=1, a=2, m=3)),
    ("getsettuple", lambda: zoo.GetSetTuple(1, [2])), ("getsetscalar", lambda: zoo.GetSetScalar(5)), ("getsetscalar0", lambda: zoo.GetSetScalar(0)),
    ("falsy", lambda: zoo.GetSetFalsy()), ("dynamic", lambda: zoo.GetAttrDynamic(a=1)), ("unhash", zoo.Unhashable), ("liar", zoo.Liar),
    ("raises", zoo.RaisesGetState), ("raisesred", zoo.RaisesReduce), ("cyc", _cyc), ("cycd", _cycd), ("cyco", _cyco), ("mypartial", lambda: zoo.MyPartial(int, base=2)),
    ("slice_t", lambda: slice(1, (2, [3]), None)), ("slice_nan", lambda: slice(float("nan"))), ("slice_np", lambda: slice(np.int64(1))),
    ("slice_o", lambda: slice(zoo.Plain())), ("bigint", lambda: 10**5000), ("nan", lambda: float("nan")), ("surrogate", lambda: "\ud800\udc00x"),
    ("emptyobj", zoo.Empty), ("normpoint", lambda: zoo.NormPoint(1, 2)), ("normpoint_made", lambda: zoo.NormPoint._make([3, 1])),
    ("npstr0", lambda: np.str_("a\0")), ("npstr00", lambda: np.str_("\0")), ("npbytes", lambda: np.bytes_(b"ab")), ("npbytes0", lambda: np.bytes_(b"a\0")),
    ("npvoid", lambda: np.void(b"abc")), ("npvoids", lambda: np.ones(1, "i4,f8")[0]), ("record", lambda: np.rec.array([(1, 2.)], dtype=[("a", int), ("b", float)])[0]),
    ("recarray", lambda: np.rec.array([(1, 2.)], dtype=[("a", int), ("b", float)])), ("matrix", lambda: np.matrix([[1, 2]])), ("chararray", lambda: np.char.array(["a", "b"])),
    ("npma_masked", lambda: np.ma.masked), ("mymasked", lambda: np.ma.MaskedArray([1, 2], [0, 1]).view(zoo.MyMasked)), ("mvoid", lambda: np.ma.array([(1, 2.)], dtype="i4,f8", mask=[(1, 0)])[0]),
    ("oarr0", lambda: np.array(None, dtype=object)), ("oarr0l", lambda: np.array([[1]], dtype=object)[0, 0:1]), ("oarr_lists", _oarr), ("oarr_t", _oarr_t),
    ("oarr_e", lambda: np.empty((0, 3), object)), ("oarr_e2", lambda: np.empty((3, 0), object)), ("oarr_npcell", lambda: np.array([np.float32(1), np.int8(2), None], object)),
    ("sdtype_o", lambda: np.array([(1, "x")], dtype=[("a", int), ("b", object)])), ("dt_o", lambda: np.dtype(object)), ("dt_sub", lambda: np.dtype((int, (2,)))),
    ("dt_rec", lambda: np.dtype((np.record, [("a", int)]))), ("dt_meta", lambda: np.dtype("f8", metadata={"a": 1})), ("dt_align", lambda: np.dtype("i1,f8", align=True)),
    ("dt_offs", lambda: np.dtype({"names": ["a", "b"], "formats": ["i4", "i2"], "offsets": [0, 2], "itemsize": 16})), ("dt_title", lambda: np.dtype([(("t", "a"), "i4")])),
    ("stringdt", lambda: np.array(["a"], dtype=np.dtypes.StringDType())), ("memmap", lambda: np.memmap(io.BytesIO() if False else _tmpfile(), shape=(2,), mode="w+", dtype="f8")),
    ("bitgen", lambda: np.random.PCG64(1)), ("seedseq", lambda: np.random.SeedSequence(1)), ("rngspawn", lambda: np.random.default_rng(3).spawn(1)[0]),
    ("poly1d", lambda: np.poly1d([1, 2])), ("polynomial", lambda: np.polynomial.Polynomial([1, 2])), ("nditer", lambda: np.nditer(np.zeros(2))), ("flatiter", lambda: np.zeros(2).flat),
    ("finfo", lambda: np.finfo("f8")), ("errstate", lambda: np.errstate(all="ignore")), ("datetime64", lambda: np.datetime64("NaT")),
    ("spmatrix", _spattr), ("lil", lambda: sp.lil_matrix(np.eye(2))), ("dok", lambda: sp.dok_matrix(np.eye(2))), ("lila", lambda: sp.lil_array(np.eye(2))),
    ("doka", lambda: sp.dok_array(np.eye(2))), ("coo1d", lambda: sp.coo_array([0, 1, 2])), ("spobj", lambda: sp.csr_matrix(np.array([[1, 0]], dtype=object) if False else np.eye(1))),
    ("mysparse", lambda: zoo_sparse()), ("linop", lambda: __import__("scipy.sparse.linalg", fromlist=["x"]).aslinearoperator(np.eye(2))),
    ("norm", lambda: __import__("scipy.stats", fromlist=["x"]).norm), ("frozennorm", lambda: __import__("scipy.stats", fromlist=["x"]).norm(1, 2)),
    ("bspline", lambda: __import__("scipy.interpolate", fromlist=["x"]).BSpline(np.arange(8.), np.arange(4.), 3)),
    ("ckdtree", lambda: __import__("scipy.spatial", fromlist=["x"]).cKDTree(np.eye(3))), ("kdtree", lambda: __import__("sklearn.neighbors", fromlist=["x"]).KDTree(np.eye(3))),
    ("df", lambda: __import__("pandas").DataFrame({"a": [1, 2]})), ("series", lambda: __import__("pandas").Series([1, 2], name="s")),
    ("index", lambda: __import__("pandas").Index(["a"])), ("timestamp", lambda: __import__("pandas").Timestamp("2020-01-01")), ("NA", lambda: __import__("pandas").NA),
    ("boolkeys", lambda: {True: 1, False: 2}), ("nonekey", lambda: {None: 1, "null": 2}), ("collide", lambda: {1: "i", "1": "s", 1.5: "f", "1.5": "g"}),
    ("collide2", lambda: {"1": "s", 1: "i", "1 ": "t"}), ("collide3", lambda: {True: 1, "true": 2, "true ": 3}), ("npkeys", lambda: {np.float32(.1): 1, np.int8(3): 2, np.str_("a"): 3}),
    ("npboolkeys", lambda: {np.bool_(False): 1}), ("clongkey", lambda: {np.clongdouble(1 + 2j): 1}), ("longkey", lambda: {np.longdouble("0.1"): 1}), ("tuplekey", lambda: {(1, 2): 3}),
    ("byteskey", lambda: {b"a": 1}), ("nankey", lambda: {float("nan"): 1}), ("infkey", lambda: {float("inf"): 1, "Infinity": 2}), ("enumkey", lambda: {zoo.Level.LOW: 1}),
    ("propval", lambda: {"a": property(), "b": 1}), ("odmove", lambda: collections.OrderedDict([("b", 1), ("a", 2)])), ("bitshared", _bg_shared), ("mashared", _ma_shared),
    ("dictkeys", lambda: {1: 2}.keys()), ("userlist", lambda: collections.UserList([1])), ("userstr", lambda: collections.UserString("a")),
    ("code", lambda: zoo.func.__code__), ("frame", lambda: __import__("sys")._getframe()), ("bytes0", lambda: b""), ("type", lambda: type), ("nonetype", lambda: type(None)),
    ("functype", lambda: types.FunctionType), ("metacls", lambda: enum_meta()), ("npboolT", lambda: np.True_), ("emptydictobj", lambda: zoo.Plain()),
    ("getstateonly", lambda: zoo.GetStateOnly(a=1)), ("defaultlambda", lambda: collections.defaultdict(lambda: 1, {1: 2})), ("odict_attr", lambda: _withattr(zoo.MyOrdered, [("a", 1)])),
    ("sortedlist", lambda: zoo.SortedList_([2, 1])), ("bunch", lambda: __import__("sklearn.utils", fromlist=["x"]).Bunch(a=1, b=[2])),
    ("ordereddict_dup", lambda: collections.OrderedDict([(1, "a"), ("1", "b")])), ("mydefault", lambda: zoo.MyDefault(list, {1: [2]})),
    ("hugeint_float", lambda: [1e308 * 10, -0.0, 5e-324]), ("abcset", lambda: {(1, 2), frozenset([1])}), ("nested_t", lambda: ((), ((),), [()])),
]


def _tmpfile():
    import tempfile
    return tempfile.TemporaryFile()


def enum_meta():
    import enum
    return enum.EnumMeta


class _MySparse(sp.csr_matrix):
    pass


def zoo_sparse():
    return _MySparse(np.eye(2))
