"""Canonical form of an object graph.

canon(x) is a nested list of strings/lists.  With identity=True every mutable object gets a number
at its first visit and later visits are ["ref", n]; equality of two canonical forms then means same
exact types, same structure, same values *and* the same sharing partition of mutable objects.
"""
from __future__ import annotations

import collections
import functools
import hashlib
import operator
import struct
import sys
import types

import numpy as np
import scipy.sparse as sp

_NAMED: dict = {}
OPAQUE = "opaque"
_PLAIN_SCALARS = set(np.sctypeDict.values())
IGNORED_ATTRS = {"_sklearn_version"}


def _ident(o, name):
    """name, disambiguated when two different objects of this process carry the same name"""
    lst = _NAMED.setdefault(name, [])
    for i, x in enumerate(lst):
        if x is o:
            return name if i == 0 else f"{name}#{i}"
    lst.append(o)
    return name if len(lst) == 1 else f"{name}#{len(lst)-1}"


def tname(t):
    return _ident(t, f"{getattr(t, '__module__', None)}.{getattr(t, '__qualname__', getattr(t, '__name__', repr(t)))}")


def fname(f):
    m = getattr(f, "__module__", None)
    return _ident(f, f"{m}.{getattr(f, '__qualname__', getattr(f, '__name__', '?'))}")


def _flt(x):
    return "nan" if x != x else struct.pack(">d", x).hex()


def _bytes(b):
    b = bytes(b)
    return b.hex() if len(b) <= 64 else f"{len(b)}:{hashlib.blake2b(b, digest_size=16).hexdigest()}:{b[:24].hex()}"


def dtype_token(dt, cells=True):
    if dt.subdtype is not None:
        base, shape = dt.subdtype
        return ["sub", dtype_token(base), list(map(str, shape))]
    if dt.names is not None:
        fields = []
        for n in dt.names:
            f = dt.fields[n]
            fields.append([n, dtype_token(f[0]), str(f[1]), str(f[2]) if len(f) > 2 else ""])
        return ["struct", tname(dt.type), str(dt.itemsize), fields]
    if dt.type in _PLAIN_SCALARS:
        return dt.str  # aliases such as long and long long are the same dtype
    return [tname(dt.type), dt.str]


def array_bytes(a):
    """canonical data of a non-object array; padding of structured dtypes is not data"""
    if a.dtype.names is not None:
        return ["fields", [[n, array_bytes(a[n])] for n in a.dtype.names]]
    if a.dtype.hasobject:
        return ["objcells"]
    if a.dtype.kind in "fc" and a.dtype.itemsize // (2 if a.dtype.kind == "c" else 1) > 8:
        # extended precision has padding bytes that are not part of the value
        flat = a.astype(a.dtype.newbyteorder("=")).ravel(order="C")
        if flat.size > 4096:
            flat = flat[:4096]
        return ["ext", [repr(x) for x in flat]]
    return ["raw", _bytes(a.tobytes())]


def _isa(o, cls):
    """isinstance that looks at the real type (``__class__`` can be overridden)"""
    return issubclass(type(o), cls)


class Canon:
    def __init__(self, identity=True, layout=True, max_nodes=400000):
        self.identity, self.layout = identity, layout
        self.seen = {}
        self.keep = []
        self.n = 0
        self.max_nodes = max_nodes
        self.stack = set()

    def __call__(self, o):
        self.n += 1
        if self.n > self.max_nodes:
            raise RuntimeError("canon: object graph too large")
        t = type(o)
        if o is None:
            return "None"
        if o is Ellipsis or o is NotImplemented:
            return repr(o)
        if t is bool:
            return f"b:{o}"
        if t is int:
            return f"i:{o:x}"
        if t is float:
            return f"f:{_flt(o)}"
        if t is complex:
            return f"c:{_flt(o.real)},{_flt(o.imag)}"
        if t is str:
            return "s:" + o
        if t is bytes:
            return "y:" + _bytes(o)
        if _isa(o, type):
            return "type:" + tname(o)
        if _isa(o, (types.FunctionType, np.ufunc)):
            return "func:" + fname(o)
        if _isa(o, types.ModuleType):
            return "mod:" + o.__name__
        if _isa(o, types.MethodType):
            return ["method", self(o.__func__), self(o.__self__)]
        if _isa(o, types.BuiltinFunctionType):
            s = getattr(o, "__self__", None)
            if s is None or isinstance(s, types.ModuleType):
                return "func:" + fname(o)
            return ["bmethod", o.__name__, self(s)]
        if _isa(o, np.dtype):
            return ["dtype", dtype_token(o)]
        if _isa(o, np.generic):
            if _isa(o, np.void) and o.dtype.names is not None:
                return ["npvoid", tname(t), dtype_token(o.dtype), array_bytes(np.asarray(o))]
            if _isa(o, (np.str_,)):
                return ["np", tname(t), "s:" + str.__str__(o)]
            if _isa(o, np.bytes_):
                return ["np", tname(t), "y:" + bytes.__str__(o) if False else _bytes(bytes(o))]
            return ["np", tname(t), dtype_token(o.dtype), array_bytes(np.asarray(o))]
        if t is tuple:
            return ["tuple", [self(x) for x in o]]
        if t is frozenset:
            return ["frozenset", self._set(o)]
        if t is slice:
            return ["slice", self(o.start), self(o.stop), self(o.step)]
        if t is range:
            return ["range", repr(o)]
        # mutable / identity-bearing from here on
        key = id(o)
        num = None
        if self.identity:
            if key in self.seen:
                return ["ref", str(self.seen[key])]
            num = len(self.seen)
            self.seen[key] = num
            self.keep.append(o)
        else:
            if key in self.stack:
                return ["cycle"]
        self.stack.add(key)
        try:
            body = self._body(o, t)
        finally:
            self.stack.discard(key)
        return [f"@{num}" if num is not None else "@", tname(t)] + body

    def _set(self, o):
        out = []
        for x in o:
            out.append((repr(Canon(identity=False)(x)), x))
        out.sort(key=lambda p: p[0])
        return [self(x) for _, x in out]

    def _attrs(self, o, skip=()):
        d = getattr(o, "__dict__", None)
        res = []
        if isinstance(d, dict):
            for k in sorted(d, key=lambda k: (str(type(k)), str(k))):
                if k in IGNORED_ATTRS or k in skip:
                    continue
                res.append([str(k), self(d[k])])
        slots = []
        for c in type(o).__mro__:
            s = c.__dict__.get("__slots__", ())
            for n in ([s] if isinstance(s, str) else s):
                if n in ("__dict__", "__weakref__"):
                    continue
                m = f"_{c.__name__.lstrip('_')}{n}" if n.startswith("__") and not n.endswith("__") else n
                slots.append(m)
        for n in sorted(set(slots)):
            if hasattr(o, n):
                res.append(["slot " + n, self(getattr(o, n))])
        return res

    def _body(self, o, t):
        if _isa(o, dict):
            body = ["dict", [[self(k), self(v)] for k, v in (collections.OrderedDict if _isa(o, collections.OrderedDict) else dict).items(o)]]
            if _isa(o, collections.defaultdict):
                body.append(["factory", self(o.default_factory)])
            body += self._attrs(o)
            return body
        if _isa(o, list):
            return ["list", [self(x) for x in list.__iter__(o)]] + self._attrs(o)
        if _isa(o, (set, frozenset)):
            return ["set", self._set(o)] + self._attrs(o)
        if _isa(o, tuple):
            extra = []
            if not hasattr(o, "_fields"):
                extra = [self._reduced(o)]
            return ["tuple", [self(x) for x in tuple.__iter__(o)]] + self._attrs(o) + extra
        if _isa(o, (bytes, bytearray)):
            return ["bytes", _bytes(o)] + self._attrs(o)
        if _isa(o, str):
            return ["str", str.__str__(o)] + self._attrs(o)
        if _isa(o, int):
            return ["int", str(int(o))] + self._attrs(o)
        if _isa(o, float):
            return ["float", _flt(float(o))] + self._attrs(o)
        if _isa(o, np.ma.MaskedArray):
            return ["masked", self._arr(np.asarray(o.data)), self._arr(np.asarray(o.mask)),
                    "nomask" if o.mask is np.ma.nomask else "mask",
                    Canon(identity=False, layout=False)(self._fill(o)),
                    f"hard={o._hardmask}"]
        if _isa(o, np.ndarray):
            return self._arr(o) + self._attrs(o)
        if _isa(o, np.random.RandomState):
            return ["rs", Canon(identity=False)(o.get_state(legacy=False)),
                    tname(type(o._bit_generator))] + self._attrs(o)
        if _isa(o, np.random.Generator):
            bg = o.bit_generator
            ss = getattr(bg, "seed_seq", None)
            return ["gen", tname(type(bg)), Canon(identity=False)(bg.state),
                    Canon(identity=False)(getattr(ss, "state", None))] + self._attrs(o)
        if _isa(o, np.random.BitGenerator):
            ss = getattr(o, "seed_seq", None)
            return ["bg", Canon(identity=False)(o.state), Canon(identity=False)(getattr(ss, "state", None))]
        if sp.issparse(o):
            f = o.format
            parts = None if o.ndim != 2 else dict(csr=("data", "indices", "indptr"), csc=("data", "indices", "indptr"),
                         bsr=("data", "indices", "indptr"), coo=("data", "row", "col"),
                         dia=("data", "offsets")).get(f)
            if parts:
                sub = Canon(identity=False, layout=False)
                return ["sparse", f, str(tuple(int(x) for x in o.shape)), str(o.dtype.str)] + [
                    [p, sub._arr(np.asarray(getattr(o, p)) if p == "data" else np.asarray(getattr(o, p)).astype("i8"))]
                    for p in parts]  # the width of the index type is not part of the value
        if _isa(o, functools.partial):
            d = getattr(o, "__dict__", None) or {}
            return ["partial", self(o.func), self(tuple(o.args)),
                    [[k, self(v)] for k, v in o.keywords.items()], [[k, self(d[k])] for k in sorted(d)]]
        if _isa(o, (operator.attrgetter, operator.itemgetter, operator.methodcaller)):
            return ["opfunc", self(o.__reduce__()[0]) if not isinstance(o.__reduce__()[0], functools.partial)
                    else ["p", self(o.__reduce__()[0].args), self(dict(o.__reduce__()[0].keywords))],
                    self(o.__reduce__()[1])]
        pd = sys.modules.get("pandas")
        if pd is not None:
            if _isa(o, pd.DataFrame):
                return ["df", Canon(identity=False)(list(o.columns)), [self._series(o.iloc[:, i]) for i in range(o.shape[1])],
                        self._index(o.index), self._index(o.columns)]
            if _isa(o, pd.Series):
                return ["series"] + self._series(o) + [self._index(o.index)]
            if _isa(o, pd.Index):
                return ["index", self._index(o)]
        if self._is_estimator(o) or self._plain(t):
            return ["obj"] + self._attrs(o)
        return ["red", self._reduced(o)]

    @staticmethod
    def _fill(o):
        """the fill value as users get it (numpy keeps it as None, as text or as an object array)"""
        v = o._fill_value
        if o.dtype == object:
            return np.asarray(np.ma.core._check_fill_value(None, o.dtype) if v is None else v)[()]
        return np.asarray(np.ma.core._check_fill_value(v, o.dtype))

    @staticmethod
    def _series(s):
        c = Canon(identity=False)
        return [str(s.dtype), c(s.name), c(list(s.tolist()))]

    @staticmethod
    def _index(ix):
        c = Canon(identity=False)
        return [type(ix).__name__, str(ix.dtype), c(list(ix.names)), c(list(ix.tolist()))]

    @staticmethod
    def _is_estimator(o):
        b = sys.modules.get("sklearn.base")
        return b is not None and _isa(o, b.BaseEstimator)

    @staticmethod
    def _plain(t):
        """a python-level class using the default copy protocol"""
        return (t.__reduce__ is object.__reduce__ and t.__reduce_ex__ is object.__reduce_ex__
                and t.__getstate__ is object.__getstate__ and not hasattr(t, "__getnewargs__")
                and not hasattr(t, "__getnewargs_ex__") and not t.__itemsize__ and _visible_state(t))

    def _arr(self, a):
        a = np.asarray(a) if not isinstance(a, np.ndarray) else a
        lay = "F" if (a.flags.f_contiguous and not a.flags.c_contiguous) else "C"
        if not self.layout or a.dtype.hasobject or a.nbytes == 0:
            lay = "-"
        if a.dtype == object:
            shape = a.shape
            cells = [a[i] for i in np.ndindex(*shape)] if shape else [a[()]]
            return ["array", "O", str(shape), [self(x) for x in cells]]
        return ["array", dtype_token(a.dtype), str(a.shape), lay, array_bytes(np.asarray(a))]

    def _reduced(self, o):
        try:
            r = o.__reduce_ex__(2)
        except Exception:
            return [OPAQUE, _ident(o, "opaque " + tname(type(o)))]
        if isinstance(r, str):
            return ["global", r] + self._attrs(o)
        out = []
        for i, p in enumerate(r):
            if i in (3, 4) and p is not None:
                p = list(p)
            out.append(self(p))
        return out


def _visible_state(t):
    import copyreg
    size = object.__basicsize__
    if t.__dictoffset__ > 0:
        size += 8
    if t.__weakrefoffset__ > 0:
        size += 8
    n = 0
    for c in t.__mro__:
        s = c.__dict__.get("__slots__", ())
        s = [s] if isinstance(s, str) else s
        n += len([x for x in s if x not in ("__dict__", "__weakref__")])
    return t.__basicsize__ <= size + 8 * n


def canon(o, identity=True, layout=True):
    return Canon(identity, layout)(o)


def first_diff(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {str(a)[:160]} != {str(b)[:160]}"
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f"{path}/{i}")
            if d:
                return d
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}: {str(a)[:160]} | {str(b)[:160]}"
        return None
    return None if a == b else f"{path}: {str(a)[:200]} != {str(b)[:200]}"


def same(a, b, identity=True, layout=True):
    """None when equal, else a description of the first difference"""
    return first_diff(canon(a, identity, layout), canon(b, identity, layout))


def digest(o, identity=True):
    import json
    return hashlib.blake2b(json.dumps(canon(o, identity)).encode("utf-8", "surrogatepass"), digest_size=12).hexdigest()
