"""Importable user-defined classes and functions used as test values."""
from __future__ import annotations

import collections
import enum
import functools

import numpy as np


class Plain:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def meth(self, x=0):
        return ("meth", x)

    @classmethod
    def cmeth(cls):
        return cls

    @staticmethod
    def smeth():
        return 1


class Sub(Plain):
    def meth(self, x=0):
        return ("sub", x)

    def sup(self):
        return super().meth


class Empty:
    pass


class Outer:
    class Inner:
        def __init__(self):
            self.v = 1

    class Plain:  # same bare name as the module level class
        def __init__(self):
            self.w = 2


class GetSet:
    """symmetrical __getstate__/__setstate__ with a dict state"""

    def __init__(self, v):
        self.v = v

    def __getstate__(self):
        return {"stored": self.v}

    def __setstate__(self, s):
        self.v = s["stored"]


class GetSetTuple:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __getstate__(self):
        return (self.a, self.b)

    def __setstate__(self, s):
        self.a, self.b = s


class GetSetScalar:
    def __init__(self, n):
        # by the convention of the copy protocol, a state of None means that there is no state
        self.n = "none" if n is None else n

    def __getstate__(self):
        return self.n

    def __setstate__(self, s):
        self.n = s


class GetSetFalsy:
    """falsy state: pickle would not call __setstate__, the class copes with both"""

    n = 0

    def __init__(self, n=0):
        if n:
            self.n = n

    def __getstate__(self):
        return {"n": self.n} if self.n else {}

    def __setstate__(self, s):
        self.__dict__.update(s)


class GetStateOnly:
    """__getstate__ that is the instance dict"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getstate__(self):
        return dict(self.__dict__)


class Slots:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b


class SlotsDict:
    __slots__ = ("a", "__dict__")

    def __init__(self, a, **kw):
        self.a = a
        self.__dict__.update(kw)


class SlotsState:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __getstate__(self):
        return {"a": self.a, "b": self.b}

    def __setstate__(self, s):
        self.a, self.b = s["a"], s["b"]


class ReduceArgs:
    """(type, args)"""

    def __init__(self, a, b=None):
        self.a, self.b = a, b

    def __reduce__(self):
        return (type(self), (self.a, self.b))


class ReduceArgsNone(ReduceArgs):
    def __reduce__(self):
        return (type(self), (self.a, self.b), None)


class ReduceState:
    """(type, args, state)"""

    def __init__(self, a):
        self.a = a
        self.extra = None

    def __reduce__(self):
        return (type(self), (self.a,), {"extra": self.extra})


class ReduceListItems(list):
    """(type, (), None, iterator)"""


class ReduceOther:
    """reconstructed through a function"""

    def __init__(self, a):
        self.a = a

    def __reduce__(self):
        return (make_reduce_other, (self.a,))


class ReduceStr:
    def __reduce__(self):
        return "SINGLETON"


class ReduceSubclassed(ReduceArgs):
    """reduce yields the parent type"""

    def __reduce__(self):
        return (ReduceArgs, (self.a, self.b))


def make_reduce_other(a):
    return ReduceOther(a)


SINGLETON = ReduceStr()


class NewArgs:
    def __new__(cls, x):
        o = super().__new__(cls)
        o.x = x
        return o

    def __getnewargs__(self):
        return (self.x,)


class GetAttrDynamic:
    def __init__(self, **kw):
        self.__dict__["data"] = kw

    def __getattr__(self, name):
        if name.startswith("__") or name == "data":
            raise AttributeError(name)
        return self.data.get(name)


class Unhashable:
    __hash__ = None

    def __eq__(self, other):
        raise RuntimeError("no comparison")


class MyList(list):
    pass


class MyDict(dict):
    pass


class MySet(set):
    pass


class MyTuple(tuple):
    pass


class MyStr(str):
    pass


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyBytes(bytes):
    pass


class MyByteArray(bytearray):
    pass


class MyFrozen(frozenset):
    pass


class MyOrdered(collections.OrderedDict):
    pass


class MyDefault(collections.defaultdict):
    pass


class MyPartial(functools.partial):
    pass


class MyArray(np.ndarray):
    pass


class MyMasked(np.ma.MaskedArray):
    pass


class InfoArray(np.ndarray):
    def __new__(cls, a, info=None):
        o = np.asarray(a).view(cls)
        o.info = info
        return o

    def __array_finalize__(self, o):
        self.info = getattr(o, "info", None)


class SlotList(list):
    __slots__ = ("tag",)


class InitDict(dict):
    """constructor with a different signature"""

    def __init__(self, a, b):
        super().__init__(a=a, b=b)


class FilterDict(dict):
    """constructor that alters what it is given"""

    def __setitem__(self, k, v):
        super().__setitem__(k, ("set", v))


class InitList(list):
    def __init__(self, *items):
        super().__init__(items)


class SortedList_(list):
    def __init__(self, it=()):
        super().__init__(sorted(it, key=repr))


Point = collections.namedtuple("Point", "x y")
PointD = collections.namedtuple("PointD", "x y", defaults=(7,))


class SubPoint(Point):
    pass


class NormPoint(Point):
    """normalises what it is constructed from"""

    def __new__(cls, x, y):
        return super().__new__(cls, min(x, y), max(x, y))


class Colour(enum.Enum):
    RED = 1
    BLUE = "b"
    BOTH = (1, 2)


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 2


class Flags(enum.Flag):
    A = 1
    B = 2


class SEnum(str, enum.Enum):
    A = "a"


class RaisesGetState:
    def __getstate__(self):
        raise RuntimeError("no state today")


class RaisesReduce:
    def __reduce__(self):
        raise RuntimeError("no reduce today")


class RaisesBase(BaseException):
    pass


class RaisesKeyboard:
    def __getstate__(self):
        raise KeyboardInterrupt


class MutatesOnGet:
    """counts how often its state is taken, without changing it"""

    calls = 0

    def __init__(self, v):
        self.v = v

    def __getstate__(self):
        type(self).calls += 1
        return self.__dict__


class CustomError(ValueError):
    def __init__(self, a, b):
        super().__init__(a, b)
        self.extra = [a, b]


def func(x=1):
    return x + 1


def other(x=1):
    return x


@functools.wraps(func)
def wrapped(x=1):
    return func(x) * 2


renamed = lambda x: x  # noqa: E731
attr_func = func


def deco_shadow():
    return 1


_original_shadow = deco_shadow


def deco_shadow():  # noqa: F811
    return 2


def local_class():
    class Local:
        def __init__(self):
            self.a = 1

    return Local


def local_shadow():
    class Plain:  # bare name of a module level class, but another class
        def __init__(self):
            self.other = 1

    Plain.__qualname__ = "Plain"
    return Plain


def local_func():
    def inner():
        return 1

    return inner


def closure(n):
    def func(x=1):  # bare name of a module level function
        return n + x

    return func


class Liar:
    """claims to be something else"""

    def __init__(self):
        self.x = 1

    @property
    def __class__(self):
        return list


class PickledOnly:
    """can be pickled (while PICKLING is set) and unpickled, but its state cannot be taken afterwards"""

    PICKLING = False

    def __init__(self, exc="RuntimeError", where="getstate"):
        self.exc, self.where = exc, where

    def _check(self, where):
        if not PickledOnly.PICKLING and self.where == where:
            import builtins
            raise getattr(builtins, self.exc)("not after it was pickled")

    def __getstate__(self):
        self._check("getstate")
        return self.__dict__

    def __reduce_ex__(self, protocol):
        self._check("reduce")
        return super().__reduce_ex__(protocol)

    def __reduce__(self):
        self._check("reduce")
        return super().__reduce__()
