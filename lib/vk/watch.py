"""The oracle of C01/C02: what a call into skops did with what an archive names."""
from __future__ import annotations

import collections
import functools
import operator
import os
import sys
import types

import numpy as np
import scipy.sparse as sp

from . import hostile
from .monitor import Audit, Calls, Canary


def _special_ufuncs():
    import scipy.special
    return {id(o) for m in (np, scipy.special) for o in vars(m).values() if isinstance(o, np.ufunc)} | {
        id(getattr(m, n)) for m in (np, scipy.special) for n in dir(m) if isinstance(getattr(m, n, None), np.ufunc)}


BUILTIN = {int, float, str, bool, complex, type(None), list, set, map, tuple, dict, bytes, bytearray, slice, frozenset, type(Ellipsis), collections.OrderedDict, collections.defaultdict}


class Watch:
    """All monitors of one worker process."""

    def __init__(self, scratch):
        import warnings
        warnings.simplefilter("ignore")
        import skops
        import skops.io  # noqa
        self.io_dir = os.path.dirname(os.path.abspath(skops.__file__)) + os.sep
        self.scratch = scratch
        self.canary = Canary()
        self.calls = Calls(self.io_dir)
        self.audit = Audit()
        self.audit.block = True
        self.ufuncs = _special_ufuncs()
        self.pool = {}
        self.mods_at_start = set(sys.modules)
        for n in hostile.DANGER:
            m, c = hostile.split(n)
            try:
                __import__(m)
                self.pool[n] = getattr(sys.modules[m], c)
            except Exception:
                pass
        for n in hostile.UNIMPORTED:
            assert hostile.split(n)[0] not in sys.modules, n
        self.pool_ids = {}
        for n, o in self.pool.items():
            self.pool_ids.setdefault(id(o), []).append(n)
        # skops itself calls these while loading or inspecting; what they are called with is checked otherwise
        self.plain = {id(o) for o in (getattr, setattr, type, object, importlib_import(), print, dir, vars, open, functools.partial)} | {id(self.pool.get(n)) for n in ("skops.io._utils._import_obj", "skops.io._utils.gettype", "skops.io.load", "os.fspath", "numpy.load", "scipy.sparse.load_npz", "numpy.save", "numpy.array", "io.open")}
        from sklearn.base import BaseEstimator
        self.BaseEstimator = BaseEstimator
        from sklearn.utils import all_estimators
        self.estimators = {c for _, c in all_estimators() if c.__module__.startswith("sklearn.")}
        from sklearn._loss._loss import CyLossFunction
        from sklearn.linear_model import _sgd_fast
        from sklearn.tree._tree import Tree
        self.internals = (Tree, CyLossFunction, _sgd_fast.LossFunction)
        self.seen = collections.Counter()
        self.control()

    def control(self):
        """the monitors see what they are there for"""
        import importlib

        def f():
            importlib.import_module("canary.sub").A().meth()
            with open(os.path.join(self.scratch, "control"), "w"):
                pass
        e, _ = self.call(f)
        kinds = {k for k, _ in self.canary.ledger}
        assert kinds >= {"import", "resolve", "new", "init", "call"}, kinds
        assert "canary.sub" in self.canary.finds and "canary" in self.new_modules
        assert isinstance(e, PermissionError) and any(k == "open-w" for k, *_ in self.audit.events)
        self.canary.reset()
        self.seen["controls"] += 1
        for k in ("audit_events", "ledger", "calls"):
            self.seen[k] = 0

    # ---------------------------------------------------------------- running
    def call(self, f):
        """(outcome, value) of f() with everything recorded"""
        self.canary.ledger.clear()
        self.canary.finds.clear()
        before = set(sys.modules)
        self.canary.watch = True
        try:
            with self.audit, self.calls:
                try:
                    v, e = f(), None
                except Exception as ex:
                    v, e = None, ex
        finally:
            self.canary.watch = False
        self.new_modules = set(sys.modules) - before
        self.seen["audit_events"] += len(self.audit.events)
        self.seen["calls"] += self.calls.n
        self.seen["ledger"] += len(self.canary.ledger)
        self.calls.n = 0
        return e, v

    # ---------------------------------------------------------------- verdicts
    def inert(self, named, allowed_reads=()):
        """violations of 'nothing the archive names was imported, resolved, instantiated or called; no file was touched'"""
        out = []
        for kind, what in self.canary.ledger:
            out.append(("canary", f"{kind} {what}"))
        mods = {m for m, _ in named}
        for f in self.canary.finds:
            if f in mods or any(m.startswith(f + ".") for m in mods) or f.startswith("canary"):
                out.append(("import", f"module {f} was looked up"))
        for m in self.new_modules:
            out.append(("import", f"module {m} was imported"))
        for e in self.audit.events:
            if e[0] == "open-w":
                out.append(("file", f"{e[1]} was opened for writing"))
            elif e[0] == "open-r" and e[1] not in allowed_reads and not _library_file(e[1]):
                out.append(("file", f"{e[1]} was opened"))
            elif e[0] == "danger":
                out.append(("danger", f"{e[1]} {e[2]}"))
            elif e[0] == "exec" and not str(e[1]).startswith(("<frozen", sys.prefix, "/usr/lib", self.io_dir)):
                out.append(("exec", str(e)[:200]))
            elif e[0] == "compile" and e[1] not in ("<string>",):
                out.append(("compile", str(e)[:200]))
        out += self._bad_calls(set(), named)
        for callee, arg0, where in self.calls.events:
            # names that the archive carries must not be looked up, even in modules that are imported already
            if callee is importlib_import() or callee is __import__:
                if isinstance(arg0, str) and arg0 in mods:
                    out.append(("resolve", f"{where} imports {arg0}"))
            elif callee is getattr and isinstance(arg0, types.ModuleType):
                out.append(("resolve", f"{where} looks up something in module {arg0.__name__}"))
        return out

    def _bad_calls(self, trusted, named):
        out = []
        for callee, arg0, where in self.calls.events:
            names = self.pool_ids.get(id(callee))
            if names and id(callee) not in self.plain and not (set(names) & trusted):
                out.append(("call", f"{where} calls {names[0]}"))
                continue
            if isinstance(callee, types.BuiltinFunctionType) and getattr(callee, "__name__", "") == "__new__":
                names = self.pool_ids.get(id(arg0))
                if names and id(arg0) not in self.plain and not (set(names) & trusted):
                    out.append(("call", f"{where} instantiates {names[0]}"))
        return out

    def loaded(self, trusted, named, value, returned, allowed_reads=()):
        """violations of 'only what is listed in trusted or in the default families was used or handed back'"""
        T = set(trusted)
        out = []
        tmods = {t[:i] for t in T for i, ch in enumerate(t) if ch == "."}
        for kind, what in self.canary.ledger:
            if kind == "import":
                if what not in tmods:
                    out.append(("canary", f"module {what} was imported"))
            elif kind == "resolve":
                if what not in T and what not in tmods:
                    out.append(("canary", f"{what} was resolved"))
            elif what.endswith(".__call__"):
                if what[: -len(".__call__")] not in T and what not in T and not self._has_instance(what[: -len(".__call__")], T):
                    out.append(("canary", f"{what} was called"))
            elif what not in T and not (kind in ("new", "init", "setstate") and self._alias(what, T)):
                out.append(("canary", f"{kind} of {what}"))
        mods = {m for m, _ in named}
        for f in self.canary.finds:
            if f.startswith("canary"):
                continue  # in the ledger
            if (f in mods or any(m.startswith(f + ".") for m in mods)) and f not in tmods:
                out.append(("import", f"module {f} was looked up"))
        for e in self.audit.events:
            if e[0] == "open-w":
                out.append(("file", f"{e[1]} was opened for writing"))
            elif e[0] == "open-r" and e[1] not in allowed_reads and not _library_file(e[1]):
                out.append(("file", f"{e[1]} was opened"))
            elif e[0] == "danger":
                out.append(("danger", f"{e[1]} {e[2]}"))
            elif e[0] == "exec" and not str(e[1]).startswith(("<frozen", sys.prefix, "/usr/lib", "<string>", self.io_dir, "<__array_function__")):
                out.append(("exec", str(e)[:200]))
        out += self._bad_calls(T, named)
        if returned:
            out += self.handed_back(value, T)
        return out

    def _has_instance(self, cls, T):
        return any(type(o).__module__ + "." + type(o).__qualname__ == cls for o in self._resolve(T))

    def _alias(self, what, T):
        return any(isinstance(o, type) and f"{o.__module__}.{o.__qualname__}" == what for o in self._resolve(T))

    def _resolve(self, T):
        out = []
        for t in T:
            m, c = hostile.split(t)
            mod = sys.modules.get(m)
            if mod is not None:
                try:
                    out.append(types.ModuleType.__getattribute__(mod, c))
                except AttributeError:
                    try:
                        if not m.startswith("canary"):
                            out.append(getattr(mod, c))
                    except Exception:
                        pass
        return out

    # ---------------------------------------------------------------- what was returned
    def family_type(self, t):
        """may instances of t be returned by default"""
        return (t in BUILTIN or issubclass(t, (np.generic, np.dtype)) and t.__module__.startswith("numpy") or t is np.ndarray or t is np.ma.MaskedArray or t is np.ma.core.MaskedConstant
                or t in (np.random.RandomState, np.random.Generator, np.random.SeedSequence) or t.__module__.startswith("numpy.random") and issubclass(t, np.random.BitGenerator) or t is np.ufunc
                or t.__module__.startswith("scipy.sparse") and issubclass(t, (sp.spmatrix, sp.sparray)) or t in self.estimators or issubclass(t, self.internals) and t.__module__.split(".")[0] in ("sklearn", "_loss"))

    def family_handed(self, t):
        """may the type object t itself be handed back by default"""
        return t in (int, float, str, bool, list, set, map, tuple, dict, bytes, bytearray, slice) or issubclass(t, np.generic) and t.__module__.startswith("numpy")

    def handed_back(self, value, T):
        """violations in the object graph of a returned value"""
        out = []
        objs = self._resolve(T)
        ok_ids = {id(o) for o in objs}
        ok_types = {o for o in objs if isinstance(o, type)}
        seen = set()
        stack = [value]
        n = 0
        while stack:
            o = stack.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            n += 1
            if n > 50000:
                break
            if id(o) in ok_ids:
                continue  # exactly what was listed
            t = type(o)
            if isinstance(o, type):
                if not self.family_handed(o):
                    out.append(("handed", f"type {o.__module__}.{o.__qualname__}"))
                continue
            if t is types.MethodType:
                if not self._method_ok(o, T):
                    out.append(("handed", f"bound method {o!r}"))
                if not isinstance(o.__self__, type):
                    stack.append(o.__self__)
                continue
            if isinstance(o, np.ufunc):
                if id(o) not in self.ufuncs:
                    out.append(("handed", f"ufunc {o!r}"))
                continue
            if t not in ok_types and isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, types.MethodWrapperType, types.CodeType, types.MethodDescriptorType, types.WrapperDescriptorType, staticmethod, classmethod, property)) or t.__name__ in ("_ArrayFunctionDispatcher", "cython_function_or_method", "fused_cython_function"):
                out.append(("handed", f"{t.__name__} {getattr(o, '__module__', '')}.{getattr(o, '__name__', '?')}"))
                continue
            if t is functools.partial:
                if "functools.partial" not in T:
                    out.append(("handed", "a functools.partial"))
                stack += [o.func, o.args, o.keywords, getattr(o, "__dict__", None)]
                continue
            if t in (operator.attrgetter, operator.itemgetter, operator.methodcaller):
                if t not in ok_types:
                    out.append(("handed", f"operator.{t.__name__}"))
                stack.append(o.__reduce__()[1])
                continue
            if not (self.family_type(t) or t in ok_types):
                out.append(("handed", f"instance of {t.__module__}.{t.__qualname__}"))
                continue
            if isinstance(o, dict):
                for k, v in dict.items(o):
                    stack += [k, v]
                if isinstance(o, collections.defaultdict):
                    stack.append(o.default_factory)
            elif isinstance(o, (list, tuple, set, frozenset)):
                stack += list({list: list, tuple: tuple}.get(_base(t), set).__iter__(o))
            elif isinstance(o, slice):
                stack += [o.start, o.stop, o.step]
            elif isinstance(o, np.ndarray) and o.dtype.hasobject:
                stack += [x for x in np.asarray(o, dtype=object).ravel()[:5000]]
            if t is np.ma.MaskedArray:
                stack += [np.ndarray.view(o, np.ndarray), np.ma.getmask(o), o._fill_value]
                continue
            d = getattr(o, "__dict__", None) if not isinstance(o, self.internals) else None
            if isinstance(d, dict) and not sp.issparse(o):
                stack += list(d.values()) + [k for k in d if type(k) is not str]
        self.seen["returned_objects"] += n
        return out

    def _method_ok(self, m, T):
        for t in T:  # the method of an object that was listed itself
            head, _, attr = t.rpartition(".")
            for c in self._resolve([head]):
                try:
                    if not isinstance(c, types.ModuleType) and getattr(c, attr) == m:
                        return True
                except Exception:
                    pass
        owner = m.__self__ if isinstance(m.__self__, type) else type(m.__self__)
        for t in T:
            head, _, attr = t.rpartition(".")
            if getattr(owner, attr, None) is None:
                continue
            for c in ([owner] if head == f"{owner.__module__}.{owner.__qualname__}" else self._resolve([head])):
                if c is owner and getattr(getattr(m.__self__, attr, None), "__func__", None) is m.__func__:
                    return True
        return False


def _base(t):
    for b in t.__mro__:
        if b in (list, tuple, set, frozenset):
            return b


_import = None


def importlib_import():
    import importlib
    return importlib.import_module


def _library_file(p):
    p = str(p)
    return p.startswith(("/opt/venv", "/usr/lib", "/usr/local", "/usr/share", sys.prefix, sys.base_prefix, "/repo")) or p.endswith((".py", ".pyc", ".so")) or p.startswith("fd:")
