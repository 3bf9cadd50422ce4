"""Instrumentation: audit-hook recorder, import/canary ledger, call recorder, process-state snapshots."""
from __future__ import annotations

import importlib.abc
import importlib.machinery
import os
import sys
import threading
import types

DANGEROUS_PREFIX = ("os.", "subprocess.", "socket.", "shutil.", "ctypes.", "ftplib.", "http.", "smtplib.", "poplib.",
                    "urllib.", "webbrowser.", "pty.", "signal.", "tempfile.", "glob.", "winreg.", "pathlib.", "telnetlib.",
                    "nntplib.", "imaplib.", "sqlite3.", "mmap.", "resource.", "syslog.", "fcntl.", "gc.", "pickle.",
                    "code.", "sys._", "sys.set", "sys.addaudithook", "cpython.", "builtins.input", "faulthandler")
QUIET = {"os.listdir", "os.scandir", "sys._getframe", "sys._getframemodulename", "os.putenv.quiet", "gc.get_objects"}


class Audit:
    """Records audit events of the watching thread while active; may block the dangerous ones."""

    _installed = None

    def __init__(self):
        assert Audit._installed is None
        Audit._installed = self
        self.active = False
        self.block = False
        self.events = []
        self.allowed_write_dirs = ()
        self.tid = threading.get_ident()
        self.total = 0
        sys.addaudithook(self._hook)

    def _hook(self, event, args):
        if not self.active or threading.get_ident() != self.tid:
            return
        self.total += 1
        if event == "open":
            path, mode, flags = (tuple(args) + (None,) * 3)[:3]
            w = _writes(mode, flags)
            try:
                p = os.fsdecode(path) if isinstance(path, (str, bytes, os.PathLike)) else f"fd:{path}"
            except Exception:
                p = repr(path)
            self.events.append(("open-w" if w else "open-r", p))
            if self.block and w and not p.startswith("fd:") and not _under(p, self.allowed_write_dirs):
                raise PermissionError(f"blocked by monitor: open for writing {p}")
            return
        if event in ("exec", "compile"):
            a = args[0]
            if isinstance(a, types.CodeType):
                self.events.append((event, a.co_filename, a.co_name, a.co_names[:8]))
            else:
                self.events.append((event, str(args[1] if len(args) > 1 else ""), _short(a)))
            return
        if event == "import":
            self.events.append(("import", args[0]))
            return
        if event in QUIET:
            return
        if event.startswith(DANGEROUS_PREFIX):
            self.events.append(("danger", event, _short(args)))
            if self.block:
                raise PermissionError(f"blocked by monitor: {event}")

    def __enter__(self):
        self.events = []
        self.active = True
        return self

    def __exit__(self, *exc):
        self.active = False
        return False


def _writes(mode, flags):
    if isinstance(mode, str):
        return any(c in mode for c in "wax+")
    if isinstance(flags, int):
        return bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
    return False


def _under(p, dirs):
    p = os.path.realpath(p)
    return any(p == d or p.startswith(d + os.sep) for d in dirs)


def _short(x):
    try:
        return repr(x)[:200]
    except Exception:
        return "?"


# ------------------------------------------------------------------ canaries
class CanaryModule(types.ModuleType):
    """a module that records what is resolved in it"""

    def __getattribute__(self, name):
        if not name.startswith("__"):
            led = types.ModuleType.__getattribute__(self, "__dict__").get("__ledger__")
            if led is not None:
                led.append(("resolve", types.ModuleType.__getattribute__(self, "__name__") + "." + name))
        return types.ModuleType.__getattribute__(self, name)


class Canary(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Finder of modules ``canary*``; everything in them writes to one ledger."""

    def __init__(self, prefix="canary"):
        self.prefix = prefix
        self.ledger = []
        self.finds = []
        self.watch = False
        sys.meta_path.insert(0, self)

    def find_spec(self, fullname, path=None, target=None):
        if self.watch:
            self.finds.append(fullname)
        if fullname.split(".")[0].startswith(self.prefix):
            return importlib.machinery.ModuleSpec(fullname, self, is_package=True)
        return None

    def create_module(self, spec):
        self.ledger.append(("import", spec.name))
        return CanaryModule(spec.name)

    def exec_module(self, m):
        led = self.ledger
        name = m.__name__
        d = types.ModuleType.__getattribute__(m, "__dict__")

        def record(kind, what):
            led.append((kind, what))

        def mk(cname, bases=(object,), extra=None):
            full = f"{name}.{cname}"

            def __new__(cls, *a, **k):
                record("new", f"{cls.__module__}.{cls.__qualname__}")
                base = [b for b in cls.__mro__[1:] if not b.__module__.startswith("canary")][0]
                if base is object:
                    return object.__new__(cls)
                return base.__new__(cls, *a) if issubclass(base, (tuple, str, int, float, bytes)) else base.__new__(cls)

            def __init__(self, *a, **k):
                record("init", f"{type(self).__module__}.{type(self).__qualname__}")
                base = [b for b in type(self).__mro__[1:] if not b.__module__.startswith("canary")][0]
                if base in (list, dict, set):
                    base.__init__(self, *a, **k)

            def __call__(self, *a, **k):
                record("call", full + ".__call__")
                return ("called", full)

            def meth(self, *a):
                record("call", full + ".meth")
                return ("meth", full)

            ns = dict(__new__=__new__, __init__=__init__, __call__=__call__, meth=meth, __module__=name,
                      __qualname__=cname, __reduce__=lambda s: (type(s), ()))
            ns["cmeth"] = classmethod(lambda cls: record("call", full + ".cmeth"))
            ns.update(extra or {})
            return type(cname, bases, ns)

        def fn(fname):
            def f(*a, **k):
                record("call", f"{name}.{fname}")
                return ("result of", f"{name}.{fname}")
            f.__name__ = f.__qualname__ = fname
            f.__module__ = name
            return f

        for c in ("A", "B", "C", "AB"):
            d[c] = mk(c)
        sk = sys.modules.get("sklearn.linear_model._logistic")
        if sk is not None:
            d["E"] = mk("E", (sk.LogisticRegression,))
        np = sys.modules.get("numpy")
        if np is not None:
            def __array_finalize__(self, o):
                record("new", f"{name}.Arr")
            d["Arr"] = type("Arr", (np.ndarray,), dict(__module__=name, __array_finalize__=__array_finalize__))

        def __setstate__(self, s):
            record("setstate", f"{name}.S")
            if isinstance(s, dict):
                self.__dict__.update(s)
        d["S"] = mk("S", extra=dict(__setstate__=__setstate__))
        d["L"] = mk("L", (list,))
        d["D"] = mk("D", (dict,))
        d["T"] = mk("T", (set,))
        d["Str"] = mk("Str", (str,))
        d["P"] = mk("P", (tuple,), dict(_fields=("x", "y")))
        for f in ("f", "g", "ndarray", "expit", "LogisticRegression", "dict", "list"):
            d[f] = fn(f)
        d["INSTANCE"] = object.__new__(d["A"])
        d["LST"] = [1, 2]
        d["__ledger__"] = led

    def reset(self):
        """forget all canary modules and events"""
        for n in [n for n in sys.modules if n.split(".")[0].startswith(self.prefix)]:
            del sys.modules[n]
        self.ledger.clear()
        self.finds.clear()


# ------------------------------------------------------------------ calls made by skops.io
class Calls:
    """sys.monitoring CALL events whose caller is skops.io code: (callable, first argument)"""

    TOOL = 3

    def __init__(self, prefix):
        self.prefix = prefix
        self.events = []
        self.n = 0
        self.active = False
        sys.monitoring.use_tool_id(self.TOOL, "vk-calls")
        sys.monitoring.register_callback(self.TOOL, sys.monitoring.events.CALL, self._cb)

    def _cb(self, code, offset, callable_, arg0):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        if self.active:
            self.n += 1
            self.events.append((callable_, arg0, code.co_name))

    def __enter__(self):
        self.events = []
        self.active = True
        sys.monitoring.set_events(self.TOOL, sys.monitoring.events.CALL)
        return self

    def __exit__(self, *exc):
        self.active = False
        sys.monitoring.set_events(self.TOOL, 0)
        return False


# ------------------------------------------------------------------ process state
def state(np_too=True):
    import hashlib
    out = dict(cwd=os.getcwd(), env=hashlib.sha1(repr(sorted(os.environ.items())).encode()).hexdigest(),
               path=tuple(sys.path), reclimit=sys.getrecursionlimit(), threads=threading.active_count(),
               hooks=(len(sys.meta_path), len(sys.path_hooks), id(sys.excepthook), id(sys.stdout), id(sys.stderr)),
               nfd=len(os.listdir("/proc/self/fd")))
    if np_too:
        import numpy as np
        st = np.random.get_state(legacy=False)
        out["nprandom"] = hashlib.sha1(repr((st["state"]["key"].tobytes(), st["state"]["pos"], st["has_gauss"], st["gauss"])).encode()).hexdigest()
        out["nperr"] = repr(np.geterr())
        out["npprint"] = repr(sorted(np.get_printoptions().items(), key=str))
    import random
    out["random"] = hashlib.sha1(repr(random.getstate()).encode()).hexdigest()
    import warnings
    out["warnfilters"] = len(warnings.filters)
    return out


def diff_state(a, b):
    return {k: (a[k], b[k]) for k in a if a[k] != b.get(k)}


def tree_snapshot(root):
    """every path under root with its kind, size, mode and content hash"""
    import hashlib
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            st = os.lstat(p)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[r] = ("dir", oct(st.st_mode))
            else:
                with open(p, "rb") as f:
                    out[r] = ("file", oct(st.st_mode), hashlib.sha1(f.read()).hexdigest())
    return out
