"""C11: nothing outside the documented families is trusted by default."""
import os
import sys
import types
import warnings

import numpy as np

from vk import core, hostile
from vk.families import Families, resolve

RULE = ("a distinct evaluation is one (slot or context, protocol, name) triple whose acceptance was observed in the report of get_untrusted_types and, for reported "
        "ones, in the refusal of load without a trusted list; non-trivial = every triple (each names an importable object or a near-miss of a trusted name)")
LEVEL = "exploration"
TECHNIQUE = ("runtime monitor over enumerated names: every callable/class/module name of the listed namespaces of the installed versions in every name-bearing slot at "
             "protocols 0-2; each name that is not reported is resolved independently and judged by family predicates")
LEVEL_NOTE = ("complete for names in builtins, os, sys, subprocess, shutil, importlib, pickle, marshal, ctypes, socket, io, pathlib, tempfile, operator, functools, types, code, "
              "runpy, numpy, scipy, sklearn, joblib, skops and collections in the thorough tier; quick: all of the small namespaces, a seeded sixth of the numpy/scipy/sklearn names")
REQUIRED = {"names": 2000, "triples": 100000, "accepted_family": 500, "refused_loads": 300, "context_triples": 5000, "methods": 500}

SMALL = ["builtins", "os", "posix", "sys", "subprocess", "shutil", "importlib", "importlib.util", "importlib.machinery", "pickle", "_pickle", "marshal", "ctypes", "socket", "_socket", "io", "_io", "pathlib",
         "tempfile", "operator", "_operator", "functools", "types", "code", "runpy", "collections", "codecs", "inspect", "copyreg", "copy", "posixpath", "os.path", "itertools", "weakref", "gc", "zipfile",
         "joblib", "joblib.numpy_pickle", "joblib.parallel", "joblib.memory", "skops.io", "skops.io._utils", "skops.io._persist", "skops.io._audit", "numpy", "numpy.random", "numpy.lib", "numpy.lib.npyio", "numpy.ctypeslib",
         "scipy", "scipy.special", "scipy.sparse", "scipy.io", "sklearn", "sklearn.utils", "sklearn.base", "sklearn.datasets", "sklearn.tree._tree", "sklearn.linear_model._sgd_fast", "sklearn._loss._loss", "sklearn._loss.loss",
         "numpy.random.mtrand", "numpy.random._generator", "numpy.random.bit_generator", "numpy.ma", "numpy.ma.core", "numpy._core._multiarray_umath", "numpy._core.multiarray", "scipy.special._ufuncs", "scipy.sparse._csr"]
BIG = ("numpy", "scipy", "sklearn", "joblib")

# slots in which the archive names something directly, and the name that the report has to contain
DIRECT = ["type", "func", "obj", "objattrs", "objstate", "list", "set", "tuple", "dict", "dd", "ddmain", "slice", "bytes", "bytearray", "json", "reduce", "reduce0", "loss", "lossargs", "tree", "qforest", "array",
          "array_str", "objarray", "masked", "dtype", "rs", "gen", "sparse", "opfunc", "opfunc0", "keytype", "keyfunc", "keyobj", "factory", "partfunc", "parttype", "methobj", "methtype"]
# the seed sequence is not a node before protocol 2, the state of the bit generator is none at protocol 0
NOT_A_POSITION = {"slicepart", "iattrs_other", "extra", "iattrs"}


def plan(tier, seed):
    q = tier == "quick"
    n = 8 if q else 16
    return ([dict(name="names", part=p, parts=n, sample=6 if q else 1, timeout_s=850) for p in range(n)]
            + [dict(name="contexts", timeout_s=850), dict(name="methods", timeout_s=850), dict(name="bitgens", timeout_s=850)])


def namespace(ctx, sample):
    """all names to try, in a stable order"""
    import importlib
    names = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import joblib, scipy.io, scipy.special, scipy.sparse, scipy.optimize, scipy.stats, sklearn  # noqa
        from sklearn.utils import all_estimators
        all_estimators()
        for m in SMALL:
            try:
                mod = importlib.import_module(m)
            except Exception:
                continue
            names += [f"{m}.{a}" for a in dir(mod)]
        big = []
        for m in sorted(sys.modules):
            mod = sys.modules[m]
            if mod is not None and m.split(".")[0] in BIG and m not in SMALL and ".tests" not in m:
                try:
                    attrs = list(vars(mod))
                except Exception:
                    continue
                for a in attrs:
                    v = vars(mod).get(a)
                    if callable(v) or isinstance(v, types.ModuleType):
                        big.append(f"{m}.{a}")
    big.sort()
    r = ctx.rng("sample")
    r.shuffle(big)
    return sorted(set(names)), big[: len(big) // sample]


def near_misses(fam):
    out = []
    for t in sorted(fam.estimators, key=lambda t: t.__name__)[::7]:
        out += [f"{t.__module__}.{t.__name__}x", f"sklearn.{t.__name__}", f"x{t.__module__}.{t.__name__}", f"{t.__module__}.x.{t.__name__}", f"canary.{t.__name__}", f"{t.__module__}.{t.__name__}.fit", f" {t.__module__}.{t.__name__}",
                f"{t.__module__}.{t.__name__.lower()}", f"{t.__module__[:-1]}.{t.__name__}", f"{t.__module__}.{t.__name__[:-1]}"]
    for n in ["builtins.int", "builtins.list", "numpy.ndarray", "numpy.float64", "numpy._core._multiarray_umath.exp", "scipy.special._ufuncs.expit", "collections.OrderedDict", "sklearn.tree._tree.Tree",
              "numpy.random._generator.Generator", "sklearn.linear_model._sgd_fast.Hinge"]:
        m, c = hostile.split(n)
        out += [t.format(m=m, c=c, M=m.title()) for t in hostile.TWISTS] + [f"canary.{c}", f"{m}.{c}.__init__", f"{m}.{c}\0", f"{m}\0.{c}", f"{m}.{c}\n"]
    return [n for n in dict.fromkeys(out)]


def skops_lists():
    """whatever names skops keeps in lists (only more candidates; nothing depends on it)"""
    out = set()
    for m in sorted(sys.modules):
        if m.startswith("skops.io") and ".tests" not in m:
            for v in vars(sys.modules[m]).values():
                if isinstance(v, (list, tuple, set, frozenset)):
                    for x in v:
                        if isinstance(x, str) and "." in x:
                            out.add(x)
                        elif isinstance(x, type):
                            out.add(f"{x.__module__}.{x.__name__}")
    return sorted(out)


def run(ctx, shard):
    warnings.simplefilter("ignore")
    os.chdir(ctx.tmpdir())
    import skops.io as sio
    globals()["run_" + shard["name"]](ctx, shard, sio, Families())
    os.chdir("/")


# must never be named in an archive that is loaded here, whatever happens
KILLERS = ("exit", "quit", "abort", "kill", "fork", "exec", "spawn", "signal", "alarm", "breakpoint", "input", "interact", "pause", "wait", "sleep", "setrlimit", "set_trace", "read", "recv", "accept", "console", "Console")


def audited(ctx, sio, d, what, p):
    """the report, or None: an archive that cannot be audited is refused, which has to be the case of load, too"""
    try:
        return set(sio.get_untrusted_types(data=d))
    except Exception as e:
        why = f"{type(e).__name__}: {e}"
    ctx.count("not_auditable")
    try:
        sio.loads(d)
        ctx.violation("loaded", f"{what} protocol {p}: loaded without trusting anything, but it cannot be audited: {why}")
    except Exception:
        pass
    if not (p == 0 and "gen" in what):  # the layout of random generators before protocol 1 (see C08)
        ctx.violation("audit-error", f"{what} protocol {p}: {why}")
    return None


def judge(ctx, fam, slot, protocol, name, reported):
    ctx.ev((slot, protocol, name))
    ctx.count("triples")
    if name in reported:
        return True
    o = resolve(name)
    if fam.member(o):
        ctx.count("accepted_family")
        return False
    ctx.violation("trusted-by-default", f"slot {slot} protocol {protocol}: {name} ({str(o)[:80]}) is not reported", slot=slot, protocol=protocol, name=name)
    return False


def run_names(ctx, shard, sio, fam):
    small, big = namespace(ctx, shard["sample"])
    cand = small + big + near_misses(fam) + skops_lists() + hostile.CANARY + hostile.UNIMPORTED
    cand = list(dict.fromkeys(cand))[shard["part"]:: shard["parts"]]
    ctx.count("names", len(cand))
    ctx.sample(cand[:5])
    for p in (0, 1, 2):
        slots = DIRECT + (["func0", "func0_wrap", "funcmix"] if p == 0 else [])
        if p == 0:
            slots = [s for s in slots if s not in ("gen", "func", "keyfunc", "partfunc", "opname")]
        for slot in slots:
            for k in range(0, len(cand), 150):
                chunk = cand[k:k + 150]
                for _ in ctx.items([f"{p}/{slot}/{k}"]):
                    r = ctx.rng(p, slot, k)
                    b = hostile.Hostile(r, p)
                    nodes = [b.slot(slot, n, lambda: b.json(1)) for n in chunk]
                    d = b.archive(b.list(nodes))
                    rep = audited(ctx, sio, d, "slot " + slot, p)
                    if rep is None:
                        continue
                    res = [judge(ctx, fam, slot, p, n, rep) for n in chunk]
                    if all(x or fam.member(resolve(n)) for x, n in zip(res, chunk)) and any(res):
                        try:
                            sio.loads(d)
                            ctx.violation("loaded", f"slot {slot} protocol {p}: an archive naming {chunk[res.index(True)]} was loaded without trusting anything")
                        except Exception as e:
                            if type(e).__name__ != "UntrustedTypesFoundException":
                                ctx.violation("not-refused", f"slot {slot} protocol {p}: {type(e).__name__}: {e} instead of a refusal; names {[n for x, n in zip(res, chunk) if x][:5]}")
                            else:
                                ctx.count("refused_loads")
                    # singles: the verdict must not depend on what else the archive holds
                    for n in r.sample(chunk, 2):
                        b = hostile.Hostile(r, p)
                        d = b.archive(b.slot(slot, n, lambda: b.json(1)))
                        rep = audited(ctx, sio, d, "slot " + slot, p)
                        if rep is None:
                            continue
                        if judge(ctx, fam, slot, p, n, rep) and not any(x in n for x in KILLERS):
                            try:
                                sio.loads(d, trusted=r.choice([None, [], ()]))
                                ctx.violation("loaded", f"slot {slot} protocol {p}: an archive naming {n} was loaded without trusting anything")
                            except Exception as e:
                                if type(e).__name__ != "UntrustedTypesFoundException":
                                    ctx.violation("not-refused", f"slot {slot} protocol {p} name {n}: {type(e).__name__}: {e} instead of a refusal")
                                else:
                                    ctx.count("refused_loads")


def run_contexts(ctx, shard, sio, fam):
    """a name in a node in every place a node can be put in"""
    names = ["builtins.eval", "os.system", "canary.A", "numpy.load", "sklearn.utils.Bunch", "sklearn.base.clone", "functools.reduce", "builtins.getattr", "scipy.sparse.load_npz", "operator.methodcaller", "canary.LogisticRegression",
             "sklearn.tree._tree.TreeBuilder", "collections.Counter", "numpy.memmap", "sklearn.linear_model._sgd_fast.WeightVector", "quantile_forest._quantile_forest_fast.QuantileForest"]
    for p in (0, 1, 2):
        for c in hostile.CONTEXTS:
            if c in NOT_A_POSITION or p < 2 and c.startswith("genseed") or p == 0 and c.startswith("genbg"):
                continue
            for s in DIRECT:
                if p == 0 and s in ("func", "keyfunc", "partfunc"):
                    s = "func0"
                for _ in ctx.items([f"{p}/{c}/{s}"]):
                    r = ctx.rng(p, c, s)
                    for n in r.sample(names, 3):
                        b = hostile.Hostile(r, p)
                        x = b.slot(s, n, lambda: b.json(1))
                        d = b.archive(b.context(c, x))
                        rep = audited(ctx, sio, d, f"{s} in {c}", p)
                        if rep is None:
                            continue
                        ctx.count("context_triples")
                        if judge(ctx, fam, f"{s} in {c}", p, n, rep):
                            try:
                                sio.loads(d)
                                ctx.violation("loaded", f"{s} in {c} protocol {p}: an archive naming {n} was loaded without trusting anything")
                            except Exception as e:
                                if type(e).__name__ != "UntrustedTypesFoundException":
                                    ctx.violation("not-refused", f"{s} in {c} protocol {p} name {n}: {type(e).__name__}: {e} instead of a refusal")
                                else:
                                    ctx.count("refused_loads")


def run_methods(ctx, shard, sio, fam):
    """no method of anything is trusted by default, whatever the node says its own type is"""
    ests = sorted(fam.estimators, key=lambda t: t.__name__)
    for p in (0, 1, 2):
        for t in ests:
            for _ in ctx.items([f"{p}/{t.__name__}"]):
                r = ctx.rng(p, t.__name__)
                full = f"{t.__module__}.{t.__name__}"
                for meth in r.sample([m for m in dir(t) if callable(getattr(t, m, None))], 3) + r.sample(hostile.METHODS, 2):
                    for claim in ("builtins.method", full, "builtins.int", "numpy.ndarray"):
                        b = hostile.Hostile(r, p)
                        d = b.archive(b.method(b.obj(full, {}), meth, claim))
                        ctx.ev((p, full, meth, claim))
                        ctx.count("methods")
                        try:
                            rep = sio.get_untrusted_types(data=d)
                            if not rep:
                                ctx.violation("trusted-by-default", f"protocol {p}: method {full}.{meth} (declared as {claim}) is not reported")
                                continue
                            sio.loads(d)
                            ctx.violation("loaded", f"protocol {p}: method {full}.{meth} was loaded without trusting anything")
                        except Exception as e:
                            if type(e).__name__ != "UntrustedTypesFoundException":
                                ctx.violation("not-refused", f"protocol {p} method {full}.{meth}: {type(e).__name__}: {e}")
    for p in (0, 1, 2):  # operators and partials
        import operator
        for n in dir(operator):
            for _ in ctx.items([f"op/{p}/{n}"]):
                b = hostile.Hostile(ctx.rng("op", n), p)
                for root in (b.opfunc("operator." + n, [b.json("a")]), b.opfunc("_operator." + n, [b.json("a")]), b.opfunc(n, [b.json("a")]), b.partial(b.type("builtins.int"), name="operator." + n)):
                    ctx.ev((p, n, str(root)[:60]))
                    ctx.count("methods")
                    if not sio.get_untrusted_types(data=b.archive(root)):
                        ctx.violation("trusted-by-default", f"protocol {p}: {root['__loader__']} {root['__module__']}.{root['__class__']} is not reported")


def run_bitgens(ctx, shard, sio, fam):
    """the name of a bit generator in the state of a generator resolves to nothing else"""
    import numpy.random as npr
    names = sorted(set(dir(npr)) | set(dir(npr.mtrand)) | set(dir(npr._generator)) | {"os.system", "mtrand.seed", "bit_generator.SeedSequence", "eval", "", "canary.A", "_generator.Generator", "__class__"})
    for p in (0, 1, 2):
        for n in names:
            for _ in ctx.items([f"{p}/{n}"]):
                b = hostile.Hostile(ctx.rng(p, n), p)
                for kind, root in (("gen", b.generator(b._bgstate(n), b._seedseq())), ("rs", b.randomstate(b._rsstate(n)))):
                    ctx.ev((p, n, kind))
                    ctx.count("bitgens")
                    d = b.archive(root)
                    st = np.random.get_state()[1].tobytes()
                    try:
                        g = sio.loads(d)
                    except Exception:
                        ctx.count("bitgen_refused")
                        g = None
                    if np.random.get_state()[1].tobytes() != st:
                        ctx.violation("bitgen", f"protocol {p}: loading a generator with bit generator {n!r} changed the global random state")
                    if g is not None:
                        bg = g.bit_generator if kind == "gen" else g._bit_generator
                        if type(g) not in (npr.Generator, npr.RandomState) or not isinstance(bg, npr.BitGenerator):
                            ctx.violation("bitgen", f"protocol {p}: bit generator {n!r} gave {g!r} with {bg!r}")
                        elif type(bg).__name__ != n:
                            ctx.violation("bitgen", f"protocol {p}: bit generator {n!r} gave {bg!r}")
