"""C17: `skops convert` produces an equivalent, auditable archive."""
import collections
import contextlib
import io
import logging
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from vk import arch, core, estimators as es, values, zoo
from vk.canon import canon, first_diff
from vk.rt import brief

RULE = ("a distinct evaluation is one run of the command (object, pickle protocol, spelling and place of the input, output option, state of the destination, verbosity) after which all files below the scratch roots, the log records, "
        "stderr and the loaded result were compared with an independent expectation; non-trivial = a run that converted, or a run that had to refuse")
LEVEL = "exploration"
TECHNIQUE = ("runtime monitor around the command line entry point: complete snapshots of the scratch directories, recorded log records and stderr, and a canonical-form comparison of load(output, trusted=get_untrusted_types(output)) "
             "with pickle.load(input), over generated objects (also ones that cannot be persisted) and configurations")
LEVEL_NOTE = "object grammar and fitted estimator compositions x pickle protocols 0-5 x input {bare, relative, absolute, symlink, other file system, odd names} x output {absent, bare, nested, parent-relative, absolute, other file system, odd names} x destination {absent, archive, longer garbage, empty, symlink, read-only} x verbosity 0-4 x entry point"
REQUIRED = {"converted": 500, "refused": 200, "warned": 200, "silent": 200, "default_name": 100, "replaced": 100, "estimators": 30, "cli": 8, "refused_existing": 80, "levels": 3}

EXCS = ["RuntimeError", "TypeError", "ValueError", "KeyError", "OSError", "MemoryError", "RecursionError", "StopIteration", "KeyboardInterrupt", "SystemExit", "NotImplementedError", "AttributeError", "ImportError", "UnicodeError"]
NAMES = ["model.pkl", "model", "a.b.pkl", "model.pickle", "model.tar.gz", ".pkl", ".hidden.pkl", "mödel 日.pkl", "with space.pkl", "-dash.pkl", "a.b.c", "UPPER.PKL", "model.skops.pkl", "m.pkl.bak", "x" * 120 + ".pkl", "100%s.pkl", "{a}.pkl", "$HOME.pkl", "~.pkl", "a..pkl", "p.joblib"]


def stem(name):
    """the name without its last suffix (a leading dot is no suffix)"""
    base = name.rsplit("/", 1)[-1]
    i = base.rfind(".")
    return base if i <= 0 or i == len(base) - 1 else base[:i]


def plan(tier, seed):
    q = tier == "quick"
    return (core.spread("random", 3600 if q else 150000, 6 if q else 14, timeout_s=850, budget_s=700) + core.spread("models", 240 if q else 9000, 3 if q else 8, timeout_s=850, budget_s=700)
            + [dict(name="specials", timeout_s=850), dict(name="cli", timeout_s=850)])


def run(ctx, shard):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import skops.io as sio
    shm = tempfile.mkdtemp(prefix="vk_C17_", dir="/dev/shm") if os.path.isdir("/dev/shm") else os.path.join(ctx.tmpdir(), "shm")
    ctx.levels = set()
    try:
        globals()["run_" + shard["name"]](ctx, shard, Bench(ctx, sio, shm))
        ctx.count("levels", len(ctx.levels))
    finally:
        os.chdir("/")
        shutil.rmtree(shm, ignore_errors=True)


def pickled(v, protocol):
    zoo.PickledOnly.PICKLING = True
    try:
        return pickle.dumps(v, protocol)
    finally:
        zoo.PickledOnly.PICKLING = False


class Records:
    """log records that are made, and what is written to stderr, by a command started with logging as a fresh process has it"""

    def __enter__(self):
        root = logging.getLogger()
        self.saved = root.handlers[:], root.level, logging.getLogRecordFactory(), sys.stderr, sys.stdout
        for h in root.handlers[:]:
            root.removeHandler(h)
        root.setLevel(logging.WARNING)
        self.records, factory = [], self.saved[2]

        def make(*a, **k):
            r = factory(*a, **k)
            self.records.append(r)
            return r
        logging.setLogRecordFactory(make)
        sys.stderr, sys.stdout = self.err, self.out = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, *e):
        root = logging.getLogger()
        for h in root.handlers[:]:
            root.removeHandler(h)
        for h in self.saved[0]:
            root.addHandler(h)
        self.level = root.level
        root.setLevel(self.saved[1])
        logging.setLogRecordFactory(self.saved[2])
        sys.stderr, sys.stdout = self.saved[3:]
        return False


def mentions(text, name):
    return re.search(r"(?<![\w.])" + re.escape(name) + r"(?![\w]|\.\w)", text) is not None


class Bench:
    def __init__(self, ctx, sio, shm):
        self.ctx, self.sio = ctx, sio
        self.root = os.path.join(ctx.tmpdir(), "root")
        self.shm = os.path.join(shm, "root")

    def config(self, r):
        return dict(name=r.choice(NAMES), inp=r.choice(["bare", "bare", "relative", "absolute", "shm", "symlink", "dot", "nested"]), out=r.choice(["none"] * 5 + ["bare", "nested", "parent", "absolute", "dot", "shm", "odd", "noext", "pklname", "missing-dir", "pathlike"]),
                    dest=r.choice(["absent", "absent", "archive", "garbage", "empty", "symlink", "readonly"]), verbose=r.choice([[], [], ["-v"], ["-vv"], ["-v", "-v"], ["--verbose"], ["-vvvv"], ["--verbose", "--verbose"]]),
                    entry=r.choice(["main", "main", "main", "api-str", "api-path", "api-logger"]), opt=r.choice(["-o", "--output-file", "--output", "="]), order=r.random() < 0.5)

    def build(self, cfg, data, r):
        for d in (self.root, self.shm):
            shutil.rmtree(d, ignore_errors=True)
            for s in ("work/sub/dir", "in", "abs/x"):
                os.makedirs(os.path.join(d, s))
            for f in ("work/keep.skops", "in/keep.skops", "work/sub/dir/keep", "in/model.skops", "work/updated.tmp"):
                with open(os.path.join(d, f), "wb") as h:
                    h.write(f.encode())
        work = os.path.join(self.root, "work")
        n = cfg["name"]
        inp, spelled = {"bare": (f"work/{n}", n), "relative": (f"in/{n}", f"../in/{n}"), "absolute": (f"in/{n}", os.path.join(self.root, "in", n)), "shm": (None, os.path.join(self.shm, "in", n)), "symlink": (f"work/{n}", n),
                        "dot": (f"work/{n}", f"./{n}"), "nested": (f"work/sub/dir/{n}", f"sub/../sub/dir/{n}")}[cfg["inp"]]
        inp = os.path.join(self.root, inp) if inp else spelled
        if cfg["inp"] == "symlink":
            real = os.path.join(self.root, "in", "real.name.bin")
            with open(real, "wb") as h:
                h.write(data)
            os.symlink(real, inp)
        else:
            with open(inp, "wb") as h:
                h.write(data)
        out = {"none": None, "bare": "out.skops", "nested": "sub/dir/out.skops", "parent": "../abs/out.skops", "absolute": os.path.join(self.root, "abs", "x", "out.skops"), "dot": "./sub/./out.skops", "shm": os.path.join(self.shm, "abs", "o.skops"), "odd": "ö {x} %s 日.skops",
               "noext": "sub/out", "pklname": "sub/out.pkl", "missing-dir": "nope/out.skops", "pathlike": "~out.skops"}[cfg["out"]]
        dest = os.path.normpath(os.path.join(work, out if out is not None else stem(n) + ".skops"))
        if os.path.isdir(os.path.dirname(dest)) and dest != inp:
            k = cfg["dest"]
            if os.path.lexists(dest):
                os.unlink(dest)
            if k in ("archive", "garbage", "empty", "readonly"):
                with open(dest, "wb") as h:
                    h.write({"archive": self.sio.dumps({"previous": [1]}), "empty": b"", "garbage": b"previous content\n" * 3000, "readonly": b"previous"}[k])
                if k == "readonly":
                    os.chmod(dest, 0o400)
            elif k == "symlink":
                t = os.path.join(self.root, "abs", "target")
                with open(t, "wb") as h:
                    h.write(b"target of the link " * 500)
                os.symlink(t, dest)
        argv = ["convert"] + cfg["verbose"]
        o = [] if out is None else ["-o", out] if cfg["opt"] == "-o" else [f"--output-file={out}"] if cfg["opt"] == "=" else [cfg["opt"], out]
        i = ["./" + spelled] if spelled.startswith("-") else [spelled]
        argv += o + i if cfg["order"] else i + o
        return dict(work=work, inp=inp, spelled=i[0], out=out, dest=dest, argv=argv)

    def snap(self):
        out = {}
        for d in (self.root, self.shm):
            for base, ds, fs in os.walk(d):
                for n in ds + fs:
                    p = os.path.join(base, n)
                    if os.path.islink(p):
                        out[p] = ("link", os.readlink(p))
                    elif os.path.isdir(p):
                        out[p] = ("dir",)
                    else:
                        st = os.stat(p)
                        with open(p, "rb") as f:
                            out[p] = ("file", f.read(), st.st_ino, st.st_mtime_ns, st.st_mode)
        return out

    def once(self, cfg, data, expect, r, what, run=None):
        """expect: None (cannot be persisted) or the canonical form of the unpickled object"""
        ctx, sio = self.ctx, self.sio
        disk = self.build(cfg, data, r)
        before = self.snap()
        exc = None
        log = Records()
        back = os.getcwd()
        os.chdir(disk["work"])
        try:
            if run is not None:
                exc, err = run(disk)
                records = None
            else:
                with log:
                    try:
                        self.call(cfg, disk)
                    except SystemExit as e:
                        exc = e if e.code not in (None, 0) else None
                    except BaseException as e:  # noqa
                        exc = e
                err, records = log.err.getvalue(), log.records
            cwd = os.getcwd()
        finally:
            os.chdir(back)
        after = self.snap()
        where = f"{cfg['entry']} {disk['argv']} (destination {cfg['dest']})"

        def bad(kind, msg):
            ctx.violation(kind, f"{where}: {msg}; object {what} (outcome: {brief(exc, 200) if exc is not None else 'returned'})", object=what)
        ctx.count("runs")
        if cwd != disk["work"]:
            return bad("cwd", "the working directory changed")
        conflict = disk["dest"] == disk["inp"]
        missing = not os.path.isdir(os.path.dirname(disk["dest"])) or cfg["out"] == "missing-dir"
        may = set()
        if expect is not None and not conflict:
            may.add(disk["dest"])
            if before.get(disk["dest"], ("",))[0] == "link":
                may.add(os.path.join(os.path.dirname(disk["dest"]), before[disk["dest"]][1]))
            if missing:
                may.add(os.path.dirname(disk["dest"]))
        if conflict and expect is not None:
            return  # the default output is the input itself: not specified
        for p in before:
            if p not in may and after.get(p) != before[p]:
                if p == disk["inp"] or p.endswith("real.name.bin"):
                    return bad("input-altered", f"the input {p} is now {brief(after.get(p))}")
                return bad("file-altered", f"{p} is {brief(after.get(p))} instead of {brief(before[p])}")
        for p in after:
            if p not in before and p not in may:
                return bad("extra-file", f"{p} was created")
        if expect is None:
            ctx.count("refused")
            ctx.count("refused_existing", disk["dest"] in before)
            ctx.ev((what[:80], *map(str, cfg.values()), "refused"))
            return
        if missing:
            return
        if exc is not None:
            return bad("error", "the conversion failed")
        if after.get(disk["dest"], ("",))[0] not in ("file", "link"):
            return bad("no-output", f"there is no file {disk['dest']}")
        try:
            unt = sio.get_untrusted_types(file=disk["dest"])
            got = sio.load(disk["dest"], trusted=unt)
        except Exception as e:
            return bad("unreadable", f"the result does not load: {type(e).__name__}: {e}")
        d = first_diff(expect, canon(got))
        if d:
            return bad("changed", f"the result is not equal to the unpickled object: {d}")
        # the warning
        with open(disk["dest"], "rb") as f:
            schema, _ = arch.read(f.read())
        if records is None:
            warned = [ln for ln in err.splitlines() if ln.startswith("WARNING") or "WARNING" in ln.split(":")[0]]
        else:
            warned = [x.getMessage() for x in records if x.levelno == logging.WARNING and not x.name.startswith("py.warnings")]
            ctx.levels.add(log.level)
        if unt:
            text = " ".join(warned)
            lost = [t for t in unt if not (t in text)]
            if lost:
                return bad("not-listed", f"untrusted types {lost[:3]} are not in the warnings {brief(warned, 300)}")
            lost = [t for t in unt if t not in err] if cfg["entry"] != "api-logger" else []
            if lost:
                return bad("not-shown", f"untrusted types {lost[:3]} did not reach stderr: {brief(err, 300)}")
            for n in names(schema) - set(unt):
                for t in set(unt) | {disk["spelled"], str(disk["out"]), disk["dest"]}:
                    text = text.replace(t, " ")
                if mentions(text, n):
                    return bad("too-many", f"trusted type {n} is listed in the warning {brief(warned, 300)}")
            ctx.count("warned")
        else:
            if warned:
                return bad("false-warning", f"there are no untrusted types, but: {brief(warned, 300)}")
            ctx.count("silent")
        ctx.count("converted")
        ctx.count("replaced", disk["dest"] in before)
        ctx.count("default_name", disk["out"] is None)
        ctx.ev((what[:80], *map(str, cfg.values())))
        return True

    def call(self, cfg, disk):
        import pathlib
        from skops.cli.entrypoint import main_cli
        if cfg["entry"] == "main":
            return main_cli(disk["argv"])
        import skops.cli._convert as conv
        f = getattr(conv, "_convert_file", None)
        if f is None or disk["out"] is None:
            return main_cli(disk["argv"])
        P = str if cfg["entry"] == "api-str" else pathlib.Path
        if cfg["entry"] == "api-logger":
            f(P(disk["spelled"]), P(disk["out"]), logger=logging.getLogger("vk.convert"))
        else:
            f(P(disk["spelled"]), P(disk["out"]))


def names(schema):
    out = set()
    for _, x in arch.walk_all(schema):
        if isinstance(x, dict) and isinstance(x.get("__module__"), str) and isinstance(x.get("__class__"), str):
            out.add(x["__module__"] + "." + x["__class__"])
    return out


def expectation(ctx, sio, data):
    """(canonical form of the unpickled object, or None when that cannot be persisted)"""
    with contextlib.redirect_stderr(io.StringIO()):
        v = pickle.loads(data)
        try:
            d = sio.dumps(v)
        except BaseException:  # noqa
            return None
    return canon(pickle.loads(data))


def put(r, v):
    """the value somewhere in a structure"""
    for _ in range(r.choice([0, 1, 2, 3])):
        k = r.randrange(7)
        v = [lambda: [np.arange(r.randrange(200)), v], lambda: {"a": b"x" * r.randrange(500), "b": v, "c": 1}, lambda: (1, v, 2.5), lambda: zoo.Plain(x=np.ones(3), v=v), lambda: collections.OrderedDict(z=v), lambda: np.array([1, v, None, 2], dtype=object)[::1],
             lambda: [v, np.zeros(30000)]][k]()
    return v


def run_random(ctx, shard, bench):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        k = r.random()
        try:
            if k < 0.55:
                v = values.Gen(r).supported(r.choice([1, 2, 3]))
                if r.random() < 0.4:
                    v = put(r, zoo.Sub(a=v) if r.random() < 0.5 else [zoo.Plain(b=v), zoo.MyList([v])])
            elif k < 0.6:
                v = None
            else:
                v = put(r, zoo.PickledOnly(r.choice(EXCS), r.choice(["getstate", "getstate", "reduce"]))) if r.random() < 0.75 else None
            data = pickled(v, r.randrange(6))
        except Exception:
            ctx.count("not_picklable")
            continue
        if v is None and k >= 0.6:
            # no pickle at all
            data = r.choice([lambda: pickled(values.Gen(r).supported(1), 4)[: -r.randrange(1, 4)], lambda: b"", lambda: b"no pickle", lambda: b"cnosuchmodule\nX\n.", lambda: b"cvk.zoo\nNoSuchClass\n.", lambda: bench.sio.dumps([1])])()
            expect = None
        else:
            try:
                expect = expectation(ctx, bench.sio, data)
            except Exception as e:
                ctx.count("not_unpicklable")
                continue
        bench.once(bench.config(r), data, expect, r, brief(v))
        if i % 400 == 0:
            ctx.sample(brief(v))


def run_models(ctx, shard, bench):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        try:
            with es.limit(20):
                est = es.composition(r, r.choice([0, 1, 1]))
                if r.random() < 0.85:
                    X, y, H, kw = es.data(r, "dense", est)
                    est = es.fit(est, X, y, kw)
            data = pickled(est, r.randrange(2, 6))
            expect = expectation(ctx, bench.sio, data)
            if expect is not None and canon(pickle.loads(data)) != expect:
                continue
        except Exception:
            ctx.count("not_fitted")
            continue
        if bench.once(bench.config(r), data, expect, r, brief(est)):
            ctx.count("estimators")


def run_specials(ctx, shard, bench):
    """Every catalogue value that can be pickled; those that skops quietly changes are not C17's matter."""
    sio = bench.sio
    for name, thunk in ctx.items(values.SPECIALS):
        r = ctx.rng("special", name)
        try:
            data = pickled(thunk(), r.randrange(2, 6))
            expect = expectation(ctx, sio, data)
        except BaseException:  # noqa
            continue
        if expect is not None:
            try:
                v = pickle.loads(data)
                d = sio.dumps(v)
                ok = canon(sio.loads(d, trusted=sio.get_untrusted_types(data=d))) == expect
            except Exception:
                ok = False
            if not ok:
                ctx.count("not_faithful")
                ctx.note(f"{name} does not round-trip")
                continue
        for _ in range(2):
            bench.once(bench.config(r), data, expect, r, name)


def run_cli(ctx, shard, bench):
    """The command as users start it, in a process of its own."""
    def start(disk):
        env = dict(os.environ, PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", "from skops.cli.entrypoint import main_cli; main_cli()", *disk["argv"]], cwd=disk["work"], env=env, capture_output=True, timeout=120)
        ctx.count("cli")
        err = p.stderr.decode("utf-8", "replace")
        return (None if p.returncode == 0 else f"exit {p.returncode} {err[-200:]}"), err
    for i, r in ctx.cases(0, 14 if ctx.tier == "quick" else 80):
        v = [zoo.Plain(a=[1]), [1, "x", np.eye(2)], [zoo.PickledOnly()], {"a": zoo.Sub(), "b": zoo.MyList([1])}, zoo.PickledOnly("KeyboardInterrupt"), np.arange(4)][i % 6]
        cfg = dict(bench.config(r), entry="main")
        data = pickled(v, 4)
        bench.once(cfg, data, expectation(ctx, bench.sio, data), r, brief(v), run=start)
