"""C19: malformed archives fail cleanly."""
import contextlib
import decimal
import gc
import io
import json
import locale
import mmap
import os
import pathlib
import random
import re
import resource
import signal
import struct
import sys
import tempfile
import threading
import time
import warnings

import numpy as np
import sklearn

from vk import arch, core, corrupt, estimators as es, hostile, monitor, old, values, zoo
from vk.rt import brief

RULE = ("a distinct evaluation is one corrupted archive (kind of subject, sequence of corruptions, outcomes) given to get_untrusted_types, load and visualize in a sacrificial process whose death, CPU time, exceptions, process-wide state "
        "and created files were watched; non-trivial = the corruption changed the bytes")
LEVEL = "exploration"
TECHNIQUE = ("fuzzing of genuine archives in forked sacrificial processes under monitors: exit status and CPU time per call seen from outside, exception classes, snapshots of process-wide state (cwd, environment, sys.path, random states, "
             "recursion limit, umask, numpy error state), scratch directory listings and an audit hook on files opened for writing")
LEVEL_NOTE = ("seeded single and stacked corruptions: zip bytes, members, npy/npz headers and payloads, 24 kinds of schema edits, schema text; subjects: every node kind, every fitted scikit-learn estimator type, compositions, random values, archives of protocols 0-2; "
              "types with compiled state restoring that users have to trust explicitly (KDTree, BallTree, DistanceMetric) are audited but not constructed, see findings")
REQUIRED = {"archives": 4000, "calls": 25000, "ok": 4000, "raised": 8000, "loaded": 1500, "exceptions": 15, "corruptions": 40, "subjects": 60, "visualized": 2000, "deep": 80, "cycles": 150}

CPU_LIMIT = 20.0
WALL_LIMIT = 120.0
# types whose compiled __setstate__ believes what it gets; users have to trust them explicitly (KNOWN_FINDINGS native-setstate)
NATIVE = re.compile(r"KDTree|BallTree|DistanceMetric|Distance(32|64)?$|_dist_metrics|_QuadTree|xgboost|lightgbm|catboost")


def plan(tier, seed):
    q = tier == "quick"
    return (core.spread("fuzz", 9000 if q else 400000, 6 if q else 14, timeout_s=850) + core.spread("models", 900 if q else 60000, 2 if q else 6, timeout_s=850) + [dict(name="systematic", part=p, parts=3 if q else 6, sample=14 if q else 1, timeout_s=850) for p in range(3 if q else 6)]
            + [dict(name="findings", timeout_s=850)])


def run(ctx, shard):
    warnings.simplefilter("ignore")
    np.seterr(divide="ignore", over="warn", under="ignore", invalid="warn")  # none of the settings code would choose
    os.environ.update(COLUMNS="200", TERM="dumb")
    preload()
    ctx.exceptions, ctx.kinds, ctx.subjects = set(), set(), set()
    globals()["run_" + shard["name"]](ctx, shard)
    ctx.count("exceptions", len(ctx.exceptions))
    ctx.count("corruptions", len(ctx.kinds))
    ctx.count("subjects", len(ctx.subjects))


def preload():
    """third-party imports may change process-wide state, which is not what is looked for"""
    import numpy.ma, rich.console, rich.tree, scipy.io, scipy.special, scipy.stats, sklearn.pipeline  # noqa
    from sklearn.experimental import enable_halving_search_cv, enable_iterative_imputer  # noqa
    from sklearn.utils import all_estimators
    all_estimators()
    for m in ("pandas", "quantile_forest", "joblib"):
        try:
            __import__(m)
        except Exception:
            pass
    import skops.io as sio
    sio.visualize(sio.dumps([1]), sink=lambda *a, **k: None)


# ---------------------------------------------------------------- subjects
def subject(sio, label, data):
    schema, members = arch.read(data)
    try:
        trusted = [t for t in sio.get_untrusted_types(data=data) if not NATIVE.search(t)]
    except Exception:
        trusted = []
    return label, data, schema, members, trusted


def values_pool(ctx, sio, r, n):
    out = []
    for k, (s, m) in hostile.genuine().items():
        out.append(subject(sio, "genuine:" + k, arch.write(s, m)))
    for name, thunk in r.sample(values.SPECIALS, min(len(values.SPECIALS), 40 + n)):
        try:
            out.append(subject(sio, "special:" + name, sio.dumps(thunk())))
        except BaseException:  # noqa
            continue
    for _ in range(n):
        try:
            out.append(subject(sio, "random", sio.dumps(values.Gen(r).supported(r.choice([1, 2, 3])))))
        except Exception:
            continue
    for lab, d, *_ in r.sample(out, min(len(out), n)):
        try:
            o, _ = old.rewrite(d, r.choice([0, 1]))
            out.append(subject(sio, "old:" + lab, o))
        except Exception:
            continue
    for i in range(n):
        b = hostile.Hostile(r, pool=hostile.GOOD)
        try:
            d = b.archive(b.tree_(r.choice([0, 1, 2])))
            out.append((f"tree", d, *arch.read(d), []))
        except Exception:
            continue
    return out


def models_pool(ctx, sio, r, n):
    out = []
    names = es.classes()
    picks = r.sample(names, min(len(names), n)) if n < len(names) else list(names)
    for nc in picks:
        name, cls = nc
        try:
            with es.limit(15):
                est = es.base(name, cls)
                X, y, H, kw = es.data(r, "dense", est, n=24, d=4)
                out.append(subject(sio, "model:" + name, sio.dumps(es.fit(est, X, y, kw))))
        except Exception:
            continue
    for _ in range(n // 4):
        try:
            with es.limit(15):
                est = es.composition(r, 1)
                X, y, H, kw = es.data(r, "dense", est, n=24, d=4)
                out.append(subject(sio, "composition:" + type(est).__name__, sio.dumps(es.fit(est, X, y, kw))))
        except Exception:
            continue
    return [s for s in out if len(s[1]) < 300000]


# ---------------------------------------------------------------- the sacrificial process
class Board:
    """what the process is doing, readable from outside"""

    def __init__(self):
        self.m = mmap.mmap(-1, 4096)

    def start(self, i, what):
        b = what.encode("utf-8", "replace")[:1500]
        self.m[24:24 + 1600] = b.ljust(1600, b"\0")
        self.m[:24] = struct.pack("<qdd", i, time.process_time(), time.time())

    def read(self):
        i, cpu, wall = struct.unpack("<qdd", self.m[:24])
        return i, cpu, wall, self.m[24:1624].rstrip(b"\0").decode("utf-8", "replace")


def cpu_of(pid):
    with open(f"/proc/{pid}/stat", "rb") as f:
        x = f.read().rpartition(b")")[2].split()
    return (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")


def sacrifice(ctx, todo, one, finding=None, limit=CPU_LIMIT):
    """Runs one(watch, i) for every i of todo in forked processes; deaths and hangs are violations of case i."""
    todo = list(todo)
    while todo:
        if time.time() > ctx._deadline:
            ctx.count("stopped_by_budget")
            return
        chunk, todo = todo[:150], todo[150:]
        board = Board()
        path = os.path.join(ctx.tmpdir(), "results.jsonl")
        open(path, "w").close()
        board.start(-1, "start")
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 98
            try:
                child(ctx, chunk, one, board, path)
                code = 0
            except BaseException:  # noqa
                import traceback
                with open(path, "a") as f:
                    f.write(json.dumps(dict(harness=traceback.format_exc()[-1500:])) + "\n")
            finally:
                os._exit(code)
        status = hang = None
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                status = st
                break
            i, cpu0, wall0, what = board.read()
            if i >= 0:
                try:
                    used = cpu_of(pid) - cpu0
                except (OSError, IndexError):
                    used = 0
                if used > limit or time.time() - wall0 > WALL_LIMIT:
                    hang = f"still running after {used:.1f} s of CPU time and {time.time() - wall0:.0f} s"
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    break
            time.sleep(0.02)
        last = None
        with open(path) as f:
            for line in f:
                res = json.loads(line)
                if "harness" in res:
                    raise RuntimeError(res["harness"])
                last = res["i"]
                absorb(ctx, res)
        if status == 0:
            continue
        i, cpu0, wall0, what = board.read()
        if i < 0:
            raise RuntimeError(f"the process died before the first call: {status} {hang}")
        ctx.case_id = str(i)
        if hang:
            ctx.violation("hang", f"{what}: {hang}", finding=finding)
        elif os.WIFSIGNALED(status):
            ctx.violation("crash", f"{what}: the process was killed by signal {os.WTERMSIG(status)}", finding=finding)
        else:
            ctx.violation("exit", f"{what}: the process ended with status {os.WEXITSTATUS(status)}", finding=finding)
        ctx.case_id = None
        k = chunk.index(i)
        todo = chunk[k + 1:] + todo


def absorb(ctx, res):
    for k, n in res["counts"].items():
        ctx.count(k, n)
    ctx.exceptions.update(res["exceptions"])
    ctx.kinds.update(res["kinds"])
    ctx.subjects.add(res["subject"])
    if res["changed"]:
        ctx.ev((res["subject"], res["kinds"], res["outcomes"], res["size"]))
    else:
        ctx.ev()
    for kind, msg in res["bad"]:
        ctx.case_id = str(res["i"])
        ctx.violation(kind, msg)
        ctx.case_id = None
    if res["i"] % 300 == 0:
        ctx.sample(dict(subject=res["subject"], corruptions=res["kinds"], outcomes=res["outcomes"]))


class Watch:
    """calls under watch, inside of the sacrificial process"""

    def __init__(self, home, board, audit):
        self.home, self.board, self.audit = home, board, audit
        self.scratch = os.path.join(home, "cwd")

    def begin(self, i):
        self.i, self.res = i, dict(i=i, counts={}, exceptions=[], kinds=[], subject="", outcomes=[], changed=True, bad=[], size=0)

    def count(self, k, n=1):
        self.res["counts"][k] = self.res["counts"].get(k, 0) + n

    def bad(self, kind, msg):
        self.res["bad"].append((kind, msg[:1200]))

    def call(self, name, f, what):
        before = self.state()
        files = self.files()
        value = None
        self.board.start(self.i, f"{name} of {what}")
        t0 = time.process_time()
        try:
            with self.audit:
                value = f()
            out = "ok"
        except Exception as e:  # noqa
            out = type(e).__name__
            self.res["exceptions"].append(out)
            e.__traceback__ = None
        except BaseException as e:  # noqa
            out = type(e).__name__
            self.bad("base-exception", f"{name} of {what}: raised {type(e).__name__}: {e}")
        took = time.process_time() - t0
        after = self.state()
        if before != after:
            d = {k: (before[k], after[k]) for k in before if before[k] != after[k]}
            self.bad("state", f"{name} of {what}: changed {brief(d, 600)}")
            self.restore(before)
        new = self.files() - files
        if new:
            self.bad("files", f"{name} of {what}: created {sorted(new)[:5]}")
            import shutil
            for p in new:
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
        for ev in self.audit.events:
            if ev[0] == "open-w" and not ev[1].startswith(("fd:", "/dev/")) and ev[1] not in files and os.path.exists(ev[1]):
                self.bad("files", f"{name} of {what}: wrote {ev[1]}")
        self.count("calls")
        self.count("ok" if out == "ok" else "raised")
        self.res["outcomes"].append(f"{name}:{out}")
        if took > 2:
            self.count("slow_calls")
        return out, value

    def state(self):
        st = np.random.get_state(legacy=False)
        um = os.umask(0o22)
        os.umask(um)
        return dict(cwd=os.getcwd(), env=dict(os.environ), path=list(sys.path), reclimit=sys.getrecursionlimit(), umask=um, np=(st["bit_generator"], st["state"]["key"].tobytes(), st["state"]["pos"], st["has_gauss"], st["gauss"]), random=random.getstate(),
                    nperr=np.geterr(), npprint=repr(sorted(np.get_printoptions().items(), key=str)), meta=list(map(id, sys.meta_path)), hooks=(id(sys.excepthook), id(sys.stdout), id(sys.stderr)),
                    sig=tuple(map(str, (signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGSEGV)))), switch=sys.getswitchinterval(), gc=(gc.isenabled(), gc.get_threshold(), gc.get_debug()), filters=list(warnings.filters), decimal=(decimal.getcontext().prec, decimal.getcontext().rounding, sorted(map(str, (k for k, v in decimal.getcontext().traps.items() if v)))), locale=locale.setlocale(locale.LC_ALL), sklearn=sklearn.get_config(), threads=threading.active_count(), tempdir=tempfile.tempdir, times=(os.getpriority(os.PRIO_PROCESS, 0), resource.getrlimit(resource.RLIMIT_CPU), signal.getitimer(signal.ITIMER_REAL)), trace=(sys.gettrace(), sys.getprofile()), intmax=sys.get_int_max_str_digits())

    def restore(self, st):
        os.chdir(st["cwd"])
        sys.path[:] = st["path"]
        os.environ.clear()
        os.environ.update(st["env"])
        sys.setrecursionlimit(st["reclimit"])
        random.setstate(st["random"])
        np.seterr(**st["nperr"])
        warnings.filters[:] = st["filters"]
        sklearn.set_config(**st["sklearn"])
        gc.enable() if st["gc"][0] else gc.disable()

    def files(self):
        out = set()
        for base, ds, fs in os.walk(self.home):
            out.update(os.path.join(base, n) for n in ds + fs)
        return out


def child(ctx, chunk, one, board, path):
    home = os.path.join(ctx.tmpdir(), "home")
    scratch = os.path.join(home, "cwd")
    for d in ("cwd", "tmp", "user"):
        os.makedirs(os.path.join(home, d), exist_ok=True)
    os.environ.update(TMPDIR=os.path.join(home, "tmp"), HOME=os.path.join(home, "user"))
    tempfile.tempdir = None
    os.chdir(scratch)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import faulthandler
    faulthandler.disable()
    audit = monitor.Audit()
    w = Watch(home, board, audit)
    sys.stdout = io.StringIO()
    with open(path, "a") as out:
        for i in chunk:
            w.begin(i)
            one(w, i)
            out.write(json.dumps(w.res, default=repr) + "\n")
            out.flush()
            sys.stdout.seek(0)
            sys.stdout.truncate()
    gc.collect()


# ---------------------------------------------------------------- one archive
def pool_size(schema):
    """seed sequences with large pools take quadratic time (KNOWN_FINDINGS pool-size)"""
    worst = 0
    for _, n in arch.walk_all(schema):
        if isinstance(n, dict):
            p = n.get("pool_size")
            if isinstance(p, dict):
                p = p.get("content")
            try:
                worst = max(worst, int(json.loads(p) if isinstance(p, str) else p))
            except Exception:
                continue
    return worst


def entropy(schema):
    """numbers with very many digits are taken apart by numpy in quadratic time"""
    return any(isinstance(v, str) and len(v) > 3000 and v.lstrip("-").isdigit() for _, v in arch.walk_all(schema))


def examine(w, r, sio, subj, data, kinds, trusted):
    label = subj
    w.res.update(subject=label, kinds=kinds, size=len(data))
    w.count("archives")
    what = f"{label} after {kinds} ({len(data)} bytes)"
    for k in kinds:
        if k.startswith("deep"):
            w.count("deep")
        if k == "cycle":
            w.count("cycles")
    n_rows = pool = 0
    try:
        schema, _ = arch.read(data)
        if isinstance(schema, dict):
            pool = pool_size(schema)
            n_rows = corrupt.rows(schema) * len(json.dumps(schema)) // 300
    except BaseException:  # noqa
        pass
    path = os.path.join(w.scratch, "a.skops")
    from_file = r.random() < .3
    if from_file:
        with open(path, "wb") as f:
            f.write(data)
    as_path = r.choice([str, pathlib.Path, os.fsencode if False else str])
    try:
        out, rep = w.call("get_untrusted_types", lambda: sio.get_untrusted_types(data=data) if not from_file else sio.get_untrusted_types(file=as_path(path)), what)
        w.call("loads", lambda: sio.loads(data) if not from_file else sio.load(as_path(path)), what)
        if pool > 3000:
            w.count("skipped_pool_size")
        else:
            o2, v = w.call("loads+trusted", lambda: sio.loads(data, trusted=trusted) if not from_file else sio.load(as_path(path), trusted=trusted), what)
            w.count("loaded", o2 == "ok")
            del v
        if n_rows > 1000000:  # KNOWN_FINDINGS visualize-shared
            w.count("skipped_many_rows")
        else:
            kw = dict(show=r.choice(["all", "untrusted", "trusted"]), trusted=r.choice([None, trusted]))
            if r.random() < .4:
                kw["sink"] = lambda nodes, show, **k: sum(1 for _ in nodes)
            elif r.random() < .3:
                kw["use_colors"] = r.random() < .5
            o3, _ = w.call("visualize", lambda: sio.visualize(data if not from_file else as_path(path), **kw), what)
            w.count("visualized", o3 == "ok")
    finally:
        if from_file:
            with contextlib.suppress(OSError):
                os.unlink(path)


def fuzz(ctx, shard, pool, kinds=None):
    import skops.io as sio
    donors = [(s, m) for _, d, s, m, _ in pool[:40] if len(d) < 20000]

    def one(w, i):
        r = ctx.rng("case", str(i))
        label, data, schema, members, trusted = r.choice(pool)
        try:
            bad, kinds = corrupt.corrupt(r, data, schema, members, donors)
        except (RecursionError, ValueError):  # the corruptions made a python structure json cannot write
            return
        w.res["changed"] = bad != data
        examine(w, r, sio, label, bad, kinds, trusted)
    todo = range(shard["lo"], shard["hi"]) if ctx.only is None else [int(ctx.only)]
    sacrifice(ctx, todo, one)


def run_fuzz(ctx, shard):
    import skops.io as sio
    fuzz(ctx, shard, values_pool(ctx, sio, ctx.rng("pool", shard["lo"] if ctx.tier == "quick" else shard["lo"]), 60 if ctx.tier == "quick" else 300))


def run_models(ctx, shard):
    import skops.io as sio
    fuzz(ctx, shard, models_pool(ctx, sio, ctx.rng("pool", shard["lo"]), 70 if ctx.tier == "quick" else 400))


def run_systematic(ctx, shard):
    """Single faults, enumerated: every byte of a small archive, every key dropped, every value replaced, every reference redirected, for each kind of node."""
    import skops.io as sio
    pool = [subject(sio, "genuine:" + k, arch.write(s, m)) for k, (s, m) in hostile.genuine().items()]
    cases = []
    for si, (label, data, schema, members, trusted) in enumerate(pool):
        paths = [p for p, v in arch.walk_all(schema) if p]
        for p in paths:
            cases.append((si, "drop", p))
            cases += [(si, "set", p, v) for v in range(len(SETS))]
        nodes = [(p, n) for p, n in arch.walk(schema)]
        for p, n in nodes:
            for q, m in nodes:
                if len(nodes) < 60:
                    cases.append((si, "id", p, q))
                    if p:
                        cases.append((si, "ref", p, q))
        for f in members:
            cases += [(si, "gone", f), (si, "empty", f)] + [(si, "as", f, g) for g in members]
        for pos in range(0, len(data), 1 if len(data) < 4000 else 7):
            cases += [(si, "flip", pos, b) for b in (0, 7)] + [(si, "cut", pos)]
    r = ctx.rng("order")
    r.shuffle(cases)
    cases = cases[: len(cases) // shard["sample"]]
    mine = list(range(shard["part"], len(cases), shard["parts"]))

    def one(w, i):
        import copy
        c = cases[i]
        label, data, schema, members, trusted = pool[c[0]]
        s, m = copy.deepcopy(schema), dict(members)
        if c[1] == "drop":
            parent = arch.get(s, c[2][:-1])
            del parent[c[2][-1]]
        elif c[1] == "set":
            arch.put(s, c[2], copy.deepcopy(SETS[c[3]]))
        elif c[1] == "id":
            arch.get(s, c[2])["__id__"] = arch.get(s, c[3]).get("__id__")
        elif c[1] == "ref":
            a = arch.get(s, c[3])
            arch.put(s, c[2], {"__class__": a.get("__class__"), "__module__": a.get("__module__"), "__loader__": "CachedNode", "__id__": a.get("__id__")})
        elif c[1] == "gone":
            del m[c[2]]
        elif c[1] == "empty":
            m[c[2]] = b""
        elif c[1] == "as":
            m[c[2]] = members[c[3]]
        if c[1] == "flip":
            b = bytearray(data)
            b[c[2]] ^= 1 << c[3]
            bad = bytes(b)
        elif c[1] == "cut":
            bad = data[:c[2]]
        else:
            bad = arch.write(s, m)
        w.count("systematic")
        examine(w, ctx.rng("case", str(i)), sio, label, bad, ["=" + c[1]], trusted)
        w.res["size"] = str(c[1:])
    sacrifice(ctx, mine if ctx.only is None else [int(ctx.only)], one)


SETS = [None, True, -1, 10**20, 1.5, "", "x", [], {}, [None], {"a": 1}]


# ---------------------------------------------------------------- what is known to fail
def run_findings(ctx, shard):
    """The listed findings, demonstrated again on every run, each in a process of its own."""
    import copy

    import skops.io as sio
    from sklearn.neighbors import KDTree

    # 1: compiled __setstate__ of explicitly trusted types
    d = sio.dumps(KDTree(np.random.RandomState(0).rand(10, 3)))
    schema, members = arch.read(d)
    s = copy.deepcopy(schema)
    state = s["content"]
    lists = [n for _, n in arch.walk(s) if n.get("__loader__") == "TupleNode" and isinstance(n.get("content"), list) and len(n["content"]) > 3]
    lists[0]["content"] = lists[0]["content"][:1]
    bad1 = arch.write(s, members)
    # 2: shared nodes are drawn each time they are referred to
    b = arch.B()
    n = b.list([b.json(1)])
    for _ in range(64):
        n = b.list([n, {"__class__": "list", "__module__": "builtins", "__loader__": "CachedNode", "__id__": n["__id__"]}])
    bad2 = b.archive(n)
    # 3: the pool of a seed sequence
    s, m = arch.read(sio.dumps(np.random.default_rng(1)))
    for _, n in arch.walk_all(s):
        if isinstance(n, dict) and isinstance(n.get("pool_size"), dict):
            n["pool_size"]["content"] = "1000000"
    bad3 = arch.write(s, m)
    # 4: object arrays nested so deeply that numpy cannot compare them
    for _, n in arch.walk_all(s):
        if isinstance(n, dict) and isinstance(n.get("pool_size"), dict):
            n["pool_size"] = "@@pool@@"
    bad4 = arch.write(json.loads(json.dumps(s).replace('"@@pool@@"', corrupt.expand("array", 440, json.dumps(b.json(4))))), m)
    for i, (fid, f) in enumerate([("native-setstate", lambda w: w.call("loads+trusted", lambda: sio.loads(bad1, trusted=sio.get_untrusted_types(data=bad1)), "KDTree with a short state")),
                                  ("visualize-shared", lambda w: w.call("visualize", lambda: sio.visualize(bad2, sink=lambda nodes, show, **k: sum(1 for _ in nodes)), "64 levels of lists that hold the next level twice")),
                                  ("pool-size", lambda w: w.call("loads", lambda: sio.loads(bad3), "generator with pool_size 1000000")),
                                  ("nested-arrays", lambda w: w.call("loads", lambda: sio.loads(bad4), "generator whose pool_size is an array in 440 arrays"))]):
        if ctx.only is not None and ctx.only != str(i):
            continue

        def one(w, _):
            w.res.update(subject="finding", kinds=[fid])
            f(w)
        sacrifice(ctx, [i], one, finding=fid, limit=5.0)
    # the same without the finding: audits of the same archives end
    def two(w, _):
        w.res.update(subject="finding", kinds=["audit"])
        for b in (bad1, bad2, bad3, bad4):
            w.call("get_untrusted_types", lambda: sio.get_untrusted_types(data=b), "archive of a finding")
        w.call("loads", lambda: sio.loads(bad2), "64 levels of shared lists")
    sacrifice(ctx, [10], two)
