"""C16: `skops update` upgrades old archives without ever endangering the original."""
import copy
import errno
import json
import os
import shutil
import subprocess
import sys
import tempfile
import warnings
import zipfile

import numpy as np

from vk import arch, core, crash, estimators as es, old, values, zoo
from vk.canon import canon, first_diff
from vk.rt import brief

RULE = "a distinct evaluation is one run of the update (archive protocol, paths, flags, file systems, state of the destination) together with the file operation at which it was killed or failed, after which every file below the scratch roots was compared; non-trivial = an archive of an older protocol"
LEVEL = "fault_enumeration"
TECHNIQUE = ("fault injection at the libc boundary (LD_PRELOAD shim that numbers every file-changing call): for each configuration the process is killed before, inside (half written) and after every call, every call fails with ENOSPC/EIO/EACCES, "
             "writes stop half way, file size limits; an oracle on complete snapshots of all scratch directories and on load() of the destination judges each outcome, and the command is run again after a crash")
LEVEL_NOTE = "all crash/fault points of each enumerated configuration: protocols 0/1/2/3 x output {none, bare, nested relative, parent-relative, absolute, other file system, alias of the input} x inplace x TMPDIR on the same or another file system x destination absent/archive/garbage/read-only/symlink/hard link; random configurations and objects without faults"
REQUIRED = {"runs": 2000, "updated": 700, "untouched": 300, "crash_points": 200, "inside": 200, "failures": 200, "short_writes": 30, "size_limits": 100, "reruns": 150, "crash_old": 150, "crash_new": 60, "other_fs": 300, "cli": 8, "values": 150}

PROTOCOL = None
OUTPUTS = ["none", "bare", "nested", "dot", "parent", "absolute", "otherfs", "unicode", "noext", "tmpname", "same", "alias", "missing-dir"]
DEST = ["absent", "absent", "archive", "garbage", "readonly", "symlink-to-input", "hardlink-to-input", "symlink", "empty"]


def plan(tier, seed):
    q = tier == "quick"
    return (core.spread("matrix", 1200 if q else 40000, 3 if q else 6, timeout_s=850) + core.spread("faults", 72 if q else 4000, 5 if q else 10, timeout_s=850) + [dict(name="cli", timeout_s=850)])


def run(ctx, shard):
    global PROTOCOL
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import skops.io as sio
    from skops.io._protocol import PROTOCOL as P
    PROTOCOL = P
    shm = tempfile.mkdtemp(prefix="vk_C16_", dir="/dev/shm") if os.path.isdir("/dev/shm") else None
    os.chdir(ctx.tmpdir())
    try:
        lab = Bench(ctx, sio, shm)
        globals()["run_" + shard["name"]](ctx, shard, lab)
        lab.lab.close()
    finally:
        os.chdir("/")
        if shm:
            shutil.rmtree(shm, ignore_errors=True)


class Bench:
    def __init__(self, ctx, sio, shm):
        self.ctx, self.sio = ctx, sio
        self.root = os.path.join(ctx.tmpdir(), "root")
        self.shm = os.path.join(shm, "root") if shm else os.path.join(ctx.tmpdir(), "root2")
        self.other = shm is not None and os.stat(shm).st_dev != os.stat(ctx.tmpdir()).st_dev
        self.lab = crash.Lab(ctx.tmpdir())
        self.judged = {}

    # -- archives
    def archive(self, r, small=False):
        """(bytes, protocol, canonical form of what it loads to, how to compare)"""
        ctx, sio = self.ctx, self.sio
        for _ in range(50):
            k = r.random()
            try:
                if small or k < 0.3:
                    v = r.choice([{"a": np.arange(5.0), "b": [1, "x"]}, [np.eye(3), np.arange(4), zoo.func], ("x", None, 1.5), np.arange(20000.0), {"w": np.arange(7), "g": np.exp}, b"bytes", [1, 2, {"k": (1, 2)}]])
                elif k < 0.75:
                    v = values.Gen(r).supported(3)
                else:
                    est = es.composition(r, 1)
                    X, y, H, kw = es.data(r, "dense", est)
                    v = es.fit(est, X, y, kw)
                d = sio.dumps(v)
            except Exception:  # noqa
                continue
            p = r.choice([0, 1, 1, PROTOCOL, PROTOCOL + 1]) if not small else r.choice([0, 1, 1])
            try:
                o, _ = old.rewrite(d, p)
                x = sio.loads(o, trusted=sio.get_untrusted_types(data=o))
                c = canon(x)
                again = sio.dumps(x)
                c2 = canon(sio.loads(again, trusted=sio.get_untrusted_types(data=again)))
            except Exception:  # noqa
                continue
            fuzzy = canon(sio.loads(o, trusted=sio.get_untrusted_types(data=o))) != c
            if fuzzy:
                c, c2 = old.v1_canon(c), old.v1_canon(c2)
            if c != c2:
                continue  # not stable under dump itself: nothing the update could do about it
            ctx.count("values")
            if r.random() < 0.6:
                o = self.variant(r, o)
            return o, p, c, fuzzy, brief(v, 60)
        raise RuntimeError("no archive could be made")

    def variant(self, r, o):
        """the same archive as other versions and other writers make it: the protocol alone says whether it is current"""
        schema, members = arch.read(o)
        k = r.randrange(4)
        if k < 2:
            schema["_skops_version"] = r.choice(["0.1", "0.4.0", "0.10", "99.0", "1.0.dev0", ""])
        elif k == 2:
            schema = dict(sorted(schema.items(), reverse=r.random() < .5))
        self.ctx.count("variants")
        return arch.write(schema, members, compression=r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]))

    # -- a configuration on disk
    def config(self, r, small=False):
        data, p, c, fuzzy, what = self.archive(r, small)
        out = r.choice(OUTPUTS if not small else OUTPUTS[1:-1])
        inplace = r.random() < (0.35 if not small else 0.3)
        if small and inplace and r.random() < 0.9:
            out = "none"
        return dict(data=data, protocol=p, canon=c, fuzzy=fuzzy, what=what, out=out, inplace=inplace, dest=r.choice(DEST), tmp=r.choice(["same", "other"]), inp=r.choice(["bare", "relative", "absolute", "otherfs", "symlink", "unicode", "dot"]),
                    cwdfs=r.choice(["disk", "disk", "shm"]), api=r.choice([None, None, "str", "path"]), verbose=r.choice([0, 0, 1, 2]), other=None if out == "none" else r.choice([b"PK not really", None]))

    def build(self, cfg):
        for d in (self.root, self.shm):
            shutil.rmtree(d, ignore_errors=True)
        home, away = (self.root, self.shm) if cfg["cwdfs"] == "disk" else (self.shm, self.root)
        for d in (home, away):
            for s in ("work/sub/dir", "abs/x", "in", "tmp"):
                os.makedirs(os.path.join(d, s))
            for f in ("work/updated.tmp", "work/out.skops.tmp", "work/keep", "tmp/keep", "in/keep", "abs/keep", "work/sub/dir/keep", "abs/x/updated.tmp", "work/in.skops.bak", "work/sub/dir/out.skops.tmp"):
                with open(os.path.join(d, f), "wb") as h:
                    h.write(f.encode())
        work = os.path.join(home, "work")
        inp, spelled = {"bare": ("work/in.skops", "in.skops"), "relative": ("in/in.skops", "../in/in.skops"), "absolute": ("in/in.skops", None), "otherfs": (None, None), "symlink": ("work/in.skops", "in.skops"), "unicode": ("work/mödel 日.skops", "mödel 日.skops"),
                        "dot": ("work/sub/in.skops", "./sub/../sub/in.skops")}[cfg["inp"]]
        inp = os.path.join(home, inp) if inp else os.path.join(away, "in", "in.skops")
        spelled = spelled or inp
        real = None
        if cfg["inp"] == "symlink":
            real = os.path.join(home, "in", "real.skops")
            with open(real, "wb") as h:
                h.write(cfg["data"])
            os.symlink(real, inp)
        else:
            with open(inp, "wb") as h:
                h.write(cfg["data"])
        out = {"none": None, "bare": "out.skops", "nested": "sub/dir/out.skops", "dot": "./sub/../out.skops", "parent": "../abs/out.skops", "absolute": os.path.join(home, "abs", "x", "out.skops"), "otherfs": os.path.join(away, "abs", "out.skops"),
               "unicode": "sub/ö ü 日.skops", "noext": "sub/out", "tmpname": "sub/dir/updated2.tmp", "same": spelled, "alias": os.path.join(os.path.dirname(inp), ".", os.path.basename(inp)), "missing-dir": "nope/out.skops"}[cfg["out"]]
        dest = os.path.normpath(os.path.join(work, out)) if out else (inp if cfg["inplace"] else None)
        if dest and dest != inp and os.path.isdir(os.path.dirname(dest)):
            k = cfg["dest"]
            if k == "archive":
                with open(dest, "wb") as h:
                    h.write(self.sio.dumps({"previous": list(range(50))}))
            elif k in ("garbage", "readonly", "empty"):
                with open(dest, "wb") as h:
                    h.write(b"" if k == "empty" else b"previous content\n" * 300)
                if k == "readonly":
                    os.chmod(dest, 0o400)
            elif k == "symlink-to-input":
                os.symlink(inp, dest)
            elif k == "hardlink-to-input" and os.path.dirname(dest) and os.stat(os.path.dirname(dest)).st_dev == os.stat(os.path.realpath(inp)).st_dev:
                os.link(os.path.realpath(inp), dest)
            elif k == "symlink":
                t = os.path.join(home, "abs", "target")
                with open(t, "wb") as h:
                    h.write(b"target of the link")
                os.symlink(t, dest)
        tmp = os.path.join(home if cfg["tmp"] == "same" else away, "tmp")
        argv = ["update", spelled] + (["-o", out] if out else []) + (["--inplace"] if cfg["inplace"] else []) + ["-v"] * cfg["verbose"]
        api = dict(input_file=spelled, output_file=out, inplace=cfg["inplace"], path=cfg["api"] == "path") if cfg["api"] else None
        st = os.lstat(inp)
        return dict(cwd=work, tmp=tmp, argv=argv, api=api, inp=inp, real=real, dest=dest, out=out, stat=(st.st_ino, st.st_mtime_ns))

    def snap(self):
        out = {}
        for d in (self.root, self.shm):
            for base, ds, fs in os.walk(d):
                for n in ds + fs:
                    p = os.path.join(base, n)
                    if os.path.islink(p):
                        out[p] = ("link", os.readlink(p))
                    elif os.path.isdir(p):
                        out[p] = ("dir",)
                    else:
                        with open(p, "rb") as f:
                            out[p] = ("file", f.read())
        return out

    def is_new(self, cfg, data):
        """None when this is a complete archive of the current protocol that loads to the same object"""
        try:
            s, m = arch.read(data)
            if s["protocol"] != PROTOCOL:
                return f"its protocol is {s['protocol']}"
            c = canon(self.sio.loads(data, trusted=self.sio.get_untrusted_types(data=data)))
        except Exception as e:  # noqa
            return f"it does not load: {type(e).__name__}: {str(e)[:200]}"
        if cfg["fuzzy"]:
            c = old.v1_canon(c)
        if c != cfg["canon"]:
            return f"it loads to something else: {first_diff(cfg['canon'], c)}"
        return None

    # -- the oracle
    def judge(self, cfg, disk, before, res, fault=None, residue=()):
        """fault: None, or (op name, mode)."""
        ctx = self.ctx
        killed = res["status"] is None
        if killed and (fault is None or res.get("late") or res.get("code") != 137):
            raise RuntimeError(f"the update did not end: {res} {disk}")
        after = self.snap()
        where = f"{'api' if disk['api'] else 'cli'} {disk['api'] or disk['argv']} in {disk['cwd']} with TMPDIR {disk['tmp']}, protocol {cfg['protocol']}, destination {cfg['dest']}" + (f", {fault}" if fault else "")
        exc = res.get("exc")
        ctx.count("runs")
        if self.other and (cfg["tmp"] == "other" or cfg["out"] == "otherfs"):
            ctx.count("other_fs")

        def bad(kind, msg):
            ctx.violation(kind, f"{where}: {msg} (outcome: {'killed' if killed else exc or 'returned'})", object=cfg["what"], ops=res.get("ops"))
            return False
        both = cfg["inplace"] and disk["out"] is not None
        update = not both and cfg["protocol"] < PROTOCOL and disk["dest"] is not None
        aliases = {disk["inp"]} | ({disk["real"]} if disk["real"] else set())
        to_input = disk["out"] is not None and os.path.normpath(os.path.join(disk["cwd"], disk["out"])) in aliases
        writable = set()
        if update:
            writable.add(disk["dest"])
            if cfg["inplace"] and disk["real"]:
                writable.add(disk["real"])
            link = before.get(disk["dest"])
            if link and link[0] == "link" and cfg["dest"] == "symlink":
                writable.add(os.path.join(os.path.dirname(disk["dest"]), link[1]))
        # everything else
        removal = fault is not None and fault[0].split(" ")[0] in ("unlink", "unlinkat", "rmdir") and fault[1] in (crash.FAIL,)
        for p in before:
            if p in writable:
                continue
            if after.get(p) != before[p]:
                if p in aliases:
                    return bad("input-altered", f"the input {p} is {brief(after.get(p))}")
                return bad("file-altered", f"{p} is {brief(after.get(p))} instead of {brief(before[p])}")
        for p in after:
            if p not in before and p not in writable and not killed and not removal:
                return bad("residue", f"{p} was left behind")
        # the destination
        if not update:
            if both and not killed and exc is None:
                return bad("no-error", "output and inplace together raised no error")
            if exc is not None and fault is None and not both and cfg["protocol"] == PROTOCOL:
                return bad("error", "a current archive raised an error")
            st = os.lstat(disk["inp"])
            if (st.st_ino, st.st_mtime_ns) != disk["stat"]:
                return bad("input-touched", f"the input was rewritten: {disk['stat']} {(st.st_ino, st.st_mtime_ns)}")
            ctx.count("untouched")
            ctx.ev(self.key(cfg, fault))
            return True
        new = 0
        for p in writable:
            a, b = after.get(p), before.get(p)
            if a == b:
                continue
            if a is None:
                return bad("lost", f"{p} is gone")
            if a[0] == "link":
                continue
            m = self.is_new(cfg, a[1])
            if m:
                return bad("destination", f"{p} is neither what it was nor the new archive: {m} ({len(a[1])} bytes)")
            new += 1
        unspecified = cfg["out"] == "missing-dir" or (to_input and not cfg["inplace"])
        if not killed and exc is None and not new and not unspecified and (after.get(disk["dest"], ("",))[0] != "file" or self.is_new(cfg, after[disk["dest"]][1])):
            return bad("not-updated", "returned, but the destination is not the new archive")
        if not killed and exc is not None and fault is None and not unspecified:
            return bad("error", "the update failed")
        if to_input and new and fault is None:
            ctx.count("same_path_updated")
        if new and disk["dest"] not in [p for p in writable if after.get(p) != before.get(p)]:
            with open(disk["dest"], "rb") as f:
                m = self.is_new(cfg, f.read())
            if m:
                return bad("destination", f"reading {disk['dest']}: {m}")
        ctx.count("updated", bool(new))
        if killed:
            ctx.count("crash_new" if new else "crash_old")
        ctx.ev(self.key(cfg, fault) if cfg["protocol"] < PROTOCOL else None)
        return True

    def key(self, cfg, fault):
        return (cfg["protocol"], cfg["out"], cfg["inplace"], cfg["dest"], cfg["tmp"], cfg["inp"], cfg["cwdfs"], cfg["api"], cfg["what"][:40], fault and (fault[0].split(" ")[0], fault[1:]))

    def once(self, cfg, fault=None, **kw):
        disk = self.build(cfg)
        before = self.snap()
        res = self.lab.run(disk["argv"], disk["cwd"], disk["tmp"], api=disk["api"], **kw)
        return disk, before, res, self.judge(cfg, disk, before, res, fault)


def run_matrix(ctx, shard, bench):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        cfg = bench.config(r)
        disk, before, res, ok = bench.once(cfg)
        if i % 50 == 0:
            ctx.sample(dict(argv=disk["argv"], protocol=cfg["protocol"], outcome=res.get("exc") or "returned", ops=res.get("ops")))


def run_faults(ctx, shard, bench):
    """Every file operation of a configuration as a crash point and as a failure."""
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        cfg = bench.config(r, small=True)
        # the important combinations come first
        fixed = [(o, ip, d, t) for o, ip in (("none", True), ("bare", False), ("absolute", False), ("otherfs", False), ("same", False), ("nested", False)) for d in ("absent", "garbage", "hardlink-to-input") for t in ("same", "other")]
        if i < len(fixed):
            cfg["out"], cfg["inplace"], cfg["dest"], cfg["tmp"] = fixed[i]
        disk, before, res, ok = bench.once(cfg)
        if not ok:
            continue
        ops = res.get("ops", [])
        ctx.count("points", len(ops))
        ctx.sample(dict(argv=disk["argv"], ops=ops))
        if len(ops) > 60:
            ops = ops[:60]
        for k, op in enumerate(ops):
            kind = op.split(" ")[0]
            ctx.key("op:" + kind)
            faults = [(crash.BEFORE, 0), (crash.INSIDE, 0), (crash.FAIL, r.choice([errno.ENOSPC, errno.EIO, errno.EACCES, errno.EXDEV if kind.startswith("rename") else errno.EIO]))]
            if kind.startswith("rename"):
                faults.append((crash.FAIL, errno.EXDEV))
            if kind in ("write", "sendfile", "copy_file_range"):
                faults.append((crash.SHORT, errno.ENOSPC))
            for mode, err in faults:
                disk, before, res, ok = bench.once(cfg, fault=(op, mode, err), target=k, mode=mode, err=err)
                ctx.count({crash.BEFORE: "crash_points", crash.INSIDE: "inside", crash.FAIL: "failures", crash.SHORT: "short_writes"}[mode])
                if not ok:
                    break
                if res["status"] is None and r.random() < 0.7:
                    # the same command again, on what the crash left behind
                    ctx.count("reruns")
                    b2 = bench.snap()
                    st = os.lstat(disk["inp"])
                    disk2 = dict(disk, stat=(st.st_ino, st.st_mtime_ns))
                    cfg2 = cfg
                    if cfg["inplace"] or cfg["out"] in ("same", "alias"):
                        with open(disk["inp"], "rb") as f:
                            cfg2 = dict(cfg, protocol=arch.read(f.read())[0]["protocol"])
                    res2 = bench.lab.run(disk["argv"], disk["cwd"], disk["tmp"], api=disk["api"])
                    bench.judge(cfg2, disk2, b2, res2)
        size = len(cfg["data"])
        for lim in (1, 200, size // 2, max(1, size - 1)):
            ctx.count("size_limits")
            bench.once(cfg, fault=("limit", lim), fsize=lim)


def run_cli(ctx, shard, bench):
    """The command as users start it."""
    for i, r in ctx.cases(0, 10 if ctx.tier == "quick" else 60):
        cfg = bench.config(r)
        if i < 3:
            cfg.update(out="bare", inplace=i == 2)
        cfg["api"] = None
        disk = bench.build(cfg)
        before = bench.snap()
        env = dict(os.environ, TMPDIR=disk["tmp"])
        p = subprocess.run([sys.executable, "-c", "from skops.cli.entrypoint import main_cli; main_cli()", *disk["argv"]], cwd=disk["cwd"], env=env, capture_output=True, timeout=120)
        ctx.count("cli")
        bench.judge(cfg, disk, before, dict(status=0, exc=None if p.returncode == 0 else f"exit {p.returncode}: {p.stderr.decode()[-200:]}", ops=[]))
