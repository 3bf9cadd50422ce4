"""Runner: shards, counters, verdicts, replay files, evidence, known findings."""
from __future__ import annotations

import hashlib
import importlib
import json
import mmap
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
MAX_PRINT = int(os.environ.get("VK_MAX", "6"))


def h(obj) -> str:
    if not isinstance(obj, (bytes, str)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode("utf-8", "surrogatepass")
    return hashlib.blake2b(obj, digest_size=8).hexdigest()


class Ctx:
    """What a check sees inside a worker."""

    def __init__(self, prop, tier, seed, shard, shard_no, only=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.shard_no, self.only = shard, shard_no, only
        self.evaluations = 0
        self.keys = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.findings = {}
        self.notes = []
        self._beat = None
        self.case_id = None
        self._tmp = None
        self._deadline = time.time() + shard.get("budget_s", 10**9)

    # --- the current case, in memory shared with the runner, in case the interpreter dies
    @property
    def case_id(self):
        return self._case

    @case_id.setter
    def case_id(self, cid):
        self._case = cid
        if self._beat is not None:
            b = str(cid or "").encode("utf-8", "replace")[:500]
            self._beat[:512] = b.ljust(512, b"\0")

    def beat_to(self, path):
        with open(path, "w+b") as f:
            f.write(b"\0" * 512)
            f.flush()
            self._beat = mmap.mmap(f.fileno(), 512)

    # --- randomness
    def rng(self, *labels):
        return random.Random("|".join(map(str, (self.seed, self.prop, self.shard.get("name", ""), *labels))))

    # --- iteration over numbered cases (stable ids, so that --replay can re-run just one)
    def cases(self, lo, hi, label=""):
        for i in range(lo, hi):
            cid = f"{label}{i}"
            if self.only is not None and cid != self.only:
                continue
            if time.time() > self._deadline:
                self.count("stopped_by_budget")
                return
            self.case_id = cid
            yield i, self.rng("case", cid)
        self.case_id = None

    def items(self, items, label=""):
        """Enumerated cases; each item must have a stable repr/str as first tuple element."""
        for it in items:
            cid = label + (it[0] if isinstance(it, tuple) else str(it))
            if self.only is not None and cid != self.only:
                continue
            if time.time() > self._deadline:
                self.count("stopped_by_budget")
                return
            self.case_id = cid
            yield it
        self.case_id = None

    # --- accounting
    def ev(self, key=None, n=1):
        self.evaluations += n
        if key is not None:
            self.keys.add(h(key))

    def key(self, key):
        self.keys.add(h(key))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            s = s if isinstance(s, (dict, list)) else str(s)
            self.samples.append(s)

    def note(self, s):
        if len(self.notes) < 20:
            self.notes.append(str(s)[:400])

    def violation(self, kind, msg, finding=None, **data):
        """Record a violation; `finding` names the listed defect this exact input/site belongs to."""
        v = dict(kind=kind, msg=str(msg)[:1500], case=self.case_id, shard_no=self.shard_no,
                 shard=self.shard, finding=finding, data=data)
        if len(self.violations) < 200:
            self.violations.append(v)

    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix=f"vk_{self.prop}_")
        return self._tmp

    def result(self):
        return dict(evaluations=self.evaluations, keys=sorted(self.keys), counters=self.counters,
                    samples=self.samples, violations=self.violations, notes=self.notes)


def load_check(prop):
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    return importlib.import_module(prop.lower())


def known_findings():
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def worker_env(tier, seed):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", LOKY_MAX_CPU_COUNT="1",
               PYTHONPATH=os.pathsep.join([REPO, os.path.join(VERIF, "lib")]),
               PYTHONWARNINGS="ignore", VERIF_SEED=str(seed), VERIF_TIER=tier,
               VERIF_REPO=REPO, MPLBACKEND="Agg", PYTHONFAULTHANDLER="1")
    env.pop("PYTHONSAFEPATH", None)
    return env


def run_worker(prop, tier, seed, shard_file, shard_no, out, only):
    """Entry point inside the worker process."""
    shard = json.load(open(shard_file))[shard_no]
    mod = load_check(prop)
    ctx = Ctx(prop, tier, seed, shard, shard_no, only)
    err = None
    ctx.beat_to(out + ".beat")
    try:
        mod.run(ctx, shard)
    except BaseException:  # noqa: harness failure, never a verdict
        err = traceback.format_exc()
    finally:
        if ctx._tmp:
            shutil.rmtree(ctx._tmp, ignore_errors=True)
    res = ctx.result()
    res["harness_error"] = err
    with open(out + ".tmp", "w") as f:
        json.dump(res, f, default=repr)
    os.replace(out + ".tmp", out)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def run_shards(prop, tier, seed, shards, only=None, jobs=8, quiet=False):
    work = tempfile.mkdtemp(prefix=f"vkrun_{prop}_")
    try:
        sf = os.path.join(work, "shards.json")
        json.dump(shards, open(sf, "w"))
        pending = list(range(len(shards)))
        running = {}
        results = {}
        env = worker_env(tier, seed)
        env["TMPDIR"] = work
        cpu = max(1, min(jobs, os.cpu_count() or 1))
        while pending or running:
            while pending and len(running) < cpu:
                i = pending.pop(0)
                out = os.path.join(work, f"r{i}.json")
                log = open(os.path.join(work, f"l{i}.txt"), "wb")
                p = subprocess.Popen(
                    [PYTHON, os.path.join(VERIF, "run.py"), "--worker", prop, tier, str(seed), sf, str(i), out]
                    + ([only] if only is not None else []),
                    env=env, cwd=work, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
                log.close()
                running[i] = (p, time.time(), out)
            time.sleep(0.03)
            for i, (p, t0, out) in list(running.items()):
                rc = p.poll()
                lim = shards[i].get("timeout_s", 600)
                if rc is None and time.time() - t0 > lim:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    results[i] = dict(dead=f"timeout after {lim}s")
                elif rc is not None:
                    if os.path.exists(out):
                        results[i] = json.load(open(out))
                    else:
                        tail = open(os.path.join(work, f"l{i}.txt"), "rb").read().decode("utf8", "replace")
                        tail = tail[:1500] + " ... " + tail[-300:] if len(tail) > 1800 else tail
                        beat = out + ".beat"
                        case = open(beat, "rb").read().rstrip(b"\0").decode("utf8", "replace") if os.path.exists(beat) else None
                        results[i] = dict(dead=f"exit {rc}: {tail}", rc=rc, case=case or None)
                else:
                    continue
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                del running[i]
                if os.environ.get("VK_VERBOSE"):
                    print(f"[{prop}] shard {i} {shards[i].get('name')} {time.time()-t0:.1f}s", file=sys.stderr)
        return [results[i] for i in range(len(shards))]
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main_check(prop, tier, seed, replay=None):
    t0 = time.time()
    mod = load_check(prop)
    only = None
    if replay:
        rp = json.load(open(replay))
        seed, tier, only = rp["seed"], rp["tier"], rp.get("case")
        shards = [rp["shard"]]
    else:
        shards = mod.plan(tier, seed)
        # fair share of the wall time for each shard; a check has 900 s in all
        share = 680 * min(8, os.cpu_count() or 1) / max(8, len(shards))
        for sh in shards:
            sh["budget_s"] = min(sh.get("budget_s", share), share)
            sh["timeout_s"] = min(sh.get("timeout_s", 820), 820)
    results = run_shards(prop, tier, seed, shards, only=only)

    kf = known_findings()
    evals, keys, counters, samples, viols, notes, problems = 0, set(), {}, [], [], [], []
    for i, r in enumerate(results):
        if "dead" in r:
            rc = r.get("rc")
            if rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                viols.append(dict(kind="interpreter-crash", msg=f"worker died: {r['dead'][:1200]}", case=r.get("case"),
                                  shard_no=i, shard=shards[i], finding=None, data={}))
            else:
                problems.append(f"shard {i} {shards[i].get('name')}: {r['dead']}")
            continue
        evals += r["evaluations"]
        keys.update(r["keys"])
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        samples += r["samples"]
        viols += r["violations"]
        notes += r["notes"]
        if r.get("harness_error"):
            problems.append(f"shard {i} {shards[i].get('name')}: harness error\n{r['harness_error']}")
    real, known = [], {}
    for v in viols:
        fid = v.get("finding")
        if fid and (prop, fid) in kf:
            known.setdefault(fid, v)
        else:
            real.append(v)
    if not replay:
        for name, minimum in getattr(mod, "REQUIRED", {}).items():
            if counters.get(name, 0) < minimum:
                problems.append(f"monitor counter {name}={counters.get(name, 0)} < {minimum}: nothing was observed")
        if evals == 0:
            problems.append("no evaluations")
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    for old in os.listdir(os.path.join(EVID, "replays")):
        if old.startswith(prop + "-") and not replay:
            os.unlink(os.path.join(EVID, "replays", old))
    shown, seen = [], set()
    for v in real:
        if v["kind"] in seen and len(shown) >= 2:
            continue
        if len(shown) >= MAX_PRINT:
            break
        seen.add(v["kind"])
        path = os.path.join(EVID, "replays", f"{prop}-{len(shown)}.json")
        if not replay:
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, shard=v["shard"], case=v["case"],
                               kind=v["kind"], msg=v["msg"], data=v["data"],
                               how=f"{PYTHON} {VERIF}/run.py {prop} --replay {path}"), f, indent=1, default=repr)
        else:
            path = replay
        shown.append((v, path))
    rng = random.Random(seed)
    picked = samples[:3] + (rng.sample(samples[3:], min(5, len(samples) - 3)) if len(samples) > 3 else [])
    cov = dict(evaluations=evals, distinct_nontrivial=len(keys), rule=mod.RULE, samples=picked,
               observed=dict(sorted(counters.items())), shards=len(shards))
    if known:
        cov["known_findings_seen"] = sorted(known)
    if problems:
        cov["problems"] = [p[-600:] for p in problems][:8]
    if notes:
        cov["notes"] = notes[:10]
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              violations=[dict(kind=v["kind"], msg=v["msg"][:400], replay=p) for v, p in shown])
    if not replay:
        with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write("\n")
    for fid, v in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {fid}: {kf[(prop, fid)]}")
    for v, p in shown:
        print(f"VIOLATION property={prop} replay={p}")
        print(f"  [{v['kind']}] {v['msg'][:600]}")
    if len(real) > len(shown):
        print(f"  ... {len(real)} violating observations in total")
    print(f"{prop} tier={tier} seed={seed} evaluations={evals} distinct={len(keys)} "
          f"wall={time.time()-t0:.1f}s observed={json.dumps(dict(sorted(counters.items())))[:700]}")
    if real:
        return 1
    if problems:
        for p in problems[:4]:
            print("INCONCLUSIVE " + p[-1500:])
        return 2
    return 0


def spread(name, total, n, **kw):
    """n shards covering cases [0,total)."""
    out = []
    for k in range(n):
        lo, hi = total * k // n, total * (k + 1) // n
        if hi > lo:
            out.append(dict(name=name, lo=lo, hi=hi, **kw))
    return out
