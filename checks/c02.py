"""C02: inspecting an archive is inert."""
import os

from vk import arch, core, hostile, monitor

RULE = ("a distinct evaluation is one inspection call (get_untrusted_types via data/file, visualize, refused load/loads) on one archive; non-trivial = the archive "
        "names at least one canary, general-purpose callable or not-yet-imported module")
LEVEL = "exploration"
TECHNIQUE = ("runtime monitors (canary-module ledger, import finder and sys.modules difference, audit hook, sys.monitoring CALL recorder, directory snapshot) around "
             "get_untrusted_types, visualize and refused loads of hostile archives")
LEVEL_NOTE = ("all pairs of 63 name slots and 56 contexts; member keys that name real files; pickles in members, protocols 0-2, names in modules that are unimported, imported or missing; random nesting with shared/cyclic ids, "
              "mutated genuine archives and malformed ones; with and without the named module already imported")
REQUIRED = {"inspections": 8000, "refused": 2000, "visualized": 1000, "named": 5000, "members": 80, "controls": 4}

POOL = hostile.CANARY + hostile.TWISTED + hostile.DANGER + hostile.UNIMPORTED + hostile.UNIMPORTED


def plan(tier, seed):
    q = tier == "quick"
    sh = [dict(name="pairs", part=p, parts=4, reps=1 if q else 15, timeout_s=850, budget_s=600) for p in range(4)]
    sh.append(dict(name="members", parts=1 if q else 2, timeout_s=850, budget_s=600))
    sh += core.spread("random", 3000 if q else 150000, 2 if q else 12, timeout_s=850, budget_s=600)
    sh += core.spread("mutants", 2000 if q else 120000, 2 if q else 12, timeout_s=850, budget_s=600)
    return sh


class Lab:
    def __init__(self, ctx):
        from vk.watch import Watch
        self.ctx = ctx
        self.dir = ctx.tmpdir()
        os.chdir(self.dir)
        self.scratch = os.path.join(self.dir, "scratch_file")
        self.file = os.path.join(self.dir, "a.skops")
        for f in (self.scratch, self.file):
            with open(f, "wb") as fh:
                fh.write(b"x")
        self.watch = Watch(self.dir)
        import skops.io as sio
        self.sio = sio
        self.gen = hostile.genuine()
        r = ctx.rng("warm")
        for k, (s, m) in self.gen.items():
            d = arch.write(s, m)
            self.write(d)
            self.inspect_plain(d)
            for _ in range(5):
                try:
                    self.inspect_plain(arch.write(*hostile.mutate(r, s, m, hostile.GOOD)))
                except Exception:
                    pass
        self.before = monitor.tree_snapshot(self.dir)

    def write(self, d):
        with open(self.file, "wb") as f:
            f.write(d)

    def inspect_plain(self, d):
        import contextlib
        import io
        self.sio.get_untrusted_types(data=d)
        self.sio.visualize(d, sink=lambda nodes, *a, **k: list(nodes))
        with contextlib.redirect_stdout(io.StringIO()):
            self.sio.visualize(d)
        self.sio.loads(d, trusted=self.sio.get_untrusted_types(data=d))

    def trial(self, data, r, label):
        import contextlib
        import io
        from pathlib import Path
        ctx, w, sio = self.ctx, self.watch, self.sio
        try:
            schema, _ = arch.read(data)
        except Exception:
            return
        named = hostile.named(schema)
        ctx.count("named", len(named))
        self.write(data)
        allowed = {self.file}

        def out(**k):
            with contextlib.redirect_stdout(io.StringIO()):
                return sio.visualize(data, **k)
        names = sorted(n for _, n in named)
        report = []
        ops = [("untrusted data", lambda: sio.get_untrusted_types(data=data)), ("untrusted file", lambda: sio.get_untrusted_types(file=r.choice([self.file, Path(self.file)]))),
               ("visualize data", lambda: sio.visualize(data, sink=lambda nodes, *a, **k: list(nodes))), ("visualize trusted", lambda: sio.visualize(data, sink=lambda nodes, *a, **k: list(nodes), trusted=names)),
               ("visualize print", lambda: out(show=r.choice(["all", "untrusted", "trusted"]))), ("visualize file", lambda: sio.visualize(r.choice([self.file, Path(self.file)]), sink=lambda nodes, *a, **k: list(nodes)))]
        ops = ops[:1] + r.sample(ops[1:], 2)
        loads = [("loads", lambda T: sio.loads(data, trusted=T)), ("load", lambda T: sio.load(r.choice([self.file, Path(self.file)]), trusted=T))]
        for nm, f in ops:
            w.canary.reset()
            if r.random() < .4:
                for m in ("canary", "canary.sub"):
                    __import__(m)
            e, v = w.call(f)
            self.judge(label, nm, e, named, allowed, data)
            if nm.startswith("visualize"):
                ctx.count("visualized", e is None)
            elif e is None:
                report = v
        if report:
            T = [None, [], report[1:], report[:-1], tuple(r.sample(report, len(report) - 1))][r.randrange(5)]
            nm, f = r.choice(loads)
            w.canary.reset()
            if r.random() < .4:
                __import__("canary")
            e, v = w.call(lambda: f(T))
            if e is not None:
                ctx.count("refused")
                self.judge(label, f"{nm} trusted={T}", e, named, allowed, data)
        if self.before.keys() != monitor.tree_snapshot(self.dir).keys() or open(self.file, "rb").read() != data or open(self.scratch, "rb").read() != b"x":
            ctx.violation("file", f"{label}: files were changed: {sorted(monitor.tree_snapshot(self.dir))}")

    def judge(self, label, op, e, named, allowed, data):
        self.ctx.ev((data, op))
        self.ctx.count("inspections")
        bad = self.watch.inert(named, allowed)
        if bad:
            self.ctx.violation(bad[0][0], f"{label}: {op}: {bad[0][1]} (outcome {type(e).__name__}; {len(bad)} observations)", bad=bad[:8], named=sorted(named)[:20])

    def close(self):
        for k, v in self.watch.seen.items():
            self.ctx.count(k, v)
        os.chdir("/")


def run(ctx, shard):
    lab = Lab(ctx)
    globals()["run_" + shard["name"]](ctx, shard, lab)
    lab.close()


def run_pairs(ctx, shard, lab):
    k = 0
    for rep in range(shard["reps"]):
        for s in hostile.SLOTS:
            for c in [None] + hostile.CONTEXTS:
                k += 1
                if k % shard["parts"] != shard["part"]:
                    continue
                for _ in ctx.items([f"{rep}/{s}/{c}"]):
                    r = ctx.rng(rep, s, c)
                    b = hostile.Hostile(r, scratch=lab.scratch)
                    name = r.choice(r.choice([hostile.CLASSES, hostile.UNIMPORTED, POOL]))
                    root = b.slot(s, name)
                    if c:
                        root = b.context(c, root)
                    lab.trial(b.archive(root), r, f"slot {s} in {c} with {name} protocol {b.protocol}")
                    ctx.count("pairs")


def run_members(ctx, shard, lab):
    for i, (label, b, root) in enumerate(hostile.members(ctx.rng("members"))):
        if i % (7 if shard["parts"] == 1 else 1):
            continue
        for _ in ctx.items([label]):
            lab.trial(b.archive(root), ctx.rng(label), label)
            ctx.count("members")


def run_random(ctx, shard, lab):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        b = hostile.Hostile(r, pool=r.choice([hostile.CLASSES, hostile.UNIMPORTED, POOL]), scratch=lab.scratch)
        root = b.tree_(r.choice([0, 1, 1, 2, 3, 5]))
        if r.random() < .4:
            root = b.list([root, b.tree_(r.choice([0, 1, 2]))] + ([dict(b.leaf(), __id__=r.choice(b.made).get("__id__"))] if r.random() < .5 else []))
        ctx.sample(str(root)[:300])
        lab.trial(b.archive(root), r, f"random {i} protocol {b.protocol}")


def run_mutants(ctx, shard, lab):
    keys = sorted(lab.gen)
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        k = r.choice(keys)
        s, m = hostile.mutate(r, *lab.gen[k], r.choice([hostile.CLASSES, hostile.UNIMPORTED, POOL]), [lab.gen[x] for x in keys])
        if r.random() < .15:  # malformed in other ways
            paths = [p for p, _ in arch.walk_all(s) if p]
            for _ in range(r.randrange(1, 4)):
                try:
                    arch.put(s, r.choice(paths), r.choice([None, 1, [], {}, "x", True, -1.5, {"__class__": "A", "__module__": "canary"}]))
                except Exception:
                    pass
        lab.trial(arch.write(s, m), r, f"mutant {i} of {k}")
