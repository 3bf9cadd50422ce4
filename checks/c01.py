"""C01: loading never uses code or objects the caller did not vouch for."""
import os

from vk import arch, core, hostile

RULE = ("a distinct evaluation is one load of one archive (distinct schema and members) under one trusted list; non-trivial = the archive names at least one "
        "module or object that is not trusted by default; the monitors watched the whole call")
LEVEL = "exploration"
TECHNIQUE = ("runtime monitors (canary-module ledger, import finder, audit hook in blocking mode, sys.monitoring CALL recorder, walk of the returned object graph) "
             "around loads of hostile archives: every node kind x every slot x every context, random nesting with shared/cyclic ids, mutated genuine archives")
LEVEL_NOTE = ("all pairs of 63 name slots and 56 contexts; every member-reading loader under every scalar and sparse name with 6 pickle payloads, protocols 0-2, names from a pool of canaries, 90 real general-purpose callables and not-yet-imported modules; "
              "trusted lists: empty, full report, report minus each name, unrelated and misleading names, type objects; seeded random beyond")
REQUIRED = {"loads": 5000, "refused": 500, "returned": 300, "ledger": 200, "members": 600, "controls": 4}


def plan(tier, seed):
    q = tier == "quick"
    sh = [dict(name="pairs", part=p, parts=4, reps=1 if q else 12, timeout_s=850, budget_s=650) for p in range(4)]
    sh.append(dict(name="members", reps=1 if q else 4, timeout_s=850, budget_s=600))
    sh += core.spread("random", 4000 if q else 200000, 2 if q else 12, timeout_s=850, budget_s=600)
    sh += core.spread("mutants", 3600 if q else 150000, 2 if q else 12, timeout_s=850, budget_s=600)
    return sh


class Lab:
    def __init__(self, ctx):
        from vk.watch import Watch
        self.ctx = ctx
        self.dir = ctx.tmpdir()
        os.chdir(self.dir)
        self.scratch = os.path.join(self.dir, "scratch_file")
        with open(self.scratch, "w") as f:
            f.write("x")
        self.watch = Watch(self.dir)
        import skops.io as sio
        self.sio = sio
        self.warm()

    def warm(self):
        r = self.ctx.rng("warm")
        for k, (s, m) in hostile.genuine().items():
            d = arch.write(s, m)
            self.sio.loads(d, trusted=self.sio.get_untrusted_types(data=d))
            for _ in range(5):
                try:
                    self.sio.loads(arch.write(*hostile.mutate(r, s, m, hostile.GOOD)))
                except Exception:
                    pass

    def trusted_lists(self, r, report, named):
        danger = set(hostile.DANGER) | set(hostile.UNIMPORTED)
        out = [None if r.random() < .5 else []]
        safe = [t for t in report if t not in danger]
        full = safe == report
        out.append(safe)
        if safe:
            drop = r.choice(safe)
            out.append([t for t in safe if t != drop])
        decoys = []
        for _ in range(4):
            m, c = hostile.split(r.choice(sorted(n for _, n in named)) if named else "canary.A")
            decoys.append(r.choice(hostile.TWISTS).format(m=m, c=c, M=m.title()))
        decoys += [m for m, _ in named] + [hostile.split(n)[1] for _, n in named] + ["builtins", "numpy", ""]
        decoys = [d for d in decoys if d not in report and d not in danger and (d not in {n for _, n in named})]
        out.append(decoys)
        if safe:
            out.append(tuple(r.sample(safe, r.randrange(1, len(safe) + 1))) + tuple(decoys[:2]))
        out.append(r.sample(hostile.CANARY, 3))
        return out, full

    def trial(self, data, r, label, lists=None, type_objects=False):
        ctx, w = self.ctx, self.watch
        try:
            schema, _ = arch.read(data)
        except Exception:
            return
        named = hostile.named(schema)
        w.canary.reset()
        try:
            report = self.sio.get_untrusted_types(data=data)
        except Exception:
            ctx.count("not_auditable")
            report = sorted(n for _, n in named if n.split(".")[0].startswith("canary"))
        cands, full = self.trusted_lists(r, report, named)
        for T in (cands if lists is None else lists):
            w.canary.reset()
            pre = r.random() < .3
            tt = T
            if pre or (type_objects and T):
                for m in ("canary", "canary.sub", "canary2"):
                    __import__(m)
                if type_objects and T:
                    tt = [self._as_type(t) for t in T]
            e, v = w.call(lambda: self.sio.loads(data, trusted=tt))
            ctx.ev((data, T))
            ctx.count("loads")
            names = {n for n in (T or ())}
            if e is None:
                ctx.count("returned")
            elif type(e).__name__ == "UntrustedTypesFoundException":
                ctx.count("refused")
            else:
                ctx.count("raised:" + type(e).__name__)
            bad = w.loaded(names, named, v, e is None)
            if bad:
                ctx.violation(bad[0][0], f"{label} trusted={T}: {bad[0][1]} (outcome {type(e).__name__ if e else 'returned ' + repr(type(v))}; {len(bad)} observations)",
                              bad=bad[:8], schema=str(schema)[:3000], trusted=T)
            del v
        return report

    def _as_type(self, t):
        import sys
        m, c = hostile.split(t)
        o = getattr(sys.modules.get(m), c, None) if m.startswith("canary") else None
        return o if isinstance(o, type) and f"{o.__module__}.{o.__name__}" == t else t

    def close(self):
        for k, v in self.watch.seen.items():
            self.ctx.count(k, v)
        if not os.path.exists(self.scratch) or open(self.scratch).read() != "x" or sorted(os.listdir(self.dir)) != ["scratch_file"]:
            self.ctx.violation("file", f"the working directory was changed: {sorted(os.listdir(self.dir))}")
        os.chdir("/")


def run(ctx, shard):
    lab = Lab(ctx)
    globals()["run_" + shard["name"]](ctx, shard, lab)
    lab.close()


POOL = hostile.CANARY + hostile.CANARY + hostile.TWISTED + hostile.DANGER + hostile.UNIMPORTED


def run_pairs(ctx, shard, lab):
    k = 0
    for rep in range(shard["reps"]):
        for s in hostile.SLOTS:
            for c in [None] + hostile.CONTEXTS:
                k += 1
                if k % shard["parts"] != shard["part"]:
                    continue
                for _ in ctx.items([f"{rep}/{s}/{c}"]):
                    r = ctx.rng(rep, s, c)
                    b = hostile.Hostile(r, scratch=lab.scratch)
                    name = r.choice(r.choice([hostile.CLASSES, hostile.CANARY, POOL]))
                    root = b.slot(s, name)
                    if c:
                        root = b.context(c, root)
                    lab.trial(b.archive(root), r, f"slot {s} in {c} with {name} protocol {b.protocol}", type_objects=r.random() < .15)
                    ctx.count("pairs")


def run_members(ctx, shard, lab):
    """pickles in every member that a loader reads, under every name that loader may go by"""
    for rep in range(shard["reps"]):
        r = ctx.rng("members", rep)
        for label, b, root in hostile.members(r):
            for _ in ctx.items([f"{rep}/{label}"]):
                if rep:
                    root = b.context(r.choice(hostile.CONTEXTS), root)
                lab.trial(b.archive(root), ctx.rng(rep, label), label, lists=[None, ["canary.B"]])
                ctx.count("members")


def run_random(ctx, shard, lab):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        b = hostile.Hostile(r, pool=r.choice([hostile.CLASSES, hostile.CANARY, POOL]), scratch=lab.scratch)
        root = b.tree_(r.choice([0, 1, 1, 2, 3, 5]))
        if r.random() < .4:
            root = b.list([root, b.tree_(r.choice([0, 1, 2]))] + ([dict(b.leaf(), __id__=r.choice(b.made).get("__id__"))] if r.random() < .5 else []))
        ctx.sample(str(root)[:300])
        lab.trial(b.archive(root), r, f"random {i} protocol {b.protocol}", type_objects=r.random() < .1)


def run_mutants(ctx, shard, lab):
    gen = hostile.genuine()
    keys = sorted(gen)
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        k = r.choice(keys)
        s, m = hostile.mutate(r, *gen[k], r.choice([hostile.CLASSES, hostile.CANARY, POOL]), [gen[x] for x in keys])
        lab.trial(arch.write(s, m), r, f"mutant {i} of {k}")
