"""C03: the audit verdict is exact and load enforces exactly that verdict."""
import ast
import os
import re
import sys

from vk import arch, core, hostile, values, zoo
from vk.canon import canon, first_diff

RULE = ("a distinct evaluation is one (archive, trusted argument, entry point) whose outcome was compared to the set difference of the report and the trusted names; "
        "non-trivial = the report is not empty")
LEVEL = "exploration"
TECHNIQUE = ("runtime relational monitor: reports of get_untrusted_types (data/str path/Path) vs. outcome, exception text and canonical result of load/loads under "
             "subsets, supersets, permutations, duplicates, tuples and type objects")
LEVEL_NOTE = "hand-built archives of all node kinds in all slots and contexts, mutated and genuine archives, dumps of random values; 12 trusted arguments each, all entry points"
REQUIRED = {"reports": 2000, "must_refuse": 5000, "must_pass": 2000, "superset_compared": 800, "type_objects": 200, "multi": 500, "crowds": 60}

POOL = hostile.CANARY + ["collections.Counter", "decimal.Decimal", "fractions.Fraction", "vk.zoo.Plain", "vk.zoo.Point", "vk.zoo.func", "vk.zoo.MyList", "vk.zoo.MyDict", "vk.zoo.ReduceArgs", "vk.zoo.Slots", "vk.zoo.Inner", "vk.zoo.Meta", "uuid.UUID", "collections.OrderedDict"]


def plan(tier, seed):
    q = tier == "quick"
    return (core.spread("hand", 2600 if q else 120000, 3 if q else 10, timeout_s=850) + core.spread("mutants", 1200 if q else 40000, 3 if q else 10, timeout_s=850)
            + core.spread("dumped", 900 if q else 40000, 2 if q else 8, timeout_s=850))


class Lab:
    def __init__(self, ctx):
        from vk.monitor import Canary
        import warnings
        warnings.simplefilter("ignore")
        import skops.io as sio
        self.sio, self.ctx = sio, ctx
        self.dir = ctx.tmpdir()
        os.chdir(self.dir)
        self.file = os.path.join(self.dir, "a.skops")
        self.canary = Canary()
        self.types = {f"{t.__module__}.{t.__name__}": t for t in vars(zoo).values() if isinstance(t, type)}
        # a type goes by its own name, wherever it is kept
        import collections, decimal, fractions, uuid  # noqa
        for t in (zoo.Outer.Inner, zoo.Colour, zoo.Point, collections.Counter, decimal.Decimal, fractions.Fraction, uuid.UUID, collections.OrderedDict):
            self.types[f"{t.__module__}.{t.__name__}"] = t

    def outcome(self, f):
        try:
            return None, f()
        except Exception as e:
            return e, None

    def trial(self, data, r, label):
        from pathlib import Path
        ctx, sio = self.ctx, self.sio
        self.canary.reset()
        with open(self.file, "wb") as f:
            f.write(data)
        e, R = self.outcome(lambda: sio.get_untrusted_types(data=data))
        e2, R2 = self.outcome(lambda: sio.get_untrusted_types(file=self.file))
        e3, R3 = self.outcome(lambda: sio.get_untrusted_types(file=Path(self.file)))
        bad = lambda kind, msg, **k: ctx.violation(kind, f"{label}: {msg}", report=R, **k)  # noqa
        if (type(e), R) != (type(e2), R2) or (type(e), R) != (type(e3), R3):
            bad("entry-points", f"data= gives {R} ({e!r}), file= gives {R2} ({e2!r}) / {R3} ({e3!r})")
        for name, f in (("loads", lambda: sio.loads(data, trusted=True)), ("load", lambda: sio.load(self.file, trusted=True)), ("load", lambda: sio.load(Path(self.file), trusted=True))):
            et, _ = self.outcome(f)
            if not isinstance(et, TypeError):
                bad("true-accepted", f"{name}(trusted=True) gave {et!r}")
        if e is not None:
            ctx.count("not_auditable")
            return
        ctx.count("reports")
        if not isinstance(R, list) or not all(isinstance(x, str) for x in R) or R != sorted(set(R)):
            bad("report-form", f"report is not a sorted duplicate-free list of str: {R!r}")
            return
        if len(R) > 1:
            ctx.count("multi")
        refs = {}
        for T in self.lists(r, R):
            names = [self.name_of(t) for t in (T or ())]
            missing = set(R) - set(names)
            entry, f = r.choice([("loads", lambda: sio.loads(data, trusted=T)), ("load str", lambda: sio.load(self.file, trusted=T)), ("load Path", lambda: sio.load(Path(self.file), trusted=T))])
            before = list(T) if T is not None else None
            e, v = self.outcome(f)
            ctx.ev((data, repr(T), entry))
            if T is not None and list(T) != before:
                bad("trusted-modified", f"{entry} modified the trusted argument {before} -> {T}")
            untrusted = type(e).__name__ == "UntrustedTypesFoundException"
            if missing:
                ctx.count("must_refuse")
                if not untrusted:
                    bad("not-refused", f"{entry} with trusted={T}: missing {sorted(missing)}, outcome {e!r} {type(v)}", trusted=repr(T))
                elif named_in(e) != missing:
                    bad("wrong-names", f"{entry} with trusted={T}: missing {sorted(missing)}, the exception says {e}", trusted=repr(T))
            else:
                ctx.count("must_pass")
                if untrusted:
                    bad("refused", f"{entry} with trusted={T} refused although nothing is missing: {e}", trusted=repr(T))
                    continue
                out = ("raised", type(e).__name__) if e is not None else self.canon(v)
                if out is None:
                    continue
                if "ref" in refs:
                    ctx.count("superset_compared")
                    df = first_diff(refs["ref"], out) if isinstance(out, list) and isinstance(refs["ref"], list) else (None if refs["ref"] == out else f"{str(refs['ref'])[:200]} != {str(out)[:200]}")
                    if df:
                        bad("result-depends-on-trusted", f"{entry} with trusted={T}: {df}", trusted=repr(T))
                else:
                    e, v = self.outcome(f)  # e.g. a generator without a stored seed sequence draws its seed from the system
                    if out != (("raised", type(e).__name__) if e is not None else self.canon(v)):
                        ctx.count("nondeterministic")
                        break
                    refs["ref"] = out

    def canon(self, v):
        try:
            return canon(v)
        except Exception:
            return None

    def name_of(self, t):
        return t if isinstance(t, str) else f"{t.__module__}.{t.__name__}"

    def lists(self, r, R):
        out = [None, [], (), list(R), list(R)]
        sub = lambda: [x for x in R if r.random() < .6]  # noqa
        if R:
            i = r.randrange(len(R))
            out += [R[:i] + R[i + 1:], tuple(sub()), sub() + ["vk.unrelated", "canary"], [R[i]]]
            j = r.randrange(len(R))
            twist = [x for x in (R[j] + "x", R[j][:-1], R[j].split(".", 1)[-1], R[j].upper(), " " + R[j], R[j] + ".x", R[j].rpartition(".")[0]) if x not in R]
            out.append([x for x in R if x != R[j]] + twist)
        sup = list(R) * 2 + ["builtins.int", "numpy.ndarray", "vk.unrelated", "builtins.eval", "os.system"]
        r.shuffle(sup)
        out += [sup, tuple(reversed(R)), list(R) + [int, dict, zoo.Plain, zoo.Slots]]
        # type objects
        def typed(names):
            res = []
            for n in names:
                t = self.types.get(n)
                if t is None and n.startswith("canary"):
                    m, c = hostile.split(n)
                    try:
                        __import__(m)
                        t = getattr(sys.modules[m], c)
                    except Exception:
                        t = None
                    t = t if isinstance(t, type) and f"{t.__module__}.{t.__name__}" == n else None
                if t is not None:
                    self.ctx.count("type_objects")
                res.append(t if t is not None else n)
            return res
        if R:
            out += [typed(R), typed(sub()), tuple(typed(R)[:-1])]
        return out


def named_in(e):
    s = str(e)
    m = re.search(r"[\[\(\{].*[\]\)\}]", s, re.S)
    if m:
        try:
            return set(ast.literal_eval(m.group(0)))
        except Exception:
            pass
    return {a or b for a, b in re.findall(r"'([^']*)'|\"([^\"]*)\"", s)}


def run(ctx, shard):
    lab = Lab(ctx)
    globals()["run_" + shard["name"]](ctx, shard, lab)
    os.chdir("/")


def run_hand(ctx, shard, lab):
    for i, r in ctx.cases(shard["lo"], shard["hi"], "hand"):
        b = hostile.Hostile(r, pool=r.choice([POOL, POOL, hostile.CLASSES]))
        if r.random() < .08:
            # crowds of names, some of them long or similar to each other
            n = r.choice([9, 17, 33, 65, 130, 300])
            b = hostile.Hostile(r, pool=[r.choice(["crowd", "crowd.sub", "crówd", "c" * 90]) + str(k % 7) + f".T{k}" + "x" * r.choice([0, 0, 60]) for k in range(n)])
            root = b.list([b.tree_(0) for _ in range(n)])
            ctx.count("crowds")
        elif r.random() < .5:
            root = b.tree_(r.choice([0, 1, 2, 3]))
        else:
            root = b.list([b.tree_(r.choice([0, 0, 1, 2])) for _ in range(r.randrange(1, 5))])
        ctx.sample(str(root)[:300])
        lab.trial(b.archive(root), r, f"hand {i} protocol {b.protocol}")


def run_mutants(ctx, shard, lab):
    gen = hostile.genuine()
    keys = sorted(gen)
    for i, r in ctx.cases(shard["lo"], shard["hi"], "mutant"):
        k = r.choice(keys)
        s, m = gen[k] if r.random() < .1 else hostile.mutate(r, *gen[k], POOL, [gen[x] for x in keys])
        lab.trial(arch.write(s, m), r, f"mutant {i} of {k}")


def run_dumped(ctx, shard, lab):
    for i, r in ctx.cases(shard["lo"], shard["hi"], "dumped"):
        g = values.Gen(r)
        try:
            d = lab.sio.dumps([g.anything(r.choice([1, 2, 3])) for _ in range(r.randrange(1, 4))])
        except Exception:
            ctx.count("not_dumpable")
            continue
        lab.trial(d, r, f"dumped {i}")
