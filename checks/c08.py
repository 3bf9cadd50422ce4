"""C08: archives of every supported protocol keep loading with the right loader."""
import collections
import copy
import functools
import importlib
import operator
import os
import warnings

import numpy as np
import scipy.special

from vk import arch, core, estimators as es, hostile, old, values, zoo
from vk.canon import canon, first_diff
from vk.rt import brief

RULE = ("a distinct evaluation is one (archive structure, protocol) rewritten into the layout of that protocol and loaded, or one (loader, protocol) dispatch observed, or one (position, protocol, unknown loader) refused; "
        "non-trivial = the archive has a function or generator that had to be rewritten, or more than one node")
LEVEL = "exploration"
TECHNIQUE = ("runtime monitor: every node construction is recorded (loader, protocol, class) during loads of archives rewritten into the older layouts at every nesting position and compared with the registry rule; loaded values compared with the originals; "
             "enumerated (loader, protocol) pairs; unknown loaders at every position")
LEVEL_NOTE = "all (loader, protocol) pairs 0..current+1; functions and generators at random positions of random structures, all catalogue values, fitted estimators; unknown loaders at every node of genuine archives"
REQUIRED = {"dispatches": 20000, "pairs": 60, "downgraded": 1200, "functions_v0": 500, "generators_v1": 300, "unchanged": 2000, "unknown": 1500, "emitted_loaders": 15, "emitted": 20000, "v0_class": 300, "v1_class": 200}


def plan(tier, seed):
    q = tier == "quick"
    return ([dict(name="pairs", timeout_s=850)] + core.spread("random", 4000 if q else 120000, 5 if q else 12, timeout_s=850) + [dict(name="specials", part=p, parts=2, timeout_s=850) for p in range(2)]
            + [dict(name="models", n=70 if q else 2000, timeout_s=850), dict(name="unknown", part=0, parts=2, extra=15 if q else 600, timeout_s=850), dict(name="unknown", part=1, parts=2, extra=15 if q else 600, timeout_s=850), dict(name="layouts", timeout_s=850)])


class Lab:
    """records each node that is built from an archive"""

    def __init__(self, ctx):
        import skops.io as sio
        from skops.io import _audit
        self.sio, self.ctx = sio, ctx
        self.built = []
        self.on = False
        self.mapping = getattr(_audit, "NODE_TYPE_MAPPING", None)
        from skops.io._protocol import PROTOCOL
        self.current = PROTOCOL
        init = _audit.Node.__init__
        lab = self

        @functools.wraps(init)
        def recorded(node, state, load_context, *a, **k):
            if lab.on and isinstance(state, dict) and isinstance(state.get("__loader__"), str):
                lab.built.append((state["__loader__"], getattr(load_context, "protocol", None), type(node), state.get("vk_tag")))
            return init(node, state, load_context, *a, **k)
        _audit.Node.__init__ = recorded
        self.emitted = collections.Counter()

    def watch(self, f):
        self.built, self.on = [], True
        try:
            return f()
        finally:
            self.on = False

    def expected(self, loader, protocol):
        for q in range(max(protocol, 0), self.current + 1):
            if (loader, q) in self.mapping:
                return self.mapping[(loader, q)]
        return None

    def judge(self, what, protocol):
        """the classes of the nodes that were built"""
        for loader, p, cls, _ in self.built:
            self.ctx.count("dispatches")
            if p != protocol:
                self.ctx.violation("protocol", f"{what}: a node was built for protocol {p}, the archive has {protocol}")
                return
            if loader == "FunctionNode" and p == 0:
                self.ctx.count("v0_class")
            if loader == "RandomGeneratorNode" and p == 1:
                self.ctx.count("v1_class")
            want = self.expected(loader, p)
            if want is not None and cls is not want and not issubclass(cls, want):
                self.ctx.violation("dispatch", f"{what}: {loader} of protocol {p} was built as {cls.__module__}.{cls.__name__}, registered is {want.__module__}.{want.__name__}")
                return

    def emits(self, what, schema):
        """each loader that dump emits is registered for the current protocol"""
        for _, n in old.real_nodes(schema):
            self.emitted[n["__loader__"]] += 1
            self.ctx.count("emitted")
            if (n["__loader__"], self.current) not in self.mapping:
                self.ctx.violation("unregistered", f"{what}: dump emits {n['__loader__']}, which is not registered for protocol {self.current}")
                return


def run(ctx, shard):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    os.chdir(ctx.tmpdir())
    lab = Lab(ctx)
    globals()["run_" + shard["name"]](ctx, shard, lab)
    for k in lab.emitted:
        ctx.key("emits:" + k)
    ctx.count("emitted_loaders", len(lab.emitted))
    os.chdir("/")


def loaded(lab, d):
    return lab.watch(lambda: lab.sio.loads(d, trusted=lab.sio.get_untrusted_types(data=d)))


def check(ctx, lab, v, what):
    """the value under every protocol"""
    try:
        d = lab.sio.dumps(v)
    except BaseException:
        ctx.count("refused")
        return
    s, m = arch.read(d)
    lab.emits(what, s)
    if not all(isinstance(n["__loader__"], str) for _, n in arch.walk(s)):
        return  # a mapping that looks like a node
    try:
        ref = canon(loaded(lab, d))
    except RecursionError:
        return
    except Exception as e:
        ref = ["raises", type(e).__name__]
    lab.judge(f"{what} protocol {s['protocol']}", s["protocol"])
    for p in range(lab.current + 1):
        try:
            o, done = old.rewrite(d, p)
        except old.NotPossible:
            continue
        kinds = collections.Counter(k for _, k in done)
        w = f"{what} rewritten to protocol {p} ({dict(kinds)})"
        ctx.ev((arch.shape(s), p))
        if p == 0 and kinds["RandomGeneratorNode"]:
            # never loads (the loader predates the audit)
            try:
                loaded(lab, o)
                ctx.count("v0_generator_loads")
            except AttributeError as e:
                ctx.violation("generator-v0", f"{w}: {e}", finding="generator-v0" if "get_unsafe_set" in str(e) else None)
            except Exception as e:
                if ref[:1] != ["raises"]:
                    ctx.violation("does-not-load", f"{w}: {type(e).__name__}: {str(e)[:300]}")
            lab.judge(w, p)
            continue
        try:
            c = canon(loaded(lab, o))
        except Exception as e:
            c = ["raises", type(e).__name__]
            err = str(e)
        if p == 1 and kinds["RandomGeneratorNode"]:
            a, b = old.v1_canon(ref), old.v1_canon(c)
        else:
            a, b = ref, c
        if a != b:
            if b[:1] == ["raises"]:
                ctx.violation("does-not-load", f"{w}: {b[1]}: {err[:300]}; {brief(v)}")
            else:
                ctx.violation("differs", f"{w}: {first_diff(a, b)}; {brief(v)}")
        lab.judge(w, p)
        ctx.count("downgraded" if done else "unchanged")
        ctx.count("functions_v0", kinds["FunctionNode"])
        ctx.count("generators_v1", kinds["RandomGeneratorNode"])


FUNCS = [zoo.func, zoo.other, np.exp, np.add, scipy.special.expit, len, operator.add, np.mean, print]
GENS = [lambda r, b=b: np.random.Generator(b(r.randrange(9))) for b in values.BITGENS]


def _gen(r):
    g = r.choice(GENS)(r)
    for _ in range(r.randrange(4)):
        r.choice([g.random, g.standard_normal, lambda: g.integers(9), lambda: g.integers(2 ** 32, dtype=np.uint32)])()
    return g


def nest(r, x, depth):
    from c18 import CONTEXTS
    g = values.Gen(r)
    path = []
    for _ in range(depth):
        cn = r.choice(sorted(CONTEXTS)) if r.random() < .6 else "siblings"
        try:
            if cn == "siblings":
                sib = [r.choice([lambda: r.choice(FUNCS), lambda: g.supported(1), lambda: g.supported(2)])() for _ in range(r.randrange(1, 4))]
                sib.insert(r.randrange(len(sib) + 1), x)
                x = sib if r.random() < .5 else {f"k{j}": v for j, v in enumerate(sib)} if r.random() < .5 else tuple(sib)
            else:
                x = CONTEXTS[cn](x)
            path.append(cn)
        except Exception:
            pass
    return x, path


def run_random(ctx, shard, lab):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        k = r.random()
        try:
            x = r.choice(FUNCS) if k < .45 else _gen(r) if k < .8 else values.Gen(r).anything(2)
            if r.random() < .3:
                y = r.choice([lambda: x, lambda: _gen(r), lambda: r.choice(FUNCS)])()
                x = r.choice([[x, y], {"a": x, "b": y}, (x, [y])])
            x, path = nest(r, x, r.randrange(6))
        except Exception:
            continue
        ctx.sample(f"{brief(x, 80)} ({path})")
        check(ctx, lab, x, f"random {i} {brief(x, 60)} ({path})")


def run_specials(ctx, shard, lab):
    for k, (name, thunk) in enumerate(values.SPECIALS):
        if k % shard["parts"] != shard["part"]:
            continue
        for cn, c in dict(bare=lambda x: x, mixed=lambda x: [x, np.exp, {"a": x, "f": zoo.func}, np.random.Generator(np.random.PCG64(3))], func=lambda x: functools.partial(zoo.func, x)).items():
            for _ in ctx.items([f"{name}/{cn}"]):
                try:
                    v = c(thunk())
                except Exception:
                    continue
                check(ctx, lab, v, f"{name} in {cn}")


def run_models(ctx, shard, lab):
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import FunctionTransformer
    for i, r in ctx.cases(0, shard["n"]):
        est = es.composition(r, 1)
        try:
            X, y, H, kw = es.data(r, r.choice(["dense", "df"]), est)
            est = es.fit(est, X, y, kw)
        except Exception:
            continue
        k = r.randrange(4)
        if k == 0:
            est.extra_ = _gen(r)
        elif k == 1:
            est = make_pipeline(FunctionTransformer(r.choice([np.log1p, zoo.func, np.abs]), kw_args=r.choice([None, {"where": True}])), est)
        elif k == 2:
            est.callbacks_ = [zoo.func, functools.partial(zoo.other, 3), scipy.special.expit]
        check(ctx, lab, est, f"model {i} {brief(est, 60)}")


def run_pairs(ctx, shard, lab):
    """every (loader, protocol) pair on its own"""
    loaders = sorted({k[0] for k in lab.mapping})
    for k in sorted({k[1] for k in lab.mapping}):
        ctx.key(f"registered protocol {k}")
    gen = hostile.genuine()
    samples = {}
    for name, (s, m) in sorted(gen.items()):
        for p, n in old.real_nodes(s):
            samples.setdefault(n["__loader__"], (s, m, p))
    values_ = dict(QuantileForestNode=None)
    for ld in loaders:
        for p in range(lab.current + 2):
            for _ in ctx.items([f"{ld}/{p}"]):
                r = ctx.rng(ld, p)
                tried = 0
                if ld in samples:
                    s, m, path = samples[ld]
                    root = copy.deepcopy(arch.get(s, path))
                    try:
                        t, done = old.downgrade(dict(root), p)
                        archives = [arch.write(t, m)]
                    except old.NotPossible:
                        archives = []
                else:
                    archives = []
                for slot in hostile.SLOTS:
                    b = hostile.Hostile(r, p)
                    root = b.slot(slot, "builtins.int")
                    if root.get("__loader__") == ld:
                        archives.append(b.archive(root))
                for d in archives[:12]:
                    try:
                        lab.watch(lambda: lab.sio.get_untrusted_types(data=d))
                    except Exception:
                        pass
                    got = [b for b in lab.built if b[0] == ld]
                    if got:
                        tried += 1
                        lab.judge(f"{ld} protocol {p}", p)
                        ctx.ev((ld, p, tried))
                if tried:
                    ctx.count("pairs")


def run_unknown(ctx, shard, lab):
    """a loader that nobody registered, at every position that is loaded"""
    gen = hostile.genuine()
    arcs = [(k, *gen[k]) for k in sorted(gen)]
    r0 = ctx.rng("extra")
    for i in range(shard["extra"]):
        try:
            arcs.append((f"random{i}", *arch.read(lab.sio.dumps(values.Gen(r0).supported(3)))))
        except Exception:
            pass
    known = {k[0] for k in lab.mapping}
    for k, s, m in arcs:
        for p in range(lab.current + 1):
            try:
                base, _ = old.downgrade(s, p)
            except old.NotPossible:
                continue
            tagged = copy.deepcopy(base)
            paths = []
            for q, n in old.real_nodes(tagged):
                n["vk_tag"] = len(paths)
                paths.append(q)
            d = arch.write(base, m)
            try:
                loaded(lab, d)
                loaded(lab, arch.write(tagged, m))
            except Exception:
                continue
            nodes = [paths[j] for j in sorted({b[3] for b in lab.built if b[3] is not None})]
            for j, q in enumerate(nodes):
                if j % shard["parts"] != shard["part"]:
                    continue
                for _ in ctx.items([f"{k}/{p}/{'/'.join(map(str, q))}"]):
                    r = ctx.rng(k, p, q)
                    n0 = arch.get(base, q)
                    name = r.choice([n0["__loader__"] + "2", n0["__loader__"].lower(), "x" + n0["__loader__"], n0["__loader__"] + " ", n0["__loader__"][:-1], "Node", "FutureNode", "builtins.list", "object", "_" + n0["__loader__"], "", "ÜNode", n0["__loader__"].replace("Node", "")])
                    if name in known:
                        continue
                    t = copy.deepcopy(base)
                    n = arch.get(t, q)
                    n["__loader__"] = name
                    n["__id__"] = 10 ** 17 + j  # not a node that is known already
                    bad = arch.write(t, m)
                    for op, f in [("loads", lambda: lab.sio.loads(bad, trusted=lab.sio.get_untrusted_types(data=d))), ("get_untrusted_types", lambda: lab.sio.get_untrusted_types(data=bad)), ("visualize", lambda: lab.sio.visualize(bad, sink=lambda nodes, *a, **k: list(nodes)))]:
                        w = f"{op} of {k} protocol {p} with the loader {name!r} at {'/'.join(map(str, q)) or 'root'}"
                        try:
                            f()
                            ctx.violation("unknown-accepted", f"{w}: no exception")
                        except TypeError as e:
                            if name not in str(e):
                                ctx.violation("unknown-not-named", f"{w}: TypeError: {str(e)[:200]}")
                        except Exception as e:
                            ctx.violation("unknown-other", f"{w}: {type(e).__name__}: {str(e)[:200]}")
                    ctx.count("unknown")
                    ctx.ev((k, p, q, name))


def run_layouts(ctx, shard, lab):
    """deterministic cases"""
    import skops.io as sio
    # the listed finding: a generator as protocol 0 wrote it
    for _ in ctx.items(["generator v0"]):
        check(ctx, lab, np.random.Generator(np.random.PCG64(1)), "generator")
        check(ctx, lab, [1, {"g": np.random.Generator(np.random.SFC64(1))}], "nested generator")
    for j, f in enumerate(FUNCS):
        for cn in ["bare", "twice", "partial", "default_factory", "deep", "key", "attr", "transformer"]:
            for _ in ctx.items([f"f{j}/{cn}"]):
                x = dict(bare=lambda: f, twice=lambda: [f, f, {"a": f}], partial=lambda: functools.partial(f, 1, b=f), default_factory=lambda: collections.defaultdict(f, a=1), deep=lambda: functools.reduce(lambda a, i: [a] if i % 2 else {"k": a, "f": f}, range(12), f), key=lambda: {f: 1} if False else {"a": (f,)},
                         attr=lambda: zoo.Plain(f=f, content={"f": f}, function=f), transformer=lambda: __import__("sklearn.preprocessing", fromlist=["x"]).FunctionTransformer(f, inverse_func=f))[cn]()
                check(ctx, lab, x, f"{brief(f, 30)} {cn}")
    for j, b in enumerate(values.BITGENS):
        for cn in ["bare", "twice", "obj", "deep", "oarr"]:
            for _ in ctx.items([f"g{j}/{cn}"]):
                g = np.random.Generator(b(5))
                g.random(7)
                g.integers(9, dtype=np.uint32)
                a = np.empty(2, object)
                a[1] = g
                x = dict(bare=g, twice=[g, {"a": g}], obj=zoo.Plain(g=g, f=np.exp), deep=functools.reduce(lambda a, i: [a, zoo.func] if i % 2 else {"k": a}, range(10), g), oarr=a)[cn]
                check(ctx, lab, x, f"{b.__name__} {cn}")
                # the draws continue as they would have
                d, done = old.rewrite(sio.dumps(g), 1)
                w = sio.loads(d, trusted=sio.get_untrusted_types(data=d))
                if w.random(5).tolist() != copy.deepcopy(g).random(5).tolist():
                    ctx.violation("draws", f"{b.__name__} rewritten to protocol 1 does not continue")
