"""C04: persistence is faithful or it refuses."""
import collections

import numpy as np

from vk import core, values, zoo
from vk.canon import canon, first_diff
from vk.rt import brief, types_in

RULE = ("a distinct evaluation is a value with a distinct canonical form that was dumped; the observed outcome is one of refused at dump, "
        "refused at load, or loaded and compared to the original by the independent canonicaliser; non-trivial = not refused at dump")
LEVEL = "exploration"
TECHNIQUE = "runtime differential monitor: canonical form of the original before and after dump vs. canonical form of what load returns; catalogue of hostile values x embedding contexts, plus seeded composition"
LEVEL_NOTE = ("every catalogue value (about 240 kinds: builtins, subclasses, descriptors, reduce/getstate/setstate/slots/enum protocols, shadowed names, numpy/scipy/pandas "
              "objects, colliding dict keys) in every embedding context; seeded random composition beyond; classes whose own __getstate__ loses data are not generated")
REQUIRED = {"loaded_equal": 300, "refused_dump": 50, "contexts": 8}


def _attr(x):
    return zoo.Plain(v=x)


def _oarr(x):
    a = np.empty((1, 2), dtype=object)
    a[0, 0] = x
    return a


def _est(x):
    from sklearn.preprocessing import FunctionTransformer
    return FunctionTransformer(kw_args={"a": x})


def _dd(x):
    d = collections.defaultdict(list)
    d[2] = x
    return d


CONTEXTS = dict(bare=lambda x: x, list=lambda x: [1, x], tuple=lambda x: (x, "t"), dict=lambda x: {"k": x, 3: 1}, attr=_attr, oarr=_oarr,
                twice=lambda x: [x, {"again": x}], est=_est, point=lambda x: zoo.Point(x, 0), dd=_dd, sub=lambda x: zoo.MyList([x]),
                getset=lambda x: zoo.GetSetTuple(x, 2), partial=lambda x: __import__("functools").partial(zoo.func, x),
                reduce=lambda x: zoo.ReduceArgs(x), deep=lambda x: [[{"a": ([x],)}]], odict=lambda x: collections.OrderedDict(a=x),
                bunch=lambda x: __import__("sklearn.utils", fromlist=["Bunch"]).Bunch(a=x))
KEYCTX = dict(dict=lambda k: {k: 1}, second=lambda k: {"a": 0, k: 1, "b": 2}, od=lambda k: collections.OrderedDict([(k, [1])]),
              vsstr=lambda k: {str(k): "s", k: "k"}, vsstr2=lambda k: {k: "k", str(k): "s"}, dd=lambda k: collections.defaultdict(None, {k: 1}),
              inset=lambda k: {k, "x"}, vsint=lambda k: {1: "i", k: "k", "1": "s"})


def plan(tier, seed):
    n = 6000 if tier == "quick" else 1000000
    sh = core.spread("random", n, 8 if tier == "quick" else 24, depth=3 if tier == "quick" else 4, timeout_s=840, budget_s=650)
    sh += [dict(name="specials", part=p, parts=4, timeout_s=840) for p in range(4)]
    sh += [dict(name="keys", timeout_s=840), dict(name="pairs", timeout_s=840, n=600 if tier == "quick" else 6000), dict(name="models", timeout_s=840)]
    return sh


def check(ctx, v, label, finding=None):
    import skops.io as sio
    try:
        c0 = canon(v)
    except Exception:
        ctx.count("not_canonicalisable")
        return
    try:
        d = sio.dumps(v)
    except Exception as e:
        ctx.ev()
        ctx.count("refused_dump")
        ctx.count("refused_dump:" + type(e).__name__)
        d = None
    c1 = canon(v)
    if c1 != c0:
        ctx.violation("modified", f"{label}: dumping modified the object: {first_diff(c0, c1)}; {brief(v)}", value=brief(v, 500))
    if d is None:
        return
    ctx.ev(repr(c0))
    try:
        w = sio.loads(d, trusted=sio.get_untrusted_types(data=d))
    except Exception as e:
        ctx.count("refused_load")
        ctx.count("refused_load:" + type(e).__name__)
        return
    df = first_diff(c0, canon(w))
    if df:
        ctx.violation("quietly-different", f"{label}: {df}; original {brief(v)} loaded {brief(w)}", finding=finding, value=brief(v, 500))
    else:
        ctx.count("loaded_equal")


def run(ctx, shard):
    globals()["run_" + shard["name"]](ctx, shard)


def run_random(ctx, shard):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        g = values.Gen(r)
        try:
            v = g.anything(r.choice([1, 2, shard["depth"]]))
        except Exception:  # e.g. a key that cannot be compared with another one
            ctx.count("not_buildable")
            continue
        ctx.sample(brief(v))
        check(ctx, v, f"random {i}")


def run_specials(ctx, shard):
    if shard["part"] == 0:
        ctx.count("contexts", len(CONTEXTS))
    for k, (name, thunk) in enumerate(values.SPECIALS + MORE):
        if k % shard["parts"] != shard["part"]:
            continue
        for cn, c in CONTEXTS.items():
            for _ in ctx.items([f"{name}/{cn}"]):
                try:
                    v = c(thunk())
                except Exception:
                    ctx.count("not_buildable")
                    continue
                check(ctx, v, f"{name} in {cn}")


def run_keys(ctx, shard):
    g = values.Gen(ctx.rng("keys"))
    keys = {}
    for _ in range(3000):
        k = g.anykey()
        keys.setdefault(repr(k) + type(k).__name__, k)
    for name, thunk in values.SPECIALS:
        try:
            k = thunk()
            hash(k)
        except Exception:
            continue
        keys.setdefault("special " + name, k)
    for kn in sorted(keys):
        k = keys[kn]
        for cn, c in KEYCTX.items():
            for _ in ctx.items([f"{ascii(kn)[:80]}/{cn}"]):
                try:
                    v = c(k)
                except Exception:
                    continue
                check(ctx, v, f"key {ascii(kn)} in {cn}")
                ctx.count("key_cases")


def run_pairs(ctx, shard):
    """several catalogue values in one dump: sharing, names and ids of one must not leak into another"""
    for i, r in ctx.cases(0, shard["n"]):
        out = []
        for _ in range(r.randrange(2, 6)):
            name, thunk = r.choice(values.SPECIALS)
            try:
                out.append(thunk())
            except Exception:
                pass
        if r.random() < .5 and out:
            out.append(r.choice(out))
        check(ctx, r.choice([list, tuple, lambda o: {str(i): x for i, x in enumerate(o)}, lambda o: zoo.Plain(a=o)])(out), f"pairs {i}")


def run_models(ctx, shard):
    """user attributes and odd parameter values on estimators"""
    from sklearn.linear_model import LogisticRegression, SGDClassifier
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import FunctionTransformer, StandardScaler
    from sklearn.tree import DecisionTreeClassifier
    rng = np.random.RandomState(0)
    X, y = rng.rand(30, 3), rng.randint(0, 2, 30)
    made = dict(lr=lambda: LogisticRegression().fit(X, y), tree=lambda: DecisionTreeClassifier(max_depth=3).fit(X, y),
                sgd=lambda: SGDClassifier(random_state=np.random.RandomState(3)).fit(X, y), pipe=lambda: Pipeline([("s", StandardScaler()), ("l", LogisticRegression())]).fit(X, y),
                ft=lambda: FunctionTransformer(zoo.func, inverse_func=np.log))
    for mn, mk in made.items():
        for name, thunk in [("none", lambda: None)] + values.SPECIALS:
            for _ in ctx.items([f"{mn}/{name}"]):
                try:
                    m = mk()
                    m.extra_ = thunk()
                except Exception:
                    continue
                check(ctx, m, f"{mn} with attribute {name}")
                ctx.count("models")


class _Dyn:
    pass


MORE = [
    ("itemslie", lambda: _ItemsLie(a=1)), ("iterlie", lambda: _IterLie([1, 2])), ("setiter", lambda: _SetLie([1])), ("tupiter", lambda: _TupLie(1, 2)),
    ("initdefaults", lambda: _cleared(_InitDefaults())), ("initattr", lambda: _delattr(_InitAttr())), ("surr_key", lambda: {"\ud83d\ude00": 1}),
    ("surr_attr", lambda: zoo.Plain(**{"a\ud83d\ude00": 1})), ("surr_slice", lambda: slice("\ud83d\ude00")), ("nonstrattr", lambda: _nonstr()),
    ("emptystate", lambda: zoo.Plain()), ("falsystate", lambda: zoo.GetSetScalar("")),
    ("clsattr", lambda: zoo.Outer()), ("npfunc", lambda: np.mean), ("strided_obj", lambda: np.array([1, None, "a", 2], object)[::2]),
    ("ro_obj", _ro := (lambda: _readonly())), ("bool_np", lambda: [np.bool_(1), True]), ("zero_d", lambda: np.array(5)), ("zero_d_str", lambda: np.array("abc")),
    ("bytes_np_empty", lambda: np.bytes_(b"")), ("ma_shared_mask", lambda: _ma()), ("ordered_sub", lambda: zoo.MyOrdered([(2, 1), (1, 2)])),
    ("fn_with_attr", lambda: zoo.attr_func), ("exc_cause", lambda: _cause()), ("class_with_meta", lambda: _Meta("M", (), {})), ("instance_of_meta", lambda: _MetaC()),
    ("big_int_key", lambda: {10**400: 1}), ("np_int_attr", lambda: zoo.Plain(a=np.int64(3), b=np.float32(2))), ("tuple_named", lambda: zoo.Outer.Inner),
]


def _readonly():
    a = np.array([1, None], object)
    a.flags.writeable = False
    return a


def _ma():
    m = np.ma.MaskedArray([1, 2, 3], mask=[0, 1, 0])
    return [m, m[:2], m.mask]


def _cause():
    try:
        raise ValueError(1) from KeyError(2)
    except ValueError as e:
        e.__traceback__ = None
        return e


def _nonstr():
    p = zoo.Plain()
    p.__dict__[3] = 4
    return p


class _Meta(type):
    pass


class _MetaC(metaclass=_Meta):
    def __init__(self):
        self.a = 1


class _ItemsLie(dict):
    def items(self):
        return [("z", 9)]

    def keys(self):
        return ["z"]

    def __iter__(self):
        return iter(["z"])


class _IterLie(list):
    def __iter__(self):
        return iter([9])


class _SetLie(set):
    def __iter__(self):
        return iter([9])


class _TupLie(zoo.Point):
    def __iter__(self):
        return iter([9, 9])


class _InitDefaults(dict):
    def __init__(self, *a):
        super().__init__(*a)
        self["default"] = 1


class _InitAttr(list):
    def __init__(self, *a):
        super().__init__(*a)
        self.tag = 1


def _cleared(d):
    d.clear()
    d["x"] = 2
    return d


def _delattr(o):
    del o.tag
    return o
