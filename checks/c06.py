"""C06: the sharing structure of the object graph is preserved."""
import collections
import functools

import numpy as np
import scipy.sparse as sp

from vk import arch, core, zoo
from vk.canon import canon, first_diff
from vk.rt import brief

RULE = ("a distinct evaluation is an object graph with a distinct canonical form (which numbers every mutable object) that was dumped and loaded; "
        "non-trivial graphs contain at least one shared mutable object or at least ten objects whose dump creates temporaries")
LEVEL = "exploration"
TECHNIQUE = "runtime monitor on random shared object graphs: isomorphism of the sharing partition before dump and after load, plus a census of archive members (each array stored once)"
LEVEL_NOTE = ("seeded DAGs over every container/leaf kind skops can persist, up to 40 nodes with any sharing; dumps with up to 4000 (thorough: 30000) temporaries (fresh __getstate__ results, "
              "dtype arrays, tolist() lists, generator states) to provoke id reuse; archives of protocols 0-2 are not written by the current code")
REQUIRED = {"shared_refs": 500, "arrays_shared": 100, "temporaries": 500, "many": 6}


class Fresh:
    """state is a new object at each access"""

    def __init__(self, n):
        self.n = n

    def __getstate__(self):
        return {"state": [self.n, {"k": np.full(3, self.n)}], "t": ("x", [self.n])}

    def __setstate__(self, s):
        self.n = s["state"][0]
        assert s["state"][1]["k"].tolist() == [self.n] * 3 and s["t"][1] == [self.n], s


class FreshRed:
    def __init__(self, lst):
        self.lst = lst

    def __reduce__(self):
        return (FreshRed, ([*self.lst],))


class FreshDict(dict):
    @property
    def __dict__(self):  # pragma: no cover - not used by python itself
        return {}


class PropArr:
    """attribute access creates arrays"""

    def __init__(self, n):
        self._n = n

    def __getstate__(self):
        return dict(a=np.arange(self._n, self._n + 2), b=sp.csr_matrix([[self._n, 1]]), r=np.random.RandomState(self._n))

    def __setstate__(self, s):
        self._n = int(s["a"][0])
        assert s["b"][0, 0] == self._n and s["a"].tolist() == [self._n, self._n + 1]
        assert s["r"].randint(0, 10**6) == np.random.RandomState(self._n).randint(0, 10**6)


def plan(tier, seed):
    q = tier == "quick"
    return (core.spread("dag", 3000 if q else 150000, 6 if q else 16, timeout_s=840, budget_s=600)
            + core.spread("temps", 160 if q else 4000, 4 if q else 8, timeout_s=840, budget_s=600)
            + [dict(name="many", part=p, parts=2, n=4000 if q else 30000, timeout_s=840, budget_s=700) for p in range(2)]
            + [dict(name="fixed", timeout_s=600), dict(name="models", timeout_s=600)])


def check(ctx, v, label, finding=None, unique_arrays=None):
    import skops.io as sio
    c0 = canon(v)
    try:
        d = sio.dumps(v)
        w = sio.loads(d, trusted=sio.get_untrusted_types(data=d))
    except Exception as e:
        ctx.violation("error", f"{label}: {type(e).__name__}: {e}", value=brief(v, 500))
        return None
    ctx.ev(repr(c0))
    n = _count_refs(c0)
    ctx.count("shared_refs", n)
    df = first_diff(c0, canon(w))
    if df:
        ctx.violation("sharing", f"{label}: {df}; value {brief(v)}", finding=finding, value=brief(v, 800))
    if unique_arrays is not None:
        _, members = arch.read(d)
        seen = collections.Counter(repr(arch.member_digest(n, b)) for n, b in members.items() if n.endswith((".npy", ".npz")))
        dup = [k for k, c in seen.items() if c > 1]
        if dup:
            ctx.violation("stored-twice", f"{label}: {len(dup)} arrays are stored more than once in {sorted(members)[:8]}; value {brief(v)}")
        if len(seen) != unique_arrays:
            ctx.violation("stored-count", f"{label}: {unique_arrays} distinct arrays, {len(seen)} stored; value {brief(v)}")
    return w


def _count_refs(c):
    n, st = 0, [c]
    while st:
        x = st.pop()
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "ref":
                n += 1
            st.extend(x)
    return n


def build(r, nmax):
    """a random DAG; every array has unique contents.  Returns (root, number of reachable distinct arrays)"""
    nodes = []
    arrs = r.random() < .3
    serial = [r.randrange(10**6)]

    def leaf():
        serial[0] += 1
        s = serial[0]
        k = r.randrange(13)
        if k < 4:
            a = np.arange(s * 1.0, s + r.randrange(1, 4)).astype(r.choice(["f8", "f4", "i8"]))
            return np.asfortranarray(a.reshape(1, -1)) if r.random() < .2 else a
        if k == 4:
            m = np.zeros((2, 3))
            m[0, 1] = s
            return r.choice([sp.csr_matrix, sp.csc_matrix, sp.coo_matrix, sp.dia_matrix, sp.bsr_matrix, sp.csc_array, sp.coo_array] if arrs else [sp.csr_matrix, sp.coo_matrix, sp.bsr_matrix])(m)
        if k == 5:
            return np.random.RandomState(s % 2**32)
        if k == 6:
            return np.random.default_rng(s)
        if k == 7:
            return bytearray(b"x%d" % s)
        if k == 8:
            return zoo.Plain(n=s)
        if k == 9:
            return []
        if k == 10:
            return {}
        if k == 11:
            return zoo.Empty()
        return r.choice([s, str(s), None, 1.5, "x", True])

    def pick():
        if nodes and r.random() < .6:
            return r.choice(nodes[-6:] if r.random() < .5 else nodes)
        x = leaf()
        nodes.append(x)
        return x

    for _ in range(r.randrange(2, nmax)):
        kids = [pick() for _ in range(r.randrange(0, 4))]
        k = r.randrange(16)
        if k < 3:
            o = list(kids)
        elif k == 3:
            o = tuple(kids)
        elif k in (4, 5):
            o = {r.choice(["a", "b", 1, 2.5, np.int8(i)]) if r.random() < .5 else f"k{i}": x for i, x in enumerate(kids)}
        elif k == 6:
            o = collections.OrderedDict((i, x) for i, x in enumerate(kids))
        elif k == 7:
            o = collections.defaultdict(list, {i: x for i, x in enumerate(kids)})
        elif k in (8, 9):
            o = zoo.Plain(**{f"a{i}": x for i, x in enumerate(kids)})
        elif k == 10:
            o = np.empty((1, max(1, len(kids))), dtype=object)
            for i, x in enumerate(kids):
                o[0, i] = x
        elif k == 11:
            o = zoo.GetSetTuple(kids[0] if kids else None, kids)
        elif k == 12:
            o = functools.partial(zoo.func, *kids)
        elif k == 13:
            o = zoo.MyList(kids)
            o.tag = kids[0] if kids else []
        elif k == 14:
            o = zoo.Plain(x=kids[0] if kids else [])
            nodes.append(o)
            o = o.meth
        else:
            o = zoo.ReduceArgs(kids[0] if kids else [], kids[-1] if kids else None)
        nodes.append(o)
    top = nodes[-1]
    root = [top] + [r.choice(nodes) for _ in range(r.randrange(0, 4))]
    return root


def size_of_expansion(v, limit=20000):
    """how many nodes a dump of v without back references has"""
    from vk.canon import Canon
    c = Canon(identity=False, max_nodes=limit)
    try:
        c(v)
    except RuntimeError:
        return limit
    return c.n


def reachable_arrays(v):
    from vk.canon import Canon
    c = Canon()
    c(v)
    # the key array of a RandomState is a new array each time its state is taken; sparse arrays (not matrices) are
    # ordinary objects whose index arrays can be equal to one another
    return sum(1 for o in c.keep if (isinstance(o, np.ndarray) and o.dtype != object) or sp.issparse(o)), \
        any(isinstance(o, (np.random.RandomState, sp.sparray)) for o in c.keep)


def run(ctx, shard):
    globals()["run_" + shard["name"]](ctx, shard)


def run_dag(ctx, shard):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        v = build(r, r.choice([4, 8, 16, 30]))
        if size_of_expansion(v) >= 4000:
            ctx.count("too_large")
            continue
        n, rs = reachable_arrays(v)
        ctx.sample(brief(v))
        check(ctx, v, f"dag {i}", unique_arrays=None if rs else n)
        if n:
            ctx.count("arrays_shared")


TEMPS = dict(
    fresh=lambda i: Fresh(i), dtype=lambda i: np.dtype([(f"f{i}", "f8")]), oarr=lambda i: np.array([[i, str(i)], [None, i + .5]], object),
    rs=lambda i: np.random.RandomState(i), gen=lambda i: np.random.default_rng(i), ma=lambda i: np.ma.MaskedArray([i, i + 1], [i % 2, 1]),
    slc=lambda i: slice(i, i + 1), part=lambda i: functools.partial(zoo.func, i, [i]), prop=lambda i: PropArr(i), red=lambda i: FreshRed([i, str(i)]),
    sp=lambda i: sp.csr_matrix([[i, 0, 1]]), npsc=lambda i: np.float32(i), dct=lambda i: {i: [i], str(i): 2, i + .5: 3}, dd=lambda i: collections.defaultdict(list, {i: [i]}),
    pt=lambda i: zoo.Point(i, [i]), enum=lambda i: [zoo.Colour.RED, zoo.Colour.BLUE][i % 2], og=lambda i: __import__("operator").itemgetter(i, str(i)),
    gst=lambda i: zoo.GetSetTuple(i, [i]), ml=lambda i: _ml(i), meth=lambda i: zoo.Plain(i=i).meth, sub=lambda i: np.array([i]).view(zoo.MyArray), cplx=lambda i: np.array([i + 1j]),
    kd=lambda i: __import__("sklearn.neighbors", fromlist=["KDTree"]).KDTree(np.array([[i, 1.], [2., i]])), by=lambda i: b"%d" % i, fresh2=lambda i: [Fresh(i), Fresh(i + 1)],
)


def _ml(i):
    x = zoo.MyList([i])
    x.tag = i
    return x


def run_temps(ctx, shard):
    names = sorted(TEMPS)
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        kinds = [names[i % len(names)]] if i < 2 * len(names) else r.sample(names, r.randrange(2, 6))
        n = r.choice([10, 60, 150, 400]) if len(kinds) > 1 else r.choice([30, 200])
        base = r.randrange(1000)
        objs = [TEMPS[r.choice(kinds)](base + j) for j in range(n)]
        if r.random() < .6:  # some of them twice
            for _ in range(r.randrange(1, 6)):
                objs.insert(r.randrange(len(objs)), r.choice(objs))
        v = r.choice([lambda: objs, lambda: {j: o for j, o in enumerate(objs)}, lambda: zoo.Plain(o=objs), lambda: [[o] for o in objs]])()
        check(ctx, v, f"temps {i} {kinds} n={n}")
        ctx.count("temporaries", n)


def run_many(ctx, shard):
    """thousands of temporaries in one dump, and sharing across them"""
    names = ["fresh", "prop", "red", "gst", "dct", "slc", "oarr", "part", "ml", "kd", "ma", "gen"]
    for k, nm in enumerate(names + ["mixed"]):
        if k % shard["parts"] != shard["part"]:
            continue
        for _ in ctx.items([f"many {nm}"]):
            n = shard["n"] // (8 if nm in ("kd", "prop", "gen", "ma") else 1)
            first, last = zoo.Plain(a=[1]), [np.arange(3.)]
            mk = TEMPS[nm] if nm != "mixed" else lambda i: TEMPS[names[i % 10]](i)
            objs = [mk(i) for i in range(n)]
            early = objs[: n // 50 + 1]
            check(ctx, [first, last, objs, early, last, first, first.a], f"many {nm} n={n}")
            ctx.count("temporaries", n)
            ctx.count("many")


def run_fixed(ctx, shard):
    a, l, d, m = np.arange(3.), [1], {"k": 1}, sp.csr_matrix(np.eye(2))
    p, rs, g = zoo.Plain(a=a), np.random.RandomState(1), np.random.default_rng(2)
    ma = np.ma.MaskedArray([1., 2.], [0, 1])
    oa = np.array([None, 1], object)
    oa[0] = l
    dd = collections.defaultdict(list, x=l)
    items = [
        ("twolists", [[], []], 0), ("samelist", [l, l], 0), ("twoarr", [np.zeros(2), np.zeros(2)], None), ("samearr", [a, a, {"a": a}, (a,), zoo.Plain(z=a)], 1),
        ("arr_in_obj", [oa, l, oa], 0), ("sparse", [m, {"m": m}, [m]], 1), ("meth", [p, p.meth, p.meth], 1), ("meth_first", [p.meth, p], 1),
        ("rng", [rs, rs, {"g": g, "h": g}], None), ("masked", [ma, ma], 2), ("masked_in", {"a": ma, "b": [ma]}, 2), ("dd", [dd, l, dd], 0),
        ("emptytuple", [(), (), ([],), ([],)], 0), ("attrs", [p, {"p": p}, zoo.Plain(p=p, q=p)], 1), ("dictshared", [d, d, {"d": d}], 0),
        ("inset", [{(1, 2)}, {(1, 2)}], 0), ("ba", _twice(bytearray(b"a")), 0), ("partial", _twice(functools.partial(zoo.func, l)) + [l], 0),
        ("eqdistinct", [zoo.Plain(a=1), zoo.Plain(a=1)], 0), ("bool_arr", _twice(np.ones(2, bool)), 1), ("zero_d", _twice(np.array(1.)), 1), ("odict", _twice(collections.OrderedDict(a=l)), 0),
        ("npsub", _twice(np.arange(2).view(zoo.MyArray)), 1), ("chain", _chain(), 0), ("diamond", _diamond(), 0), ("kd", _twice(TEMPS["kd"](3)), None),
        ("mylist", _twice(_ml(1)), 0), ("subattr", _subattr(), 0), ("red", _twice(zoo.ReduceArgs(l)) + [l], 0), ("setobj", _twice({1, 2}), 0),
        ("fview", [np.asfortranarray(np.eye(2))] * 2, 1), ("viewpair", _views(), 2), ("spread", [a, np.array([a, a]), a], 2), ("samebytes", [b"x" * 100] * 3, None),
    ]
    for nm, v, n in ctx.items(items, "fixed "):
        check(ctx, v, nm, unique_arrays=n)
        ctx.count("fixed")
    bg = np.random.PCG64(3)
    for nm, v in ctx.items([("shared-bit-generator", [np.random.Generator(bg), np.random.Generator(bg)])], "finding "):
        w = check(ctx, v, nm)
        if w is not None and w[0].bit_generator is not w[1].bit_generator:
            ctx.violation("sharing", "two Generators sharing one bit generator are loaded with two bit generators", finding="shared-bit-generator")


def _twice(x):
    return [x, [x]]


def _chain():
    x = []
    out = [x]
    for _ in range(12):
        x = [x, x] if len(out) < 10 else [x]
        out.append(x)
    return out


def _diamond():
    b = [0]
    return {"l": {"b": b}, "r": {"b": b}, "t": ([b], b)}


def _subattr():
    s = zoo.MyDict(a=[1])
    s.tag = s["a"]
    return [s, s["a"]]


def _views():
    a = np.arange(6)
    return [a, a[:3], a]


def run_models(ctx, shard):
    from sklearn.compose import ColumnTransformer
    from sklearn.ensemble import BaggingClassifier, RandomForestClassifier, StackingClassifier, VotingClassifier
    from sklearn.linear_model import LogisticRegression
    from sklearn.model_selection import GridSearchCV
    from sklearn.pipeline import FeatureUnion, Pipeline
    from sklearn.preprocessing import StandardScaler
    from sklearn.tree import DecisionTreeClassifier
    R = np.random.RandomState(0)
    X, y = R.rand(40, 3), R.randint(0, 2, 40)
    rs = np.random.RandomState(5)
    lr, sc, tr = LogisticRegression(), StandardScaler(), DecisionTreeClassifier(random_state=rs, max_depth=2)
    X2, y2 = X.copy(), y.copy()
    items = [
        ("pipe", Pipeline([("a", sc), ("b", lr)]).fit(X, y)), ("shared_est", Pipeline([("a", sc), ("b", sc), ("c", lr)])), ("rf", RandomForestClassifier(3, random_state=rs).fit(X, y)),
        ("rfbag", BaggingClassifier(tr, n_estimators=3, random_state=rs).fit(X, y)), ("vote", VotingClassifier([("a", lr), ("b", lr), ("c", tr)]).fit(X, y)),
        ("stack", StackingClassifier([("a", tr), ("b", lr)], final_estimator=lr).fit(X, y)), ("grid", GridSearchCV(lr, {"C": [1, 2]}, cv=2).fit(X, y)),
        ("fu", FeatureUnion([("a", sc), ("b", sc)])), ("ct", ColumnTransformer([("a", sc, [0]), ("b", sc, [1])]).fit(X)), ("list", [tr, rs, {"rs": rs}]),
        ("attrs", _with(lr, train=X2, copy=X2, y=y2)), ("tree_twice", [_f := DecisionTreeClassifier(max_depth=2, random_state=0).fit(X, y), _f, {"t": _f.tree_}]),
    ]
    for nm, v in ctx.items(items, "model "):
        check(ctx, v, nm)
        ctx.count("models")


def _with(o, **k):
    for n, x in k.items():
        setattr(o, n, x)
    return o
