"""C07: a reloaded scikit-learn estimator is the same model."""
import copy
import os
import pickle
import warnings

import numpy as np
import scipy.sparse as sp

from vk import core, estimators as es
from vk.canon import Canon, canon, first_diff
from vk.families import Families, resolve
from vk.rt import brief

RULE = ("a distinct evaluation is one (estimator class or composition, hyper-parameters, data kind) that was fitted (or not), dumped and loaded, and whose parameters, attributes and method outputs were "
        "compared; non-trivial = the estimator was fitted and at least one method output was compared bitwise")
LEVEL = "exploration"
TECHNIQUE = ("runtime differential monitor: canonical form of the whole estimator state and bitwise method outputs of original, deep copy, pickled copy and loaded estimator; every estimator class of the installed "
             "scikit-learn x random valid hyper-parameters (from its declared constraints) x data kinds, and seeded random compositions")
LEVEL_NOTE = ("all estimator classes of the installed scikit-learn, default and random valid hyper-parameters, 17 kinds of data; string options one by one with odd floats; every ufunc as a part; large models (thousands of nodes, points, categories); compositions to depth 3; an output is compared when the original, a deep copy and a pickled copy of it agree "
              "on it bitwise; one installed scikit-learn version")
REQUIRED = {"classes": 180, "fitted": 600, "outputs": 2000, "compositions": 80, "unfitted": 180, "self_trusting": 300, "options": 250, "big": 20, "ufuncs": 300}
METHODS = ["predict", "predict_proba", "predict_log_proba", "decision_function", "transform", "score_samples", "inverse_transform", "apply", "decision_path", "kneighbors", "radius_neighbors", "staged_predict",
           "predict_quantiles", "get_feature_names_out", "mahalanobis", "get_covariance", "get_precision", "sample", "cost_complexity_pruning_path", "score", "sample_y", "log_marginal_likelihood", "reconstruct", "n_features_in_"]
ABSTRACT = {np.generic, np.number, np.integer, np.signedinteger, np.unsignedinteger, np.inexact, np.floating, np.complexfloating, np.flexible, np.character}


def plan(tier, seed):
    q = tier == "quick"
    n = 8 if q else 16
    sh = [dict(name="classes", part=p, parts=n, variants=10 if q else 150, timeout_s=850) for p in range(n)]
    return sh + core.spread("compositions", 800 if q else 40000, 8 if q else 16, timeout_s=850) + [dict(name="fixed", timeout_s=850), dict(name="ufuncs", timeout_s=850), dict(name="big", timeout_s=850)] + [
        dict(name="options", part=p, parts=2 if q else 8, per_class=4 if q else 1000, timeout_s=850, budget_s=700) for p in range(2 if q else 8)]


def run(ctx, shard):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    os.chdir(ctx.tmpdir())
    global FAM
    FAM = Families()
    globals()["run_" + shard["name"]](ctx, shard)
    os.chdir("/")


def outputs(est, H, y):
    """{method: canonical result} on the input"""
    out = {}
    for m in METHODS:
        if m == "n_features_in_" or not hasattr(est, m):
            continue
        try:
            np.random.seed(4321)  # some estimators draw from the global state
            with np.errstate(all="ignore"), es.limit(10):
                f = getattr(est, m)
                if m in ("get_feature_names_out", "get_covariance", "get_precision"):
                    v = f()
                elif m == "sample":
                    try:
                        v = f(3)
                    except TypeError:
                        v = f(3, random_state=1)
                elif m == "score":
                    v = f(H, y)
                elif m == "inverse_transform":
                    v = f(est.transform(H))
                elif m == "radius_neighbors":
                    v = f(H, sort_results=True, radius=3.0)
                elif m in ("log_marginal_likelihood", "reconstruct", "cost_complexity_pruning_path"):
                    continue
                elif m == "staged_predict":
                    v = [np.asarray(x) for x in f(H)]
                else:
                    v = f(H)
            out[m] = Canon(identity=False, layout=False)(v)
        except es.Slow:
            continue
        except Exception as e:
            out[m] = ["raises", type(e).__name__]
    return out


def check(ctx, est, label, H=None, y=None, key=None):
    import skops.io as sio
    c0 = canon(est)
    try:
        d = sio.dumps(est)
    except Exception as e:
        if type(e).__name__ == "UnsupportedTypeException" and has_unsupported(est):
            ctx.count("refused_unsupported")
            return
        if not picklable(est):
            ctx.count("not_picklable")
            return
        ctx.ev(key)
        known = "self-referring-scorer" if isinstance(e, RecursionError) and refers_to_itself(est) else None
        ctx.violation("not-dumped", f"{label}: {type(e).__name__}: {e}", finding=known)
        return
    try:
        rep = sio.get_untrusted_types(data=d)
        w = sio.loads(d, trusted=rep)
    except Exception as e:
        ctx.ev(key)
        ctx.violation("not-loaded", f"{label}: {type(e).__name__}: {e}")
        return
    ctx.ev(key)
    for n in rep:
        ctx.count("reported:" + n)
        o = resolve(n)
        if FAM.member(o) and not (isinstance(o, type) and (issubclass(o, sp.sparray) or o in ABSTRACT)):  # these may be trusted, but need not
            ctx.violation("needs-trust", f"{label}: {n} belongs to the default-trusted families, but has to be trusted explicitly")
    if not rep:
        ctx.count("self_trusting")
    df = first_diff(c0, canon(w))
    if df and rebuilt(est, c0):
        ctx.count("rebuilt_on_load")
    elif df:
        ctx.violation("state", f"{label}: {df}")
    if type(w) is not type(est):
        ctx.violation("state", f"{label}: loaded a {type(w)}")
        return
    try:
        p0, p1 = est.get_params(deep=True), w.get_params(deep=True)
        df = first_diff(canon(list(p0.items())), canon(list(p1.items())))
        if df and not rebuilt(est, c0):
            ctx.violation("params", f"{label}: {df}")
    except Exception as e:
        ctx.count("get_params:" + type(e).__name__)
    if H is None:
        return
    try:
        copies = [copy.deepcopy(est), copy.deepcopy(est), pickle.loads(pickle.dumps(est))]
    except Exception:
        ctx.count("not_picklable")
        copies = [copy.deepcopy(est), copy.deepcopy(est)]
    for inp, yy, what in inputs(H, y):
        base = outputs(copies[0], inp, yy)
        refs = [outputs(c, inp, yy) for c in copies[1:]]
        got = outputs(w, inp, yy)
        for m, v in base.items():
            if any(x.get(m) != v for x in refs):
                ctx.count("not_reproducible:" + m)
                continue
            if m not in got:
                continue
            ctx.count("outputs")
            ctx.count("out:" + m)
            df = first_diff(v, got[m])
            if df:
                ctx.violation("output", f"{label}: {m} on {what}: {df}")
        for m in got:
            if m not in base and not any(m in x for x in refs) and hasattr(w, m) and not hasattr(est, m):
                ctx.violation("output", f"{label}: the loaded estimator has the method {m}, the original has not")


def rebuilt(est, c0):
    """does the state hold something that is made anew by __setstate__, such as a local function, so that a pickled copy differs, too"""
    try:
        return first_diff(c0, canon(pickle.loads(pickle.dumps(est)))) is not None
    except Exception:
        return False


def refers_to_itself(est):
    """is there a gradient boosting estimator whose own scorer holds it (a cycle that scikit-learn makes)"""
    from sklearn.ensemble import HistGradientBoostingClassifier, HistGradientBoostingRegressor
    seen, stack = set(), [est]
    while stack:
        o = stack.pop()
        if id(o) in seen or isinstance(o, (str, bytes, int, float, np.ndarray)) and not (isinstance(o, np.ndarray) and o.dtype == object):
            continue
        seen.add(id(o))
        if isinstance(o, (HistGradientBoostingClassifier, HistGradientBoostingRegressor)):
            sc = getattr(o, "_scorer", None)
            if any(v is o for v in vars(sc).values()) if hasattr(sc, "__dict__") else False:
                return True
        if isinstance(o, dict):
            stack.extend(o.values())
        elif isinstance(o, (list, tuple, set)):
            stack.extend(o)
        elif isinstance(o, np.ndarray):
            stack.extend(o.ravel().tolist())
        elif hasattr(o, "__dict__"):
            stack.extend(vars(o).values())
    return False


def inputs(H, y):
    yield H, y, "held-out data"
    if isinstance(H, np.ndarray) and H.ndim == 2 and H.dtype.kind == "f":
        yield np.asfortranarray(H[:5]) * 3, None, "other data"
        yield H[:1].astype("f4"), None, "one float32 row"
        yield sp.csr_matrix(np.nan_to_num(H)), None, "sparse data"


def picklable(est):
    try:
        pickle.loads(pickle.dumps(est))
        return True
    except Exception:
        return False


def has_unsupported(est):
    return any(n + "\"" in pickle.dumps(est).decode("latin1").replace("\n", '"').replace("\x94", '"') or type(est).__name__ == n for n in es.UNSUPPORTED)


def run_classes(ctx, shard):
    all_ = es.classes()
    for k, (name, cls) in enumerate(all_):
        if k % shard["parts"] != shard["part"]:
            continue
        ctx.count("classes")
        for v in range(shard["variants"] + 2):
            for _ in ctx.items([f"{name}/{v}"]):
                r = ctx.rng(name, v)
                one_class(ctx, r, name, cls, v)


def one_class(ctx, r, name, cls, v):
    import skops.io as sio
    try:
        est = es.base(name, cls)
    except BaseException as e:  # SkipTest
        if isinstance(e, KeyboardInterrupt):
            raise
        ctx.count("cannot_construct")
        return
    if name in es.UNSUPPORTED:
        for e in (est, es.fit(copy.deepcopy(est), np.random.RandomState(0).randn(20, 3), None, {})):
            ctx.ev((name, "unsupported"))
            try:
                d = sio.dumps(e)
                w = sio.loads(d, trusted=sio.get_untrusted_types(data=d))
                if first_diff(canon(e), canon(w)):
                    ctx.violation("state", f"{name}: unsupported, but dumped and loaded differently")
            except Exception:
                ctx.count("refused_unsupported")
        return
    if v == 0:
        check(ctx, est, f"unfitted {name}", key=(name, "unfitted"))
        ctx.count("unfitted")
        try:
            check(ctx, cls(), f"unfitted default {name}", key=(name, "default"))
        except TypeError:
            pass
        return
    kind = "dense" if v == 1 else r.choice(es.DATA)
    set_ = {}
    if v > 1:
        try:
            set_ = es.vary(r, est, r.choice([1, 2, 3]))
        except Exception:
            est = es.base(name, cls)
    if v > 2:
        check(ctx, est, f"unfitted {name} {brief(set_)}", key=(name, "unfitted", repr(sorted(set_))))
    for k in (kind, "dense"):
        try:
            X, y, H, kw = es.data(r, k, est)
        except Exception as e:
            ctx.count("no_data:" + type(e).__name__)
            continue
        try:
            fitted = es.fit(copy.deepcopy(est), X, y, kw)
            break
        except es.Slow:
            ctx.count("slow")
        except Exception:
            ctx.count("fit_failed")
    else:
        est = es.base(name, cls)
        try:
            X, y, H, kw = es.data(r, "dense", est)
            fitted = es.fit(est, X, y, kw)
            set_, k = {}, "dense"
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            ctx.count("never_fitted:" + name)
            return
    ctx.count("fitted")
    ctx.count("data:" + k)
    if r.random() < .1:
        try:
            fitted.set_output(transform=r.choice(["pandas", "default"]))
        except Exception:
            pass
    ctx.sample(f"{name} {k} {brief(set_, 80)}")
    check(ctx, fitted, f"{name} with {brief(set_)} fitted on {k} data", H, None, key=(name, repr(set_), k, v))


def run_compositions(ctx, shard):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        est = es.composition(r, r.choice([1, 2, 2, 3]))
        ctx.sample(brief(est))
        if r.random() < .2:
            check(ctx, est, f"unfitted composition {brief(est, 300)}", key=brief(est, 2000))
            continue
        kind = r.choice(["dense", "dense", "float32", "df", "csr", "three", "strlabels", "multi", "int"])
        X, y, H, kw = es.data(r, kind, est)
        try:
            est = es.fit(est, X, y, kw)
        except es.Slow:
            ctx.count("slow")
            continue
        except Exception:
            ctx.count("fit_failed")
            continue
        ctx.count("compositions")
        check(ctx, est, f"composition on {kind}: {brief(est, 400)}", H, None, key=brief(est, 2000))


def odd(est):
    """every float parameter gets a value that needs all its digits"""
    p = {k: v * (1 - 0.0137 / 3) for k, v in est.get_params(deep=False).items() if type(v) is float and 0 < v < 1e100}
    try:
        est.set_params(**p)
    except Exception:
        pass
    return est


def run_options(ctx, shard):
    """each string option of each parameter in turn, with odd float parameters"""
    from sklearn.utils import _param_validation as pv
    todo = []
    for name, cls in es.classes():
        if name in es.UNSUPPORTED:
            continue
        mine = []
        cons = getattr(cls, "_parameter_constraints", {})
        for p in sorted(n for n in cons if n not in es.SKIP_PARAMS and cons[n] != "no_validation"):
            for c in cons[p] if isinstance(cons[p], (list, tuple)) else [cons[p]]:
                if isinstance(c, (pv.StrOptions, pv.Options)):
                    mine += [(name, cls, p, o) for o in sorted(c.options, key=str) if o not in (getattr(c, "deprecated", None) or ())]
        losses = [x for x in mine if x[2] in ("loss", "kernel", "criterion")]
        rest = [x for x in mine if x[2] not in ("loss", "kernel", "criterion")]
        r = ctx.rng("options", name)
        r.shuffle(rest)
        todo += losses[: 3 * shard["per_class"]] + rest[: shard["per_class"]]
    for k, (name, cls, p, o) in enumerate(todo):
        if k % shard["parts"] != shard["part"]:
            continue
        for _ in ctx.items([f"{name}/{p}={o}"]):
            r = ctx.rng(name, p, o)
            try:
                est = odd(es.base(name, cls).set_params(**{p: o}))
                X, y, H, kw = es.data(r, "dense", est)
                est = es.fit(est, X, y, kw)
            except es.Slow:
                ctx.count("slow")
                continue
            except Exception:
                ctx.count("fit_failed")
                continue
            ctx.count("options")
            check(ctx, est, f"{name} with {p}={o!r} and odd floats", H, None, key=(name, p, str(o), "odd"))


def run_ufuncs(ctx, shard):
    """every element-wise function as part of a model"""
    import scipy.special as ss
    from sklearn.preprocessing import FunctionTransformer
    H = np.abs(np.random.RandomState(0).rand(4, 2)) * .9
    for mod in (np, ss):
        for n in sorted(dir(mod)):
            u = getattr(mod, n)
            if isinstance(u, np.ufunc):
                for _ in ctx.items([f"{mod.__name__}.{n}"]):
                    est = FunctionTransformer(u, inverse_func=u if u.nin == 1 else None, check_inverse=False)
                    check(ctx, est, f"FunctionTransformer({mod.__name__}.{n})", H if u.nin == 1 and u.nout == 1 else None, None, key=("ufunc", mod.__name__, n))
                    ctx.count("ufuncs")


def run_big(ctx, shard):
    """models whose parts are large"""
    from sklearn import cluster, decomposition, ensemble, linear_model, neighbors, neural_network, preprocessing, svm, tree
    from sklearn.feature_extraction.text import CountVectorizer
    rs = np.random.RandomState(1)
    X, H = rs.randn(4000, 5), rs.randn(9, 5)
    y, yr = rs.randint(0, 3, 4000), rs.randn(4000)
    W = rs.randn(40, 1500)
    words = [" ".join(f"w{rs.randint(6000)}" for _ in range(60)) for _ in range(200)]
    cats = np.array([[f"c{i}", i * .25] for i in range(2500)], dtype=object)
    cases = dict(
        tree=lambda: tree.DecisionTreeRegressor().fit(X, yr), treec=lambda: tree.DecisionTreeClassifier().fit(X, y), extratree=lambda: tree.ExtraTreeRegressor(random_state=0).fit(X, yr), treew=lambda: tree.DecisionTreeRegressor(criterion="friedman_mse").fit(X, yr, sample_weight=np.abs(yr)),
        treesparse=lambda: tree.DecisionTreeClassifier().fit(sp.csc_matrix(X), y), multi=lambda: tree.DecisionTreeRegressor().fit(X, np.c_[yr, -yr * 3]), rf=lambda: ensemble.RandomForestClassifier(2, random_state=0).fit(X, y), gb=lambda: ensemble.GradientBoostingRegressor(n_estimators=2, max_depth=12).fit(X, yr),
        hgb=lambda: ensemble.HistGradientBoostingRegressor(max_iter=2, max_leaf_nodes=None, min_samples_leaf=1).fit(X, yr), iforest=lambda: ensemble.IsolationForest(n_estimators=2, max_samples=2000, random_state=0).fit(X), kd=lambda: neighbors.KNeighborsClassifier(algorithm="kd_tree", leaf_size=2).fit(X, y),
        ball=lambda: neighbors.KNeighborsRegressor(algorithm="ball_tree", leaf_size=2).fit(X, yr), svc=lambda: svm.SVC(max_iter=300).fit(X, y), nusvr=lambda: svm.SVR(max_iter=200).fit(X, yr), km=lambda: cluster.KMeans(300, n_init=1, max_iter=2, random_state=0).fit(X),
        mlp=lambda: neural_network.MLPRegressor((300, 40), max_iter=2, random_state=0).fit(X, yr), count=lambda: CountVectorizer().fit(words), ohe=lambda: preprocessing.OneHotEncoder(handle_unknown="ignore").fit(cats), ordinal=lambda: preprocessing.OrdinalEncoder().fit(cats),
        lr=lambda: linear_model.LogisticRegression(max_iter=5).fit(W, y[:40]), pca=lambda: decomposition.PCA().fit(W), quant=lambda: preprocessing.QuantileTransformer(n_quantiles=2500).fit(X), kbins=lambda: preprocessing.KBinsDiscretizer(1200, strategy="uniform").fit(X), agg=lambda: cluster.AgglomerativeClustering().fit(X[:1500]),
        le=lambda: preprocessing.LabelEncoder().fit([f"é{i}" for i in range(3000)]), birch=lambda: cluster.Birch(n_clusters=None, threshold=.9).fit(X[:800]), spline=lambda: preprocessing.SplineTransformer(n_knots=300).fit(X))
    other = dict(lr=W[:5], pca=W[:5], count=["w1 w2 w4000 w5"], ohe=cats[:40:3], ordinal=cats[:40:3], le=["é3", "é2999"], agg=None)
    for n, mk in cases.items():
        for _ in ctx.items([n]):
            try:
                est = mk()
            except Exception as e:
                ctx.note(f"big {n}: {type(e).__name__}: {str(e)[:100]}")
                continue
            check(ctx, est, f"big {n}", other.get(n, H), None, key=("big", n))
            ctx.count("big")


def run_fixed(ctx, shard):
    """cases that no general rule generates"""
    import functools
    import scipy.special as ss
    from sklearn import (calibration, cluster, compose, covariance, decomposition, ensemble, feature_extraction, gaussian_process, isotonic, linear_model, mixture, multioutput, neighbors, neural_network, pipeline,
                         preprocessing, svm, tree)
    from sklearn.feature_extraction.text import CountVectorizer, HashingVectorizer, TfidfVectorizer
    rs = np.random.RandomState(0)
    X = rs.randn(60, 4)
    y = (X[:, 0] > 0).astype(int)
    yr = X[:, 0] * 2
    H = rs.randn(9, 4)
    docs = ["a first document", "second one, and more", "the third", "first the second", "été ünï"]
    L = linear_model.LogisticRegression
    cases = {
        "metadata routing": lambda: _routing(L) and _routing(L).fit(X, y), "partial_fit": lambda: linear_model.SGDClassifier(random_state=0).partial_fit(X, y, classes=[0, 1]).partial_fit(X[:10], y[:10]),
        "refit warm": lambda: ensemble.RandomForestClassifier(2, warm_start=True, random_state=0).fit(X, y).set_params(n_estimators=4).fit(X, y), "frozen weights": lambda: L(class_weight={0: 1.5, 1: np.float64(2)}).fit(X, y),
        "str class weight": lambda: L(class_weight={"a": 1.5, "b": 2}).fit(X, np.array(["a", "b"])[y]), "feature names": lambda: preprocessing.StandardScaler().fit(es._df(X)), "dict in param_grid with numpy": lambda: __import__("sklearn.model_selection", fromlist=["x"]).GridSearchCV(L(), {"C": np.logspace(-1, 1, 3)}, cv=2).fit(X, y),
        "random state generator": lambda: ensemble.BaggingClassifier(random_state=np.random.RandomState(np.random.SFC64(3)), n_estimators=2).fit(X, y), "monotonic": lambda: ensemble.HistGradientBoostingRegressor(max_iter=3, monotonic_cst=[1, 0, 0, -1]).fit(X, yr),
        "hgb categorical": lambda: ensemble.HistGradientBoostingRegressor(max_iter=3, categorical_features=[0]).fit(np.c_[rs.randint(0, 4, 60), X], yr), "hgb df cat": lambda: ensemble.HistGradientBoostingRegressor(max_iter=3, categorical_features="from_dtype").fit(_catdf(rs), yr),
        "isotonic": lambda: isotonic.IsotonicRegression(out_of_bounds="clip").fit(X[:, 0], yr), "gmm": lambda: mixture.GaussianMixture(2, random_state=0, covariance_type="tied").fit(X), "bgmm": lambda: mixture.BayesianGaussianMixture(n_components=2, random_state=0, max_iter=5).fit(X),
        "lof": lambda: neighbors.LocalOutlierFactor(novelty=True).fit(X), "iforest": lambda: ensemble.IsolationForest(n_estimators=3, random_state=0).fit(X), "kde": lambda: neighbors.KernelDensity(kernel="tophat").fit(X), "nn": lambda: neighbors.NearestNeighbors(algorithm="ball_tree").fit(X),
        "knn kd": lambda: neighbors.KNeighborsClassifier(algorithm="kd_tree", leaf_size=3).fit(X, y), "knn haversine": lambda: neighbors.KNeighborsClassifier(algorithm="ball_tree", metric="haversine").fit(X[:, :2], y), "knn maha": lambda: neighbors.KNeighborsClassifier(metric="mahalanobis", metric_params={"V": np.cov(X.T)}).fit(X, y),
        "knn minkowski p": lambda: neighbors.KNeighborsRegressor(p=3, algorithm="kd_tree").fit(X, yr), "knn f4": lambda: neighbors.KNeighborsClassifier(algorithm="kd_tree").fit(X.astype("f4"), y), "tfidf": lambda: TfidfVectorizer(ngram_range=(1, 2), stop_words=["the", "a"]).fit(docs), "vocab": lambda: CountVectorizer(vocabulary={"first": 0, "second": 1}),
        "count": lambda: CountVectorizer(analyzer="char_wb", dtype=np.float32).fit(docs), "hashing": lambda: HashingVectorizer(n_features=16), "dictvect": lambda: feature_extraction.DictVectorizer().fit([{"a": 1, "b": "x"}]), "hasher": lambda: feature_extraction.FeatureHasher(8),
        "ft uf": lambda: preprocessing.FunctionTransformer(np.sqrt, np.square).fit(np.abs(X)), "ft partial kw": lambda: preprocessing.FunctionTransformer(functools.partial(np.clip, a_min=0, a_max=1)), "ft kw": lambda: preprocessing.FunctionTransformer(np.add, kw_args={"x2": 3.5}), "ft scipy": lambda: preprocessing.FunctionTransformer(ss.gammaln, kw_args={}),
        "ohe": lambda: preprocessing.OneHotEncoder(handle_unknown="infrequent_if_exist", min_frequency=2).fit([["a", 1], ["b", 2], ["a", 2]]), "ordinal": lambda: preprocessing.OrdinalEncoder(handle_unknown="use_encoded_value", unknown_value=-1).fit([["a"], ["b"], [None]]), "ohe obj": lambda: preprocessing.OneHotEncoder().fit(np.array([["a", 1.5], ["b", None]], dtype=object)),
        "target": lambda: preprocessing.TargetEncoder(cv=2, random_state=0).fit(rs.randint(0, 3, (60, 2)), y), "mlb": lambda: preprocessing.MultiLabelBinarizer().fit([("a",), ("b", "c")]), "le": lambda: preprocessing.LabelEncoder().fit(["x", "y", "é"]), "lb sparse": lambda: preprocessing.LabelBinarizer(sparse_output=True).fit([1, 2, 3]),
        "svc sparse": lambda: svm.SVC().fit(sp.csr_matrix(X), y), "svc precomputed": lambda: svm.SVC(kernel="precomputed").fit(X @ X.T, y), "ocsvm": lambda: svm.OneClassSVM().fit(X), "gp kernel": lambda: gaussian_process.GaussianProcessRegressor(gaussian_process.kernels.RBF([1.0] * 4) ** 2, n_restarts_optimizer=1, random_state=0).fit(X, yr),
        "hgb early stopping": lambda: ensemble.HistGradientBoostingRegressor(max_iter=3, early_stopping=True, scoring=None).fit(X, yr), "gpc": lambda: gaussian_process.GaussianProcessClassifier().fit(X, np.digitize(X[:, 0], [-.3, .3])), "gbc init": lambda: ensemble.GradientBoostingClassifier(init=L(), n_estimators=2, random_state=np.random.RandomState(2)).fit(X, y), "gbr es": lambda: ensemble.GradientBoostingRegressor(n_estimators=5, n_iter_no_change=2, loss="huber").fit(X, yr),
        "mlp es": lambda: neural_network.MLPClassifier((3, 2), early_stopping=True, max_iter=4, random_state=0).fit(X, y), "mlp sgd": lambda: neural_network.MLPRegressor((2,), solver="sgd", nesterovs_momentum=True, max_iter=3, random_state=1).fit(X, yr), "rbm": lambda: neural_network.BernoulliRBM(2, n_iter=2, random_state=0).fit(X > 0),
        "lda": lambda: decomposition.LatentDirichletAllocation(2, max_iter=2, random_state=0).fit(np.abs(X)), "ipca": lambda: decomposition.IncrementalPCA(2).fit(X), "mbdl": lambda: decomposition.MiniBatchDictionaryLearning(2, random_state=0, max_iter=2).fit(X), "ee": lambda: covariance.EllipticEnvelope(random_state=0).fit(X),
        "mbk": lambda: cluster.MiniBatchKMeans(2, random_state=0, n_init=1).fit(X), "bisect": lambda: cluster.BisectingKMeans(3, random_state=0).fit(X), "hdbscan": lambda: cluster.HDBSCAN(min_cluster_size=3, store_centers="both").fit(X), "optics": lambda: cluster.OPTICS().fit(X), "aggl": lambda: cluster.AgglomerativeClustering(distance_threshold=1.0, n_clusters=None).fit(X),
        "nested search": lambda: __import__("sklearn.model_selection", fromlist=["x"]).GridSearchCV(pipeline.make_pipeline(preprocessing.StandardScaler(), svm.SVC()), {"svc": [svm.SVC(C=1), L()], "standardscaler": [None, preprocessing.MinMaxScaler()]}, cv=2).fit(X, y),
        "rand dist": lambda: __import__("sklearn.model_selection", fromlist=["x"]).RandomizedSearchCV(L(), {"C": __import__("scipy.stats").stats.uniform(.1, 2)}, n_iter=2, cv=2, random_state=0).fit(X, y), "multi chain": lambda: multioutput.ClassifierChain(L(), order=[1, 0]).fit(X, np.c_[y, 1 - y]),
        "ct df": lambda: compose.make_column_transformer((preprocessing.StandardScaler(), ["col 0", "col 2"]), ("passthrough", slice("col 1", "col 1")), remainder="drop").fit(es._df(X)), "ct callable": lambda: compose.ColumnTransformer([("a", preprocessing.StandardScaler(), compose.make_column_selector("col [01]"))]).fit(es._df(X)),
        "tree multi": lambda: tree.DecisionTreeClassifier(max_depth=2).fit(X, np.c_[y, 1 - y]), "tree pruned": lambda: tree.DecisionTreeRegressor(ccp_alpha=.01).fit(X, yr), "tree nan": lambda: tree.DecisionTreeClassifier().fit(np.where(rs.rand(60, 4) < .1, np.nan, X), y), "tree mono": lambda: tree.DecisionTreeClassifier(monotonic_cst=[1, 0, 0, 0], max_depth=3).fit(X, y),
        "stump": lambda: tree.DecisionTreeClassifier(max_depth=1).fit(X[:2], [0, 0]), "empty tree": lambda: tree.DecisionTreeRegressor().fit(X[:1], [1.0]), "shared sub-estimators": lambda: _shared(L().fit(X, y)), "calib prefit": lambda: calibration.CalibratedClassifierCV(L().fit(X, y), cv="prefit").fit(X, y),
        "huge float param": lambda: L(C=1e300, tol=5e-324), "inf param": lambda: cluster.OPTICS(max_eps=np.inf), "nan param": lambda: preprocessing.OrdinalEncoder(handle_unknown="use_encoded_value", unknown_value=np.nan).fit([["a"], ["b"]]), "neg zero": lambda: preprocessing.Binarizer(threshold=-0.0), "int64 param": lambda: ensemble.RandomForestClassifier(n_estimators=np.int64(2), max_depth=np.uint8(3)).fit(X, y),
        "dtype param": lambda: preprocessing.OneHotEncoder(dtype=np.float32).fit([["a"]]), "dtype instance": lambda: preprocessing.OrdinalEncoder(dtype=np.dtype("f4")).fit([["a"]]), "memmap-free view": lambda: _view(L().fit(X, y)), "user attributes": lambda: _attrs(L().fit(X, y)), "missing indicator": lambda: __import__("sklearn.impute").impute.MissingIndicator(missing_values=None, features="all"),
        "simple imputer const": lambda: __import__("sklearn.impute").impute.SimpleImputer(strategy="constant", fill_value="x").fit(np.array([["a", np.nan], ["b", "c"]], dtype=object)), "pipeline cached none": lambda: pipeline.Pipeline([("a", "passthrough"), ("b", L())]).fit(X, y), "empty union": lambda: pipeline.FeatureUnion([("a", "drop")]),
    }
    other = {"isotonic": H[:, 0], "tfidf": docs, "vocab": docs, "count": docs, "hashing": docs, "dictvect": [{"a": 3}], "hasher": [{"z": 1}], "feature names": es._df(H), "hgb categorical": np.c_[np.arange(9) % 5, H], "hgb df cat": _catdf(rs, 9), "knn haversine": H[:, :2],
             "ohe": [["a", 1], ["z", 2]], "ordinal": [["a"], ["q"]], "ohe obj": np.array([["a", None]], dtype=object), "target": np.ones((3, 2), int), "mlb": [("a", "c")], "le": ["x", "é"], "lb sparse": [1, 3], "svc sparse": sp.csr_matrix(H), "svc precomputed": H @ X.T, "ft uf": np.abs(H),
             "lda": np.abs(H), "rbm": H > 0, "ct df": es._df(H), "ct callable": es._df(H), "nan param": [["a"], ["c"]], "dtype param": [["a"]], "dtype instance": [["a"]], "simple imputer const": np.array([["a", np.nan]], dtype=object), "missing indicator": None, "inf param": None, "huge float param": None}
    for n, mk in cases.items():
        for _ in ctx.items([n]):
            try:
                est = mk()
            except Exception as e:
                ctx.count("fixed_not_built")
                ctx.note(f"fixed case {n}: {type(e).__name__}: {str(e)[:100]}")
                continue
            check(ctx, est, f"case {n}", other.get(n, H), None, key=("fixed", n))
            ctx.count("fixed")
    for n in ("quantile_forest", "lightgbm", "xgboost"):  # third parties with a loader of their own or none
        for _ in ctx.items([n]):
            try:
                mod = __import__(n)
                ests = dict(quantile_forest=["RandomForestQuantileRegressor", "ExtraTreesQuantileRegressor"], lightgbm=["LGBMRegressor"], xgboost=["XGBRegressor"])[n]
                for en in ests:
                    e = getattr(mod, en)(n_estimators=3, random_state=0, n_jobs=1).fit(X, yr)
                    if n == "quantile_forest":
                        check(ctx, e, f"case {en}", H, None, key=("fixed", en))
                        ctx.count("fixed")
            except ImportError:
                ctx.count("absent:" + n)


def _catdf(rs, n=60):
    import pandas as pd
    r = np.random.RandomState(4)
    return pd.DataFrame({"a": pd.Categorical(np.array(["x", "y", "z"])[r.randint(0, 3, n)], categories=["x", "y", "z"]), "b": r.randn(n)})


def _routing(L):
    import sklearn
    with sklearn.config_context(enable_metadata_routing=True):
        return L().set_fit_request(sample_weight=True)


def _shared(e):
    from sklearn.ensemble import VotingClassifier
    v = VotingClassifier([("a", e), ("b", e)], voting="soft")
    v.estimators_ = [e, e]
    v.le_ = __import__("sklearn.preprocessing").preprocessing.LabelEncoder().fit([0, 1])
    v.classes_ = v.le_.classes_
    v.named_estimators_ = __import__("sklearn.utils").utils.Bunch(a=e, b=e)
    return v


def _view(e):
    e.coef_ = np.asfortranarray(np.tile(e.coef_, (3, 2)))[::3, ::2][:, :4]
    return e


def _attrs(e):
    e.notes_ = {1: "one", "1": [1.5, None], 2.5: (1, 2), np.int64(3): {"s"}}
    e.arr_ = np.array([["a", None]], dtype=object)
    return e
