"""scikit-learn estimators with random valid hyper-parameters, data of many kinds, random compositions."""
from __future__ import annotations

import contextlib
import functools
import numbers
import signal
import warnings

import numpy as np
import scipy.sparse as sp

UNSUPPORTED = {"Birch"}
SKIP_PARAMS = {"n_jobs", "verbose", "memory", "pre_dispatch", "cache_size", "verbose_feature_names_out", "copy", "copy_X", "copy_x", "estimator", "estimators", "transformers", "steps", "transformer_list",
               "encoding", "input", "assume_centered", "eigen_tol", "base_estimator", "final_estimator", "working_memory", "max_samples_bin", "n_resamples_", "error_score"}
SMALL = {"n_estimators": (1, 6), "max_iter": (5, 40), "n_components": (1, 3), "n_init": (1, 2), "n_clusters": (2, 4), "degree": (1, 3), "max_depth": (1, 5), "n_neighbors": (1, 6), "cv": (2, 3), "n_knots": (2, 6),
         "n_bins": (2, 5), "max_leaf_nodes": (2, 10), "leaf_size": (2, 30), "n_quantiles": (5, 30), "max_features": (1, 4), "n_iter": (1, 6), "min_samples_leaf": (1, 5), "min_samples_split": (2, 6), "max_bins": (4, 64),
         "n_features": (2 ** 5, 2 ** 6), "n_iter_no_change": (1, 4), "max_trials": (5, 20), "n_subsamples": (10, 20), "max_subpopulation": (20, 100), "perplexity": (2, 5), "n_features_to_select": (1, 3), "k": (1, 3),
         "interaction_cst": None, "subsample": (100, 200), "batch_size": (10, 40), "chunk_size": (5, 50), "max_no_improvement": (1, 5), "n_nearest_features": (1, 3), "warm_start": None, "max_eval": (10, 50),
         "min_cluster_size": (2, 5), "min_samples": (1, 5), "max_cluster_size": (10, 40), "patch_size": None, "n_restarts_optimizer": (0, 1), "max_iter_predict": (5, 50), "n_refinements": (0, 3), "hidden_layer_sizes": None}


class Slow(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    def hit(*a):
        raise Slow()
    old = signal.signal(signal.SIGALRM, hit)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def classes():
    from sklearn.experimental import enable_halving_search_cv, enable_iterative_imputer  # noqa
    from sklearn.utils import all_estimators
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return [(n, c) for n, c in all_estimators() if c.__module__.startswith("sklearn.")]


def tags(est):
    try:
        from sklearn.utils._tags import _safe_tags
        return _safe_tags(est)
    except Exception:
        return {}


def base(name, cls):
    """an instance with parameters that make it quick"""
    from sklearn.utils import estimator_checks as ec
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e = ec._construct_instance(cls)
        try:
            ec._set_checking_parameters(e)
        except Exception:
            pass
    p = e.get_params(deep=False)
    if "random_state" in p:
        e.set_params(random_state=0)
    if "patch_size" in p:
        e.set_params(patch_size=(3, 3))
    if "skewedness" in p:
        e.set_params(skewedness=20)
    if name == "GraphicalLasso":
        e.set_params(alpha=1)
    if name == "GraphicalLassoCV":
        e.set_params(alphas=[1, 2])
    if name == "SparseCoder":
        e.set_params(dictionary=np.random.RandomState(0).randn(4, 6))
    return e


def valid(r, c, pname):
    """a value that satisfies the constraint, or LookupError"""
    from sklearn.utils import _param_validation as pv
    if c is None:
        return None
    if isinstance(c, str):
        if c == "boolean":
            return r.random() < .5
        if c == "random_state":
            return r.choice([None, 0, 17, np.random.RandomState(r.randrange(99)), np.random.RandomState(np.random.PCG64(3))])
        if c == "verbose":
            return 0
        if c == "cv_object":
            from sklearn.model_selection import KFold, StratifiedKFold
            return r.choice([2, 3, KFold(2), KFold(3, shuffle=True, random_state=1), StratifiedKFold(2)])
        raise LookupError(c)
    if c is bool:
        return r.random() < .5
    if isinstance(c, (pv.StrOptions, pv.Options)):
        dep = getattr(c, "deprecated", set()) or set()
        opts = sorted((o for o in c.options if o not in dep), key=str)
        if not opts:
            raise LookupError
        return r.choice(opts)
    if isinstance(c, pv.Interval):
        lo, hi = c.left, c.right
        if c.type is numbers.Integral:
            a, b = SMALL.get(pname) or (1, 5)
            if lo is not None and a < lo:
                a, b = int(lo) + (c.closed in ("right", "neither")), int(lo) + 3
            if hi is not None and b > hi:
                b = int(hi)
            v = r.randint(a, max(a, b))
            return r.choice([v, v, np.int64(v)])
        l = 0.0 if lo is None or lo == -np.inf else float(lo)
        h = l + 2 if hi is None or hi == np.inf else float(hi)
        v = r.choice([l + (h - l) * r.uniform(.02, .98), l + (h - l) * .5, l + (h - l) * .1])
        return r.choice([v, v, np.float64(v), np.float32(v)])
    raise LookupError(c)


def vary(r, est, k):
    """k random valid parameters set; returns what was set"""
    cons = getattr(est, "_parameter_constraints", {})
    p = est.get_params(deep=False)
    done = {}
    names = sorted(n for n in p if n in cons and n not in SKIP_PARAMS and cons[n] != "no_validation")
    r.shuffle(names)
    for n in names[:k]:
        c = cons[n]
        c = list(c) if isinstance(c, (list, tuple)) else [c]
        r.shuffle(c)
        for x in c:
            try:
                v = valid(r, x, n)
            except Exception:
                continue
            done[n] = v
            break
    if done:
        est.set_params(**done)
    return done


# ---------------------------------------------------------------- data
def _df(X):
    import pandas as pd
    return pd.DataFrame(np.asarray(X), columns=[f"col {i}" for i in range(np.asarray(X).shape[1])])


DATA = ["dense", "fortran", "float32", "int", "csr", "csc", "coo", "df", "nan", "strlabels", "multi", "multilabel", "weights", "bool", "strided", "objy", "three"]


def data(r, kind, est, n=45, d=6):
    """(X, y, held out X, fit kwargs) of the kind; the estimator's tags decide the basics"""
    from sklearn.base import is_classifier, is_regressor
    t = tags(est)
    types = t.get("X_types", ["2darray"])
    rs = np.random.RandomState(r.randrange(10 ** 6))
    X = rs.randn(n, d) * rs.uniform(.5, 3, d)
    H = rs.randn(17, d) * 1.5
    lat = X[:, 0] - X[:, 1] * .7 + rs.randn(n) * .3
    yc = (lat > 0).astype(int)
    if kind == "three":
        yc = np.digitize(lat, [-1, 1])
    y = lat if is_regressor(est) else yc
    if t.get("pairwise"):
        from sklearn.metrics import pairwise_distances
        K = pairwise_distances(X[:20])
        return K, y[:20], K, {}
    if "2darray" not in types:
        if "1darray" in types:
            return X[:, 0], y, H[:, 0], {}
        if "3darray" in types:
            return rs.rand(3, 12, 12, 3), None, rs.rand(2, 12, 12, 3), {}
        if "1dlabels" in types:
            yy = np.array(["b", "a", "c"])[rs.randint(0, 3, n)] if r.random() < .5 else yc
            return yy, None, yy[:10], {}
        if "2dlabels" in types:
            return [(1, 2), (3,), ()], None, [(1,), (3, 2)], {}
        if "categorical" in types:
            X = [["Male", 1], ["Female", 3], ["Female", 2], ["x", 3]] * 4
            if r.random() < .5:
                X = np.array(X, dtype=object)
            elif r.random() < .5:
                import pandas as pd
                X = pd.DataFrame(X, columns=["g", "n"])
            return X, yc[:16], X, {}
        if "dict" in types:
            return [{"foo": 1, "bar": 2}, {"foo": 3, "baz": 1}, {"s": "x"}], None, [{"foo": 3}, {"bar": .5, "new": 3}], {}
        if "string" in types:
            docs = ["This is the first document.", "This document is the second document.", "And this is the third one.", "Is this the first document? été", ""]
            return docs, None, docs[::-1] + ["unseen first"], {}
        if "sparse" in types:
            return sp.csr_matrix(np.abs(X) * (X > 0)), yc, sp.csr_matrix(np.abs(H) * (H > 0)), {}
    if t.get("requires_positive_X"):
        X, H = np.abs(X), np.abs(H)
    if t.get("requires_positive_y"):
        y = np.abs(y) + 1
    kw = {}
    if t.get("multioutput_only") or (kind == "multi" and t.get("multioutput")):
        y = np.column_stack([y, y[::-1]])
    if kind == "multilabel" and is_classifier(est) and t.get("multilabel", t.get("multioutput")):
        y = np.column_stack([yc, rs.randint(0, 2, n), 1 - yc])
    if kind == "strlabels" and is_classifier(est):
        y = np.array(["no", "yés", "maybe"])[y] if y.ndim == 1 else y
    if kind == "objy" and is_classifier(est) and y.ndim == 1:
        y = np.array(["no", "yes", "m"], dtype=object)[y]
    if kind == "bool" and is_classifier(est) and y.ndim == 1:
        y = y.astype(bool)
    if kind == "nan":
        if t.get("allow_nan"):
            X = X.copy()
            X[rs.rand(*X.shape) < .1] = np.nan
            H = H.copy()
            H[0, 0] = np.nan
    if kind == "fortran":
        X = np.asfortranarray(X)
    elif kind == "float32":
        X, H = X.astype("f4"), H.astype("f4")
    elif kind == "int":
        X, H = (X * 3).astype(int), (H * 3).astype(int)
        if t.get("requires_positive_X"):
            X, H = abs(X), abs(H)
    elif kind in ("csr", "csc", "coo"):
        Z = X * (np.abs(X) > .7)
        X = getattr(sp, kind + "_matrix")(Z) if r.random() < .6 else getattr(sp, kind + "_array")(Z)
        H = sp.csr_matrix(H * (np.abs(H) > .7)) if r.random() < .6 else H
    elif kind == "df":
        X, H = _df(X), _df(H)
    elif kind == "strided":
        X = np.repeat(X, 2, axis=0)[::2]
    if kind == "weights":
        kw["sample_weight"] = rs.rand(n) + .1
    return X, y, H, kw


def fit(est, X, y, kw, seconds=10):
    with warnings.catch_warnings(), np.errstate(all="ignore"), limit(seconds):
        warnings.simplefilter("ignore")
        return est.fit(X, **kw) if y is None else est.fit(X, y, **kw)


# ---------------------------------------------------------------- compositions
def clf(r, depth=1):
    from sklearn.discriminant_analysis import LinearDiscriminantAnalysis, QuadraticDiscriminantAnalysis
    from sklearn.ensemble import (AdaBoostClassifier, BaggingClassifier, ExtraTreesClassifier, GradientBoostingClassifier, HistGradientBoostingClassifier, RandomForestClassifier, StackingClassifier,
                                  VotingClassifier)
    from sklearn.calibration import CalibratedClassifierCV
    from sklearn.dummy import DummyClassifier
    from sklearn.gaussian_process import GaussianProcessClassifier
    from sklearn.linear_model import LogisticRegression, RidgeClassifier, SGDClassifier, Perceptron
    from sklearn.model_selection import FixedThresholdClassifier, GridSearchCV, RandomizedSearchCV, HalvingGridSearchCV, HalvingRandomSearchCV, TunedThresholdClassifierCV
    from sklearn.multiclass import OneVsOneClassifier, OneVsRestClassifier, OutputCodeClassifier
    from sklearn.naive_bayes import BernoulliNB, GaussianNB
    from sklearn.neighbors import KNeighborsClassifier, RadiusNeighborsClassifier
    from sklearn.neural_network import MLPClassifier
    from sklearn.semi_supervised import LabelPropagation, SelfTrainingClassifier
    from sklearn.svm import SVC, LinearSVC, NuSVC
    from sklearn.tree import DecisionTreeClassifier, ExtraTreeClassifier
    rs = r.choice([0, 1, np.random.RandomState(5)])
    leafs = [lambda: LogisticRegression(C=r.uniform(.1, 3), solver=r.choice(["lbfgs", "liblinear", "newton-cg"])), lambda: DecisionTreeClassifier(max_depth=r.choice([2, 4, None]), random_state=rs, criterion=r.choice(["gini", "entropy"])),
             lambda: GaussianNB(), lambda: KNeighborsClassifier(r.choice([1, 3]), algorithm=r.choice(["auto", "ball_tree", "kd_tree", "brute"]), metric=r.choice(["minkowski", "manhattan", "chebyshev"])),
             lambda: SGDClassifier(loss=r.choice(["log_loss", "modified_huber", "hinge", "squared_hinge", "perceptron", "huber", "epsilon_insensitive", "squared_error"]), random_state=0, average=r.choice([False, True, 5])),
             lambda: RandomForestClassifier(r.choice([2, 4]), random_state=rs, oob_score=r.random() < .3), lambda: ExtraTreesClassifier(3, random_state=0), lambda: HistGradientBoostingClassifier(max_iter=3, min_samples_leaf=5, early_stopping=r.random() < .3),
             lambda: GradientBoostingClassifier(n_estimators=3, random_state=rs, init=r.choice([None, "zero"])), lambda: SVC(kernel=r.choice(["rbf", "linear", "poly"]), probability=r.random() < .3, random_state=0), lambda: LinearSVC(dual=False),
             lambda: LinearDiscriminantAnalysis(), lambda: QuadraticDiscriminantAnalysis(reg_param=.1), lambda: BernoulliNB(), lambda: RidgeClassifier(), lambda: DummyClassifier(strategy="most_frequent"), lambda: Perceptron(),
             lambda: MLPClassifier((3,), max_iter=5, random_state=0, solver=r.choice(["adam", "sgd", "lbfgs"]), early_stopping=r.random() < .3), lambda: AdaBoostClassifier(n_estimators=2, algorithm="SAMME", random_state=0),
             lambda: NuSVC(nu=.2), lambda: GaussianProcessClassifier(random_state=0), lambda: ExtraTreeClassifier(random_state=rs), lambda: RadiusNeighborsClassifier(30.0), lambda: LabelPropagation()]
    if depth <= 0:
        return r.choice(leafs)()
    sub = lambda: clf(r, depth - 1)  # noqa
    from sklearn.pipeline import Pipeline, make_pipeline
    metas = [lambda: make_pipeline(trf(r, depth - 1), sub()), lambda: Pipeline([("t", trf(r, depth - 1)), ("nothing", r.choice(["passthrough", None])), ("c", sub())]), lambda: VotingClassifier([("a", sub()), ("b", sub())], voting="hard"),
             lambda: VotingClassifier([("a", clf(r, 0)), ("b", "drop"), ("c", DecisionTreeClassifier())], voting="hard", weights=[1, 2, 3]), lambda: StackingClassifier([("a", sub()), ("b", clf(r, 0))], cv=2, passthrough=r.random() < .5),
             lambda: BaggingClassifier(sub(), n_estimators=2, random_state=rs, max_features=.7, bootstrap_features=r.random() < .3), lambda: AdaBoostClassifier(DecisionTreeClassifier(max_depth=1), n_estimators=3, algorithm="SAMME"),
             lambda: CalibratedClassifierCV(sub(), cv=2, method=r.choice(["sigmoid", "isotonic"])), lambda: OneVsRestClassifier(sub()), lambda: OneVsOneClassifier(sub()), lambda: OutputCodeClassifier(sub(), code_size=2, random_state=0),
             lambda: GridSearchCV(LogisticRegression(), {"C": [.1, np.float64(1.0), 10]}, cv=2), lambda: RandomizedSearchCV(DecisionTreeClassifier(), {"max_depth": [1, 2, None]}, n_iter=2, cv=2, random_state=0),
             lambda: GridSearchCV(make_pipeline(trf(r, 0), LogisticRegression()), [{"logisticregression__C": [1, 2]}], cv=2, scoring=r.choice([None, "accuracy", ["accuracy", "f1_macro"]]), refit=r.choice(["accuracy", False])),
             lambda: HalvingGridSearchCV(DecisionTreeClassifier(), {"max_depth": [1, 2]}, cv=2, random_state=0), lambda: HalvingRandomSearchCV(DecisionTreeClassifier(), {"max_depth": [1, 2]}, cv=2, random_state=0),
             lambda: SelfTrainingClassifier(LogisticRegression()), lambda: TunedThresholdClassifierCV(LogisticRegression(), cv=2), lambda: FixedThresholdClassifier(LogisticRegression(), threshold=.4)]
    return r.choice(metas + leafs[:6])()


def reg(r, depth=1):
    from sklearn.compose import TransformedTargetRegressor
    from sklearn.cross_decomposition import PLSRegression
    from sklearn.ensemble import AdaBoostRegressor, BaggingRegressor, GradientBoostingRegressor, HistGradientBoostingRegressor, RandomForestRegressor, StackingRegressor, VotingRegressor
    from sklearn.gaussian_process import GaussianProcessRegressor
    from sklearn.gaussian_process import kernels as gk
    from sklearn.kernel_ridge import KernelRidge
    from sklearn.linear_model import ElasticNet, GammaRegressor, HuberRegressor, LassoLars, LinearRegression, PoissonRegressor, QuantileRegressor, RANSACRegressor, Ridge, SGDRegressor, TweedieRegressor
    from sklearn.model_selection import GridSearchCV
    from sklearn.multioutput import MultiOutputRegressor, RegressorChain
    from sklearn.neighbors import KNeighborsRegressor
    from sklearn.neural_network import MLPRegressor
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import QuantileTransformer
    from sklearn.svm import SVR
    from sklearn.tree import DecisionTreeRegressor
    leafs = [lambda: LinearRegression(), lambda: Ridge(alpha=np.float64(.3)), lambda: DecisionTreeRegressor(max_depth=3, criterion=r.choice(["squared_error", "absolute_error", "friedman_mse"])), lambda: KNeighborsRegressor(3, weights=r.choice(["uniform", "distance"])),
             lambda: GradientBoostingRegressor(n_estimators=3, loss=r.choice(["squared_error", "absolute_error", "huber", "quantile"]), random_state=0), lambda: HistGradientBoostingRegressor(max_iter=3, min_samples_leaf=4, loss=r.choice(["squared_error", "absolute_error"])),
             lambda: RandomForestRegressor(3, random_state=0), lambda: SVR(), lambda: SGDRegressor(loss=r.choice(["squared_error", "huber", "epsilon_insensitive", "squared_epsilon_insensitive"]), random_state=0), lambda: ElasticNet(.1), lambda: HuberRegressor(),
             lambda: GaussianProcessRegressor(kernel=r.choice([None, gk.RBF() + gk.WhiteKernel(), gk.ConstantKernel(2.0) * gk.Matern(nu=1.5)])), lambda: KernelRidge(kernel=r.choice(["linear", "rbf"])), lambda: MLPRegressor((3,), max_iter=5, random_state=0),
             lambda: PLSRegression(1), lambda: LassoLars(.01), lambda: QuantileRegressor(alpha=.1), lambda: TweedieRegressor(power=0)]
    if depth <= 0:
        return r.choice(leafs)()
    sub = lambda: reg(r, depth - 1)  # noqa
    metas = [lambda: make_pipeline(trf(r, depth - 1), sub()), lambda: VotingRegressor([("a", sub()), ("b", LinearRegression())]), lambda: StackingRegressor([("a", sub()), ("b", Ridge())], cv=2), lambda: BaggingRegressor(sub(), n_estimators=2, random_state=0),
             lambda: AdaBoostRegressor(DecisionTreeRegressor(max_depth=2), n_estimators=3, random_state=0), lambda: TransformedTargetRegressor(sub(), func=np.cbrt, inverse_func=np.square), lambda: TransformedTargetRegressor(sub(), transformer=QuantileTransformer(n_quantiles=10)),
             lambda: RANSACRegressor(LinearRegression(), random_state=np.random.RandomState(3), max_trials=10), lambda: GridSearchCV(sub(), {}, cv=2), lambda: MultiOutputRegressor(sub()), lambda: RegressorChain(Ridge(), order=r.choice([None, "random", [0, 1]]), random_state=0),
             lambda: TransformedTargetRegressor(Ridge(), func=np.sinh, inverse_func=np.arcsinh)]
    return r.choice(metas + leafs[:6])()


def trf(r, depth=1):
    import scipy.special as ss
    from sklearn import decomposition as dc, feature_selection as fs, kernel_approximation as ka, preprocessing as pp, random_projection as rp
    from sklearn.cluster import KMeans, FeatureAgglomeration
    from sklearn.compose import ColumnTransformer, make_column_selector
    from sklearn.ensemble import ExtraTreesClassifier, RandomTreesEmbedding
    from sklearn.impute import IterativeImputer, KNNImputer, SimpleImputer
    from sklearn.linear_model import LogisticRegression
    from sklearn.neighbors import KNeighborsTransformer, NeighborhoodComponentsAnalysis
    from sklearn.pipeline import FeatureUnion, make_pipeline
    leafs = [lambda: pp.StandardScaler(with_mean=r.random() < .7), lambda: pp.MinMaxScaler(feature_range=r.choice([(0, 1), (-1.0, 2)])), lambda: pp.PolynomialFeatures(2, interaction_only=r.random() < .5), lambda: pp.QuantileTransformer(n_quantiles=7, random_state=0),
             lambda: pp.PowerTransformer(), lambda: pp.RobustScaler(), lambda: pp.KBinsDiscretizer(3, encode=r.choice(["ordinal", "onehot", "onehot-dense"]), subsample=None), lambda: pp.SplineTransformer(n_knots=3, knots=r.choice(["uniform", "quantile"])),
             lambda: pp.FunctionTransformer(r.choice([np.exp, np.tanh, np.arctan, np.square, ss.expit, ss.erf, np.cbrt]), r.choice([None, np.log, ss.erfinv]), check_inverse=False), lambda: pp.FunctionTransformer(functools.partial(np.add, 10), functools.partial(np.add, -10.5), check_inverse=False),
             lambda: pp.FunctionTransformer(functools.partial(ss.xlogy, 2.0)), lambda: dc.PCA(2, svd_solver=r.choice(["full", "randomized"]), random_state=0), lambda: dc.TruncatedSVD(2, random_state=0), lambda: dc.FastICA(2, random_state=0), lambda: dc.NMF(2, init="random", random_state=0),
             lambda: dc.KernelPCA(2, kernel=r.choice(["rbf", "linear"])), lambda: fs.SelectKBest(k=2), lambda: fs.VarianceThreshold(), lambda: fs.SelectFromModel(ExtraTreesClassifier(3, random_state=0)), lambda: fs.RFE(LogisticRegression(), n_features_to_select=2),
             lambda: ka.Nystroem(n_components=3, random_state=0), lambda: ka.RBFSampler(n_components=4, random_state=np.random.RandomState(0)), lambda: rp.GaussianRandomProjection(2, random_state=0), lambda: rp.SparseRandomProjection(2, random_state=0), lambda: KMeans(2, n_init=1, random_state=0),
             lambda: FeatureAgglomeration(2), lambda: RandomTreesEmbedding(2, random_state=0), lambda: SimpleImputer(strategy=r.choice(["mean", "median", "most_frequent"]), add_indicator=r.random() < .5), lambda: KNNImputer(n_neighbors=2), lambda: IterativeImputer(max_iter=2, random_state=0),
             lambda: KNeighborsTransformer(n_neighbors=2), lambda: NeighborhoodComponentsAnalysis(max_iter=3, random_state=0), lambda: pp.Normalizer(), lambda: pp.MaxAbsScaler(), lambda: pp.Binarizer(threshold=np.float32(.1))]
    if depth <= 0:
        return r.choice(leafs)()
    sub = lambda: trf(r, depth - 1)  # noqa
    cols = r.choice([[0, 1], slice(0, 2), np.array([0, 2]), [True] + [False] * 5, slice(-3, None), [3]])
    metas = [lambda: FeatureUnion([("a", sub()), ("b", r.choice([sub(), "passthrough"]))], transformer_weights=r.choice([None, {"a": 2.0}])), lambda: ColumnTransformer([("a", sub(), cols), ("b", "passthrough", [4]), ("c", "drop", [5])], remainder=r.choice(["drop", "passthrough"])),
             lambda: make_pipeline(sub(), pp.StandardScaler(with_mean=False)), lambda: ColumnTransformer([("sel", pp.StandardScaler(), make_column_selector(dtype_include=np.number))], remainder=pp.MinMaxScaler()),
             lambda: make_pipeline(pp.StandardScaler(), sub()).set_output(transform=r.choice(["default", "pandas"]))]
    return r.choice(metas + leafs[:9])()


def composition(r, depth=2):
    from sklearn.experimental import enable_halving_search_cv, enable_iterative_imputer  # noqa
    k = r.choice(["clf", "clf", "reg", "trf"])
    return {"clf": clf, "reg": reg, "trf": trf}[k](r, depth)
