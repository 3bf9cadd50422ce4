"""The families that the documentation declares to be trusted by default, as predicates on objects."""
from __future__ import annotations

import collections
import sys
import types  # noqa
import warnings

import numpy as np


class Families:
    def __init__(self):
        import scipy.sparse as sp
        import scipy.special  # noqa
        from sklearn._loss._loss import CyLossFunction
        from sklearn.linear_model import _sgd_fast
        from sklearn.tree._tree import Tree
        from sklearn.utils import all_estimators
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ests = all_estimators()
        self.listed = {int, float, str, bool, list, set, map, tuple, dict, bytes, bytearray, slice, collections.OrderedDict, collections.defaultdict, np.ndarray, np.ma.MaskedArray, np.random.RandomState,
                       np.random.Generator, Tree, type(None), np.dtype}
        self.estimators = {c for _, c in ests if c.__module__.startswith("sklearn.")}
        self.losses = (CyLossFunction, _sgd_fast.LossFunction)
        self.sparse = (sp.spmatrix, sp.sparray)

    def member(self, o):
        if isinstance(o, np.ufunc):
            return True
        if not isinstance(o, type):
            return False
        if o in self.listed or o in self.estimators:
            return True
        return (issubclass(o, np.generic) and o.__module__.startswith("numpy") or issubclass(o, self.losses) and o.__module__.split(".")[0] in ("sklearn", "_loss")
                or issubclass(o, self.sparse) and o.__module__.startswith("scipy.sparse"))


def split(name):
    m, _, c = name.rpartition(".")
    return m, c


def resolve(name):
    m, c = split(name)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if m not in sys.modules:
            try:
                __import__(m)
            except Exception:
                return None
        try:
            return getattr(sys.modules[m], c)
        except Exception:
            return None
