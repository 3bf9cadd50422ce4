"""Hostile archives: every node kind in every slot, with names from a pool, plus mutations of genuine archives."""
from __future__ import annotations

import copy
import io
import json
import pickle

import numpy as np
import scipy.sparse as sp

from . import arch

CANARY = ["canary.A", "canary.B", "canary.S", "canary.L", "canary.D", "canary.T", "canary.Str", "canary.P", "canary.f", "canary.g", "canary.INSTANCE",
          "canary.LST", "canary.sub.A", "canary.sub.f", "canary2.A", "canaryx.deep.er.C", "canary.ndarray", "canary.expit", "canary.LogisticRegression",
          "canary.dict", "canary.list", "canary.AB", "canary.A.meth", "canary.A.cmeth", "canary.missing", "canary_numpy.ndarray", "canary.Arr", "canary.E"]
# names that resolve to nothing, but look like something after some normalisation
TWISTED = ["canary.x:A", "canary.A:f", "canary.A ", "canary. A", "canary.A\n", "canary.x/A", "canary.x>f", "canary.\uff21", "canary..A", " canary.A", "canary .f", "canary/sub.A", "canary.A()", "canary.A[0]",
           "canary.A,f", "canary.`A", "canary.A\0", "canary.<locals>", "os.x:system", "builtins.x:eval", "builtins.eval ", "math.safe:factorial", "math. factorial", "numpy.x:load", "posix:system.A"]
CANARY = CANARY + TWISTED[:6]
CLASSES = ["canary.A", "canary.B", "canary.S", "canary.sub.A", "canary2.A", "canary.AB", "canary.E"]
# real names; the canned arguments below make them harmless and the audit hook blocks what they do
DANGER = ["os.system", "posix.system", "os.popen", "subprocess.Popen", "subprocess.run", "builtins.eval", "builtins.exec", "builtins.open", "builtins.compile",
          "builtins.__import__", "builtins.getattr", "builtins.setattr", "builtins.print", "builtins.type", "builtins.object", "builtins.memoryview", "builtins.globals",
          "builtins.vars", "builtins.dir", "importlib.import_module", "shutil.rmtree", "shutil.copy", "os.mkdir", "os.remove", "os.listdir", "os.getcwd", "os.fspath", "os.environ",
          "numpy.load", "numpy.save", "numpy.fromfile", "numpy.memmap", "numpy.vectorize", "numpy.frompyfunc", "numpy.fromregex", "numpy.loadtxt", "numpy.array", "numpy.matrix",
          "numpy.lib.npyio.load", "numpy.exceptions", "numpy.ufunc", "numpy.random.seed", "numpy.random.default_rng", "numpy.random.mtrand.seed", "numpy.core", "numpy.f2py.main",
          "scipy.io.loadmat", "scipy.special.test", "scipy.sparse.load_npz", "scipy.special.orthogonal", "scipy.optimize.minimize", "sklearn.datasets.fetch_openml", "sklearn.utils.Bunch", "sklearn.base.clone",
          "sklearn.utils.all_estimators", "sklearn.utils._joblib.Memory", "joblib.load", "pickle.loads", "pickle.Unpickler", "marshal.loads", "types.FunctionType", "types.CodeType", "types.SimpleNamespace",
          "functools.reduce", "functools.partial", "operator.attrgetter", "operator.methodcaller", "operator.itemgetter", "operator.call", "operator.setitem", "ctypes.CDLL", "socket.socket",
          "pathlib.Path", "tempfile.mkdtemp", "io.FileIO", "io.open", "sys.exit", "sys.modules", "code.InteractiveConsole", "runpy.run_path", "collections.Counter", "collections.UserDict", "decimal.Decimal",
          "skops.io._utils._import_obj", "skops.io.load", "skops.io._utils.gettype", "sklearn.tree._tree.TreeBuilder"]
# importable standard library modules that nothing here imports
UNIMPORTED = ["colorsys.rgb_to_hsv", "this.s", "__hello__.main", "__phello__.spam.main", "nturl2path.url2pathname", "stringprep.in_table_a1", "sched.scheduler", "sunau.open", "turtledemo.clock.main",
              "lib2to3.main.main", "antigravity.geohash", "idlelib.idle.x", "sndhdr.what", "chunk.Chunk", "rlcompleter.Completer", "tabnanny.check", "wsgiref.simple_server.demo_app", "xdrlib.Packer"]
UNIMPORTED = [n for n in UNIMPORTED if not n.startswith(("antigravity", "idlelib"))]  # these have visible effects
GOOD = ["builtins.int", "builtins.str", "builtins.list", "builtins.dict", "builtins.set", "builtins.tuple", "builtins.float", "builtins.bool", "builtins.map", "collections.OrderedDict", "collections.defaultdict",
        "numpy.ndarray", "numpy.float64", "numpy.int8", "numpy.str_", "numpy.bool", "numpy.exp", "numpy._core._multiarray_umath.exp", "scipy.special._ufuncs.expit", "sklearn.linear_model._logistic.LogisticRegression",
        "sklearn.tree._classes.DecisionTreeClassifier", "sklearn.pipeline.Pipeline", "numpy.ma.MaskedArray", "numpy.ma.core.MaskedArray", "numpy.random.mtrand.RandomState", "numpy.random._generator.Generator", "builtins.bytes",
        "builtins.bytearray", "builtins.slice", "sklearn.tree._tree.Tree", "sklearn.linear_model._sgd_fast.Hinge", "sklearn._loss._loss.CyHalfSquaredError", "scipy.sparse._csr.csr_matrix", "numpy.object_", "numpy.void", "numpy.dtype"]
TWISTS = ["{m}.x.{c}", "{m}..{c}", " {m}.{c}", "{m}.{c} ", "{m}.{c}.{c}", "x{m}.{c}", "{m}x.{c}", "{m}.{c}x", "{M}.{c}", ".{m}.{c}"]
BITGEN = ["MT19937", "PCG64", "SFC64", "seed", "default_rng", "Generator", "RandomState", "_pickle", "canary", "__loader__", "BitGenerator", "bit_generator.SeedSequence", "SeedSequence", "test", "choice", "mtrand", "bytes"]
METHODS = ["meth", "cmeth", "__init__", "__new__", "__reduce__", "__class__", "__call__", "__setstate__", "__dict__", "fit", "get_params", "set_params", "__getattribute__", "__setattr__", "append",
           "__func__", "__globals__", "__subclasses__", "__init_subclass__", "mro", "format", "tofile", "dump", "", "meth.__func__", "predict"]

ARGS = ["true", "1+1", "colorsys", "scratch_file", "x", "", "rb", "w"]


def split(name):
    m, _, c = name.rpartition(".")
    return m, c


class Hostile(arch.B):
    """random hostile trees"""

    def __init__(self, r, protocol=None, pool=None, scratch="scratch_file"):
        super().__init__(protocol if protocol is not None else r.choice([2, 2, 2, 1, 0]))
        self.r, self.pool, self.scratch = r, pool or CANARY, scratch
        self.made = []

    def name(self):
        r = self.r
        return r.choice(self.pool) if r.random() < .8 else r.choice(GOOD)

    # ------ harmless leaves
    def leaf(self):
        r = self.r
        k = r.randrange(6)
        if k < 3:
            return self.json(r.choice([1, None, "a", 2.5, True, [1], {"a": 1}] + [self.scratch if a == "scratch_file" else a for a in ARGS]))
        if k == 3:
            return self.list([self.json(1)])
        if k == 4:
            return self.array(np.arange(3.))
        return self.dict({"a": self.json(1)})

    def put(self, node):
        self.made.append(node)
        return node

    # ------ the name in each slot that carries one
    def slot(self, which, name, kid=None):
        kid = kid if kid is not None else self.leaf
        node = getattr(self, "s_" + which)(name, kid)
        if self.r.random() < .05:  # the same full name, divided elsewhere
            m, c = split(name)
            a, _, b = m.rpartition(".")
            if a and node.get("__module__") == m and node.get("__class__") == c:
                node["__module__"], node["__class__"] = a, b + "." + c
        return self.put(node)

    def path(self):
        """something that is a file (or not), but no member"""
        import os
        r, s = self.r, self.scratch
        b = os.path.basename(s)
        return r.choice([s, b, "./" + b, "../" + os.path.basename(os.path.dirname(s)) + "/" + b, "/etc/hostname", "/etc/passwd", "a.skops", "missing.bin", "~/x", "file://" + s, "schema.json", "", ".", "x/../" + b])

    def s_type(self, n, k): return self.type(n)
    def s_func(self, n, k): return self.func(n)
    def s_func0(self, n, k): return self.func0(n)
    def s_func0_wrap(self, n, k): return self.func0(n, *self.r.choice([("ufunc", "numpy"), ("expit", "scipy.special._ufuncs"), ("int", "builtins"), ("exp", "numpy")]))
    def s_funcmix(self, n, k): return dict(self.func(self.r.choice(GOOD)), content={"module_path": split(n)[0], "function": split(n)[1]})
    def s_obj(self, n, k): return self.obj(n)
    def s_objattrs(self, n, k): return self.obj(n, {"x": k(), "y": k()})
    def s_objstate(self, n, k): return self.obj(n, k())
    def s_list(self, n, k): return self.list([k()], n)
    def s_set(self, n, k): return self.set([self.json("true")], n)
    def s_tuple(self, n, k): return self.tuple([k()], n)
    def s_dict(self, n, k): return self.dict({"true": k()}, n)
    def s_dd(self, n, k): return self.defaultdict({"a": k()}, self.json(None), n)
    def s_ddmain(self, n, k): return self.node("DefaultDictNode", "collections.defaultdict", content=dict(main=self.dict({"a": k()}, n), default_factory=self.json(None)))
    def s_slice(self, n, k): return self.slice(1, 2, 3, n)
    def s_bytes(self, n, k): return self.bytes(b"true", n)
    def s_bytearray(self, n, k): return self.bytearray(b"true", n)
    def s_json(self, n, k): return dict(self.json("true"), **dict(zip(("__module__", "__class__"), split(n))))
    def s_reduce(self, n, k): return self.reduce(n, [k()])
    def s_reduce0(self, n, k): return self.reduce(n, [])
    def s_loss(self, n, k): return self.loss(n, [])
    def s_lossargs(self, n, k): return self.loss(n, [k()], self.dict({"a": k()}))
    def s_tree(self, n, k): return self.tree(self.tuple([self.json(1), self.array(np.array([2])), self.json(1)]), name=n)
    def s_qforest(self, n, k): return self.qforest(self.tuple([k()]), name=n)
    def s_array(self, n, k): return self.array(np.arange(2), n)
    def s_array_str(self, n, k): return self.array(np.array(self.r.choice(["true", self.scratch])), n)
    def s_objarray(self, n, k): return self.objarray([k()], name=n)
    def s_masked(self, n, k): return self.masked(self.array(np.arange(2)), self.array(np.array([True, False])), n)
    def s_dtype(self, n, k): return self.dtype(self.array(np.zeros(0)), n)
    def s_rs(self, n, k): return self.randomstate(self._rsstate("MT19937"), n)
    def s_gen(self, n, k): return self.generator(self._bgstate("PCG64"), self._seedseq(), n)
    def s_sparse(self, n, k): return self.sparse(sp.csr_matrix(np.eye(2)), n)
    def s_partial(self, n, k): return self.partial(self.func("numpy._core._multiarray_umath.exp"), name=n)
    def s_partfunc(self, n, k): return self.partial(self.func(n), [k()])
    def s_parttype(self, n, k): return self.partial(self.type(n), [k()], {"a": k()})
    def s_method(self, n, k): return self.method(self.obj("sklearn.linear_model._logistic.LogisticRegression", {}), self.r.choice(METHODS), n)
    def s_methobj(self, n, k): return self.method(self.obj(n, {}), self.r.choice(METHODS), self.r.choice(["builtins.method", "sklearn.linear_model._logistic.LogisticRegression", "builtins.int"]))
    def s_methtype(self, n, k): return self.method(self.type(n), self.r.choice(METHODS), self.r.choice(["builtins.method", "builtins.type"]))
    def s_methlie(self, n, k): return self.method(self._lying(n), self.r.choice(METHODS), "builtins.int")
    def s_opfunc(self, n, k): return self.opfunc(n, [self.json("true")])
    def s_opfunc0(self, n, k): return self.opfunc(n, [])
    def s_opname(self, n, k): return self.opfunc("operator." + split(n)[1], [self.json("true")])
    def s_opargs(self, n, k): return self.opfunc(self.r.choice(["operator.methodcaller", "operator.attrgetter"]), [self.json(n), k()])
    def s_keytype(self, n, k): return self.dict({"true": self.json(1)}, key_types=self.list([self.type(n)]))
    def s_keyfunc(self, n, k): return self.dict({"true": self.json(1)}, key_types=self.list([self.func(n)]))
    def s_keyobj(self, n, k): return self.dict({"true": self.json(1)}, key_types=self.tuple([self.obj(n)]))
    def s_factory(self, n, k): return self.defaultdict({"a": self.json(1)}, self.type(n))
    def s_bitgen(self, n, k): return self.generator(self._bgstate(self.r.choice(BITGEN + [n])), self._seedseq())
    def s_rsbitgen(self, n, k): return self.randomstate(self._rsstate(self.r.choice(BITGEN + [n])))
    def s_cached(self, n, k): return self.cached(self.r.choice([1001, 1002, 5, None, 1003]), n)
    def s_npy_pickle(self, n, k): return self.rawarray(pickled_npy(n))
    def s_npz_pickle(self, n, k): return self.rawsparse(pickled_npz(n))
    def s_npy_type(self, n, k): return dict(self.rawarray(pickled_npy(n)), type=self.r.choice(["numpy", "pickle", "json", "object"]))
    def s_file_bytes(self, n, k): return self.node("BytesNode", "builtins.bytes", file=self.path())
    def s_file_bytearray(self, n, k): return self.node("BytearrayNode", "builtins.bytearray", file=self.path())
    def s_file_npy(self, n, k): return self.node("NdArrayNode", self.r.choice(SCALARS), type="numpy", file=self.path())
    def s_file_npz(self, n, k): return self.node("SparseMatrixNode", "scipy.sparse._csr.csr_matrix", type="scipy", file=self.path())
    def s_file_any(self, n, k): return dict(self.r.choice([self.list([k()]), self.obj(n, {}), self.json("x"), self.type(n), self.func("numpy.exp"), self.dict({"a": k()})]), file=self.path())
    def s_npy_named(self, n, k): return dict(self.rawarray(self.r.choice(PAYLOADS)(n), self.r.choice(SCALARS)), type=self.r.choice(["numpy", "numpy", "numpy", "json", "pickle"]))
    def s_npz_named(self, n, k): return self.rawsparse(self.r.choice(PAYLOADS)(n), self.r.choice(SPARSE))
    def s_bytes_pickle(self, n, k): return self.bytes(pickled(n))
    def s_unknown(self, n, k): return dict(self.obj(n, {}), **{"__loader__": self.r.choice(["Node", "ReduceNode", "PickleNode", "", "DictNodes", n])})
    def s_dictwithdeprecated(self, n, k): return self.node("_DictWithDeprecatedKeysNode", n, content=dict(main=self.dict({}), _deprecated_key_to_new_key=self.dict({})))

    def _lying(self, n):
        """a node whose name is harmless but which constructs something else"""
        r = self.r
        return r.choice([lambda: dict(self.list([self.type(n)])), lambda: self.objarray([self.obj(n, {})], shape=()), lambda: self.partial(self.func(n), name="builtins.int"),
                         lambda: self.dict({"a": self.obj(n)}), lambda: self.dtype(self.objarray([self.obj(n)])), lambda: self.masked(self.obj(n), self.obj(n)), lambda: self.json("x")])()

    def _rsstate(self, bg):
        st = np.random.RandomState(0).get_state(legacy=False)
        return self.dict(dict(bit_generator=self.json(bg), state=self.dict(dict(key=self.array(st["state"]["key"]), pos=self.json(st["state"]["pos"]))), has_gauss=self.json(0), gauss=self.json(0.0)))

    def _bgstate(self, bg):
        s = np.random.PCG64(0).state
        if self.protocol == 0:
            return dict(bit_generator=bg, state=dict(s["state"]), has_uint32=0, uinteger=0)
        return self.dict(dict(bit_generator=self.json(bg), state=self.dict({k: self.json(int(v)) for k, v in s["state"].items()}), has_uint32=self.json(0), uinteger=self.json(0)))

    def _seedseq(self):
        return self.dict(dict(entropy=self.json(1), spawn_key=self.tuple([]), pool_size=self.json(4), n_children_spawned=self.json(0)))

    # ------ every place a node can be put in
    def context(self, which, x):
        return self.put(getattr(self, "c_" + which)(x))

    def c_listelem(self, x): return self.list([self.json(0), x])
    def c_tupleelem(self, x): return self.tuple([x, x])
    def c_setelem(self, x): return self.set([x])
    def c_dictval(self, x): return self.dict({"a": self.json(0), "b": x})
    def c_keytypes(self, x): return self.dict({"true": self.json(0)}, key_types=self.list([x]))
    def c_keytypes_tuple(self, x): return self.dict({"true": self.json(0)}, key_types=self.tuple([x]))
    def c_keytypes_self(self, x): return self.dict({"true": self.json(0)}, key_types=x)
    def c_keytypes_extra(self, x): return self.dict({"a": self.json(0)}, key_types=self.list([self.type("builtins.str"), x]))
    def c_odictval(self, x): return self.dict({"a": x}, name="collections.OrderedDict")
    def c_ddval(self, x): return self.defaultdict({"a": x}, self.json(None))
    def c_ddmain(self, x): return self.node("DefaultDictNode", "collections.defaultdict", content=dict(main=x, default_factory=self.json(None)))
    def c_ddfactory(self, x): return self.defaultdict({"a": self.json(1)}, x)
    def c_est(self, x): return self.obj("sklearn.linear_model._logistic.LogisticRegression", {"C": x, "coef_": x})
    def c_eststate(self, x): return self.obj("sklearn.linear_model._logistic.LogisticRegression", x)
    def c_objattr(self, x): return self.obj(self.r.choice(CLASSES), {"a": x})
    def c_objstate(self, x): return self.obj(self.r.choice(CLASSES + ["canary.S"]), x)
    def c_redarg(self, x): return self.reduce(self.r.choice(CLASSES), [x])
    def c_redcontent(self, x): return self.node("ConstructorFromReduceNode", self.r.choice(CLASSES), content=x)
    def c_partfunc(self, x): return self.partial(x)
    def c_partarg(self, x): return self.partial(self.type("builtins.int"), [x])
    def c_partargs(self, x): return dict(self.partial(self.type("builtins.int")), content=dict(func=self.type("builtins.int"), args=x, kwds=self.dict({}), namespace=self.json(None)))
    def c_partkw(self, x): return self.partial(self.type("builtins.int"), [], {"k": x})
    def c_partkwds(self, x): return dict(self.partial(self.type("builtins.int")), content=dict(func=self.type("builtins.int"), args=self.tuple([]), kwds=x, namespace=self.json(None)))
    def c_partns(self, x): return self.partial(self.type("builtins.int"), ns=x)
    def c_partnsval(self, x): return self.partial(self.type("builtins.int"), ns=self.dict({"a": x}))
    def c_methobj(self, x): return self.method(x, self.r.choice(METHODS))
    def c_oparg(self, x): return self.opfunc("operator.itemgetter", [x])
    def c_opattrs(self, x): return self.node("OperatorFuncNode", "operator.itemgetter", attrs=x)
    def c_cell(self, x): return self.objarray([x, self.json(1)])
    def c_shape(self, x): return self.node("NdArrayNode", "numpy.ndarray", type="json", content=[self.json(1)], shape=x)
    def c_shapeelem(self, x): return self.node("NdArrayNode", "numpy.ndarray", type="json", content=[self.json(1)], shape=self.tuple([x]))
    def c_mdata(self, x): return self.masked(x, self.array(np.array([False])))
    def c_mmask(self, x): return self.masked(self.array(np.array([1.])), x)
    def c_mfill(self, x): return self._with(self.masked(self.array(np.array([1.])), self.array(np.array([False]))), "fill_value", x)
    def c_mhard(self, x): return self._with(self.masked(self.array(np.array([1.])), self.array(np.array([False]))), "hard_mask", x)
    def c_dtype(self, x): return self.dtype(x)
    def c_rs(self, x): return self.randomstate(x)
    def c_rsin(self, x): return self.randomstate(self.dict(dict(bit_generator=self.json("MT19937"), state=x)))
    def c_genbg(self, x): return self.generator(x, self._seedseq())
    def c_genbgin(self, x): return self.generator(self.dict(dict(bit_generator=x)), self._seedseq())
    def c_genseed(self, x): return self.generator(self._bgstate("PCG64"), x)
    def c_genseedin(self, x): return self.generator(self._bgstate("PCG64"), self.dict(dict(entropy=x)))
    def c_lossarg(self, x): return self.loss("sklearn.linear_model._sgd_fast.Hinge", [x])
    def c_lossargs(self, x): return dict(self.loss("sklearn.linear_model._sgd_fast.Hinge"), __reduce__=dict(args=x))
    def c_losscontent(self, x): return self.loss("sklearn.linear_model._sgd_fast.Huber", [self.json(.1)], x)
    def c_losscontentin(self, x): return self.loss("sklearn.linear_model._sgd_fast.Hinge", [self.json(.1)], self.dict({"a": x}))
    def c_treearg(self, x): return self.tree(self.tuple([self.json(1), x, self.json(1)]))
    def c_treeargs(self, x): return self.tree(x)
    def c_treestate(self, x): return self.tree(self.tuple([self.json(1), self.array(np.array([2])), self.json(1)]), x)
    def c_qarg(self, x): return self.qforest(self.tuple([x]))
    def c_qstate(self, x): return self.qforest(self.tuple([]), x)
    def c_iattr(self, x): return dict(self.list([]), instance_attrs=self.dict({"a": x}))
    def c_iattrs(self, x): return dict(self.list([], self.r.choice(["canary.L", "builtins.list"])), instance_attrs=x)
    def c_iattrs_other(self, x): return dict(self.r.choice([self.obj("sklearn.linear_model._logistic.LogisticRegression", {}), self.json(1), self.array(np.zeros(1)), self.type("builtins.int"), self.bytes(b"a"), self.dict({})]), instance_attrs=x)
    def c_slicepart(self, x): return self.slice(x, 1, None)
    def c_extra(self, x): return dict(self.r.choice([self.list([]), self.obj("sklearn.pipeline.Pipeline", {}), self.loss("sklearn.linear_model._sgd_fast.Hinge"), self.array(np.zeros(1)), self.partial(self.func("scipy.special._ufuncs.expit")), self.opfunc("operator.itemgetter", [self.json(1)])]), **{self.r.choice(EXTRA_KEYS): x})

    def _with(self, node, key, x):
        node["content"][key] = x
        return node

    # ------ whole archives
    def tree_(self, depth):
        r = self.r
        x = self.slot(r.choice(SLOTS), self.name(), self.kid)
        for _ in range(depth):
            x = self.context(r.choice(CONTEXTS), x)
        return x

    def kid(self):
        r = self.r
        k = r.random()
        if k < .6:
            return self.leaf()
        if k < .75 and self.made:
            return r.choice(self.made)  # the same node again
        if k < .85 and self.made:
            return dict(self.leaf(), __id__=r.choice(self.made).get("__id__"))  # another node with a known id
        return self.slot(r.choice(SLOTS), self.name(), self.leaf)


EXTRA_KEYS = ["constructor", "class", "func", "function", "module_path", "name", "factory", "default_factory", "attrs", "__reduce__", "args", "kwds", "kwargs", "namespace", "state", "owner", "bit_generator",
              "__setstate__", "__new__", "dtype", "subclass", "type", "content", "key_types", "shape", "file", "instance_attrs", "__init__", "trusted", "is_json", "_constructed", "children"]
SLOTS = sorted(n[2:] for n in dir(Hostile) if n.startswith("s_"))
CONTEXTS = sorted(n[2:] for n in dir(Hostile) if n.startswith("c_"))


class _Call:
    def __init__(self, name):
        self.name = name

    def __reduce__(self):
        return (_resolve_marker, (self.name,))


def _resolve_marker(name):  # pragma: no cover - only referenced by pickles that must never be loaded
    raise RuntimeError("a pickle was loaded")


def pickled(name):
    m, c = split(name)
    return b"c" + (m or "canary").encode("utf-8", "replace") + b"\n" + c.encode("utf-8", "replace") + b"\n(tR."


def pickled_npy(name):
    buf = io.BytesIO()
    np.lib.format.write_array_header_1_0(buf, dict(descr="|O", fortran_order=False, shape=(1,)))
    return buf.getvalue() + pickled(name)


def pickled_npz(name):
    import zipfile
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        for n in ("format", "shape", "data", "indices", "indptr"):
            z.writestr(n + ".npy", pickled_npy(name))
    return buf.getvalue()


def structured_npy(name):
    buf = io.BytesIO()
    np.lib.format.write_array_header_1_0(buf, dict(descr=[("a", "|O"), ("b", "<i4")], fortran_order=False, shape=()))
    return buf.getvalue() + pickled(name)


def scalar_npy(name):
    buf = io.BytesIO()
    np.lib.format.write_array_header_2_0(buf, dict(descr="|O", fortran_order=True, shape=()))
    return buf.getvalue() + pickled(name)


def mixed_npz(name):
    """a genuine sparse matrix but for one of its parts"""
    import zipfile
    buf, out = io.BytesIO(), io.BytesIO()
    sp.save_npz(buf, sp.csr_matrix(np.eye(2)))
    with zipfile.ZipFile(buf) as z, zipfile.ZipFile(out, "w") as o:
        for n in z.namelist():
            o.writestr(n, pickled_npy(name) if n == "data.npy" else z.read(n))
        o.writestr("extra.npy", pickled_npy(name))
    return out.getvalue()


PAYLOADS = [pickled_npy, structured_npy, scalar_npy, pickled_npz, mixed_npz, pickled]
SCALARS = sorted({f"numpy.{n}" for n in dir(np) if isinstance(getattr(np, n), type) and issubclass(getattr(np, n), np.generic)}) + ["numpy.ndarray", "numpy.object", "numpy.memmap", "numpy.matrix", "numpy.recarray", "numpy.ma.MaskedArray"]
SPARSE = [f"scipy.sparse._{f}.{f}_{k}" for f in ("bsr", "coo", "csc", "csr", "dia", "dok", "lil") for k in ("matrix", "array")] + ["scipy.sparse.spmatrix", "numpy.ndarray"]


def members(r):
    """(label, builder, root): every loader that reads a member x every name it may go by x every dangerous content"""
    for p in (0, 1, 2):
        for f in PAYLOADS:
            for n in SCALARS:
                for t in ("numpy", "json"):
                    b = Hostile(r, p)
                    yield f"p{p}/npy/{n}/{t}/{f.__name__}", b, dict(b.rawarray(f("canary.A"), n), type=t)
            for n in SPARSE:
                for t in ("scipy", "numpy"):
                    b = Hostile(r, p)
                    yield f"p{p}/npz/{n}/{t}/{f.__name__}", b, dict(b.rawsparse(f("canary.A"), n), type=t)
            for n, mk in (("builtins.bytes", "bytes"), ("builtins.bytearray", "bytearray")):
                b = Hostile(r, p)
                yield f"p{p}/{mk}/{f.__name__}", b, getattr(b, mk)(f("canary.A"), n)


def enumerated(r, slots=None, contexts=None, names=None, protocols=(0, 1, 2)):
    """slot x context x name x protocol; yields (label, builder, root)"""
    for p in protocols:
        for s in slots or SLOTS:
            for n in names or ["canary.A"]:
                for c in contexts or [None] + CONTEXTS:
                    b = Hostile(r, p)
                    root = b.slot(s, n)
                    if c is not None:
                        root = b.context(c, root)
                    yield f"p{p}/{s}/{n}/{c}", b, root


# ------------------------------------------------------------- mutation of genuine archives
def mutate(r, schema, members, pool, donors=(), n=None):
    """a hostile variant of a genuine archive (schema, members)"""
    schema, members = copy.deepcopy(schema), dict(members)
    for _ in range(n or r.choice([1, 1, 2, 3, 5])):
        nodes = list(arch.walk(schema))
        if not nodes:
            break
        path, node = r.choice(nodes)
        k = r.randrange(12)
        name = r.choice(pool)
        m, c = split(name)
        if k < 3:
            node["__module__"], node["__class__"] = m, c
        elif k == 3:
            node["__loader__"] = r.choice(LOADERS)
        elif k == 4:
            node["__loader__"] = r.choice(LOADERS)
            node["__module__"], node["__class__"] = m, c
        elif k == 5:
            node["__id__"] = r.choice(nodes)[1].get("__id__")
        elif k == 6:
            other = copy.deepcopy(r.choice(nodes)[1])
            if path:
                arch.put(schema, path, other)
        elif k == 7 and donors:
            ds, dm = r.choice(donors)
            sub = copy.deepcopy(r.choice(list(arch.walk(ds)))[1])
            members.update({f: b for f, b in dm.items() if f not in members})
            if path:
                arch.put(schema, path, sub)
        elif k == 8:
            node[r.choice(EXTRA_KEYS)] = r.choice([m, c, name, {"__module__": m, "__class__": c, "__loader__": r.choice(["TypeNode", "FunctionNode", "ObjectNode"]), "__id__": r.randrange(10**6)}])
        elif k == 9:
            strs = [(p, v) for p, v in arch.walk_all(schema) if isinstance(v, str) and p]
            p, v = r.choice(strs)
            arch.put(schema, p, r.choice([name, m, c, json.dumps(name), "scratch_file", "./scratch_file", "/etc/hostname", r.choice(METHODS), r.choice(BITGEN), r.choice(LOADERS)]))
        elif k == 10:
            schema["protocol"] = r.choice([0, 1, 2, 2, 3, -1])
        elif k == 11:
            files = [f for f in members]
            if files:
                f = r.choice(files)
                members[f] = r.choice(PAYLOADS)(name)
                if r.random() < .5:
                    for _, x in nodes:
                        if x.get("file") == f:
                            x["__module__"], x["__class__"] = split(r.choice(SCALARS if f.endswith("npy") else SPARSE))
    return schema, members


LOADERS = ["DictNode", "DefaultDictNode", "ListNode", "SetNode", "TupleNode", "BytesNode", "BytearrayNode", "SliceNode", "FunctionNode", "MethodNode", "PartialNode", "TypeNode", "ConstructorFromReduceNode",
           "ObjectNode", "JsonNode", "OperatorFuncNode", "NdArrayNode", "MaskedArrayNode", "DTypeNode", "RandomStateNode", "RandomGeneratorNode", "SparseMatrixNode", "LossNode", "TreeNode", "QuantileForestNode", "CachedNode"]


def named(schema):
    """(module, full name) pairs that an archive names anywhere"""
    out = set()
    for _, v in arch.walk_all(schema):
        if isinstance(v, dict):
            for a, b in (("__module__", "__class__"), ("module_path", "function")):
                if isinstance(v.get(a), str) and isinstance(v.get(b), str):
                    out.add((v[a], f"{v[a]}.{v[b]}"))
    return out


def genuine(r=None):
    """archives that skops wrote itself"""
    import collections
    import functools
    import operator

    from sklearn.ensemble import GradientBoostingClassifier, RandomForestClassifier
    from sklearn.linear_model import LogisticRegression, SGDClassifier
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import FunctionTransformer, StandardScaler

    import skops.io as sio

    from . import zoo
    R = np.random.RandomState(0)
    X, y = R.rand(20, 3), R.randint(0, 2, 20)
    p = zoo.Plain(a=1, b=[np.arange(3)])
    dd = collections.defaultdict(list, a=[1])
    vals = dict(
        basic=[1, "a", 2.5, None, True, b"xx", bytearray(b"yy"), (1, 2), {1, 2}, {"a": 1, 2: "b", 2.5: None}, slice(1, 2)], np=[np.arange(3.), np.float32(1), np.array([1, "a"], object), np.dtype("f4"), np.exp, np.str_("a"), np.array([(1, 2.)], [("a", "i4"), ("b", "f8")])[0], np.array([(1, 2.)], [("a", "i4"), ("b", "f8")])],
        rng=[np.random.RandomState(1), np.random.default_rng(2)], ma=np.ma.MaskedArray([1., 2.], [0, 1], fill_value=-1.), sparse=sp.csr_matrix(np.eye(2)), obj=[p, p, p.meth, zoo.GetSetTuple(1, [2]), zoo.ReduceArgs(1, 2)],
        op=[operator.attrgetter("a"), operator.itemgetter(1), operator.methodcaller("upper"), functools.partial(zoo.func, 1, x=2)], dd=[dd, collections.OrderedDict(a=1), zoo.Point(1, 2), zoo.MyList([1]), zoo.Colour.RED, zoo.func, int],
        lr=LogisticRegression().fit(X, y), sgd=SGDClassifier(loss="hinge").fit(X, y), pipe=Pipeline([("s", StandardScaler()), ("f", FunctionTransformer(np.exp)), ("l", LogisticRegression())]).fit(X, y),
        rf=RandomForestClassifier(1, max_depth=1, random_state=np.random.RandomState(0)).fit(X, y), gb=GradientBoostingClassifier(n_estimators=1, max_depth=1).fit(X, y))
    return {k: arch.read(sio.dumps(v)) for k, v in vals.items()}
