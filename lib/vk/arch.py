"""Reading, writing, walking, normalising and mutating skops archives (no skops code is used)."""
from __future__ import annotations

import copy
import hashlib
import io
import json
import zipfile


def read(data):
    """(schema, {member: bytes}) of an archive"""
    src = io.BytesIO(data) if isinstance(data, (bytes, bytearray, memoryview)) else data
    with zipfile.ZipFile(src) as z:
        members = {n: z.read(n) for n in z.namelist()}
    return json.loads(members.pop("schema.json")), members


def write(schema, members, compression=zipfile.ZIP_STORED, raw_schema=None, dup=()):
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", compression=compression) as z:
        for n, b in members.items():
            z.writestr(n, b)
        z.writestr("schema.json", json.dumps(schema) if raw_schema is None else raw_schema)
    return buf.getvalue()


def walk(x, path=()):
    """all dicts that are nodes, with their path"""
    stack = [(x, path)]
    while stack:
        o, p = stack.pop()
        if isinstance(o, dict):
            if "__loader__" in o:
                yield p, o
            for k in reversed(list(o)):
                stack.append((o[k], p + (k,)))
        elif isinstance(o, list):
            for i in range(len(o) - 1, -1, -1):
                stack.append((o[i], p + (i,)))


def walk_all(x, path=()):
    """every JSON value with its path"""
    stack = [(x, path)]
    while stack:
        o, p = stack.pop()
        yield p, o
        if isinstance(o, dict):
            for k in reversed(list(o)):
                stack.append((o[k], p + (k,)))
        elif isinstance(o, list):
            for i in range(len(o) - 1, -1, -1):
                stack.append((o[i], p + (i,)))


def get(x, path):
    for k in path:
        x = x[k]
    return x


def put(x, path, val):
    """value at path replaced (in place; returns the possibly new root)"""
    if not path:
        return val
    get(x, path[:-1])[path[-1]] = val
    return x


def normalise(data):
    """A form of the archive in which object ids and member names are replaced by ordinals.

    Two archives of the same object are identical up to ids/uuids iff their forms are equal.
    """
    schema, members = read(data)
    schema = copy.deepcopy(schema)
    ids, files = {}, {}
    for _, n in walk(schema):
        if not isinstance(n["__loader__"], str):
            continue  # a mapping with such a key
        if isinstance(n.get("__id__"), int):
            n["__id__"] = ids.setdefault(n["__id__"], len(ids))
        if "file" in n and isinstance(n["file"], str):
            n["file"] = files.setdefault(n["file"], f"f{len(files)}." + n["file"].rpartition(".")[2])
    mem = {}
    for name, b in members.items():
        mem[files.get(name, "unreferenced:" + name)] = member_digest(name, b)
    return json.dumps(schema), json.dumps(sorted(mem.items()))


def member_digest(name, b):
    if name.endswith(".npz"):
        # a zip in a zip: its time stamps are not part of the value
        try:
            with zipfile.ZipFile(io.BytesIO(b)) as z:
                return sorted((n, member_digest(n, z.read(n))) for n in z.namelist())
        except zipfile.BadZipFile:
            pass
    if name.endswith(".npy"):
        b = _npy(b)
    return hashlib.sha1(b).hexdigest()


def _npy(b):
    """an .npy member without the padding of its elements, which is uninitialised memory"""
    import numpy as np
    from .canon import array_bytes
    try:
        src = io.BytesIO(b)
        a = np.load(src, allow_pickle=False)
        if a.dtype.kind in "biufcSUmM" and a.dtype.itemsize <= 8:
            return b
        return repr((a.dtype.descr, a.shape, a.flags.f_contiguous, b[src.tell():], array_bytes(a))).encode()
    except Exception:
        return b


def shape(schema):
    """structure only: loaders and keys (used to count distinct archives)"""
    def f(o):
        if isinstance(o, dict):
            return [o.get("__loader__"), sorted(k for k in o if not k.startswith("__")),
                    [f(v) for v in o.values() if isinstance(v, (dict, list))]]
        if isinstance(o, list):
            return [f(v) for v in o if isinstance(v, (dict, list))]
        return None
    return hashlib.sha1(json.dumps(f(schema), default=str).encode()).hexdigest()


# ---------------------------------------------------------------- hand written nodes
class B:
    """builder of schema nodes"""

    def __init__(self, protocol=2):
        self.n = 1000
        self.members = {}
        self.protocol = protocol

    def id(self):
        self.n += 1
        return self.n

    def node(self, loader, name, **kw):
        mod, _, cls = name.rpartition(".")
        return dict({"__class__": cls, "__module__": mod, "__loader__": loader}, **kw, __id__=self.id())

    def json(self, v):
        return self.node("JsonNode", "builtins.str", content=json.dumps(v), is_json=True)

    def list(self, items, name="builtins.list"):
        return self.node("ListNode", name, content=list(items))

    def set(self, items, name="builtins.set"):
        return self.node("SetNode", name, content=list(items))

    def tuple(self, items, name="builtins.tuple"):
        return self.node("TupleNode", name, content=list(items))

    def dict(self, d, name="builtins.dict", key_types=None):
        kt = key_types if key_types is not None else self.list([self.type("builtins.str") for _ in d])
        return self.node("DictNode", name, content=dict(d), key_types=kt)

    def defaultdict(self, d, factory, name="collections.defaultdict"):
        return self.node("DefaultDictNode", name, content=dict(main=self.dict(d), default_factory=factory))

    def type(self, name):
        return self.node("TypeNode", name)

    def func(self, name):
        return self.node("FunctionNode", name)

    def func0(self, name, cls="builtin_function_or_method", mod="builtins"):
        m, _, f = name.rpartition(".")
        return dict({"__class__": cls, "__module__": mod, "__loader__": "FunctionNode",
                     "content": {"module_path": m, "function": f}}, __id__=self.id())

    def obj(self, name, attrs=None):
        n = self.node("ObjectNode", name)
        if attrs is not None:
            n["content"] = self.dict(attrs) if isinstance(attrs, dict) and "__loader__" not in attrs else attrs
        return n

    def reduce(self, name, args):
        return self.node("ConstructorFromReduceNode", name, content=self.tuple(args))

    def method(self, obj, func, name="builtins.method"):
        return self.node("MethodNode", name, content=dict(func=func, obj=obj))

    def partial(self, func, args=(), kwds=None, ns=None, name="functools.partial"):
        return self.node("PartialNode", name, content=dict(
            func=func, args=self.tuple(args), kwds=self.dict(kwds or {}), namespace=self.json(None) if ns is None else ns))

    def opfunc(self, name, args):
        return self.node("OperatorFuncNode", name, attrs=self.tuple(args))

    def slice(self, a=None, b=None, c=None, name="builtins.slice"):
        return self.node("SliceNode", name, content=dict(start=a, stop=b, step=c))

    def file(self, suffix, data):
        f = f"m{len(self.members)}.{suffix}"
        self.members[f] = data
        return f

    def bytes(self, data, name="builtins.bytes"):
        return self.node("BytesNode", name, file=self.file("bin", data))

    def bytearray(self, data, name="builtins.bytearray"):
        return self.node("BytearrayNode", name, file=self.file("bin", data))

    def array(self, a, name="numpy.ndarray"):
        import numpy as np
        buf = io.BytesIO()
        np.save(buf, a, allow_pickle=False)
        return self.node("NdArrayNode", name, type="numpy", file=self.file("npy", buf.getvalue()))

    def rawarray(self, data, name="numpy.ndarray"):
        return self.node("NdArrayNode", name, type="numpy", file=self.file("npy", data))

    def objarray(self, items, shape=None, name="numpy.ndarray"):
        shape = (len(items),) if shape is None else shape
        return self.node("NdArrayNode", name, type="json", content=list(items),
                         shape=self.tuple([self.json(x) for x in shape]))

    def masked(self, data, mask, name="numpy.ma.MaskedArray"):
        return self.node("MaskedArrayNode", name, content=dict(data=data, mask=mask))

    def dtype(self, content, name="numpy.dtype"):
        return self.node("DTypeNode", name, content=content)

    def randomstate(self, content, name="numpy.random.mtrand.RandomState"):
        return self.node("RandomStateNode", name, content=content)

    def generator(self, bg, seed_seq=None, name="numpy.random._generator.Generator"):
        c = dict(bit_generator=bg)
        if seed_seq is not None:
            c["seed_seq"] = seed_seq
        return self.node("RandomGeneratorNode", name, content=c)

    def sparse(self, m, name=None):
        import scipy.sparse as sp
        buf = io.BytesIO()
        sp.save_npz(buf, m)
        t = type(m)
        return self.node("SparseMatrixNode", name or f"{t.__module__}.{t.__name__}", type="scipy",
                         file=self.file("npz", buf.getvalue()))

    def rawsparse(self, data, name="scipy.sparse._csr.csr_matrix"):
        return self.node("SparseMatrixNode", name, type="scipy", file=self.file("npz", data))

    def loss(self, name, args=(), content=None):
        return self.node("LossNode", name, __reduce__=dict(args=self.tuple(args)),
                         content=content if content is not None else self.dict({}))

    def tree(self, args, content=None, name="sklearn.tree._tree.Tree"):
        return self.node("TreeNode", name, __reduce__=dict(args=args),
                         content=content if content is not None else self.dict({}))

    def qforest(self, args, content=None, name="quantile_forest._quantile_forest_fast.QuantileForest"):
        return self.node("QuantileForestNode", name, __reduce__=dict(args=args),
                         content=content if content is not None else self.dict({}))

    def cached(self, id_, name="builtins.list"):
        mod, _, cls = name.rpartition(".")
        return {"__class__": cls, "__module__": mod, "__loader__": "CachedNode", "__id__": id_}

    def archive(self, root, **kw):
        root = dict(root)
        root["protocol"] = self.protocol
        root["_skops_version"] = "0.11"
        return write(root, self.members, **kw)
