"""Corruption of valid archives: bytes, members, schema."""
from __future__ import annotations

import copy
import io
import json
import struct
import zipfile

from . import arch, hostile

WEIRD = [None, True, False, -1, 0, 1, 2, 3.5, -0.0, 10**9, 10**30, 2**63, "", "x", "1", "null", "[]", "{}", [], {}, [[]], [None], {"a": 1}, [1, 2, 3], "\ud800", "\0", "a" * 5000, float("nan"), float("inf"), [[[[1]]]], {"": None},
         "schema.json", "../x", "/etc/passwd", ".", "..", "no.npy", "ünï", [True, False], {"__id__": 1}, "__class__", "builtins", "numpy", "int", [10**9], [10**12, 10**12], [-1], [0, 10**15], 255, 65536, "str", "json", "ListNode", "CachedNode", -(2**31)]
JSONS = ["", "null", "1e999", "-1e999", "NaN", "1" * 4400, "1" * 4000, "-" + "9" * 300, "[" * 2000, "[" * 200000, "{\"a\":" * 3000, "\"\\ud800\"", "tru", "\"", "{}", "[]", "{\"a\": 1, \"a\": 2}", "1.0", "0x10", "[1,2", " 1", "1 ", "true", "\"MT19937\"", "\"PCG64\"", "\"x\"", "4294967296", "-1", "18446744073709551616",
         "1000000", "0", "624", "100000000000"]
CLS = [hostile.split(n) for n in hostile.GOOD + ["vk.zoo.Plain", "vk.zoo.Sub", "vk.zoo.Colour", "vk.zoo.Slots", "builtins.NoneType", "builtins.type", "builtins.object", "builtins.range", "builtins.complex", "builtins.frozenset", "builtins.memoryview", "builtins.classmethod", "builtins.property",
                                                     "numpy.generic", "numpy.bool_", "numpy.number", "numpy.datetime64", "numpy.matrix", "numpy.record", "numpy.recarray", "numpy.memmap", "numpy.ufunc", "numpy.flatiter", "numpy.nditer", "numpy.broadcast", "numpy.random._mt19937.MT19937", "numpy.random.bit_generator.SeedSequence",
                                                     "sklearn.utils._bunch.Bunch", "sklearn.svm._classes.SVC", "sklearn.ensemble._forest.RandomForestClassifier", "sklearn.ensemble._gb.GradientBoostingClassifier", "scipy.sparse._coo.coo_matrix", "scipy.sparse._dia.dia_matrix", "scipy.sparse._bsr.bsr_matrix", "sklearn.linear_model._sgd_fast.Huber",
                                                     "sklearn._loss._loss.CyHuberLoss", "sklearn._loss.link.LogitLink", "sklearn._loss.loss.HalfBinomialLoss", "functools.partial", "operator.itemgetter", "operator.attrgetter", "operator.methodcaller", "collections.Counter", "collections.deque"]]


def node_paths(schema):
    return [(p, n) for p, n in arch.walk(schema) if p]


DEEP = "@@vk-deep-%d@@"


def schema_once(r, s, members, donors, deep):
    """one corruption of a schema in place; returns its name"""
    nodes = list(arch.walk(s))
    inner = [(p, n) for p, n in nodes if p]
    everything = [(p, v) for p, v in arch.walk_all(s) if p]
    if not nodes or not everything:
        s["content"] = r.choice(WEIRD)
        return "root"
    k = r.randrange(24)
    path, node = r.choice(nodes)
    if k <= 2:
        p, v = r.choice(everything)
        arch.put(s, p, copy.deepcopy(r.choice(WEIRD)))
        return "value"
    if k == 3:
        p, v = r.choice([(p, v) for p, v in everything if not isinstance(v, (dict, list))] or everything)
        if isinstance(v, bool) or not isinstance(v, int):
            v = r.choice([str(v)[::-1], str(v)[:-1], str(v) + "x", str(v).upper(), [v], {"a": v}, None])
        else:
            v = r.choice([v + 1, -v, v * 1000, v - 1, v ^ 1, str(v), float(v), v << 40])
        arch.put(s, p, v)
        return "tweak"
    if k == 4:
        if node:
            node.pop(r.choice(sorted(node)), None)
        return "drop-key"
    if k == 5:
        cands = [v for p, v in everything if isinstance(v, (dict, list)) and v]
        if cands:
            c = r.choice(cands)
            if isinstance(c, dict):
                c.pop(r.choice(list(c)))
            else:
                c.pop(r.randrange(len(c)))
        return "drop"
    if k == 6:
        cands = [v for p, v in everything if isinstance(v, list) and v]
        if cands:
            c = r.choice(cands)
            x = r.choice(c)
            c.extend([x] * r.choice([1, 1, 3, 100]) if r.random() < .5 else [copy.deepcopy(r.choice(WEIRD))])
        return "extend"
    if k == 7:
        node["__id__"] = r.choice(nodes)[1].get("__id__")
        return "repeat-id"
    if k == 8:
        for _, n in nodes:
            if "__id__" in n and r.random() < .5:
                n["__id__"] = r.choice([1, None, "1", nodes[0][1].get("__id__"), -1, 1.5, [1], {}])
        return "ids"
    if k in (9, 10):
        # a cycle: a reference below to a node above
        if inner:
            p, n = r.choice(inner)
            above = [x for q, x in nodes if q == p[:len(q)] and q != p]
            if above:
                a = r.choice(above)
                ref = {"__class__": a.get("__class__"), "__module__": a.get("__module__"), "__loader__": "CachedNode", "__id__": a.get("__id__")}
                if k == 9:
                    arch.put(s, p, ref)
                else:
                    n["__id__"] = a.get("__id__")
        return "cycle"
    if k == 11:
        if len(inner) > 1:
            (p, a), (q, b) = r.sample(inner, 2)
            if p[:len(q)] != q and q[:len(p)] != p:
                a, b = copy.deepcopy(a), copy.deepcopy(b)
                arch.put(s, p, b)
                arch.put(s, q, a)
        return "swap"
    if k == 12:
        if inner:
            p, n = r.choice(inner)
            arch.put(s, p, copy.deepcopy(r.choice(nodes)[1]))
        return "copy"
    if k == 13:
        if donors and inner:
            ds, dm = r.choice(donors)
            sub = copy.deepcopy(r.choice(list(arch.walk(ds)))[1])
            for f, b in dm.items():
                members.setdefault(f, b)
            arch.put(s, r.choice(inner)[0], sub)
        return "graft"
    if k == 14:
        node["__loader__"] = r.choice(hostile.LOADERS + ["Node", "", "TODO", "listnode"])
        return "loader"
    if k == 15:
        node["__module__"], node["__class__"] = r.choice(CLS)
        return "class"
    if k == 16:
        node["__loader__"] = r.choice(hostile.LOADERS)
        node["__module__"], node["__class__"] = r.choice(CLS)
        return "loader+class"
    if k == 17:
        files = [n for _, n in nodes if "file" in n]
        if files:
            n = r.choice(files)
            n["file"] = r.choice([r.choice(sorted(members) or ["x"]), "schema.json", "missing.npy", "", "..", "../../etc/passwd", "/", "\0", None, 5, [], {}, r.choice(files).get("file")])
        return "member-name"
    if k == 18:
        js = [n for _, n in nodes if n.get("__loader__") == "JsonNode"]
        if js:
            r.choice(js)["content"] = r.choice(JSONS)
        return "json"
    if k == 19:
        s["protocol"] = r.choice([0, 1, 2, 3, -1, 10**9, "2", None, 2.0, [], {}, True])
        return "protocol"
    if k == 20:
        node[r.choice(hostile.EXTRA_KEYS + ["__id__", "_skops_version", "protocol"])] = r.choice([copy.deepcopy(r.choice(WEIRD)), copy.deepcopy(r.choice(nodes)[1])])
        return "extra-key"
    if k == 21:
        ds = [n for _, n in nodes if isinstance(n.get("content"), dict)]
        if ds:
            d = r.choice(ds)
            c = d["content"]
            ks = list(c)
            for key in r.sample(ks, r.randrange(len(ks) + 1)) if ks else []:
                c[r.choice([key + "x", "", "1", "null", "a", r.choice(ks)])] = c.pop(key)
        return "keys"
    if k == 22:
        # deep nesting is written as text, json.dumps cannot
        p, n = r.choice(nodes)
        depth = r.choice([50, 200, 400, 1000, 3000, 20000, 100000])
        kind = r.choice(["list", "list", "tuple", "dict", "object", "bare", "partial", "method", "reduce", "array"])
        if kind == "array" and 120 < depth < 1000:
            depth = 120  # KNOWN_FINDINGS nested-arrays: what can still be made, but not be compared
        if kind == "bare" or p:
            deep.append((kind, depth, json.dumps(n)))
            arch.put(s, p, DEEP % (len(deep) - 1)) if p else s.update(content=DEEP % (len(deep) - 1))
        return "deep:" + kind
    if k == 23:
        # wide: many references to one node, or a ladder of shared nodes
        if inner and r.random() < .5:
            p, n = r.choice(inner)
            if isinstance(n.get("__id__"), int):
                ref = {"__class__": n.get("__class__"), "__module__": n.get("__module__"), "__loader__": "CachedNode", "__id__": n["__id__"]}
                arch.put(s, p, {"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "__id__": r.choice([10**7, n["__id__"]]), "content": [copy.deepcopy(n)] + [ref] * r.choice([1, 5, 60])})
        else:
            for key in ("__id__", "__loader__", "__class__", "__module__"):
                if r.random() < .3:
                    node[key] = copy.deepcopy(r.choice(WEIRD))
        return "wide"


def expand(kind, depth, inner):
    """the text of a deeply nested node"""
    pre = {"list": '{"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "__id__": %d, "content": [', "tuple": '{"__class__": "tuple", "__module__": "builtins", "__loader__": "TupleNode", "__id__": %d, "content": [',
           "dict": '{"__class__": "dict", "__module__": "builtins", "__loader__": "DictNode", "__id__": %d, "key_types": {"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": [{"__class__": "str", "__module__": "builtins", "__loader__": "TypeNode"}]}, "content": {"a": ',
           "object": '{"__class__": "LogisticRegression", "__module__": "sklearn.linear_model._logistic", "__loader__": "ObjectNode", "__id__": %d, "content": ', "bare": '[', "array": '{"__class__": "ndarray", "__module__": "numpy", "__loader__": "NdArrayNode", "type": "json", "shape": {"__class__": "tuple", "__module__": "builtins", "__loader__": "TupleNode", "content": []}, "__id__": %d, "content": [',
           "partial": '{"__class__": "partial", "__module__": "functools", "__loader__": "PartialNode", "__id__": %d, "content": {"func": ', "method": '{"__class__": "method", "__module__": "builtins", "__loader__": "MethodNode", "__id__": %d, "content": {"func": "fit", "obj": ',
           "reduce": '{"__class__": "Hinge", "__module__": "sklearn.linear_model._sgd_fast", "__loader__": "LossNode", "__id__": %d, "__reduce__": {"args": '}[kind]
    post = {"list": "]}", "tuple": "]}", "dict": "}}", "object": "}", "bare": "]", "array": "]}", "partial": "}}", "method": "}}", "reduce": "}}"}[kind]
    if "%d" not in pre:
        return pre * depth + inner + post * depth
    return "".join(pre % (20000000 + i) for i in range(depth)) + inner + post * depth


def text(s, deep):
    raw = json.dumps(s)
    for i, (kind, depth, inner) in enumerate(deep):
        raw = raw.replace(json.dumps(DEEP % i), expand(kind, depth, inner), 1)
    return raw


# ---------------------------------------------------------------- bytes
def flip(r, b, n=None):
    """bytes changed, cut, inserted, doubled, zeroed"""
    b = bytearray(b)
    done = []
    for _ in range(n or r.choice([1, 1, 1, 2, 4, 16])):
        if not b:
            b += bytes([r.randrange(256)])
            done.append("insert")
            continue
        i = r.randrange(len(b))
        # the ends hold the headers and the directory
        if r.random() < .3:
            i = r.randrange(max(0, len(b) - 120), len(b))
        elif r.random() < .2:
            i = r.randrange(min(len(b), 120))
        j = min(len(b), i + r.choice([1, 2, 4, 16, 200]))
        k = r.randrange(9)
        if k <= 2:
            b[i] ^= 1 << r.randrange(8)
        elif k == 3:
            b[i] = r.choice([0, 255, 127, 128, 32, 34, 39, 40, 44, 48, 57, 91, 93, 123])
        elif k == 4:
            del b[i:(len(b) if r.random() < .3 else j)]
        elif k == 5:
            b[i:i] = bytes(r.randrange(256) for _ in range(r.choice([1, 3, 50])))
        elif k == 6:
            b[i:j] = bytes(j - i)
        elif k == 7:
            b[i:i] = b[max(0, i - 40):i]
        elif k == 8:
            w = r.choice([2, 4, 8])
            if i + w <= len(b):
                b[i:i + w] = r.choice([b"\xff" * w, b"\0" * w, struct.pack("<Q", r.randrange(2**40))[:w], b"\x7f" + b"\xff" * (w - 1)])
        done.append("bytes%d" % k)
    return bytes(b), done


HEADS = [b"{'descr': '<f8', 'fortran_order': False, 'shape': (1000000000000,), }", b"{'descr': '<f8', 'fortran_order': False, 'shape': (-1,), }", b"{'descr': '<f8', 'fortran_order': True, 'shape': (0, 99999999999999999999), }", b"{'descr': '|O', 'fortran_order': False, 'shape': (3,), }",
         b"{'descr': '<U1000000000', 'fortran_order': False, 'shape': (3,), }", b"{'descr': [('a', '<f8', (1000000, 1000000))], 'fortran_order': False, 'shape': (2,), }", b"{'descr': '|V0', 'fortran_order': False, 'shape': (1000000000000000,), }", b"{'descr': '|S0', 'fortran_order': False, 'shape': (100,), }",
         b"{'descr': 'f8', 'shape': (1,)}", b"[]", b"()", b"{'descr': " + b"(" * 500 + b")" * 500 + b"}", b"{'descr': '<M8[ns]', 'fortran_order': False, 'shape': (), }", b"{'descr': 'garbage', 'fortran_order': False, 'shape': (1,), }", b"{'descr': [('a', 'O')], 'fortran_order': False, 'shape': (1,), }",
         b"{'descr': '<f8', 'fortran_order': 1, 'shape': [1], }", b"{'descr': '<f8', 'fortran_order': False, 'shape': (True, True), }", b"{'descr': '<f16', 'fortran_order': False, 'shape': (2,), }", b"{'descr': '<f8', 'fortran_order': False, 'shape': " + b"(1," * 40 + b")" * 40 + b", }", b"{'descr': '<f8', 'fortran_order': False, 'shape': (" + b"1," * 70 + b"), }", b"1" * 9000,
         b"{'descr': '<i8', 'fortran_order': False, 'shape': (0,), }", b"{'descr': '<f4', 'fortran_order': False, 'shape': (3, 3), }", b"{'descr': '|b1', 'fortran_order': False, 'shape': (2,), }", b"{'descr': '<c16', 'fortran_order': False, 'shape': (2,), }", b"{'descr': '<i1', 'fortran_order': False, 'shape': (1, 1, 1), }"]


def npy_head(r, b, version=None):
    """the same payload with another header"""
    body = b[-r.choice([0, 8, 24, 100]):] if b else b""
    h = r.choice(HEADS)
    v = version or r.choice([(1, 0), (1, 0), (2, 0), (3, 0), (4, 0), (0, 0), (255, 255)])
    n = len(h) if r.random() < .9 else r.choice([0, 1, 65535])
    return b"\x93NUMPY" + bytes(v) + (struct.pack("<H", n & 0xffff) if v[0] <= 1 else struct.pack("<I", n)) + h + body


def npz_edit(r, b):
    try:
        with zipfile.ZipFile(io.BytesIO(b)) as z:
            m = {n: z.read(n) for n in z.namelist()}
    except Exception:
        return flip(r, b)[0]
    n = r.choice(sorted(m))
    k = r.randrange(5)
    if k == 0:
        del m[n]
    elif k == 1:
        m[n] = npy_head(r, m[n])
    elif k == 2:
        m[n] = flip(r, m[n])[0]
    elif k == 3:
        m[n] = r.choice(sorted(m.values()))
    else:
        import numpy as np
        buf = io.BytesIO()
        np.save(buf, r.choice([np.array(b"csr"), np.array(b"dok"), np.array("coo"), np.array([1e300]), np.array([-5, 10**12]), np.array(10**15), np.array([2, 2]), np.array([10**9, 10**9]), np.array([[1, 2], [3, 4]]), np.array(["x"]), np.zeros(0), np.array([0, 10**9, 5], "i4"), np.array([2**31 - 1] * 4, "i4"), np.array(False)]))
        m[n] = buf.getvalue()
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        for a, c in m.items():
            z.writestr(a, c)
    return out.getvalue()


def member_once(r, members, donors):
    names = sorted(members)
    k = r.randrange(9)
    if not names or k == 0:
        members[r.choice(["extra.npy", "schema.json/x", "../evil", "/abs", "a/b/c", "ünï", "x" * 300, "dir/"])] = bytes(r.randrange(256) for _ in range(20))
        return "extra"
    n = r.choice(names)
    if k == 1:
        del members[n]
        return "missing"
    if k == 2:
        members[n] = flip(r, members[n])[0]
        return "member-bytes"
    if k == 3:
        members[n] = members[n][:r.randrange(len(members[n]) + 1)]
        return "member-cut"
    if k == 4:
        members[n] = r.choice([b"", b"\0" * 200, b"PK\3\4", b"\x93NUMPY", b"x", members[r.choice(names)]] + [m for _, dm in donors[:3] for m in list(dm.values())[:2]])
        return "member-other"
    if k in (5, 6):
        members[n] = npz_edit(r, members[n]) if members[n][:2] == b"PK" else npy_head(r, members[n])
        return "member-header"
    if k == 7:
        b = members[n]
        members[n] = b + b
        return "member-doubled"
    if members[n][:6] == b"\x93NUMPY" and len(members[n]) > 80:
        b = members[n]
        members[n] = b[:64] + flip(r, b[64:])[0] if r.random() < .5 else b[:10] + flip(r, b[10:80], 1)[0] + b[80:]
    return "member-payload"


def corrupt(r, data, schema, members, donors):
    """(corrupted bytes, names of the corruptions)"""
    done = []
    k = r.random()
    if k < .2:
        data, done = flip(r, data)
        return data, ["zip:" + x for x in done]
    schema, members, deep = copy.deepcopy(schema), dict(members), []
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        if r.random() < .25:
            done.append(member_once(r, members, donors))
        else:
            done.append(schema_once(r, schema, members, donors, deep))
    raw = text(schema, deep)
    if r.random() < .07:
        b, d = flip(r, raw.encode("utf-8", "surrogatepass"))
        raw = b
        done += ["schema:" + x for x in d]
    elif r.random() < .03:
        raw = r.choice(["", "null", "[]", "1", "{", '"x"', raw + raw, raw[:-1], "\ufeff" + raw, raw.replace(":", ": ").replace("[", "\t["), "[" * 100000, raw.replace('"__id__"', '"__id__": 5, "__id__"'), '{"a":' * 50000])
        done.append("schema-text")
    if isinstance(raw, str):
        raw = raw.encode("utf-8", "surrogatepass")
    buf = io.BytesIO()
    import warnings
    with warnings.catch_warnings(), zipfile.ZipFile(buf, "w", compression=r.choice([zipfile.ZIP_STORED, zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA])) as z:
        warnings.simplefilter("ignore")
        for n, b in members.items():
            z.writestr(n, b)
        if r.random() > .01:
            z.writestr("schema.json", raw)
        else:
            done.append("no-schema")
        if r.random() < .02 and members:
            z.writestr(r.choice(sorted(members) + ["schema.json"]), r.choice([b"dup", raw]))
            done.append("dup-member")
    data = buf.getvalue()
    if r.random() < .05:
        data, d = flip(r, data, 1)
        done += ["zip:" + x for x in d]
    return data, done


def rows(schema, cap=20000, depth=400):
    """how many rows a picture of the tree has when what is shared is drawn each time and cycles are followed until the recursion limit (up to cap)"""
    nodes = [n for _, n in arch.walk(schema)]

    def kids(n):
        out, stack = [], [v for v in reversed(list(n.values())) if isinstance(v, (dict, list))]
        while stack:
            v = stack.pop()
            if isinstance(v, dict) and "__loader__" in v:
                out.append(v)
            else:
                stack.extend(x for x in reversed(list(v.values()) if isinstance(v, dict) else v) if isinstance(x, (dict, list)))
        return out

    def key(n):
        i = n.get("__id__")
        return ("id", i) if i and isinstance(i, (int, str, float)) else ("no", id(n))  # what is falsy is not remembered
    if len({key(n) for n in nodes}) == len(nodes):
        return len(nodes)
    memo = {}
    stack = [schema]
    while stack:  # in the order in which nodes are made
        n = stack.pop()
        if key(n) in memo:
            continue
        memo[key(n)] = n
        stack.extend(reversed(kids(n)))
    cache = {}
    count, stack = 0, [(schema, 0)]
    while stack:
        n, d = stack.pop()
        count += 1
        if count > cap or d > depth:
            break
        n = memo.get(key(n), n)
        if id(n) not in cache:
            cache[id(n)] = kids(n)
        stack.extend((k, d + 1) for k in reversed(cache[id(n)]))
    return count
