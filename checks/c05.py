"""C05: supported data round-trips exactly, and stably."""
import operator

import numpy as np
import scipy.sparse as sp
import scipy.special

from vk import core, values, zoo
from vk.canon import canon, first_diff
from vk.rt import brief, types_in

RULE = ("a distinct evaluation is a value with a distinct canonical form (types, structure, contents, layout, sharing) that went "
        "through dumps/loads twice with both results compared to the original by the independent canonicaliser")
LEVEL = "exploration"
TECHNIQUE = "runtime round-trip monitor with an independent canonical-form oracle (types, bytes, layout, order, sharing, RNG streams)"
LEVEL_NOTE = "enumerates numpy dtypes x shapes x layouts x byte orders, every ufunc, type, bit generator and sparse format up to the stated sizes; seeded random composition beyond"
ASSUMPTIONS = ["dtype metadata and the align flag, which the npy format documents as not stored, are not part of the value",
               "the integer width of sparse index arrays is not part of the value"]
REQUIRED = {"values": 500, "streams": 40, "types_seen_total": 30}


def plan(tier, seed):
    n = 6000 if tier == "quick" else 360000
    sh = core.spread("random", n, 8 if tier == "quick" else 24, depth=3 if tier == "quick" else 4, timeout_s=840, budget_s=700)
    sh += [dict(name=x, timeout_s=840, part=p, parts=3) for x in ("dtypes",) for p in range(3)]
    sh += [dict(name="names", timeout_s=840), dict(name="rng", timeout_s=840, n=30 if tier == "quick" else 400),
           dict(name="sparse", timeout_s=840), dict(name="edge", timeout_s=840)]
    return sh


def check(ctx, v, label, finding=None):
    import skops.io as sio
    c0 = canon(v)
    try:
        d1 = sio.dumps(v)
        w = sio.loads(d1, trusted=sio.get_untrusted_types(data=d1))
    except Exception as e:
        ctx.violation("error", f"{label}: {type(e).__name__}: {e}; value {brief(v)}", finding=finding, value=brief(v, 600))
        return None
    ctx.ev(repr(c0))
    ctx.count("values")
    for t in types_in(c0):
        if ("t", t) not in ctx.keys_types:
            ctx.keys_types.add(("t", t))
            ctx.count("types_seen_total")
    if canon(v) != c0:
        ctx.violation("modified", f"{label}: dumping modified the value {brief(v)}")
    d = first_diff(c0, canon(w))
    if d:
        ctx.violation("changed", f"{label}: {d}; value {brief(v)}", finding=finding, value=brief(v, 600))
        return w
    try:
        d2 = sio.dumps(w)
        w2 = sio.loads(d2, trusted=sio.get_untrusted_types(data=d2))
    except Exception as e:
        ctx.violation("error-2nd", f"{label}: second trip {type(e).__name__}: {e}; value {brief(v)}", finding=finding)
        return w
    d = first_diff(c0, canon(w2))
    if d:
        ctx.violation("changed-2nd", f"{label}: second trip: {d}; value {brief(v)}", finding=finding)
    if first_diff(c0, canon(w)):
        ctx.violation("modified-2nd", f"{label}: dumping the loaded value modified it: {brief(v)}")
    if sio.get_untrusted_types(data=d1) != sio.get_untrusted_types(data=d2):
        ctx.violation("types-2nd", f"{label}: reported types differ after reloading: {brief(v)}")
    return w


def stream(g, n):
    """a sample of the stream of a generator, covering its cached values"""
    if isinstance(g, np.random.RandomState):
        out = [g.standard_normal(3), g.randint(0, 2**31, 5), g.random_sample(3), g.standard_normal(2), g.permutation(7), g.bytes(5)]
        return [canon(x, identity=False) for x in out]
    out = [g.standard_normal(3), g.integers(0, 2**16, 3, dtype="u2"), g.integers(0, 2**40, 5), g.random(3, dtype="f4"), g.permutation(7), g.bytes(5)]
    out = [canon(x, identity=False) for x in out]
    for k in g.spawn(2):
        out.append(canon(k.integers(0, 2**60, 3), identity=False))
    return out


def run(ctx, shard):
    ctx.keys_types = set()
    globals()["run_" + shard["name"]](ctx, shard)


def run_random(ctx, shard):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        g = values.Gen(r)
        v = g.supported(r.choice([1, 2, shard["depth"]]))
        ctx.sample(brief(v))
        check(ctx, v, f"random {i}")


CHARS = ["?", "b", "B", "h", "H", "i", "I", "l", "L", "q", "Q", "e", "f", "d", "g", "F", "D", "G", "S1", "S7", "U1", "U5", "V1", "V9",
         "M8", "M8[Y]", "M8[D]", "M8[s]", "M8[ns]", "M8[7ms]", "m8", "m8[W]", "m8[us]", "m8[as]", "S", "U", "V", "p", "P", "n", "N"]
STRUCTS = [[("a", "i4")], [("a", "i1"), ("b", ">f8")], [("a", "f4", (2,)), ("b", "U3")], [("x", [("y", "i2"), ("z", "S2")]), ("w", "?")],
           {"names": ["p", "q"], "formats": ["u1", "i8"], "offsets": [3, 8], "itemsize": 24},
           [(("title", "a"), "i4"), ("b", "M8[ns]")], [("é", "f2"), ("naïve name", "c8")], [("a", "i4", (2, 1)), ("b", [("c", "f8", (1,))])],
           {"names": [], "formats": [], "itemsize": 4}]
SHAPES = [(), (0,), (1,), (5,), (0, 3), (3, 0), (2, 3), (1, 4), (4, 1), (2, 3, 2), (2, 0, 2), (1, 1, 1), (2, 1, 2, 1), (70, 3)]


def run_dtypes(ctx, shard):
    todo = []
    for c in CHARS + STRUCTS:
        dts = [np.dtype(c)]
        if not isinstance(c, dict) and dts[0].newbyteorder() != dts[0]:
            dts.append(dts[0].newbyteorder())
        for dt in dts:
            todo.append(dt)
    g = values.Gen(ctx.rng("dtypes"))
    for k, dt in enumerate(todo):
        if k % shard["parts"] != shard["part"]:
            continue
        for sh in SHAPES:
            base = g.fill(sh, dt)
            variants = dict(C=base, F=np.asfortranarray(base))
            if base.ndim > 1:
                variants["T"] = base.T
                variants["sw"] = base.swapaxes(0, -1)
            if base.ndim:
                variants["rev"] = base[::-1]
                variants["step"] = base[::2]
            ro = base.copy()
            ro.flags.writeable = False
            variants["ro"] = ro
            for nm, a in variants.items():
                for _ in ctx.items([f"arr {k} {dt} {sh} {nm}"]):
                    check(ctx, a, f"array {dt} {sh} {nm}")
        for _ in ctx.items([f"dtype {k} {dt}"]):
            check(ctx, dt, f"dtype {dt}")
            check(ctx, [dt, {"d": dt}], f"dtype in list {dt}")
        for _ in ctx.items([f"scalar {k} {dt}"]):
            vals = g.fill((6,), dt)
            for x in vals:
                if isinstance(x, (np.str_, np.generic)) and not (isinstance(x, np.str_) and x.endswith("\0")):
                    check(ctx, x, f"scalar {dt}")
                    if dt.kind in "biufc" and x == x and dt.char != "G":
                        check(ctx, {x: 1, "k": x}, f"key {dt}")
        if dt.kind in "?biufcmM" or dt.kind == "U":
            for sh in SHAPES[:9]:
                for _ in ctx.items([f"masked {k} {dt} {sh}"]):
                    data = g.fill(sh, dt)
                    mask = g.np.random(sh) < .5
                    check(ctx, np.ma.MaskedArray(data, mask), f"masked {dt} {sh}")
                    check(ctx, np.ma.MaskedArray(np.asfortranarray(data), hard_mask=True), f"nomask {dt} {sh}")


def run_names(ctx, shard):
    import functools
    for mod in (np, scipy.special):
        for n in sorted(dir(mod)):
            u = getattr(mod, n)
            if isinstance(u, np.ufunc):
                for _ in ctx.items([f"ufunc {mod.__name__}.{n}"]):
                    w = check(ctx, u, f"ufunc {n}")
                    ctx.count("ufuncs")
                    if w is not None and w is not u:
                        ctx.violation("not-same", f"{mod.__name__}.{n} loads as {w!r}")
                    check(ctx, functools.partial(u, 1.0), f"partial {n}")
    for t in [int, float, str, bool, complex, list, dict, set, tuple, bytes, bytearray, frozenset, object, slice, range, type,
              *sorted(set(np.sctypeDict.values()), key=str), np.ndarray, np.dtype, zoo.Plain, zoo.Sub, zoo.Point, ValueError,
              np.random.RandomState, np.ma.MaskedArray, sp.csr_matrix, map]:
        for _ in ctx.items([f"type {t}"]):
            w = check(ctx, t, f"type {t}")
            if w is not None and w is not t:
                ctx.violation("not-same", f"{t} loads as {w!r}")
    i = 0
    ops = [operator.attrgetter("a"), operator.attrgetter("a.b"), operator.attrgetter("a", "b.c", "real"), operator.itemgetter(0),
           operator.itemgetter("k"), operator.itemgetter(1, "x", None, 2.5), operator.itemgetter(slice(0, 2)), operator.itemgetter((1, 2)),
           operator.itemgetter(np.int64(3)), operator.methodcaller("upper"), operator.methodcaller("split", ",", 1), operator.itemgetter(np.arange(3))]
    for op in ops:
        for _ in ctx.items([f"op {i}"]):
            w = check(ctx, op, f"op {op}")
        i += 1
    parts = [functools.partial(zoo.func), functools.partial(zoo.func, 1), functools.partial(int, base=2), functools.partial(functools.partial(zoo.func, 1)),
             functools.partial(np.exp, np.arange(3)), functools.partial(zoo.Plain, a=[1]), functools.partial(operator.itemgetter(0), [1])]
    p = functools.partial(zoo.func, x=1)
    p.note = [1, "x"]
    for q in parts + [p]:
        for _ in ctx.items([f"partial {i}"]):
            w = check(ctx, q, f"partial {q}")
        i += 1


def run_rng(ctx, shard):
    for i, r in ctx.cases(0, shard["n"] * 10):
        bg = values.BITGENS[i % 5]
        kind = (i // 5) % 2
        seed = r.choice([0, 1, r.randrange(2**32), r.getrandbits(128)])
        if kind:
            g = np.random.Generator(bg(np.random.SeedSequence(seed, spawn_key=(i % 3,), pool_size=r.choice([4, 8]))))
            for _ in range(r.randrange(6)):
                r.choice([lambda: g.standard_normal(1), lambda: g.integers(10, dtype="u4"), lambda: g.integers(9, dtype="u1"),
                          lambda: g.random(dtype="f4"), lambda: g.spawn(1), lambda: g.random(7)])()
        else:
            g = np.random.RandomState(bg(seed) if r.random() < .7 else seed % 2**32)
            for _ in range(r.randrange(6)):
                r.choice([lambda: g.standard_normal(1), lambda: g.randint(10), lambda: g.random_sample(3), lambda: g.bytes(3)])()
        w = check(ctx, g, f"{bg.__name__} kind {kind}")
        if w is not None:
            import skops.io as sio
            d = sio.dumps(w)
            w2 = sio.loads(d, trusted=sio.get_untrusted_types(data=d))
            s0, s1, s2 = stream(g, 5), stream(w, 5), stream(w2, 5)
            ctx.count("streams")
            if s0 != s1 or s0 != s2:
                ctx.violation("stream", f"{bg.__name__} kind {kind}: the loaded generator continues another stream: {first_diff(s0, s1) or first_diff(s0, s2)}")


def run_sparse(ctx, shard):
    g = values.Gen(ctx.rng("sparse"))
    k = 0
    for f in ("csr", "csc", "coo", "bsr", "dia"):
        for arr in (True, False):
            for dt in ("f8", "f4", "i8", "i4", "i2", "i1", "u1", "u2", "u4", "u8", "c8", "c16", "?", "g"):
                for sh in ((1, 1), (3, 4), (4, 6), (6, 2), (0, 3), (3, 0)):
                    if 0 in sh and f in ("bsr", "dia"):
                        continue
                    for dens in (0, .3, 1):
                        k += 1
                        for _ in ctx.items([f"sparse {k}"]):
                            d = g.fill(sh, np.dtype(dt))
                            d = np.nan_to_num(d) if d.dtype.kind in "fc" else d
                            d = np.where(g.np.random(sh) < dens, d, np.zeros((), d.dtype)).astype(dt)
                            m = (sp.coo_array(d) if arr else sp.coo_matrix(d)).asformat(f)
                            w = check(ctx, m, f"{f} {arr} {dt} {sh} {dens}")
                            if w is not None and not (np.asarray(w.todense()) == np.asarray(m.todense())).all():
                                ctx.violation("sparse-values", f"{f} {arr} {dt} {sh}: other values")


def run_edge(ctx, shard):
    import collections
    S = values.STRS
    items = [
        ("strs", [s for s in S]), ("ints", list(values.INTS)), ("floats", list(values.FLTS)),
        ("strkeys", {s: i for i, s in enumerate(S)}), ("intkeys", {i: str(i) for i in values.INTS}),
        ("fltkeys", {f: repr(f) for f in values.FLTS if f == f}), ("nan", {float("nan"): 1}),
        ("collide", {1: "i", "1": "s", 1.5: "f", "1.5": "g", "true": 1, "null": 2, "nan": 3, float("inf"): 4, "Infinity": 5}),
        ("collide2", {"1": "s", 1: "i", "1 ": "t", "1  ": "u"}), ("collide3", {np.float32(1.5): 1, "1.5": 2, np.int8(2): 3, "2": 4, 2.25: 5}),
        ("od", collections.OrderedDict([("z", 1), ("a", 2), (3, 4), ("3", 5)])), ("odmoved", _moved()),
        ("dd", collections.defaultdict(list, {"z": [1], 2: []})), ("ddnone", collections.defaultdict(None, {1: 2})),
        ("ddnested", collections.defaultdict(dict, {"a": collections.defaultdict(int, {1: 1})})),
        ("deep", _deep(60)), ("wide", list(range(3000))), ("tupset", {(1, "a"), (2, (3, b"x"))}), ("empty", [[], (), {}, set(), b"", bytearray(), ""]),
        ("slices", [slice(None), slice(1, None, -1), slice("a", 2.5, None), slice(True, False), slice(10**30)]),
        ("bytes", [bytes(range(256)), bytearray(range(256)), b"", bytearray()]), ("bigbytes", bytes(1 << 20)),
        ("bignum", np.arange(1 << 18).reshape(512, 512).T), ("oarr", np.array([None, "a", 1, 2.5, True], object)),
        ("oarr2", np.array([[1, "x"], [None, 2.5]], object)), ("oarr_t", np.array([[1, "x", 2], [None, 2.5, "y"]], object).T),
        ("oarr3", np.array([[[1], [None]]], object)), ("oarr_np", np.array([np.float32(1.5), np.int8(3), np.str_("a"), np.bool_(True)], object)),
        ("oarr_strided", np.array([1, None, "b", 4.5], object)[::-2]),
        ("shared", _shared()), ("npkeys", {np.float16(.5): 1, np.longdouble("0.1"): 2, np.complex64(1j): 3, np.bool_(True): 4}),
        ("npboolkeys", {np.bool_(False): 0}), ("negzero", {-0.0: 1, "a": -0.0}), ("bool1", {True: 1}), ("bool0", {False: 1, 2: 3}),
        ("intbig", {10**30: 1, -10**30: 2}), ("ma", np.ma.masked_array([1., 2.], [True, False], fill_value=-1)),
        ("mastr", np.ma.masked_array(["a", "b"], [0, 1])), ("ma0", np.ma.masked_array(3., True)), ("mastruct", np.ma.array([(1, 2.)], dtype="i4,f8", mask=[(1, 0)])),
        ("mashrunk", np.ma.masked_array([1, 2, 3], [0, 0, 0])), ("setmix", {1, "1", 1.5, None, b"1", (1,)}),
    ]
    for nm, v in ctx.items(items, "edge "):
        check(ctx, v, nm)
    findings = [("clongdouble-key", {np.clongdouble(1 + 2j): 1}), ("npstr-trailing-nul", np.str_("a\0")), ("subarray-dtype", np.dtype((int, (2,)))),
                ("overlapping-fields", np.zeros(2, {"names": ["a", "b"], "formats": ["i4", "i2"], "offsets": [0, 2]}))]
    for nm, v in ctx.items(findings, "finding "):
        check(ctx, v, nm, finding=nm)


def _moved():
    import collections
    d = collections.OrderedDict([("a", 1), ("b", 2), ("c", 3)])
    d.move_to_end("a")
    return d


def _deep(n):
    x = "leaf"
    for i in range(n):
        x = [x] if i % 2 else {"k": x}
    return x


def _shared():
    a = np.arange(4)
    l = [a, a]
    return {"x": l, "y": [l, a, (a,)]}
