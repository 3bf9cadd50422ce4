"""C12: archives are well-formed and independent of sink and compression."""
import hashlib
import io
import json
import os
import pathlib
import tempfile
import warnings
import zipfile

import numpy as np

from vk import arch, core, estimators as es, values, zoo
from vk.canon import canon, first_diff
from vk.rt import brief

RULE = ("a distinct evaluation is one dumped value (by archive structure) and the sink/compression variants of it that were written and compared; non-trivial = the archive has at least two nodes or a member beside the schema")
LEVEL = "exploration"
TECHNIQUE = "runtime monitor of dump/dumps outputs: independent parser of the zip and strict JSON schema (node metadata, member references), normalised comparison across str path/Path/open file/pipe/dumps and all compression methods and levels, loaded values compared"
LEVEL_NOTE = "seeded random supported and arbitrary values, all catalogue values, fitted estimators; every compression method x level; sinks: str, Path, relative, existing longer file, buffered/unbuffered/positioned file, BytesIO, SpooledTemporaryFile, pipe"
REQUIRED = {"archives": 500, "nodes": 5000, "members": 500, "variants": 2000, "sink:pipe": 10, "sink:path": 50, "compressions": 12, "loaded": 300}

COMPRESSIONS = [(zipfile.ZIP_STORED, None)] + [(zipfile.ZIP_DEFLATED, l) for l in [None] + list(range(10))] + [(zipfile.ZIP_BZIP2, l) for l in [None, 1, 5, 9]] + [(zipfile.ZIP_LZMA, None)]


def plan(tier, seed):
    q = tier == "quick"
    return (core.spread("random", 2400 if q else 120000, 8 if q else 16, timeout_s=850) + [dict(name="specials", part=p, parts=2, timeout_s=850) for p in range(2)]
            + [dict(name="models", n=120 if q else 3000, timeout_s=850), dict(name="large", big=not q, timeout_s=850), dict(name="repeat", timeout_s=850)])


def run(ctx, shard):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    os.chdir(ctx.tmpdir())
    globals()["run_" + shard["name"]](ctx, shard)
    os.chdir("/")


# ---------------------------------------------------------------- well-formedness
def nodup(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise ValueError(f"duplicate keys in a JSON object: {[k for k, _ in pairs][:9]}")
    return d


def noconst(c):
    raise ValueError(f"{c} is not JSON")


META = ("__class__", "__module__", "__loader__", "__id__")


def malformed(data, ctx=None):
    """what is wrong with an archive, as a list of strings"""
    import skops
    from skops.io._protocol import PROTOCOL
    bad = []
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
        broken = z.testzip()
        if broken:
            bad.append(f"member {broken} is broken")
    except Exception as e:
        return [f"not a zip file: {type(e).__name__}: {e}"]
    names = z.namelist()
    if len(set(names)) != len(names):
        bad.append(f"member names repeat: {sorted(n for n in set(names) if names.count(n) > 1)[:3]}")
    for n in names:
        if not n or "/" in n or "\\" in n or n in (".", "..") or ":" in n or n != os.path.basename(n) or n.startswith("~") or "\0" in n:
            bad.append(f"member name {n!r} is not flat")
    if "schema.json" not in names:
        return bad + ["no schema.json"]
    raw = z.read("schema.json")
    try:
        schema = json.loads(raw.decode("utf-8"), object_pairs_hook=nodup, parse_constant=noconst)
    except Exception as e:
        return bad + [f"schema.json: {type(e).__name__}: {e}"]
    if not isinstance(schema, dict):
        return bad + ["schema.json is not an object"]
    if type(schema.get("protocol")) is not int or schema["protocol"] != PROTOCOL:
        bad.append(f"protocol {schema.get('protocol')!r}")
    if schema.get("_skops_version") != skops.__version__:
        bad.append(f"_skops_version {schema.get('_skops_version')!r}")
    used = set()
    n = 0
    stack = [(schema, "", "node")]
    while stack:
        o, path, role = stack.pop()
        if isinstance(o, list):
            stack += [(x, f"{path}/{i}", role if role == "any" else "node") for i, x in enumerate(o) if isinstance(x, (dict, list))]
            continue
        if not isinstance(o, dict):
            continue
        looks = any(k in o and not isinstance(o[k], (dict, list)) for k in META)
        if role == "node" or looks:
            n += 1
            for k in META[:3]:
                if not isinstance(o.get(k), str) or not o.get(k):
                    bad.append(f"node {path or '/'} has {k}={o.get(k)!r}")
            if type(o.get("__id__")) is not int:
                bad.append(f"node {path or '/'} has __id__={o.get('__id__')!r}")
            if isinstance(o.get("file"), str):
                used.add(o["file"])
                if o["file"] not in names:
                    bad.append(f"node {path} refers to the member {o['file']}, which does not exist")
                elif o["file"] == "schema.json":
                    bad.append(f"node {path} refers to the schema")
            for k, v in o.items():
                if isinstance(v, (dict, list)) and k not in ("protocol", "_skops_version"):
                    stack.append((v, f"{path}/{k}", "mapping" if k in ("content", "__reduce__") else "node"))
        else:  # a mapping from keys to nodes
            stack += [(v, f"{path}/{k}", "node") for k, v in o.items() if isinstance(v, (dict, list))]
    for m in names:
        if m != "schema.json" and m not in used:
            bad.append(f"no node refers to the member {m}")
    if ctx is not None:
        ctx.count("archives")
        ctx.count("nodes", n)
        ctx.count("members", len(names) - 1)
    return bad


# ---------------------------------------------------------------- sinks
def sink_str(r, v, kw, sio):
    p = os.path.join(os.getcwd(), "s.skops")
    sio.dump(v, p, **kw)
    return _rd(p)


def sink_rel(r, v, kw, sio):
    os.makedirs("sub dir", exist_ok=True)
    p = r.choice(["rel.skops", "./rel.bin", "sub dir/é.x", "sub dir/../noext"])
    sio.dump(v, p, **kw)
    return _rd(p)


def sink_path(r, v, kw, sio):
    p = pathlib.Path("p.skops").absolute() if r.random() < .5 else pathlib.Path("p.skops")
    sio.dump(v, p, **kw)
    return _rd(p)


def sink_existing(r, v, kw, sio):
    p = "longer.skops"
    with open(p, "wb") as f:
        f.write(b"PK\3\4" + b"old content" * 30000)
    sio.dump(v, r.choice([p, pathlib.Path(p)]), **kw)
    return _rd(p)


def sink_file(r, v, kw, sio):
    with open("f.skops", r.choice(["wb", "w+b"]), **r.choice([{}, {"buffering": 0}])) as f:
        sio.dump(v, f, **kw)
        if f.closed:
            raise AssertionError("dump closed the file")
    return _rd("f.skops")


def sink_positioned(r, v, kw, sio):
    pre = b"x" * r.randrange(1, 99)
    with open("o.skops", "wb") as f:
        f.write(pre)
        sio.dump(v, f, **kw)
    b = _rd("o.skops")
    if not b.startswith(pre):
        raise AssertionError("what the file held before its position was overwritten")
    return b[len(pre):]


def sink_bytesio(r, v, kw, sio):
    b = r.choice([io.BytesIO, lambda: tempfile.SpooledTemporaryFile(max_size=100)])()
    sio.dump(v, b, **kw)
    b.seek(0)
    return b.read()


def sink_pipe(r, v, kw, sio):
    import threading
    a, b = os.pipe()
    out = []
    t = threading.Thread(target=lambda: out.append(os.fdopen(a, "rb").read()))
    t.start()
    try:
        with os.fdopen(b, "wb") as f:
            sio.dump(v, f, **kw)
    finally:
        t.join()
    return out[0]


def sink_dumps(r, v, kw, sio):
    d = sio.dumps(v, **kw)
    if type(d) is not bytes:
        raise AssertionError(f"dumps returned {type(d)}")
    return d


def _rd(p):
    with open(p, "rb") as f:
        b = f.read()
    os.unlink(p)
    return b


SINKS = {k[5:]: f for k, f in list(globals().items()) if k.startswith("sink_")}


def check(ctx, r, v, label, nvar=4, load=True):
    import skops.io as sio
    try:
        base = sio.dumps(v)
    except Exception:
        ctx.count("refused")
        return
    bad = malformed(base, ctx)
    s, m = None, None
    if bad:
        ctx.violation("malformed", f"{label}: {bad[:3]}; {brief(v)}")
        return
    s, m = arch.read(base)
    ctx.ev((arch.shape(s), len(m)))
    ref = arch.normalise(base)
    w = None
    if load:
        try:
            w = canon(sio.loads(base, trusted=sio.get_untrusted_types(data=base)), identity=True)
            ctx.count("loaded")
        except Exception as e:
            w = ["raises", type(e).__name__]
    for k in range(nvar):
        sn = r.choice(sorted(SINKS))
        comp, lvl = r.choice(COMPRESSIONS)
        kw = {} if r.random() < .25 else {"compression": comp} if lvl is None else {"compression": comp, "compresslevel": lvl}
        what = f"{label}: sink {sn} {kw}"
        try:
            d = SINKS[sn](r, v, kw, sio)
        except Exception as e:
            ctx.violation("sink", f"{what}: {type(e).__name__}: {e}; dumps did not fail; {brief(v)}")
            continue
        ctx.count("variants")
        ctx.count("sink:" + sn)
        ctx.keys_seen.add(tuple(sorted(kw.items())))
        bad = malformed(d)
        if bad:
            ctx.violation("malformed", f"{what}: {bad[:3]}; {brief(v)}")
            continue
        got = arch.normalise(d)
        if got != ref:
            i = 0 if got[0] != ref[0] else 1
            j = next((j for j, (a, b) in enumerate(zip(got[i], ref[i])) if a != b), 0)
            ctx.violation("differs", f"{what}: {'schema' if i == 0 else 'members'}: ...{ref[i][max(0, j - 60):j + 60]}... vs ...{got[i][max(0, j - 60):j + 60]}...; {brief(v)}")
            continue
        if load and k == 0:
            try:
                x = canon(sio.loads(d, trusted=sio.get_untrusted_types(data=d)), identity=True)
            except Exception as e:
                x = ["raises", type(e).__name__]
            if random_free(w) and x != w:
                ctx.violation("loads-differently", f"{what}: {first_diff(w, x)}; {brief(v)}")


def random_free(c):
    return "#" not in str(c)  # tokens of things that are different each time they are made


def run_random(ctx, shard):
    ctx.keys_seen = set()
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        g = values.Gen(r)
        try:
            v = g.anything(r.choice([1, 2, 3])) if r.random() < .6 else g.supported(r.choice([2, 3, 4]))
        except Exception:
            continue
        ctx.sample(brief(v))
        check(ctx, r, v, f"random {i}")
    ctx.count("compressions", len(ctx.keys_seen))


def run_specials(ctx, shard):
    ctx.keys_seen = set()
    for k, (name, thunk) in enumerate(values.SPECIALS):
        if k % shard["parts"] != shard["part"]:
            continue
        for cn, c in dict(bare=lambda x: x, twice=lambda x: [x, {"a": x}], attr=lambda x: zoo.Plain(v=x, file="x.npy", content={"file": "y"}), keys=lambda x: {"file": x, "__id__": 1, "__loader__": "x", "protocol": 3, "schema.json": x, "content": [x]},
                          after=lambda x: {1: 1, "a": np.arange(2), "b": x, "c": b"x"}).items():
            for _ in ctx.items([f"{name}/{cn}"]):
                try:
                    v = c(thunk())
                except Exception:
                    continue
                check(ctx, ctx.rng(name, cn), v, f"{name} in {cn}", nvar=2)
    ctx.count("compressions", len(ctx.keys_seen))


def run_models(ctx, shard):
    ctx.keys_seen = set()
    for i, r in ctx.cases(0, shard["n"]):
        est = es.composition(r, 1)
        try:
            X, y, H, kw = es.data(r, r.choice(["dense", "csr", "df"]), est)
            est = es.fit(est, X, y, kw)
        except Exception:
            continue
        check(ctx, r, est, f"model {i} {brief(est, 80)}", nvar=3)
        ctx.count("models")
    ctx.count("compressions", len(ctx.keys_seen))


def run_large(ctx, shard):
    """sizes at which buffers, zip64 records and names change"""
    ctx.keys_seen = set()
    r = ctx.rng("large")
    rs = np.random.RandomState(0)
    cases = {"1MB": lambda: rs.rand(2 ** 17), "8MB": lambda: [rs.bytes(2 ** 23), rs.rand(100)], "many members": lambda: [np.arange(i % 7) for i in range(1500)], "long strings": lambda: ["é" * 100000, {"k" * 5000: 1}],
             "wide": lambda: {i: str(i) for i in range(5000)}, "deep": lambda: _deep(60), "many bytes": lambda: [bytes([i % 256]) * i for i in range(800)], "repeated": lambda: [rs.rand(10)] * 3000}
    if shard["big"]:
        cases["65600 members"] = lambda: [bytes([i % 256, i // 256 % 256, i // 65536]) for i in range(65600)]
        cases["80MB"] = lambda: rs.rand(10 ** 7)
    for n, mk in cases.items():
        for _ in ctx.items([n]):
            check(ctx, r, mk(), n, nvar=3)
            ctx.count("large")


def run_repeat(ctx, shard):
    """ids of temporaries that are reused must not show in the archive: many dumps in a row, interleaved with garbage"""
    import gc
    import skops.io as sio
    ctx.keys_seen = set()
    for i, r in ctx.cases(0, 60):
        g = values.Gen(r)
        v = [g.supported(3) for _ in range(3)]
        forms = set()
        for k in range(8):
            junk = [np.arange(r.randrange(50)) for _ in range(r.randrange(200))]
            try:
                d = sio.dumps(v)
            except Exception:
                break
            del junk
            if k % 3 == 0:
                gc.collect()
            b = malformed(d, ctx)
            if b:
                ctx.violation("malformed", f"repeat {i}/{k}: {b[:3]}")
            forms.add(arch.normalise(d))
            ctx.ev((i, arch.shape(arch.read(d)[0])))
        if len(forms) > 1:
            ctx.violation("differs", f"repeat {i}: {len(forms)} different archives of one object: {brief(v)}")


def _deep(n):
    x = [np.arange(2)]
    for i in range(n):
        x = {"a": [x]} if i % 2 else (x, i)
    return x
