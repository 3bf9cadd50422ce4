"""C13: visualize is total and agrees with the audit."""
import contextlib
import copy
import io
import json
import os
import re
import signal
import sys
import warnings

import numpy as np

from vk import arch, core, estimators as es, hostile, old, values, zoo
from vk.rt import brief

RULE = "a distinct evaluation is one (archive structure, trusted list) whose rows were recorded by a sink and judged, together with the printed trees of it; non-trivial = the archive has more than one node"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitor on the row stream (recording sink) and on the printed output (rich with and without colours, plain fallback): levels, flags against get_untrusted_types of the same archive, containment of unsafety in the "
             "reconstructed tree, planted untrusted names at every node of genuine archives, printed marks/colours against the rows")
LEVEL_NOTE = "every catalogue value, random values, fitted estimators, all slots x contexts x protocols of hostile archives, mutants; trusted lists: none, all, random subsets, supersets; 3 show modes; colours on/off; with/without rich; names planted at every node of the genuine archives"
REQUIRED = {"streams": 4000, "rows": 40000, "prints": 4000, "planted": 250, "planted_displayed": 150, "unsafe_roots": 800, "safe_roots": 1500, "hostile_completed": 800, "fallback": 500, "colour_lines": 5000, "values": 1000}


def plan(tier, seed):
    q = tier == "quick"
    return ([dict(name="specials", part=p, parts=2, timeout_s=850) for p in range(2)] + core.spread("random", 1200 if q else 60000, 3 if q else 10, timeout_s=850) + [dict(name="models", n=40 if q else 1200, timeout_s=850)]
            + [dict(name="planted", part=p, parts=3, timeout_s=850, extra=4 if q else 400) for p in range(3)] + [dict(name="pairs", part=p, parts=3, reps=1 if q else 12, timeout_s=850) for p in range(3)]
            + core.spread("mutants", 1500 if q else 60000, 2 if q else 8, timeout_s=850) + [dict(name="layouts", timeout_s=850)])


class Slow(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    def stop(*_):
        raise Slow()
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run(ctx, shard):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    os.chdir(ctx.tmpdir())
    os.environ.update(COLUMNS="3000", TERM="xterm-256color", COLORTERM="")
    import skops.io as sio
    import rich.console  # noqa
    sys.setrecursionlimit(3000)
    globals()["run_" + shard["name"]](ctx, shard, sio)
    os.chdir("/")


def rows_of(sio, data, **kw):
    got = []

    def sink(nodes, show, **k):
        got.extend(nodes)
        got.append((show, k))
    sio.visualize(data, sink=sink, **kw)
    return got[:-1], got[-1]


class Stdout(io.TextIOWrapper):
    def __init__(self):
        super().__init__(io.BytesIO(), encoding="utf-8", newline="\n")

    def text(self):
        self.flush()
        return self.buffer.getvalue().decode("utf-8")


@contextlib.contextmanager
def without_rich():
    held = {k: m for k, m in sys.modules.items() if k == "rich" or k.startswith("rich.")}
    for k in held:
        sys.modules[k] = None
    try:
        yield
    finally:
        sys.modules.update(held)


def printed(sio, data, rich=True, color=False, **kw):
    os.environ.pop("FORCE_COLOR", None)
    os.environ.pop("NO_COLOR", None)
    if color:
        os.environ["FORCE_COLOR"] = "1"
    out = Stdout()
    with contextlib.redirect_stdout(out):
        if rich:
            sio.visualize(data, **kw)
        else:
            with without_rich():
                sio.visualize(data, **kw)
    return out.text()


GUIDE = re.compile(r"^((?:[│┃ ] {3}|[├└┣┗][─━]{2} )*)(.*)$")
GUIDE2 = re.compile(r"^((?:[│ ] {3})*(?:[├└]── )?)(.*)$")


def tree_lines(text):
    """(depth, text) of each printed row"""
    out = []
    for line in text.split("\n"):
        if line == "":
            continue
        m = GUIDE.match(line)
        out.append((len(m.group(1)) // 4, m.group(2).rstrip()))
    return out


def judge_rows(ctx, what, rows, remaining, data):
    """the row stream against the audit; returns whether it is well-formed"""
    bad = []
    if not rows:
        return [("empty", "no rows")]
    if rows[0].level != 0:
        bad.append(("form", f"the root has level {rows[0].level}"))
    prev = 0
    for i, n in enumerate(rows):
        if type(n.level) is not int or not isinstance(n.key, str) or not isinstance(n.val, str) or not isinstance(n.is_self_safe, bool) or not isinstance(n.is_safe, bool):
            bad.append(("form", f"row {i}: {n}"))
            return bad
        if i and (n.level < 1 or n.level > prev + 1):
            bad.append(("form", f"row {i} ({n.key}: {n.val}) has level {n.level} after {prev}"))
        prev = n.level
    if bad:
        return bad
    stack = []
    for i, n in enumerate(rows):
        stack = stack[:n.level]
        if n.is_safe and not n.is_self_safe:
            bad.append(("flags", f"row {i} ({n.key}: {n.val}) is fully safe, but not safe itself"))
        if not n.is_safe or not n.is_self_safe:
            for a in stack:
                if a.is_safe:
                    bad.append(("hidden", f"row {i} ({n.key}: {n.val}) is not safe, but {a.key}: {a.val} above it is marked fully safe"))
                    break
        stack.append(n)
    if rows[0].is_safe != (not remaining):
        bad.append(("root", f"the root is {'fully safe' if rows[0].is_safe else 'not safe'}, the audit reports {sorted(remaining)[:4]}"))
    if not remaining and not all(n.is_self_safe for n in rows):
        bad.append(("flags", "nothing is reported, but rows are unsafe"))
    return bad


def ambiguous(schema):
    """names that several kinds of nodes have (one of them may trust them)"""
    kinds = {}
    for p, n in arch.walk(schema):
        if isinstance(n.get("__loader__"), str) and isinstance(n.get("__module__"), str) and isinstance(n.get("__class__"), str):
            k = kinds.setdefault(f"{n['__module__']}.{n['__class__']}", set())
            k.add(n["__loader__"])
            if "__reduce__" in n:
                k.add("constructor")
        for a, b in (("module_path", "function"),):
            for _, d in arch.walk_all(n.get("content")) if isinstance(n.get("content"), dict) else ():
                if isinstance(d, dict) and isinstance(d.get(a), str) and isinstance(d.get(b), str):
                    kinds.setdefault(f"{d[a]}.{d[b]}", set()).add("function")
    return {k for k, v in kinds.items() if len(v) > 1}


def judge_names(rows, remaining, amb):
    if remaining and all(n.is_self_safe for n in rows):
        yield ("mark", f"{sorted(remaining)[:3]} are not trusted, but no row is marked unsafe itself")
    for i, n in enumerate(rows):
        if n.val in remaining and n.val not in amb and n.is_self_safe:
            yield ("mark", f"row {i} displays {n.val}, which is not trusted, but it is not marked")


def judge_print(ctx, what, sio, data, rows, kw, r, remaining, must=True):
    """what the default sink prints, against the rows"""
    show = kw.get("show", "all")
    plain = not any("UNSAFE" in n.key + n.val or any(ord(c) < 32 or 0x7f <= ord(c) < 0xa0 or ord(c) in (0x85, 0x2028, 0x2029) for c in n.key + n.val) for n in rows)
    wide = any(len(n.key) + len(n.val) > 2000 for n in rows)
    for rich in (True, False):
        for color in ((True, False) if rich else (r.random() < .5,)):
            k = dict(kw)
            if not color:
                k["use_colors"] = False
            w = f"{what} rich={rich} colours={color} {brief(kw, 60)}"
            try:
                text = printed(sio, data, rich, color and rich, **k)
            except Slow:
                raise
            except RecursionError:
                if must:
                    raise
                continue
            except Exception as e:
                ctx.violation("print", f"{w}: {type(e).__name__}: {str(e)[:200]}")
                continue
            ctx.count("prints")
            if not rich:
                ctx.count("fallback")
            ansi = text
            text = re.sub(r"\x1b\[[0-9;]*m", "", text)
            tag = k.get("tag_unsafe", "[UNSAFE]")
            if not plain or wide:
                continue
            shown = [n for i, n in enumerate(rows) if i == 0 or show == "all" or (show == "untrusted" and not n.is_safe) or (show == "trusted" and n.is_self_safe)]
            lines = tree_lines(text)
            # levels of the printed tree
            prev = 0
            for i, (d, t) in enumerate(lines):
                if (i == 0) != (d == 0) or d > prev + 1:
                    ctx.violation("print-form", f"{w}: line {i} {t[:80]!r} is at depth {d} after {prev}; {text[:300]!r}")
                    break
                prev = d
            # the rows that must be there, in order, with their marks
            want = [f"{n.key}: {n.val}".encode("utf-8", "backslashreplace").decode() for n in shown]
            if len(lines) == len(want):
                for (d, t), n, s in zip(lines, shown, want):
                    if show == "all" and d != n.level:
                        ctx.violation("print-form", f"{w}: {t[:80]!r} is at depth {d}, its level is {n.level}")
                        break
                    if _sq(s) not in _sq(t):
                        ctx.violation("print-text", f"{w}: the line {t[:120]!r} does not show {s[:120]!r}")
                        break
                    if tag and (tag in t) != (not n.is_self_safe):
                        ctx.violation("print-mark", f"{w}: the line {t[:120]!r} is {'' if tag in t else 'not '}marked, safe: {n.is_self_safe}")
                        break
            else:
                ctx.violation("print-rows", f"{w}: {len(lines)} lines for {len(want)} rows; {text[:300]!r}")
                continue
            if show != "trusted" and remaining and tag and tag not in text and not (rich and color):
                ctx.violation("entirely-safe", f"{w}: {sorted(remaining)[:3]} are not trusted, but no line is marked: {text[:300]!r}")
            if rich and color:
                colour_lines(ctx, w, ansi, lines, shown, k)


def _sq(s):
    return re.sub(r"\s+", " ", s).strip()


CODES = {"cyan": "36", "orange1": "38;5;214", "magenta": "35", "red": "31", "green": "32", "blue": "34"}


def colour_lines(ctx, w, ansi, lines, shown, kw):
    al = [l for l in ansi.split("\n") if l]
    if len(al) != len(shown):
        return
    for l, n in zip(al, shown):
        want = kw.get("color_safe", "cyan") if n.is_safe else kw.get("color_child_unsafe", "magenta") if n.is_self_safe else kw.get("color_unsafe", "orange1")
        others = {kw.get("color_safe", "cyan"), kw.get("color_child_unsafe", "magenta"), kw.get("color_unsafe", "orange1")} - {want}
        codes = set(re.findall(r"\x1b\[((?:\d;)?(?:38;5;\d+|3\d))m", l))
        codes = {c[2:] if re.match(r"^\d;3", c) and not c.startswith("38") else c for c in codes}
        ctx.count("colour_lines")
        # rich highlights parts of the text in colours of its own; the safe colour is the one that must not appear on its own
        if CODES[want] not in codes and n.val:
            ctx.violation("colour", f"{w}: {n.key}: {n.val[:60]} should be {want}: {l[:200]!r}")
            return


KW = [{}, {}, {"tag_safe": "[SAFE]"}, {"tag_unsafe": "<NO>"}, {"color_safe": "green", "color_unsafe": "red", "color_child_unsafe": "blue"}]


def trusts(r, U):
    """(trusted list, what remains untrusted)"""
    U = sorted(U)
    out = [(None, set(U))]
    if U:
        out.append((list(U), set()))
        sub = [n for n in U if r.random() < .5]
        out.append((r.choice([list, tuple])(sub), set(U) - set(sub)))
        if len(U) > 1:
            one = r.choice(U)
            out.append(([n for n in U if n != one], {one}))
    else:
        out.append(([], set()))
    out.append((U + ["not.there", "builtins.eval"], set()))
    return [(t and type(t)(as_type(n) if r.random() < .3 else n for n in t), left) for t, left in out]


def as_type(name):
    """the type of that name: users pass types, too"""
    mod, _, cls = name.rpartition(".")
    t = getattr(sys.modules.get(mod), cls, None)
    return t if isinstance(t, type) and f"{t.__module__}.{t.__name__}" == name and f"{t.__module__}.{t.__qualname__}" == name else name


def check(ctx, r, sio, data, what, total=True, ntrust=2, prints=1):
    """all oracles for one archive"""
    try:
        schema, _ = arch.read(data)
        with limit(20):
            U = set(sio.get_untrusted_types(data=data))
    except Slow:
        ctx.count("slow")
        return None
    except Exception as e:
        if total:
            ctx.count("not_auditable")
        U = None
    if U is not None and not all(isinstance(u, str) for u in U):
        return None
    T = trusts(r, U) if U is not None else [(None, None)]
    T = T[:1] + r.sample(T[1:], min(ntrust - 1, len(T) - 1))
    ok = None
    amb = ambiguous(schema)
    for trusted, remaining in T:
        w = f"{what} trusted={brief(trusted, 80)}"
        show = r.choice(["all", "untrusted", "trusted"])
        try:
            with limit(20):
                rows, (show2, k2) = rows_of(sio, data, trusted=trusted, show=show)
        except Slow:
            ctx.count("slow")
            return None
        except Exception as e:
            if total:
                ctx.violation("raises", f"{w}: {type(e).__name__}: {str(e)[:300]}")
            else:
                ctx.count("hostile_refused")
            continue
        ctx.count("streams")
        ctx.count("rows", len(rows))
        ok = rows
        if not total:
            ctx.count("hostile_completed")
        if show2 != show:
            ctx.violation("show", f"{w}: show={show} reached the sink as {show2}")
        if remaining is None:
            # it rendered, but cannot be audited: nothing may claim that it is safe
            ctx.count("rendered_not_auditable")
            if rows and rows[0].is_safe:
                ctx.violation("root", f"{w}: rendered as fully safe, but get_untrusted_types fails")
            continue
        ctx.ev((arch.shape(schema), tuple(trusted or ()), tuple(sorted(remaining))))
        ctx.count("unsafe_roots" if remaining else "safe_roots")
        bad = judge_rows(ctx, w, rows, remaining, data) + list(judge_names(rows, remaining, amb))
        for kind, msg in bad[:2]:
            ctx.violation(kind, f"{w}: {msg}", data=data if len(data) < 3000 else None)
        if bad or len(rows) > 3000:
            continue
        for _ in range(prints):
            try:
                with limit(30):
                    judge_print(ctx, w, sio, data, rows, dict(r.choice(KW), show=r.choice(["all", "untrusted", "trusted"]), trusted=trusted), r, remaining, must=total)
            except Slow:
                ctx.count("slow")
    return ok


def run_specials(ctx, shard, sio):
    """each catalogue value, in positions that differ in how they are walked"""
    CT = dict(bare=lambda x: x, attr=lambda x: zoo.Plain(key_types=x, content=[x, 1], attrs={"a": x}), keys=lambda x: {"content": x, "key_types": [x], "__id__": 1}, list=lambda x: [1, x, [x]], oarr=lambda x: _oarr(x), slice=lambda x: slice(x, None, 1),
              keyed=lambda x: {x: 1}, partial=lambda x: __import__("functools").partial(zoo.func, x), meth=lambda x: zoo.Plain(a=x).meth)
    for k, (name, thunk) in enumerate(values.SPECIALS):
        if k % shard["parts"] != shard["part"]:
            continue
        for cn, c in CT.items():
            for _ in ctx.items([f"{name}/{cn}"]):
                try:
                    d = sio.dumps(c(thunk()))
                except BaseException:
                    continue
                ctx.count("values")
                check(ctx, ctx.rng(name, cn), sio, d, f"{name} in {cn}", prints=1 if cn in ("attr", "bare") else 0)


def _oarr(x):
    a = np.empty((2,), object)
    a[0] = x
    return a


def run_random(ctx, shard, sio):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        g = values.Gen(r)
        try:
            v = g.anything(r.choice([1, 2, 3])) if r.random() < .7 else g.supported(r.choice([2, 3]))
            d = sio.dumps(v)
        except Exception:
            continue
        ctx.sample(brief(v))
        ctx.count("values")
        check(ctx, r, sio, d, f"random {i} {brief(v, 60)}")


def run_models(ctx, shard, sio):
    for i, r in ctx.cases(0, shard["n"]):
        est = es.composition(r, 1)
        try:
            X, y, H, kw = es.data(r, r.choice(["dense", "csr", "df"]), est)
            d = sio.dumps(es.fit(est, X, y, kw))
        except Exception:
            continue
        ctx.count("values")
        check(ctx, r, sio, d, f"model {i} {brief(est, 60)}", ntrust=1)


def run_planted(ctx, shard, sio):
    """one untrusted name at each node of archives that are otherwise safe; every row that stands for a node above it must show it"""
    gen = hostile.genuine()
    arcs = [(k, *gen[k]) for k in sorted(gen)]
    r = ctx.rng("extra")
    for i in range(shard["extra"]):
        g = values.Gen(r)
        try:
            arcs.append((f"random{i}", *arch.read(sio.dumps(g.supported(3)))))
        except Exception:
            pass
    for k, s, m in arcs:
        base = arch.write(s, m)
        U0 = set(sio.get_untrusted_types(data=base))
        nodes = [p for p, n in arch.walk(s) if isinstance(n.get("__loader__"), str)]
        if not nodes or len(nodes) > 250:
            continue
        where, runs = {}, {}
        for j, p in enumerate(nodes):
            t = copy.deepcopy(s)
            n = arch.get(t, p)
            name = f"canary.Planted{j}"
            n["__module__"], n["__class__"] = "canary", f"Planted{j}"
            d = arch.write(t, m)
            try:
                U = set(sio.get_untrusted_types(data=d))
                rows, _ = rows_of(sio, d, trusted=sorted(U0))
            except Exception:
                continue
            if not any("canary" in u for u in U):
                continue  # the name of this kind of node is not used
            at = [i for i, n in enumerate(rows) if f"Planted{j}" in n.val]
            runs[p] = (rows, U, d)
            if at:
                where[p] = at
        for p, (rows, U, d) in runs.items():
            if nodes.index(p) % shard["parts"] != shard["part"]:
                continue
            for _ in ctx.items([f"{k}/{'/'.join(map(str, p))}"]):
                ctx.ev((k, p))
                ctx.count("planted")
                what = f"{k}: untrusted name at {'/'.join(map(str, p))} ({arch.get(s, p)['__loader__']})"
                for kind, msg in judge_rows(ctx, what, rows, U - U0, d)[:2]:
                    ctx.violation(kind, f"{what}: {msg}")
                if p in where:
                    ctx.count("planted_displayed")
                    for i in where[p]:
                        if rows[i].is_self_safe or rows[i].is_safe:
                            ctx.violation("mark", f"{what}: displayed by row {i}, which is not marked")
                for q in (p[:n] for n in range(len(p))):
                    for i in where.get(q, ()) if len(where.get(q, ())) == 1 else ():
                        if i < len(rows) and rows[i].is_safe and rows[i].val == _base_val(runs, s, q):
                            ctx.violation("hidden", f"{what}: row {i} ({rows[i].key}: {rows[i].val}) above it is marked fully safe")
                check(ctx, ctx.rng(k, p), sio, d, what, ntrust=3, prints=0)


def _base_val(runs, s, q):
    n = arch.get(s, q)
    return f"{n['__module__']}.{n['__class__']}"


def run_pairs(ctx, shard, sio):
    """hostile nodes of every kind in every context"""
    k = 0
    for rep in range(shard["reps"]):
        for s in hostile.SLOTS:
            for c in [None] + hostile.CONTEXTS:
                k += 1
                if k % shard["parts"] != shard["part"]:
                    continue
                for _ in ctx.items([f"{rep}/{s}/{c}"]):
                    r = ctx.rng(rep, s, c)
                    b = hostile.Hostile(r)
                    name = r.choice(r.choice([hostile.CLASSES, hostile.UNIMPORTED, hostile.DANGER, hostile.GOOD, ["[bold]x[/bold].Y", "a.b[UNSAFE]", "é.\ud800", "[/red].x", "m.c\nroot: builtins.list", "canary.[link=x]"]]))
                    root = b.slot(s, name)
                    if c:
                        root = b.context(c, root)
                    check(ctx, r, sio, b.archive(root), f"slot {s} in {c} with {name!r} protocol {b.protocol}", total=False, prints=1)


def run_mutants(ctx, shard, sio):
    gen = hostile.genuine()
    keys = sorted(gen)
    pool = hostile.CLASSES + hostile.DANGER + hostile.GOOD
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        if r.random() < .6:
            k = r.choice(keys)
            s, m = hostile.mutate(r, *gen[k], pool, [gen[x] for x in keys])
            d = arch.write(s, m)
        else:
            k = "tree"
            b = hostile.Hostile(r, pool=pool)
            root = b.tree_(r.choice([0, 1, 1, 2, 3]))
            if r.random() < .4:
                root = b.list([root, b.tree_(1)])
            d = b.archive(root)
        check(ctx, r, sio, d, f"mutant {i} of {k}", total=False, prints=1 if i % 3 == 0 else 0)


def run_layouts(ctx, shard, sio):
    """shapes of trees: chains, wide levels, drops of many levels, shared and hidden parts; all modes and trust settings"""
    import collections
    import functools
    P = zoo.Plain
    shared = np.arange(3)
    deep = functools.reduce(lambda a, i: [a], range(40), P(a=1))
    cases = dict(
        chain=functools.reduce(lambda a, i: P(a=a), range(15), 1), wide=[P(i=i) for i in range(40)], drop=[deep, 1, [deep, 2], P()], untrusted_leaf=functools.reduce(lambda a, i: {"k": a}, range(12), P(a=1)), alternate=functools.reduce(lambda a, i: P(a=a) if i % 2 else [a], range(12), 1),
        shared=[shared, shared, P(a=shared, b=[shared])], sharedobj=(lambda p: [p, p, {"a": p}])(P(x=[1, 2])), empty=[[], {}, (), set(), P(), np.array([]), "", b""], slices=[slice(1, 2), slice(None), P(a=slice(1))], slicecols=_ct(),
        names=P(key_types=[1], content={"a": 1}, attrs=P(), __class__x=1, file="x", type="y", main=1, default_factory=2), keydict={"key_types": {"key_types": 1}, "content": [1], 5: P(), None: 2, True: 3, 2.5: 4, "": 5, "a b": 6, "[b]": 7, "[/b]": 8, "x\ny": 9, "\ud800": 10, "日本": 11, "\x1b[31m": 12},
        keyobj={np.float64(1): 1, np.str_("[red]"): 2, zoo.Level.LOW: 3}, markup=["[bold]", "[/bold]", "[link=x]y", "\\[", "[UNSAFE]", "\ud800", "\x00", "a\nb", "🙂"], objarr=np.array([P(), None, [P()]], dtype=object), objarr2=[np.array([[1, "a"]], dtype=object)], maobj=np.ma.masked_array([1, 2], [0, 1]),
        dd=collections.defaultdict(P, a=P()), od=collections.OrderedDict(a=[P()]), part=functools.partial(zoo.func, P(), x=[P()]), meth=P(a=1).meth, types=[int, P, np.float64, type(None)], funcs=[zoo.func, np.exp, len], gens=[np.random.default_rng(1), np.random.RandomState(1)], byts=[b"abc" * 100, bytearray(b"\xff\n[b]")],
        long=["x" * 5000, {"k" * 3000: 1}], numbers=[10 ** 400, 1e308, float("nan"), -0.0], nested_key_types={"a": {zoo.Level.LOW: {np.int8(1): P()}}}, sparse=[values.sp.csr_matrix(np.eye(2))], dtype=[np.dtype("f4"), np.dtype([("a", "i4")])], enum=[zoo.Colour.RED], cyc=_cyc(), cyc2=_cyc2())
    for name, v in cases.items():
        for _ in ctx.items([name]):
            try:
                d = sio.dumps(v)
            except RecursionError:
                continue
            except Exception as e:
                ctx.note(f"{name}: {type(e).__name__}: {e}")
                continue
            ctx.count("values")
            r = ctx.rng(name)
            for k in range(3):
                check(ctx, r, sio, d, name, ntrust=5, prints=3)
            # the layouts of older protocols
            for p in (0, 1):
                try:
                    o, done = old.rewrite(d, p)
                except (old.NotPossible, TypeError):
                    continue
                check(ctx, r, sio, o, f"{name} protocol {p}", total=not (p == 0 and any(k == "RandomGeneratorNode" for _, k in done)), ntrust=3, prints=1)
            # files
            with open("x.skops", "wb") as f:
                f.write(d)
            import pathlib
            a = rows_of(sio, d)[0]
            for f in ("x.skops", pathlib.Path("x.skops"), os.path.abspath("x.skops")):
                if rows_of(sio, f)[0] != a:
                    ctx.violation("file", f"{name}: the rows of {f!r} differ from those of the bytes")


def _ct():
    from sklearn.compose import ColumnTransformer
    from sklearn.preprocessing import StandardScaler
    return ColumnTransformer([("a", StandardScaler(), slice(0, 2)), ("b", "passthrough", [2]), ("c", zoo.Plain(), slice(2, None))]).set_params()


def _cyc():
    p = zoo.Plain(a=1)
    p.me = [p]
    return p


def _cyc2():
    x = []
    x.append(x)
    return x
