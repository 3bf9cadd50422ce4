"""C14: card content builders put the right content under the right heading."""
import os
import pathlib
import re
import warnings

import numpy as np

from vk import cards, core, estimators as es
from vk.rt import brief

RULE = "a distinct evaluation is one (builder call or call sequence with its data and target path) whose section was read back through select().format() and render() and judged; non-trivial = a table with at least one row, a plot, or an estimator with parameters"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitor parsing the rendered card back (headings, markdown tables, image links) and comparing with the data given: header and cells, dict against DataFrame, metric accumulation against a shadow dict, "
             "hyperparameters against get_params(deep=True), alt texts, headings at nested/escaped paths, several items per call against one at a time")
LEVEL_NOTE = "random tables (0-40 rows and some of 2000, 1-8 columns, cells of 40 kinds incl. multi-line, pipes, None, numpy, masked, pandas), frames with duplicate/integer/tuple column names and odd indexes, metric histories of 1-25 calls, ~180 estimators with nested parameters"
REQUIRED = {"tables": 3000, "cells": 50000, "linebreak_cells": 4000, "pipe_cells": 3000, "frames": 1500, "dict_vs_frame": 900, "metric_calls": 8000, "metric_updates": 2000, "hyper": 250, "params": 3000, "plots": 3000, "default_alts": 1000, "multi": 1500, "model_plots": 80, "nested": 6000, "escaped": 2000, "empty_tables": 150, "fairlearn": 60}


def plan(tier, seed):
    q = tier == "quick"
    return (core.spread("tables", 6000 if q else 90000, 2 if q else 5, timeout_s=850) + core.spread("metrics", 1200 if q else 30000, 2 if q else 3, timeout_s=850) + core.spread("hyper", 600 if q else 8000, 2 if q else 4, timeout_s=850)
            + core.spread("plots", 1500 if q else 30000, 1 if q else 2, timeout_s=850) + core.spread("multi", 2000 if q else 40000, 1 if q else 3, timeout_s=850))


def run(ctx, shard):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    os.chdir(ctx.tmpdir())
    import pandas as pd
    import skops.card as sc
    from sklearn.linear_model import LogisticRegression
    globals().update(LR=LogisticRegression, pd=pd)
    globals()["run_" + shard["name"]](ctx, shard, sc)
    os.chdir("/")


class Str:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __repr__(self):
        return f"<Str {len(self.s)}>"


TEXTS = ["", "x", "a b", " pad ", "a\nb", "a\r\nb", "a\rb", "\n", "a\n\n\nb", "\nlead", "trail\n", "a|b", "|", "||", "a|b\nc|d", "a\\|b", "back\\slash", "\\", "|---|", ":---:", "| x | y |", "ünï", "日本語", "🎉", "e\u0301", "<br />", "<br>", "<b>x</b>", "`code`", "*x*", "_u_",
         "[l](u)", "# h", "- i", "&amp;", "\t", "a\tb", "%s", "{}", "None", "nan", "\x0b", "a\x0cb", "a\u2028b", "a\x85b", "\u200b", "x" * 300, "'", '"', "\x1b[31mred\x1b[0m", "$x$", "1e5", "0x1", "\x00", "!", "</details>", "\\n"]


def cell(r):
    k = r.randrange(16)
    if k < 6:
        return r.choice(TEXTS)
    if k == 6:
        return "".join(r.choice("ab|\n\r\\ é日<>/") for _ in range(r.randrange(0, 12)))
    if k == 7:
        return r.choice([None, True, False, float("nan"), float("inf"), -0.0, 1e-300, 1e22, 0.1 + 0.2, 1 / 3, 10**30, -1, 0, 1.0, 100.0, 1e5])
    if k == 8:
        return r.uniform(-1, 1) * 10 ** r.randrange(-8, 8)
    if k == 9:
        return r.randrange(-10**6, 10**6)
    if k == 10:
        return r.choice([np.float64(0.1), np.float32(0.1), np.int64(3), np.bool_(True), np.str_("a\nb"), np.datetime64("2020-01-01"), np.ma.masked, np.float64("nan"), np.array([1, 2]), np.eye(3), np.array([["a|b"]], dtype=object)])
    if k == 11:
        return r.choice([[1, "a\nb"], (1, 2), {"a|b": None}, {1, }, b"by|tes", ValueError("x\ny"), int, len, 1j, Ellipsis, range(3), [], {}, ()])
    if k == 12:
        return Str(r.choice(TEXTS))
    if k == 13:
        return r.choice([pd.Timestamp("2020-01-01"), pd.NaT, pd.NA, pd.DataFrame({"a": [1, 2]}), pd.Series([1, 2]), pd.Timedelta("1h"), LR(C=3), LR])
    if k == 14:
        return r.choice([pathlib.Path("a/b"), 10**400 if False else 10**50, 0o17, "a" * 1000])
    return r.choice(["v", "w"]) + str(r.randrange(100))


NAMES = ["c", "Metric", "Value", "a b", "a|b", "a\nb", "a\r\nb", "", " ", " c", "c ", "ünï", "日本語", "🎉", "|", "x|y|z", "---", ":--:", "# h", "*b*", "a\\|b", "\\", "C", "col 1", "0", "folded", "Field 1", "<br />", "n" * 80]


def names(r, n):
    out = []
    while len(out) < n:
        c = r.choice(NAMES) if r.random() < 0.8 else "".join(r.choice("ab|\n é") for _ in range(4))
        if c not in out:
            out.append(c)
    return out


def table_mismatch(ctx, text, header, columns, desc=None, folded=None, texts=None):
    """Does this section text hold the table (and the description before it)?"""
    texts = texts or (lambda v: cards.cell_texts(v))
    body = text
    if desc:
        if not body.startswith(desc):
            return f"does not start with the description: {text[:200]!r}"
        body = body[len(desc):]
    t = cards.parse_table("\n" + body)
    if t is None:
        return f"no markdown table in {text[:300]!r}"
    head, rows, ncol, before, after = t
    if head is None or len(head) != len(header) or ncol != len(header):
        return f"header {head!r} ({ncol} columns) for {header!r}"
    for h_, want in zip(head, header):
        if h_ not in cards.cell_texts(want):
            return f"header {head!r} for {header!r}"
    n = len(columns[0]) if columns else 0
    if len(rows) != n:
        return f"{len(rows)} rows for {n} entries: {brief(text, 400)}"
    for i, row in enumerate(rows):
        if row is None or len(row) != len(header):
            return f"row {i} has the cells {row!r}, {len(header)} were given"
        for j, c in enumerate(row):
            v = columns[j][i]
            ctx.count("cells")
            if c not in texts(v):
                return f"cell {i},{j} is {c[:200]!r} for the value {brief(v)} with the text {str(v)[:200]!r}"
            if re.search("[\r\n]", str(v)):
                ctx.count("linebreak_cells")
            if "|" in str(v):
                ctx.count("pipe_cells")
    b, a = before.strip(), after.strip()
    if folded is not None:
        want = ("<details>\n<summary> Click to expand </summary>", "</details>") if folded else ("", "")
        if (b, a) != want:
            return f"around the table: {b[:100]!r} and {a[:100]!r}"
    return None


def place(ctx, r, card, add, pool, parts=None):
    """Call add(path spelling) for a random path; checks heading, title and position; returns the section's text (or None)."""
    parts = parts or tuple(r.choice(pool) for _ in range(r.randrange(1, 5)))
    sp = cards.write_path(r, parts)
    if sp in RESERVED:
        sp = sp + " "
    got = add(sp)
    if len(parts) > 1:
        ctx.count("nested")
    if any("/" in p for p in parts):
        ctx.count("escaped")
    if got is not card:
        ctx.violation("not-chainable", f"the builder returned {brief(got)} instead of the card")
        return None
    return landed(ctx, card, parts, sp)


RESERVED = {"folded", "description", "alt_text", "section", "self"}


def landed(ctx, card, parts, sp):
    s = card.select("/".join(p.replace("/", "\\/") + (" " if p.endswith("\\") else "") for p in parts))
    if s.title != parts[-1]:
        ctx.violation("heading", f"the section at {sp!r} has the title {s.title!r}", path=sp)
        return None
    text = s.format()
    # in the rendered card: this heading, at this depth, followed by this text
    heading = f"{'#' * len(parts)} {parts[-1]}"
    if not s.folded and ("\n" + heading + "\n\n" + text.strip("\n")) not in card.render() and visible_unfolded(card, parts):
        ctx.violation("render", f"the section at {sp!r}: {heading!r} followed by its content is not in the rendered card", content=text[:300], path=sp)
        return None
    return text


def visible_unfolded(card, parts):
    s = card
    for p in parts[:-1]:
        s = s.select(p.replace("/", "\\/") + (" " if p.endswith("\\") else ""))
        if s.folded or not s.visible:
            return False
    return True


def frame_texts(df, j):
    """All reasonable texts of each value of a column."""
    col = df.iloc[:, j]
    out = []
    for i, v in enumerate(list(col)):
        t = set(cards.cell_texts(v)) | cards.cell_texts(col.iloc[i])
        if col.dtype.kind in "fiub":
            t |= cards.cell_texts(col.to_numpy()[i])
        out.append(t)
    return out


class Cellv:
    """A value with several acceptable texts."""

    def __init__(self, texts, v):
        self.texts, self.v = texts, v

    def __str__(self):
        return str(self.v)


def new_card(r, sc):
    return sc.Card(LR(), template=None)


def run_tables(ctx, shard, sc):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        pool = cards.titles(r, 5)
        card = new_card(r, sc)
        if r.random() < 0.5:
            card.add(**{cards.write_path(r, tuple(r.choice(pool) for _ in range(r.randrange(1, 4)))) + " ": "other" for _ in range(3)})
        ncol = r.randrange(1, 6 if r.random() < 0.9 else 9)
        nrow = r.choice([0, 1, 1, 2, 3, r.randrange(0, 40)]) if r.random() < 0.995 else 2000
        head = names(r, ncol)
        cols = [[cell(r) for _ in range(nrow)] for _ in head]
        folded, desc = r.random() < 0.4, r.choice([None, None, "", "some text", "two\n\nparagraphs | with pipe", "# heading?"])
        parts = tuple(r.choice(pool) for _ in range(r.randrange(1, 5)))
        kind = r.choice(["dict", "dict", "objframe", "frame", "wide"])
        ctx.count("tables")
        if nrow == 0:
            ctx.count("empty_tables")
        ctx.ev((kind, nrow, ncol, tuple(head), brief(cols, 600), parts, folded, desc) if nrow else None)

        def add(table, c=card):
            return place(ctx, r, c, lambda sp: c.add_table(description=desc, folded=folded, **{sp: table}), pool, parts)
        try:
            if kind in ("dict", "objframe"):
                table = {}
                for k, c in zip(head, cols):
                    if kind == "dict" and r.random() < 0.2:
                        o = np.empty(len(c), dtype=object)
                        o[:] = [None] * len(c)
                        for q_, v in enumerate(c):
                            o[q_] = v
                        table[k] = r.choice([tuple(c), o, pd.Series(o, index=range(5, 5 + len(c)), dtype=object), list(c)])
                    else:
                        table[k] = list(c)
                text = add(table)
                if text is None:
                    continue
                m = table_mismatch(ctx, text, head, cols, desc, folded)
                if m:
                    ctx.violation("table", m, header=head, path=parts)
                    continue
                if kind == "objframe":
                    ctx.count("frames")
                    ctx.count("dict_vs_frame")
                    data = {}
                    for k, c in zip(head, cols):
                        o = np.empty(len(c), dtype=object)
                        for q_, v in enumerate(c):
                            o[q_] = v
                        data[k] = pd.Series(o, dtype=object)
                    df = pd.DataFrame(data, columns=head)
                    if r.random() < 0.5 and nrow:
                        df.index = r.choice([[f"r{q_}" for q_ in range(nrow)], list(range(nrow, 0, -1)), [0] * nrow])
                    other = new_card(r, sc)
                    t2 = add(df, other)
                    if t2 is not None and t2 != text:
                        ctx.violation("dict-frame", f"the DataFrame renders differently: {brief(t2, 400)} instead of {brief(text, 400)}", header=head)
            else:
                ctx.count("frames")
                base = {}
                for q_ in range(ncol):
                    k = r.randrange(8)
                    base[q_] = ([r.randrange(-9, 9) for _ in range(nrow)] if k == 0 else [r.uniform(-1, 1) for _ in range(nrow)] if k == 1 else [r.random() < 0.5 for _ in range(nrow)] if k == 2
                                else pd.Categorical([r.choice(["a|b", "c\nd", "e"]) for _ in range(nrow)]) if k == 3 else pd.to_datetime([f"2020-01-{r.randrange(10, 28)}" for _ in range(nrow)]) if k == 4
                                else np.array([r.uniform(-1, 1) for _ in range(nrow)], dtype="float32") if k == 5 else pd.array([r.choice([1, None, 3]) for _ in range(nrow)], dtype="Int64") if k == 6
                                else [r.choice(TEXTS) for _ in range(nrow)])
                df = pd.DataFrame(base)
                style = r.choice(["int", "names", "dup", "multi"])
                if style == "names":
                    df.columns = head
                elif style == "dup":
                    df.columns = [r.choice(head) for _ in head]
                elif style == "multi":
                    df.columns = pd.MultiIndex.from_tuples([(h_, q_ % 2) for q_, h_ in enumerate(head)])
                if nrow and r.random() < 0.5:
                    df.index = [f"ix{q_ % 3}" for q_ in range(nrow)]
                text = add(df)
                if text is None:
                    continue
                cols = [[Cellv(t, v) for t, v in zip(frame_texts(df, j), list(df.iloc[:, j]))] for j in range(ncol)]
                m = table_mismatch(ctx, text, list(df.columns), cols, desc, folded, texts=lambda v: v.texts)
                if m:
                    ctx.violation("frame", m, header=[str(c) for c in df.columns], path=parts)
                    continue
                if style in ("int", "names"):
                    ctx.count("dict_vs_frame")
                    other = new_card(r, sc)
                    t2 = add({k: list(df[k]) for k in df.columns}, other)
                    if t2 is not None and t2 != text and not any(d == np.float32 for d in df.dtypes):
                        ctx.violation("dict-frame", f"dict: {brief(t2, 300)} frame: {brief(text, 300)}")
        except Exception as e:  # noqa
            if not in_skops(e):
                raise
            ctx.violation("error", f"add_table of a {kind} with {nrow} rows at {parts!r} raised {e!r}", header=head, cols=brief(cols, 400))
        if r.random() < 0.05:
            fair(ctx, r, sc)
        ctx.sample(dict(kind=kind, header=head, path=parts, rows=nrow))


class Frame:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, lambda v=v: v)


def fair(ctx, r, sc):
    metrics = names(r, r.randrange(1, 4))
    aggs = ["difference", "group_max", "group_min", "ratio"]
    vals = {a: [r.uniform(0, 1) for _ in metrics] for a in aggs}
    card = new_card(r, sc)
    transpose = r.random() < 0.5
    desc = r.choice([None, "words"])
    card.add_fairlearn_metric_frame(Frame(**{a: pd.Series(v, index=metrics) for a, v in vals.items()}), table_name="Some / fair\\/table", transpose=transpose, description=desc)
    ctx.count("fairlearn")
    ctx.ev(("fair", transpose, tuple(metrics), repr(vals)))
    text = landed(ctx, card, ("Some", "fair/table"), "fair")
    if text is not None:
        m = table_mismatch(ctx, text, metrics if transpose else aggs, [[vals[a][i] for a in aggs] for i in range(len(metrics))] if transpose else [vals[a] for a in aggs], desc)
        if m:
            ctx.violation("fairlearn", m)


def in_skops(e):
    import traceback
    return any("/skops/" in f.filename for f in traceback.extract_tb(e.__traceback__))


def run_metrics(ctx, shard, sc):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        skops = r.random() < 0.1
        card = sc.Card(LR()) if skops else new_card(r, sc)
        pool = cards.titles(r, 3)
        targets = [tuple(r.choice(pool) for _ in range(r.randrange(1, 4))) for _ in range(r.randrange(1, 3))]
        keys = [k for k in names(r, r.randrange(1, 8)) if k not in RESERVED]
        shadow, log = {}, []
        if not keys:
            continue
        for no in range(r.randrange(1, 25)):
            kw = {k: (cell(r) if r.random() < 0.4 else r.choice([no, no / 7, f"v{no}"])) for k in r.sample(keys, r.randrange(0 if r.random() < 0.1 else 1, min(4, len(keys)) + 1))}
            ctx.count("metric_calls")
            ctx.count("metric_updates", sum(k in shadow for k in kw))
            shadow.update(kw)
            desc = r.choice([None, None, "a description"])
            parts = r.choice(targets)
            default = skops and r.random() < 0.5
            log.append((parts, {k: brief(v, 40) for k, v in kw.items()}))
            if r.random() < 0.1:
                try:
                    card.delete(list(parts))
                except KeyError:
                    pass
            try:
                if default:
                    parts = ("Model description", "Evaluation Results")
                    if card.add_metrics(description=desc, **kw) is not card:
                        ctx.violation("not-chainable", "add_metrics")
                    text = landed(ctx, card, parts, "/".join(parts))
                else:
                    text = place(ctx, r, card, lambda sp: card.add_metrics(section=sp, description=desc, **kw), pool, parts)
            except Exception as e:  # noqa
                if not in_skops(e):
                    raise
                ctx.violation("error", f"add_metrics({kw!r}) at {parts!r} raised {e!r}")
                break
            ctx.ev(("metrics", tuple(map(repr, log))) if shadow else None)
            if text is None:
                break
            m = table_mismatch(ctx, text, ["Metric", "Value"], [list(shadow), list(shadow.values())], desc)
            if m:
                ctx.violation("metrics", m, history=[repr(x)[:200] for x in log])
                break
        ctx.sample(dict(history=[repr(x)[:100] for x in log[:6]]))


def normal_html(t):
    t = re.sub(r"sk-(container|estimator)-id-\d+", r"sk-\1-id-N", t)
    t = re.sub(r"\s+", "", t)
    return t.replace('style="overflow:auto;"', "")


def run_hyper(ctx, shard, sc):
    from sklearn.utils import estimator_html_repr
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        try:
            est = es.composition(r) if r.random() < 0.5 else None
        except Exception:  # noqa
            est = None
        if est is None:
            ests = all_estimators()
            est = ests[r.randrange(len(ests))]()
        name = type(est).__name__
        pool = cards.titles(r, 5)
        where = r.choice(["template", "path", "default", "file"]) if i % 3 == 0 else "path"
        desc = r.choice([None, "words before"])
        try:
            params = est.get_params(deep=True)
        except Exception:  # noqa
            continue
        ctx.count("hyper")
        ctx.ev(("hyper", name, where, len(params), brief(params, 300)) if params else None)
        try:
            if where == "template":
                card = sc.Card(est, model_diagram=False)
                parts = ("Model description", "Training Procedure", "Hyperparameters")
                text, desc = landed(ctx, card, parts, "default"), None
            elif where == "default":
                card = sc.Card(est, template=None)
                card.add_hyperparams(description=desc)
                parts = ("Model description", "Training Procedure", "Hyperparameters")
                text = landed(ctx, card, parts, "default")
            elif where == "file":
                import skops.io as sio
                try:
                    sio.dump(est, "m.skops")
                except Exception:  # noqa
                    continue
                card = sc.Card("m.skops", template=None, trusted=sio.get_untrusted_types(file="m.skops"))
                text = place(ctx, r, card, lambda sp: card.add_hyperparams(section=sp, description=desc), pool)
                params = card.get_model().get_params(deep=True)
            else:
                card = sc.Card(est, template=None)
                text = place(ctx, r, card, lambda sp: card.add_hyperparams(section=sp, description=desc), pool)
        except Exception as e:  # noqa
            if not in_skops(e):
                raise
            ctx.violation("error", f"add_hyperparams of {name} raised {e!r}")
            continue
        if text is None:
            continue
        if not judge_params(ctx, text, params, desc, name):
            continue
        if r.random() < 0.5:
            # changed parameters, listed anew
            ks = [k for k, v in params.items() if isinstance(v, (int, float, str)) and "__" not in k]
            if ks and where != "file":
                k = r.choice(ks)
                try:
                    est.set_params(**{k: "changed\nvalue"})
                except Exception:  # noqa
                    continue
                text = place(ctx, r, card, lambda sp: card.add_hyperparams(section=sp), pool)
                ctx.count("hyper")
                if text is not None:
                    judge_params(ctx, text, est.get_params(deep=True), None, name)
        if r.random() < 0.5:
            try:
                html = estimator_html_repr(est)
            except Exception:  # noqa
                continue
            if where == "file":
                html = estimator_html_repr(card.get_model())
            ctx.count("model_plots")
            ctx.ev(("model_plot", name, where))
            text = place(ctx, r, card, lambda sp: card.add_model_plot(section=sp, description=desc), pool)
            if text is None:
                continue
            if desc and not text.startswith(desc):
                ctx.violation("model-plot", f"the description is not in front: {text[:100]!r}")
            body = text[len(desc or ""):]
            if normal_html(body) != normal_html(html):
                ctx.violation("model-plot", f"the diagram of {name} is not in the section: {brief(body[-400:], 400)}")
        ctx.sample(dict(estimator=name, params=len(params), where=where))


def judge_params(ctx, text, params, desc, name):
    ctx.count("params", len(params))
    body = text[len(desc):] if desc and text.startswith(desc) else text
    if desc and not text.startswith(desc):
        ctx.violation("hyper", f"{name}: no description in front: {text[:200]!r}")
        return False
    if not params:
        return True
    t = cards.parse_table("\n" + body)
    if t is None or t[1] is None or any(x is None or len(x) != 2 for x in t[1]):
        ctx.violation("hyper", f"{name}: no table in {brief(text, 300)}")
        return False
    rows = list(t[1])
    left = dict(params)
    for k, v in rows:
        key = next((n for n in left if k in cards.cell_texts(n)), None)
        if key is None or v not in cards.cell_texts(left[key]):
            ctx.violation("hyper", f"{name}: row {k!r}: {v[:200]!r}, the parameter is {brief(left.get(key), 200)}")
            return False
        del left[key]
    if left:
        ctx.violation("hyper", f"{name}: not listed: {sorted(left)}")
        return False
    return True


_ALL = []


def all_estimators():
    if not _ALL:
        from sklearn.utils import all_estimators as f
        for n, c in f():
            try:
                c()
            except Exception:  # noqa
                continue
            _ALL.append(c)
    return _ALL


def alt_ok(text, alt, path):
    return text == f"![{alt}]({path})"


def run_plots(ctx, shard, sc):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        pool = cards.titles(r, 6)
        card = new_card(r, sc)
        items = {}
        for _ in range(r.randrange(1, 5)):
            parts = tuple(r.choice(pool) for _ in range(r.randrange(1, 5)))
            if parts in [p for p, _ in items.values()]:
                continue
            sp = cards.write_path(r, parts)
            if sp in RESERVED:
                continue
            f = r.choice(["plot.png", "a b.png", "figs/ü.svg", "p(1).png", f"p{i}.png", "x" * 50 + ".png"])
            items[sp] = (parts, pathlib.Path(f) if r.random() < 0.4 else f)
        if not items:
            continue
        alt = r.choice([None, None, None, "an alt text", "ünï", "a]b"])
        desc = r.choice([None, None, "a description", "two\n\nparagraphs"])
        folded = r.random() < 0.4
        try:
            got = card.add_plot(description=desc, alt_text=alt, folded=folded, **{k: v[1] for k, v in items.items()})
        except Exception as e:  # noqa
            if not in_skops(e):
                raise
            ctx.violation("error", f"add_plot of {items!r} raised {e!r}")
            continue
        if got is not card:
            ctx.violation("not-chainable", "add_plot")
        for sp, (parts, f) in items.items():
            ctx.count("plots")
            ctx.count("default_alts", alt is None)
            ctx.ev(("plot", parts, str(f), alt, desc, folded))
            if len(parts) > 1:
                ctx.count("nested")
            if any("/" in p for p in parts):
                ctx.count("escaped")
            text = landed(ctx, card, parts, sp)
            if text is None:
                continue
            want = cards.details(f"![{alt or parts[-1]}]({f})", folded)
            m = cards.blocks_mismatch(text, ([("description", desc)] if desc else []) + [("image", want)])
            if m:
                ctx.violation("plot", f"at {sp!r}: {m}", alt=alt, folded=folded)
        ctx.sample(dict(paths=[v[0] for v in items.values()], alt=alt))


def run_multi(ctx, shard, sc):
    """Several items in one call and one at a time."""
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        pool = cards.titles(r, r.randrange(2, 6))
        a, b = new_card(r, sc), new_card(r, sc)
        log = []
        try:
            for no in range(r.randrange(1, 5)):
                op = r.choice(["add", "plot", "table", "metrics"])
                kw = {}
                for q_ in range(r.randrange(2, 5)):
                    parts = tuple(r.choice(pool) for _ in range(r.randrange(1, 4)))
                    sp = cards.write_path(r, parts)
                    if sp in RESERVED:
                        continue
                    kw[sp] = f"text {no} {q_}" if op in ("add", "metrics") else f"p{no}{q_}.png" if op == "plot" else {"a": [cell(r), no], "b|": [q_, None]}
                opts = {}
                if op != "add" and r.random() < 0.5:
                    opts["description"] = "described"
                if op != "metrics" and r.random() < 0.4:
                    opts["folded"] = True
                if op == "plot" and r.random() < 0.3:
                    opts["alt_text"] = "alt"
                if op == "metrics":
                    opts["section"] = cards.write_path(r, (r.choice(pool), r.choice(pool)))
                log.append((op, list(kw), opts))
                name = "add" if op == "add" else "add_" + op
                getattr(a, name)(**opts, **kw)
                for k, v in kw.items():
                    getattr(b, name)(**opts, **{k: v})
        except Exception as e:  # noqa
            if not in_skops(e):
                raise
            ctx.violation("error", f"{log[-1]} raised {e!r}")
            continue
        ctx.count("multi")
        ctx.ev(("multi", repr(log)))
        if a.render() != b.render() or a.get_toc() != b.get_toc():
            ctx.violation("multi", f"one call and one at a time differ: {brief(a.render(), 500)} and {brief(b.render(), 500)}", history=[repr(x)[:300] for x in log])
        ctx.sample(dict(history=[repr(x)[:100] for x in log]))
