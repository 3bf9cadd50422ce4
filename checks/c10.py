"""C10: rendering shows exactly the visible tree, in order; save and the TOC agree with it."""
import os
import pathlib
import subprocess
import sys
import warnings

from vk import cards, core
from vk.rt import brief

RULE = "a distinct evaluation is one (tree with titles, contents and visible/folded flags) whose render(), save() bytes and get_toc() were judged against the shadow tree; non-trivial = at least 3 sections with at least one flag set"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitor with a shadow tree: render() is matched block by block (heading, content or details-wrapped content) against the visible tree in order with nothing left over, the saved file byte by byte against render(), "
             "get_toc() line by line against the headings, repeatedly along random edit histories; all flag assignments of small trees exhaustively; saves under an ASCII locale")
LEVEL_NOTE = "depth up to 12, width up to 12; 4^n flag assignments of all tree shapes up to 4 (quick) / 5 (thorough) sections exhaustively; flags flipped back and forth between renders; plots, tables, metrics, model plots, renamed sections; save to str/Path/relative/existing longer files, with and without copy_files"
REQUIRED = {"renders": 8000, "exhaustive": 3900, "saves": 4000, "hidden": 3000, "folded": 8000, "folded_parent": 4000, "deep": 250, "copy_files": 200, "flips": 4000, "ascii_locale": 40, "overwritten_files": 500, "edits": 3000}


def plan(tier, seed):
    q = tier == "quick"
    return core.spread("random", 8000 if q else 150000, 5 if q else 14, timeout_s=850) + [dict(name="exhaustive", n=4 if q else 5, part=p, parts=2 if q else 6, timeout_s=850) for p in range(2 if q else 6)] + [dict(name="locale", timeout_s=600)]


def run(ctx, shard):
    warnings.simplefilter("ignore")
    os.chdir(ctx.tmpdir())
    import skops.card as sc
    from sklearn.linear_model import LogisticRegression
    globals()["LR"] = LogisticRegression
    globals()["run_" + shard["name"]](ctx, shard, sc)
    os.chdir("/")


MARK = "MARK"


def expected(node, depth=1, out=None):
    """Blocks and headings of the visible tree. A shadow node holds: body (tuple), visible, folded."""
    out = [] if out is None else out
    for c in node.subs.values():
        w = c.what
        if not w["visible"]:
            continue
        out.append(("heading", f"{'#' * depth} {w.get('shown', c.title)}", depth, w.get("shown", c.title)))
        kind, text = w["body"][:2]
        if kind == "text":
            out.append(("content of " + c.title, cards.details(text, w["folded"]), None, None))
        else:
            if w["body"][2]:
                out.append(("description of " + c.title, w["body"][2], None, None))
            out.append(("body of " + c.title, cards.details(text() if callable(text) else text, w["folded"]), None, None))
        if not w["folded"]:
            expected(c, depth + 1, out)
    return out


class Judge:
    def __init__(self, ctx, card, sh, log=()):
        self.ctx, self.card, self.sh, self.log = ctx, card, sh, log
        self.last_saved = {}

    def fail(self, kind, msg):
        self.bad = True
        self.ctx.violation(kind, msg, tree=[("/".join(p), n.what.get("visible"), n.what.get("folded")) for p, n in self.sh.walk()][:40], history=[repr(x)[:120] for x in self.log][-40:])
    bad = False

    def judge(self, r=None, save=True):
        ctx, card = self.ctx, self.card
        try:
            text = card.render()
        except Exception as e:  # noqa
            return self.fail("render-error", f"render() raised {e!r}")
        want = expected(self.sh.root)
        m = cards.blocks_mismatch(text, [(a, b) for a, b, _, _ in want])
        ctx.count("renders")
        if m:
            return self.fail("render", m)
        hidden = [n for _, n in self.sh.walk() if not n.what["visible"]]
        folded = [n for _, n in self.sh.walk() if n.what["folded"]]
        ctx.count("hidden", len(hidden))
        ctx.count("folded", len(folded))
        ctx.count("folded_parent", sum(bool(n.subs) for n in folded))
        if any(d and d > 6 for _, _, d, _ in want):
            ctx.count("deep")
        m = cards.toc_mismatch(card, [(d, t) for _, _, d, t in want if d])
        if m:
            return self.fail("toc", m)
        if save and r is not None:
            self.save(r, text)
        paths = self.sh.paths()
        ctx.ev(tuple((p, n.what["visible"], n.what["folded"], n.what["body"][0], str(n.what["body"][1])[:60]) for p, n in self.sh.walk()) if len(paths) >= 3 and (hidden or folded) else None)

    def save(self, r, text):
        ctx = self.ctx
        ctx.count("saves")
        base = os.path.join(ctx.tmpdir(), "out")
        os.makedirs(base, exist_ok=True)
        name = r.choice(["README.md", "card.md", "ünï 日.md", "noext"])
        p = os.path.join(base, name)
        style = r.choice(["str", "path", "relative", "relative-path"])
        target = {"str": p, "path": pathlib.Path(p), "relative": os.path.relpath(p), "relative-path": pathlib.Path(os.path.relpath(p))}[style]
        if r.random() < 0.4:
            with open(p, "wb") as f:
                f.write(b"old content \xff\n" * r.randrange(1, 4000))
            ctx.count("overwritten_files")
        elif os.path.exists(p):
            os.unlink(p)
        kw = {}
        if r.random() < 0.2:
            kw = dict(copy_files=True)
            ctx.count("copy_files")
        try:
            self.card.save(target, **kw)
        except Exception as e:  # noqa
            return self.fail("save-error", f"save({target!r}, {kw}) raised {e!r}")
        got = open(p, "rb").read()
        if got != text.encode("utf-8"):
            return self.fail("save", f"save({target!r}, {kw}) wrote {brief(got, 200)}... ({len(got)} bytes) but render() has {len(text.encode())} bytes")
        again = self.card.render()
        if again != text:
            return self.fail("render-unstable", "render() changed by saving")


CONTENTS = ["", "text", "# fake heading", "## deeper\n### fake", "a\nb\n\nc", "ünï 日本 🎉", "a\r\nb\rc", "\n\nleading", "trailing\n\n", "  ", "- toc like", "  - nested toc", "<details>\n<summary> Click to expand </summary>\n\nfake\n\n</details>", "```python\n# code\n```", "| a |\n|---|\n| 1 |",
            "x" * 5000, "\x85 \u2028 \x0b\x0c", "\ttabs\t", "%s {} \\n", "---\na: b\n---", "\x00 nul", "\ufeffbom"]


def plot_file(ctx, no):
    os.makedirs("figs", exist_ok=True)
    p = f"figs/fig{no}.png"
    with open(p, "wb") as f:
        f.write(b"PNG%d" % no)
    return p


def mutate(ctx, r, card, sh, pool, no, log):
    """One edit to card and shadow."""
    op = r.choice(["add"] * 6 + ["plot", "table", "metrics", "mplot", "delete", "delete", "flip", "flip", "flip", "flip", "flip", "content", "rename", "multi"])
    paths = sh.paths()

    def parts_():
        if paths and r.random() < 0.3:
            return r.choice(paths)
        if paths and r.random() < 0.7:
            b = r.choice(sorted(paths, key=len)[-6:] if r.random() < 0.4 else paths)
            if len(b) < 12:
                return b + (r.choice(pool),)
        return tuple(r.choice(pool) for _ in range(r.randrange(1, 4)))

    def put(parts, body, folded):
        """An existing section keeps its subsections; its other flags are read where the property does not fix them."""
        old = sh.get(parts)
        for i in range(1, len(parts)):
            if sh.get(parts[:i]) is None:
                sh.add(parts[:i], body=("text", ""), visible=True, folded=False)
        sh.add(parts, body=body, visible=True, folded=folded)
        s = card.select(cards.write_path(r, parts, False))
        if old is not None:
            w = sh.get(parts).what
            w["visible"], w["folded"] = bool(s.visible), bool(s.folded)
        return s

    ctx.count("edits")
    if op in ("add", "multi"):
        folded = r.random() < 0.3
        items = {}
        for _ in range(1 if op == "add" else 3):
            parts = parts_()
            c = r.choice(CONTENTS) + (f" {MARK}{no}" if r.random() < 0.7 else "")
            sp = cards.write_path(r, parts)
            if sp in items:
                continue
            items[sp] = (parts, c)
        log.append((op, {k: v[1][:30] for k, v in items.items()}, folded))
        card.add(folded=folded, **{k: v[1] for k, v in items.items()})
        for parts, c in items.values():
            put(parts, ("text", c), folded)
    elif op == "plot":
        parts, folded, desc = parts_(), r.random() < 0.4, r.choice([None, "described\nover lines"])
        f = plot_file(ctx, no % 7)
        log.append((op, parts, folded, desc))
        card.add_plot(description=desc, alt_text=f"alt{no}", folded=folded, **{cards.write_path(r, parts): f})
        put(parts, ("plot", f"![alt{no}]({f})", desc), folded)
    elif op in ("table", "metrics"):
        parts, folded, desc = parts_(), r.random() < 0.4, r.choice([None, "described"])
        log.append((op, parts, folded, desc))
        if op == "table":
            card.add_table(description=desc, folded=folded, **{cards.write_path(r, parts): {"c": [no, "x|y", "a\nb"], "ü": [None, 1.5, ""]}})
        else:
            folded = False
            card.add_metrics(section=cards.write_path(r, parts), description=desc, **{f"m{no % 4}": no / 7})
        s = put(parts, ("table", None, desc), folded)

        def body(s=s):
            """The table as it stands, without its description and wrapping (what C14 judges)."""
            held = s.folded, s.content
            s.folded, s.content = False, ""
            try:
                return s.format()
            finally:
                s.folded, s.content = held
        sh.get(parts).what["body"] = ("table", body, desc)
    elif op == "mplot":
        parts = parts_()
        log.append((op, parts))
        card.add_model_plot(section=cards.write_path(r, parts), description="D")
        s = card.select(cards.write_path(r, parts, False))
        put(parts, ("text", s.content), False)
    elif op == "delete" and paths:
        parts = r.choice(paths)
        log.append((op, parts))
        card.delete(list(parts))
        sh.delete(parts)
    elif op == "flip" and paths:
        for _ in range(r.randrange(1, 4)):
            parts = r.choice(paths)
            w = sh.get(parts).what
            flag = r.choice(["visible", "folded"])
            w[flag] = not w[flag]
            log.append((op, parts, flag, w[flag]))
            setattr(card.select(cards.write_path(r, parts, False)), flag, w[flag])
            ctx.count("flips")
    elif op == "content" and paths:
        parts = r.choice(paths)
        w = sh.get(parts).what
        if w["body"][0] == "text":
            w["body"] = ("text", r.choice(CONTENTS) + f"{MARK}{no}")
            log.append((op, parts))
            card.select(cards.write_path(r, parts)).content = w["body"][1]
    elif op == "rename" and paths and r.random() < 0.5:
        parts = r.choice(paths)
        t = f"renamed {no}"
        log.append((op, parts, t))
        card.select(cards.write_path(r, parts)).title = t
        sh.get(parts).what["shown"] = t


def run_random(ctx, shard, sc):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        pool = cards.titles(r, r.randrange(2, 9))
        tmpl = r.choice([None, None, None, "skops", {"A": "a", "A/B": "b", "C": ""}])
        log = [("template", tmpl)]
        sh = cards.Shadow()
        if tmpl == "skops":
            card = sc.Card(LR(), model_diagram=r.choice([True, False, "auto"]))
            adopt(card, sh)
        else:
            card = sc.Card(LR(), template=tmpl)
            for k, v in (tmpl or {}).items():
                sh.add(tuple(k.split("/")), body=("text", v), visible=True, folded=False)
        j = Judge(ctx, card, sh, log)
        deep = r.random() < 0.15
        if deep:
            parts = tuple(r.choice(pool) for _ in range(r.randrange(6, 13)))
            card.add(**{cards.write_path(r, parts): "deep"})
            for k in range(1, len(parts)):
                if sh.get(parts[:k]) is None:
                    sh.add(parts[:k], body=("text", ""), visible=True, folded=False)
            sh.add(parts, body=("text", "deep"), visible=True, folded=False)
        for no in range(r.randrange(3, 30)):
            mutate(ctx, r, card, sh, pool, no, log)
            if r.random() < 0.25:
                j.judge(r, save=r.random() < 0.6)
            if j.bad:
                break
        if not j.bad:
            # a last random assignment of flags over the whole tree
            for p, n in sh.walk():
                s = card.select(cards.write_path(r, p, False))
                n.what["visible"], n.what["folded"] = r.random() < 0.75, r.random() < 0.3
                s.visible, s.folded = n.what["visible"], n.what["folded"]
            j.judge(r)
        ctx.sample(dict(case=i, tree=[("/".join(p), n.what["visible"], n.what["folded"]) for p, n in sh.walk()][:12]))


def adopt(card, sh):
    def down(section, parts):
        for k, s in section.subsections.items():
            take(s, parts + (k,))

    def take(s, parts):
        what = dict(visible=True, folded=bool(s.folded))
        if hasattr(s, "table"):
            held = s.folded, s.content
            s.folded, s.content = False, ""
            what["body"] = ("table", s.format(), held[1])
            s.folded, s.content = held
        else:
            what["body"] = ("text", s.content)
        sh.add(parts, **what)
        down(s, parts)
    for lev, t in cards.toc_lines(card):
        if lev == 0:
            take(card.select(t.replace("/", "\\/")), (t,))


def shapes(n):
    """All ordered forests of n nodes, as nested tuples."""
    if n == 0:
        return [()]
    out = []
    for k in range(n):
        for first in shapes(k):
            for rest in shapes(n - 1 - k):
                out.append(((first),) + rest)
    return out


def run_exhaustive(ctx, shard, sc):
    import itertools
    todo = [(n, si, shape) for n in range(1, shard["n"] + 1) for si, shape in enumerate(shapes(n))]
    todo = [(f"{n}-{si}-{k}", n, shape, flags) for n, si, shape in todo for k, flags in enumerate(itertools.product([(True, False), (False, False), (True, True), (False, True)], repeat=n))]
    for cid, n, shape, flags in ctx.items(todo[shard["part"]::shard["parts"]]):
        card = sc.Card(LR(), template=None)
        sh = cards.Shadow()
        order = []

        def build(forest, parts):
            for tree in forest:
                p = parts + (f"T{len(order)}",)
                order.append(p)
                build(tree, p)
        build(shape, ())
        r = ctx.rng("ex", cid)
        for k, p in enumerate(order):
            kind = r.randrange(3)
            v, f = flags[k]
            if kind == 0:
                card.add_plot(description="desc" if k % 2 else None, folded=f, **{"/".join(p): f"none{k}.png"})
                sh.add(p, body=("plot", f"![{p[-1]}](none{k}.png)", "desc" if k % 2 else None), visible=v, folded=f)
            else:
                card.add(folded=f, **{"/".join(p): f"{MARK}{k}"})
                sh.add(p, body=("text", f"{MARK}{k}"), visible=v, folded=f)
            card.select("/".join(p)).visible = v
        ctx.count("exhaustive")
        Judge(ctx, card, sh).judge()


LOCALE = r"""
import sys, os, pathlib
import skops.card as sc
from sklearn.linear_model import LogisticRegression
import locale
assert "utf" not in locale.getencoding().lower(), locale.getencoding()
n = 0
for tmpl in (None, "skops"):
    for style in (str, pathlib.Path):
        for content in ("plain", "\u00fcn\u00ef \u65e5\u672c \U0001f389", "a\r\nb\rc\n", "\u2028\x85", "\ufeff", "\udcff" if 0 else "\u0394" * 5000, "\x00"):
            for title in ("T", "Gr\u00f6\u00dfe"):
                card = sc.Card(LogisticRegression(), template=tmpl)
                card.add(**{title: content, title + "/\u65e5": content})
                p = style(os.path.join(os.getcwd(), "loc.md"))
                try:
                    card.save(p)
                    got = open(p, "rb").read()
                except Exception as e:
                    got = repr(e).encode()
                if got != card.render().encode("utf-8"):
                    print("BAD", ascii((tmpl, style.__name__, content[:20], title, got[:100])))
                n += 1
print("N", n)
"""


def run_locale(ctx, shard, sc):
    for (cid,) in ctx.items([("posix",), ("latin",)]):
        env = dict(os.environ, LC_ALL="C" if cid == "posix" else "POSIX", LANG="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
        p = subprocess.run([sys.executable, "-c", LOCALE], env=env, capture_output=True, timeout=300, cwd=ctx.tmpdir())
        out = p.stdout.decode()
        if p.returncode or "N " not in out:
            raise RuntimeError(p.stderr.decode()[-1500:])
        n = int(out.rsplit("N ", 1)[1])
        ctx.count("ascii_locale", n)
        ctx.ev(("locale", cid), n)
        for line in out.split("\n"):
            if line.startswith("BAD"):
                ctx.violation("save-locale", f"under an ASCII locale the saved file is not render() in UTF-8: {line[4:400]}")
