"""C09: the card is an insertion-ordered section tree with stable addressing."""
import os
import warnings

from vk import cards, core
from vk.rt import brief

RULE = "a distinct evaluation is one (operation history prefix) after which the whole tree was read back (every path selected, order of all children, TOC) and compared with the shadow tree; non-trivial = the tree had at least 3 sections"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor with a shadow model: random histories of add/add_*/select/chained select/delete (string and list form) on two interleaved cards; after every call the whole tree is read back through select()/subsections/get_toc() and compared"
LEVEL_NOTE = "histories of 4-60 calls over small title pools (slashes, escaped slashes, blanks, unicode, backslashes) so that overwrites, re-adds and prefix collisions are frequent; None/custom/skops templates; all two-/three-call histories over a small alphabet exhaustively"
REQUIRED = {"ops": 60000, "overwrites": 3000, "overwrite_with_subs": 800, "deletes": 1500, "delete_subtree": 300, "list_delete": 600, "missing_select": 1500, "missing_delete": 800, "empty_names": 1500, "chained": 1000, "implicit_ancestors": 1500, "slash_titles": 3000, "readds": 300,
            "exhaustive": 3000, "builder_overwrites": 500}


def plan(tier, seed):
    q = tier == "quick"
    return core.spread("random", 6000 if q else 150000, 6 if q else 14, timeout_s=850) + [dict(name="exhaustive", depth=3 if q else 4, part=p, parts=2 if q else 6, timeout_s=850) for p in range(2 if q else 6)]


def run(ctx, shard):
    warnings.simplefilter("ignore")
    os.chdir(ctx.tmpdir())
    import skops.card as sc
    from sklearn.linear_model import LogisticRegression
    globals()["LR"] = LogisticRegression
    globals()["run_" + shard["name"]](ctx, shard, sc)
    os.chdir("/")


class Pair:
    """A card with its shadow; every operation goes to both, then everything is compared."""

    def __init__(self, ctx, sc, template, log):
        self.ctx, self.log = ctx, log
        self.bad = False
        self.deleted = set()
        self.sh = cards.Shadow()
        kw = {}
        if isinstance(template, dict):
            kw = dict(template=template)
        elif template is None:
            kw = dict(template=None)
        self.card = sc.Card(LR(), **kw)
        if isinstance(template, dict):
            for k, v in template.items():
                self.sh.add(tuple(k.split("/")), kind="text", content=v, visible=True, folded=False)
        elif template == "skops":
            self.take()

    def take(self):
        """The shadow of what the template made."""
        def down(section, node):
            for k, s in section.subsections.items():
                c = cards.Node(k, kind="taken", fields=cards.fields(s))
                node.subs[k] = c
                down(s, c)
        for lev, t in cards.toc_lines(self.card):
            if lev == 0:
                s = self.card.select(t.replace("/", "\\/"))
                c = cards.Node(t, kind="taken", fields=cards.fields(s))
                self.sh.root.subs[t] = c
                down(s, c)

    def fail(self, kind, msg):
        self.bad = True
        self.ctx.violation(kind, msg, history=[repr(x)[:160] for x in self.log][-60:])

    # -- reading back
    def compare(self, last):
        ctx, card = self.ctx, self.card
        n = 0
        for parts, node in self.sh.walk():
            n += 1
            path = "/".join(p.replace("/", "\\/") + (" " if p.endswith("\\") else "") for p in parts)
            try:
                s = card.select(path)
            except KeyError as e:
                return self.fail("lost", f"after {last}: select({path!r}) raised {e!r} though it was added")
            except Exception as e:  # noqa
                return self.fail("select-error", f"after {last}: select({path!r}) raised {e!r}")
            w = node.what
            if s.title != node.title:
                return self.fail("title", f"after {last}: {path!r} has the title {s.title!r}")
            if w["kind"] == "text":
                if type(s).__name__ != "Section" or s.content != w["content"] or bool(s.folded) != w["folded"] or bool(s.visible) != w["visible"]:
                    return self.fail("content", f"after {last}: {path!r} is {cards.fields(s)!r} instead of {w!r}")
            elif w["kind"] == "new":
                w["kind"], w["fields"] = "taken", cards.fields(s)
                if w.get("cls") and type(s).__name__ != w["cls"]:
                    return self.fail("content", f"after {last}: {path!r} is a {type(s).__name__}, not a {w['cls']}")
                for k, v in w.get("check", {}).items():
                    if getattr(s, k) != v and str(getattr(s, k)) != str(v):
                        return self.fail("content", f"after {last}: {path!r} has {k} {getattr(s, k)!r} instead of {v!r}")
            elif cards.fields(s) != w["fields"]:
                return self.fail("disturbed", f"after {last}: {path!r} is {brief(cards.fields(s), 300)} instead of {brief(w['fields'], 300)}")
            if list(s.subsections) != list(node.subs):
                return self.fail("subsections", f"after {last}: {path!r} has the subsections {list(s.subsections)!r} instead of {list(node.subs)!r}")
        top = [t for lev, t in cards.toc_lines(card) if lev == 0]
        if top != list(self.sh.root.subs):
            return self.fail("order", f"after {last}: the top level sections are {top!r} instead of {list(self.sh.root.subs)!r}")
        want = []

        def visible(node, depth):
            for c in node.subs.values():
                if c.what.get("visible", True):
                    want.append((depth, c.title))
                    folded = c.what["folded"] if "folded" in c.what else c.what["fields"]["folded"]
                    if not folded:
                        visible(c, depth + 1)
        visible(self.sh.root, 1)
        m = cards.toc_mismatch(card, want)
        if m:
            return self.fail("toc", f"after {last}: {m}")
        ctx.ev((tuple(map(repr, self.log))) if n >= 3 else None)

    # -- operations
    def add(self, items, folded=False, spelled=None):
        kw = dict(spelled)
        self.card.add(folded=folded, **kw) if folded else self.card.add(**kw)
        for parts, content in items:
            self.note_add(parts)
            self.sh.add(parts, kind="text", content=content, visible=True, folded=folded)

    def note_add(self, parts):
        ctx = self.ctx
        old = self.sh.get(parts)
        if old is not None:
            ctx.count("overwrites")
            if old.subs:
                ctx.count("overwrite_with_subs")
        if any(self.sh.get(parts[:i]) is None for i in range(1, len(parts))):
            ctx.count("implicit_ancestors")
        if any("/" in p for p in parts):
            ctx.count("slash_titles")
        if parts in self.deleted:
            ctx.count("readds")


CONTENTS = ["", "x", "text", "# not a heading", "a\nb", "ünï 日", " ", "a/b", "None", "- item", "<details>", "%s {}"]


def random_parts(r, pool, sh, deep=4):
    p = r.random()
    paths = sh.paths()
    if paths and p < 0.35:
        return r.choice(paths)
    if paths and p < 0.6:
        base = r.choice(paths)
        return base + (r.choice(pool),) if len(base) < 7 else base
    return tuple(r.choice(pool) for _ in range(r.randrange(1, deep + 1)))


def missing_parts(r, pool, sh):
    for _ in range(20):
        p = random_parts(r, pool, sh) if r.random() < 0.5 else tuple(r.choice(pool) for _ in range(r.randrange(1, 5)))
        if r.random() < 0.3 and sh.paths():
            base = list(r.choice(sh.paths()))
            base[r.randrange(len(base))] = r.choice(["nope", "A ", "a", "no/pe", "*", "0 "]).strip()
            p = tuple(base)
        if sh.get(p) is None:
            return p
    return ("definitely", "missing")


def empty_spelling(r, pool, sh):
    """A name with an empty part somewhere."""
    base = list(r.choice(sh.paths())) if sh.paths() and r.random() < 0.8 else [r.choice(pool)]
    s = [p.replace("/", "\\/") + (" " if p.endswith("\\") else "") for p in base]
    s.insert(r.randrange(len(s) + 1), r.choice(["", " ", "\t"]))
    return "/".join(s) if r.random() < 0.85 else r.choice(["", " ", "/", "//", " / ", "\n"])


def chained(card, r, parts):
    """Split a path at random places into chained select calls."""
    cuts = sorted(r.sample(range(1, len(parts)), r.randrange(0, len(parts)))) if len(parts) > 1 else []
    segs = [parts[a:b] for a, b in zip([0] + cuts, cuts + [len(parts)])]
    s = card
    for seg in segs:
        s = s.select(cards.write_path(r, seg))
    return s, len(segs)


def step(ctx, r, pair, pool, no):
    card, sh, log = pair.card, pair.sh, pair.log
    op = r.choice(["add"] * 6 + ["addn"] * 2 + ["plot", "table", "metrics", "hyper", "mplot"] + ["select"] * 2 + ["chain"] * 2 + ["nosel"] * 2 + ["nochain", "empty", "emptychain", "nodel", "emptydel"] + ["delete"] * 2 + ["ldelete"] * 2 + ["nold", "edit"])
    ctx.count("ops")

    def entry(*a):
        log.append((no, op) + a)
        return log[-1][1:]

    def must_raise(f, last):
        try:
            got = f()
        except KeyError:
            return
        except Exception as e:  # noqa
            return pair.fail("wrong-error", f"{last} raised {e!r} instead of KeyError")
        pair.fail("no-error", f"{last} returned {brief(got)} instead of raising KeyError")

    if op in ("add", "addn"):
        items, spelled = [], {}
        for _ in range(1 if op == "add" else r.randrange(2, 5)):
            parts = random_parts(r, pool, sh)
            sp = cards.write_path(r, parts)
            if sp in spelled or sp in ("folded", "self"):
                continue
            c = r.choice(CONTENTS) + (str(r.randrange(1000)) if r.random() < 0.6 else "")
            spelled[sp] = c
            items.append((parts, c))
        folded = r.random() < 0.2
        last = entry(spelled, folded)
        pair.add(items, folded, spelled)
    elif op in ("plot", "table"):
        parts = random_parts(r, pool, sh)
        sp = cards.write_path(r, parts)
        pair.note_add(parts)
        if sh.get(parts) is not None:
            ctx.count("builder_overwrites")
        folded = r.random() < 0.3
        desc = r.choice([None, "a description"])
        last = entry(sp, folded, desc)
        if op == "plot":
            card.add_plot(description=desc, folded=folded, **{sp: f"p{no}.png"})
            sh.add(parts, kind="new", cls="PlotSection", folded=folded, check=dict(path=f"p{no}.png", content=desc or ""))
        else:
            t = {"c": [no, 2]}
            card.add_table(description=desc, folded=folded, **{sp: t})
            sh.add(parts, kind="new", cls="TableSection", folded=folded, check=dict(table=t, content=desc or ""))
    elif op in ("metrics", "hyper", "mplot"):
        parts = random_parts(r, pool, sh)
        sp = cards.write_path(r, parts)
        pair.note_add(parts)
        if sh.get(parts) is not None:
            ctx.count("builder_overwrites")
        last = entry(sp)
        if op == "metrics":
            card.add_metrics(section=sp, **{f"m{no % 3}": no})
            sh.add(parts, kind="new", cls="TableSection", check=dict(content=""))
        elif op == "hyper":
            card.add_hyperparams(section=sp)
            sh.add(parts, kind="new", cls="TableSection", check=dict(content=""))
        else:
            card.add_model_plot(section=sp, description="D")
            sh.add(parts, kind="new")
    elif op in ("select", "chain") and sh.paths():
        parts = r.choice(sh.paths())
        last = entry(parts)
        try:
            if op == "select":
                s = card.select(cards.write_path(r, parts))
            else:
                s, k = chained(card, r, parts)
                if k > 1:
                    ctx.count("chained")
        except Exception as e:  # noqa
            return pair.fail("lost", f"{last} raised {e!r}")
        ref = card.select(cards.write_path(r, parts, False))
        if cards.fields(s) != cards.fields(ref) or list(s.subsections) != list(ref.subsections):
            return pair.fail("chained", f"{last}: {cards.fields(s)!r} and {cards.fields(ref)!r}")
    elif op == "edit" and sh.paths():
        parts = r.choice(sh.paths())
        last = entry(parts)
        node = sh.get(parts)
        if node.what["kind"] == "text":
            s, _ = chained(card, r, parts)
            s.content = node.what["content"] = f"edited {no}"
    elif op in ("nosel", "nochain"):
        parts = missing_parts(r, pool, sh)
        ctx.count("missing_select")
        last = entry(parts)
        must_raise((lambda: card.select(cards.write_path(r, parts))) if op == "nosel" else (lambda: chained(card, r, parts)), last)
    elif op in ("empty", "emptychain", "emptydel"):
        sp = empty_spelling(r, pool, sh)
        ctx.count("empty_names")
        last = entry(sp)
        if op == "empty":
            must_raise(lambda: card.select(sp), last)
        elif op == "emptydel":
            must_raise(lambda: card.delete(sp), last)
        elif sh.paths():
            s = card.select(cards.write_path(r, r.choice(sh.paths()), False))
            must_raise(lambda: s.select(sp), last)
    elif op in ("nodel", "nold"):
        parts = missing_parts(r, pool, sh)
        ctx.count("missing_delete")
        form = list(parts) if op == "nold" else cards.write_path(r, parts)
        if op == "nold" and r.random() < 0.3:
            form = r.choice([[], [""], form[:-1] + [""], ["", *form], ()])
        last = entry(form)
        must_raise(lambda: card.delete(form), last)
    elif op in ("delete", "ldelete") and sh.paths():
        parts = r.choice(sh.paths())
        if len(sh.get(parts).subs) and r.random() < 0.3:
            parts = r.choice(sh.paths())
        form = cards.write_path(r, parts) if op == "delete" else r.choice([list, tuple])(parts)
        last = entry(form)
        ctx.count("deletes")
        if op == "ldelete":
            ctx.count("list_delete")
        if sh.get(parts).subs:
            ctx.count("delete_subtree")
        try:
            card.delete(form)
        except Exception as e:  # noqa
            return pair.fail("delete", f"{last} raised {e!r} though the section exists")
        for p in sh.paths():
            if p[:len(parts)] == parts:
                pair.deleted.add(p)
        sh.delete(parts)
    else:
        return
    if not pair.bad:
        pair.compare(last)


def run_random(ctx, shard, sc):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        pool = cards.titles(r, r.randrange(2, 7))
        log = []
        tmpl = r.choice([None, None, "skops", "dict"])
        if tmpl == "dict":
            tmpl = {"A": "a", "A/B": "b", "C/D/E": "e", "A/F": ""}
        pairs = [Pair(ctx, sc, tmpl, log)]
        if r.random() < 0.4:
            pairs.append(Pair(ctx, sc, r.choice([None, tmpl]), log))
        for no in range(r.randrange(4, 40 if ctx.tier == "quick" else 60)):
            pair = r.choice(pairs)
            log.append(("card", pairs.index(pair)))
            try:
                step(ctx, r, pair, pool, no)
            except Exception as e:  # noqa
                import traceback
                where = traceback.extract_tb(e.__traceback__)[-1]
                if "/skops/" not in where.filename:
                    raise
                pair.fail("error", f"{log[-1]} raised {e!r}")
            if any(p.bad for p in pairs):
                break
            for other in pairs:
                if other is not pair and r.random() < 0.2:
                    other.compare(("a call on another card", log[-1]))
        ctx.sample(dict(case=i, history=[repr(x)[:80] for x in log[:12]]))


def run_exhaustive(ctx, shard, sc):
    """All short histories over a small alphabet."""
    import itertools
    paths = [("A",), ("A", "B"), ("A/B",), ("B",), ("A", "B", "A")]
    ops = [("add", p) for p in paths] + [("del", p) for p in paths[:4]] + [("list", p) for p in paths[:4]] + [("plot", p) for p in paths[:2]]
    todo = [h for d in range(1, shard["depth"] + 1) for h in itertools.product(ops, repeat=d)]
    for no, hist in ctx.items([("-".join(f"{o}{'/'.join(x.replace('/', '|') for x in p)}" for o, p in h), h) for h in todo[shard["part"]::shard["parts"]]]):
        log = []
        pair = Pair(ctx, sc, None, log)
        ctx.count("exhaustive")
        for k, (op, parts) in enumerate(hist):
            log.append((op, parts, k))
            sp = "/".join(p.replace("/", "\\/") for p in parts)
            if op == "add":
                pair.add([(parts, f"c{k}")], False, {sp: f"c{k}"})
            elif op == "plot":
                pair.card.add_plot(**{sp: f"p{k}"})
                pair.sh.add(parts, kind="new", cls="PlotSection", folded=False, check=dict(path=f"p{k}"))
            else:
                there = pair.sh.get(parts) is not None
                try:
                    pair.card.delete(sp if op == "del" else list(parts))
                    if not there:
                        pair.fail("no-error", f"{log[-1]} did not raise")
                except KeyError as e:
                    if there:
                        pair.fail("delete", f"{log[-1]} raised {e!r}")
                if there and not pair.bad:
                    pair.sh.delete(parts)
            if not pair.bad:
                pair.compare(log[-1])
            if pair.bad:
                break
