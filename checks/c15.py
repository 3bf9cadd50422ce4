"""C15: parsing a document yields a card with the same outline and content."""
import copy
import json
import os
import re
import shutil
import subprocess
import warnings

from vk import cards, core
from vk.rt import brief

RULE = "a distinct evaluation is one pandoc tree parsed into a card whose TOC, render() and select() were judged against the tree's own outline and blocks, or one (element, conversion history) pair; non-trivial = at least two headers or a nested element"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitor with unique markers in every leaf of generated pandoc trees: outline computed independently from the header levels, every block's markers exactly once and in order in the right section, tables parsed back; "
             "conversions repeated on fresh, reused and failed converters in random orders with the element compared before and after; nested lists, quotes and whole documents re-parsed by pandoc where it is installed")
LEVEL_NOTE = "1-25 headers at levels 1-6 in any order (skips, deep first header, duplicates, empty titles), titles with slashes/backslashes/markup; all header level sequences up to length 5 exhaustively; nesting to depth 5; old and new table layouts with several bodies, head/foot rows, no header"
REQUIRED = {"documents": 3000, "headers": 15000, "skips": 2000, "slash_titles": 3000, "duplicate_titles": 800, "blocks": 15000, "markers": 50000, "tables": 1500, "nested_lists": 1500, "conversions": 9000, "failed_conversions": 1000, "exhaustive": 1300, "selected": 5000}


def plan(tier, seed):
    q = tier == "quick"
    return (core.spread("documents", 4000 if q else 90000, 4 if q else 8, timeout_s=850) + core.spread("orders", 1200 if q else 30000, 2 if q else 4, timeout_s=850)
            + [dict(name="exhaustive", n=5 if q else 7, part=p, parts=1 if q else 4, timeout_s=850) for p in range(1 if q else 4)] + core.spread("pandoc", 250 if q else 5000, 1 if q else 4, timeout_s=850))


def run(ctx, shard):
    warnings.simplefilter("ignore")
    os.chdir(ctx.tmpdir())
    import skops.card as sc
    from skops.card._markup import Markdown
    from skops.card._parser import PandocParser
    globals().update(Markdown=Markdown, PandocParser=PandocParser)
    globals()["run_" + shard["name"]](ctx, shard, sc)
    os.chdir("/")


# ---------------------------------------------------------------- generating trees
class Gen:
    """Pandoc elements with a unique marker in every leaf."""

    def __init__(self, r, tag="", safe=False):
        self.r, self.n, self.tag, self.safe = r, 0, tag, safe

    def mark(self):
        self.n += 1
        return f"q{self.tag}x{self.n}z"

    def word(self):
        r = self.r
        w = self.mark()
        if not self.safe and r.random() < 0.3:
            w = r.choice(["", "(", "\\", "ü", "#", "*", "日", "/"]) + w + r.choice(["", ".", "\\n", "/x", "é", "_", "|", "`", "]", "\u00a0", "<b>"])
        return dict(t="Str", c=w)

    def inlines(self, depth=2, image=True, breaks=True):
        r = self.r
        out = []
        for k in range(r.randrange(1, 4)):
            if k:
                out.append(dict(t=r.choice(["Space", "Space", "SoftBreak", "LineBreak"] if breaks else ["Space"])))
            out.append(self.inline(depth, image))
        return out

    def inline(self, depth, image=True):
        r = self.r
        kinds = ["Str"] * 4 + ["Code", "RawInline"]
        if self.safe:
            kinds = ["Str"] * 4 + ["Code"]
        if depth > 0:
            kinds += ["Emph", "Strong", "Strikeout", "Quoted", "Link"] if not self.safe else ["Emph", "Strong", "Strikeout", "Link"]
            if image and not self.safe:
                kinds += ["Image"]
        k = r.choice(kinds)
        if k == "Str":
            return self.word()
        if k == "Code":
            return dict(t="Code", c=[["", [], []], self.mark() + ("" if self.safe else r.choice(["", " x", "\\n", "*", "|"]))])
        if k == "RawInline":
            return dict(t=k, c=["html", f"<b>{self.mark()}</b>"])
        if k in ("Emph", "Strong", "Strikeout"):
            return dict(t=k, c=self.inlines(depth - 1, image, breaks=False) if not self.safe else [self.word()])
        if k == "Quoted":
            return dict(t=k, c=[dict(t=r.choice(["DoubleQuote", "SingleQuote"])), self.inlines(depth - 1, image, breaks=False)])
        if k == "Link":
            return dict(t=k, c=[["", [], []], self.inlines(depth - 1, image, breaks=False) if not self.safe else [self.word()], [f"https://{self.mark()}/", ""]])
        return dict(t=k, c=[["", [], []], self.inlines(depth - 1, False, breaks=False), [f"{self.mark()}.png", "fig:"]])

    def items(self, depth, n=None):
        """List items: blocks, nested lists."""
        r = self.r
        out = []
        for _ in range(n or r.randrange(1, 4)):
            it = [dict(t="Plain" if self.safe or r.random() < 0.7 else "Para", c=self.inlines(1, image=not self.safe, breaks=not self.safe))]
            if depth > 0 and r.random() < 0.4:
                it.append(self.lst(depth - 1))
            elif not self.safe and depth > 0 and r.random() < 0.25:
                it.append(self.block(depth - 1))
            out.append(it[:1] + self.again(it[1:]))
        return self.again(out)

    def lst(self, depth):
        if self.r.random() < 0.6:
            return dict(t="BulletList", c=self.items(depth))
        r = self.r
        start = 1 if self.safe else r.choice([1, 1, 1, 0, 3, 9, 99])
        style, delim = ("Decimal", "Period") if self.safe or r.random() < .6 else (r.choice(STYLES), r.choice(["DefaultDelim", "Period", "OneParen", "TwoParens"]))
        return dict(t="OrderedList", c=[[start, dict(t=style), dict(t=delim)], self.items(depth)])

    def again(self, xs, p=.12):
        """sometimes the same thing twice in a row, or once more later"""
        if self.safe or not xs or self.r.random() > p:
            return xs
        k = self.r.randrange(len(xs))
        at = self.r.choice([k + 1, len(xs)])
        return xs[:at] + [copy.deepcopy(xs[k])] + xs[at:]

    def cell(self):
        r = self.r
        if r.random() < 0.15:
            return []
        out = [dict(t="Plain", c=self.inlines(1, image=False, breaks=not self.safe))]
        if not self.safe and r.random() < 0.1:
            out.append(dict(t="Plain", c=[self.word()]))
        return out

    def table(self):
        r = self.r
        ncol = r.randrange(1, 5)
        row = lambda: [self.cell() for _ in range(ncol)]  # noqa
        head = row()
        if r.random() < 0.15 and ncol > 1 and not self.safe:
            head[1] = copy.deepcopy(head[0])
        rows = self.again([row() for _ in range(r.choice([0, 1, 1, 2, 3, 5]))])
        if r.random() < 0.4 and not self.safe:
            return dict(t="Table", c=[[], [dict(t="AlignDefault")] * ncol, [0] * ncol, head, rows])
        A = ["", [], []]
        cell = lambda c: [A, dict(t="AlignDefault"), 1, 1, c]  # noqa
        mk = lambda row: [A, [cell(c) for c in row]]  # noqa
        cut = sorted([r.randrange(len(rows) + 1), r.randrange(len(rows) + 1)])
        plain = self.safe or r.random() < 0.5
        bodies = [[A, 0, [], [mk(x) for x in rows]]]
        foot = []
        if not plain:
            bodies = [[A, 0, [mk(x) for x in rows[:cut[0]]], [mk(x) for x in rows[cut[0]:cut[1]]]], [A, 0, [], []]]
            if r.random() < 0.5:
                bodies.append([A, 0, [], [mk(x) for x in rows[cut[1]:]]])
            else:
                foot = [mk(x) for x in rows[cut[1]:]]
        heads = [mk(head)] if self.safe or r.random() < 0.85 else []
        return dict(t="Table", c=[A, [None, []], [[dict(t="AlignDefault"), dict(t="ColWidthDefault")]] * ncol, [A, heads], bodies, [A, foot]])

    def block(self, depth=2):
        r = self.r
        kinds = ["Para"] * 4 + ["CodeBlock", "Table", "List", "List"]
        if not self.safe:
            kinds += ["RawBlock", "Figure", "Plain"]
        if depth > 0:
            kinds += ["BlockQuote"] if self.safe else ["BlockQuote", "Div"]
        k = r.choice(kinds)
        if k in ("Para", "Plain"):
            return dict(t=k, c=self.inlines())
        if k == "CodeBlock":
            return dict(t=k, c=[["", r.choice([[], ["python"]] if self.safe else [[], ["python"], ["a", "b"]]), []], "\n".join(self.mark() + ("" if self.safe else r.choice(["", "  # x", "\\", "| a |"])) for _ in range(r.randrange(1, 4)))])
        if k == "RawBlock":
            return dict(t=k, c=["html", f"<p>{self.mark()}</p>"])
        if k == "Figure":
            A = ["", [], []]
            cap = self.inlines(1, image=False, breaks=False)
            return dict(t=k, c=[A, [None, [dict(t="Plain", c=copy.deepcopy(cap))]], [dict(t="Plain", c=[dict(t="Image", c=[A, cap, [f"{self.mark()}.png", ""]])])]])
        if k == "Table":
            return self.table()
        if k == "List":
            return self.lst(r.randrange(0, 4))
        if k == "BlockQuote":
            return dict(t=k, c=self.again([(dict(t="Para", c=self.inlines(breaks=not self.safe)) if self.safe else self.block(depth - 1)) for _ in range(1 if self.safe else r.randrange(1, 3))], .4))
        return dict(t="Div", c=[["i" + self.mark() if r.random() < 0.3 else "", ["cls"] if r.random() < 0.5 else [], [["hidden", ""], ["k", "v"]] if r.random() < 0.4 else []], self.again([self.block(depth - 1) for _ in range(r.randrange(1, 3))], .4)])


STYLES = ["Decimal", "DefaultStyle", "Example", "LowerAlpha", "UpperAlpha", "LowerRoman", "UpperRoman"]
MARKER = re.compile(r"q\w*?x\d+z")


def leaves(x, out=None):
    """The markers of a tree in document order (captions of figures are shown by their image)."""
    out = [] if out is None else out
    if isinstance(x, str):
        out += MARKER.findall(x)
    elif isinstance(x, list):
        for y in x:
            leaves(y, out)
    elif isinstance(x, dict):
        if x["t"] == "Figure":
            leaves(x["c"][2], out)
        elif x["t"] == "Table" and len(x["c"]) == 6:
            _, _, _, head, bodies, foot = x["c"]
            leaves(head[1], out)
            for b in bodies:
                leaves(b[2], out)
                leaves(b[3], out)
            leaves(foot[1], out)
        else:
            leaves(x.get("c"), out)
    return out


def post(res):
    return res.replace("\xa0", " ").replace("- ☒", "- [x]").replace("- ☐", "- [ ]")


def ref_title(inlines):
    """The header's text, written down independently."""
    out = ""
    for i in inlines:
        t, c = i["t"], i.get("c")
        if t == "Str":
            out += c
        elif t == "Space":
            out += " "
        elif t == "Code":
            out += f"`{c[1]}`"
        elif t in ("Emph", "Strong", "Strikeout"):
            m = dict(Emph="_", Strong="**", Strikeout="~~")[t]
            out += m + ref_title(c) + m
        elif t == "Quoted":
            q_ = '"' if c[0]["t"] == "DoubleQuote" else "'"
            out += q_ + ref_title(c[1]) + q_
        elif t == "Link":
            out += f"[{ref_title(c[1])}]({c[2][0]})"
        elif t == "RawInline":
            out += c[1]
        else:
            raise AssertionError(t)
    return out


TITLES = ["Intro", "Input/Output", "a/b/c", "/lead", "trail/", "C:\\dir", "a\\/b", "\\", "Größe", "日本語", "🎉", "A", "B", "#1", "*x*", "x|y", "1.", "- x", "(2)", "None", "\\/", "//", "Intro (2)", "A (2)", "%s", "{}", "a\\\\b", "\\n", "☒ done"]


def header(r, level=None, simple=False):
    level = level or r.randrange(1, 7)
    k = r.random()
    if k < 0.03 and not simple:
        inl = []
    elif k < 0.75 or simple:
        inl = []
        for w in r.sample(TITLES, r.choice([1, 1, 1, 2, 3])):
            for part in w.split(" "):
                inl += ([dict(t="Space")] if inl else []) + [dict(t="Str", c=part)]
    else:
        inl = [dict(t="Str", c=r.choice(TITLES[:12]).split(" ")[0]), dict(t="Space"),
               r.choice([dict(t="Code", c=[["", [], []], "code/x\\y"]), dict(t="Emph", c=[dict(t="Str", c="em/ph")]), dict(t="Strong", c=[dict(t="Str", c="st")]), dict(t="Quoted", c=[dict(t="DoubleQuote"), [dict(t="Str", c="q/u")]]),
                         dict(t="Link", c=[["", [], []], [dict(t="Str", c="txt")], ["http://a/b", ""]]), dict(t="RawInline", c=["html", "<b>"])])]
    return dict(t="Header", c=[level, ["", [], []], inl])


def titles_ok(shown, item):
    """The header's text verbatim; backslashes of plain text may be escaped as markdown has it."""
    t = post(ref_title(item["c"][2]))
    if shown == t or shown == t.replace("\\", "\\\\"):
        return True
    return shown == post(ref_title([dict(i, c=i["c"].replace("\\", "\\\\")) if i["t"] == "Str" else i for i in item["c"][2]]))


# ---------------------------------------------------------------- judging a document
def outline(blocks):
    """[(depth, header item, parent index, blocks)] from the header levels alone."""
    out, stack = [], []
    for b in blocks:
        if b["t"] == "Header":
            lev = b["c"][0]
            while stack and stack[-1][0] >= lev:
                stack.pop()
            stack.append((lev, len(out)))
            out.append((len(stack), b, stack[-2][1] if len(stack) > 1 else None, []))
        else:
            out[-1][3].append(b)
    return out


def judge(ctx, blocks, cid):
    src = json.dumps({"pandoc-api-version": [1, 23, 1], "meta": {}, "blocks": blocks})
    try:
        card = PandocParser(src).generate()
        toc = cards.toc_lines(card)
        text = card.render()
    except Exception as e:  # noqa
        ctx.violation("error", f"parsing raised {e!r}", blocks=brief(blocks, 1500))
        return False
    want = outline(blocks)
    depths = [d for d, *_ in want]
    levels = [b["c"][0] for b in blocks if b["t"] == "Header"]
    if len(toc) != len(want):
        ctx.violation("outline", f"{len(toc)} sections for {len(want)} headers: {[t for _, t in toc]!r}", levels=levels)
        return False
    m = cards.toc_mismatch(card, [(d, t) for d, (_, t) in zip(depths, toc)])
    if m:
        ctx.violation("outline", f"levels {levels}: {m}", titles=[t for _, t in toc])
        return False
    for (w, shown), (d, item, _, _) in zip(toc, want):
        if not titles_ok(shown, item):
            ctx.violation("title", f"header {item['c'][2]!r} has the title {shown!r}")
            return False
    exp = []
    for (_, shown), (d, item, parent, content) in zip(toc, want):
        exp.append((f"heading {shown!r}", f"{'#' * d} {shown}"))
        for b in content:
            res = post(Markdown()(copy.deepcopy(b)))
            exp.append((f"{b['t']} of {shown!r}", res))
            if not judge_block(ctx, b, res):
                return False
    # a heading without text leaves no trailing blanks to compare
    m = cards.blocks_mismatch(text, exp)
    if m:
        ctx.violation("render", m, levels=levels, titles=[t for _, t in toc])
        return False
    # through select, where a path can name the section
    names, paths = {}, []
    for k, ((_, shown), (d, item, parent, content)) in enumerate(zip(toc, want)):
        path = (paths[parent] if parent is not None and paths[parent] is not None else ()) + (shown,) if parent is None or paths[parent] is not None else None
        if path is not None and (not shown.strip() or shown != shown.strip() or "\\" in shown or path in names):
            path = None
        if path is not None:
            names[path] = k
        paths.append(path)
    dup = {}
    for p in paths:
        dup[p] = dup.get(p, 0) + 1
    for path, (_, item, _, content) in zip(paths, want):
        if path is None or any(re.search(r" \(\d+\)$", x) for x in path):
            continue
        try:
            s = card.select("/".join(x.replace("/", "\\/") for x in path))
        except Exception as e:  # noqa
            ctx.violation("select", f"select of {path!r} raised {e!r}", levels=levels, titles=[t for _, t in toc])
            return False
        ctx.count("selected")
        m = cards.blocks_mismatch(s.content, [("block", post(Markdown()(copy.deepcopy(b)))) for b in content])
        if s.title != path[-1] or m:
            ctx.violation("select", f"the section {path!r} has the title {s.title!r}; {m}")
            return False
    ctx.count("documents")
    ctx.count("headers", len(want))
    ctx.count("skips", sum(b - a > 1 for a, b in zip([0] + levels, levels)))
    ctx.count("slash_titles", sum("/" in t for _, t in toc))
    ctx.count("duplicate_titles", len(toc) - len({t for _, t in toc}))
    ctx.ev((tuple(levels), tuple(t for _, t in toc), tuple(len(c) for *_, c in want), brief(blocks, 300)) if len(want) > 1 else None)
    return True


def judge_block(ctx, b, res):
    ctx.count("blocks")
    want, got = leaves(b), MARKER.findall(res)
    ctx.count("markers", len(want))
    if want != got:
        ctx.violation("content", f"{b['t']}: markers {got} instead of {want} in {brief(res, 400)}", block=brief(b, 1000))
        return False
    if b["t"] == "Table":
        ctx.count("tables")
        return judge_table(ctx, b, res)
    if b["t"] in ("BulletList", "OrderedList"):
        return judge_list(ctx, b, res)
    return True


def rows_of(b):
    c = b["c"]
    if len(c) == 5:
        return c[3], c[4]
    un = lambda rows: [[x[4] for x in row[1]] for row in rows]  # noqa
    head = un(c[3][1])
    rows = []
    for _, _, h_, bd in c[4]:
        rows += un(h_) + un(bd)
    rows += un(c[5][1])
    return (head[0] if head else [[]] * len(c[2])), rows


def judge_table(ctx, b, res):
    head, rows = rows_of(b)
    t = cards.parse_table("\n" + res)
    conv = lambda cell: "".join(Markdown()(copy.deepcopy(x)) for x in cell)  # noqa
    if t is None:
        ctx.violation("table", f"no markdown table in {brief(res, 300)}", block=brief(b, 800))
        return False
    ghead, grows, ncol, before, after = t
    if ghead is None or len(ghead) != len(head) or len(grows) != len(rows) or before.strip() or after.strip():
        ctx.violation("table", f"{len(head)} columns and {len(rows)} rows became {ghead!r} and {len(grows)} rows in {brief(res, 500)}")
        return False
    for g, c in zip([x for row in [ghead] + grows for x in (row or ["?"] * 99)], [x for row in [head] + rows for x in row]):
        if g not in {post(x).strip() for x in cards.cell_texts(conv(c))}:
            ctx.violation("table", f"the cell {conv(c)!r} became {g!r}")
            return False
    return True


def list_lines(b, out, level=0):
    """[(level, marker, first markers)] of each list item."""
    if b["t"] == "BulletList":
        items, start = b["c"], None
    else:
        items, start = b["c"][1], b["c"][0][0]
        if b["c"][0][1]["t"] not in STYLES[:3]:
            start = "any"  # letters: markdown has only numbers
    for k, it in enumerate(items):
        out.append((level, "-" if start is None else "" if start == "any" else f"{start + k}.", leaves(it[0])[:1]))
        for x in it[1:]:
            if x["t"] in ("BulletList", "OrderedList"):
                list_lines(x, out, level + 1)


def judge_list(ctx, b, res):
    want = []
    list_lines(b, want)
    nested = max(l for l, _, _ in want)
    if nested:
        ctx.count("nested_lists")
    cols = {}
    lines = res.split("\n")
    for level, marker, first in want:
        if not first:
            continue
        at = next((k for k, x in enumerate(lines) if first[0] in x), len(lines))
        line = lines[at] if at < len(lines) else ""
        lines = lines[at + 1:]  # the same item may come again
        m = re.match(r"( *)(\S+) ", line)
        if not m or marker and m.group(2) != marker:
            ctx.violation("list", f"the item {first[0]} is in the line {line[:100]!r}, not after {marker!r}", result=res[:600])
            return False
        cols.setdefault(level, set()).add(len(m.group(1)))
    if cols.get(0, {0}) != {0} or any(min(cols[k + 1]) <= min(cols[k]) for k in cols if k + 1 in cols):
        ctx.violation("list", f"item columns by nesting {cols} in {res[:600]!r}")
        return False
    return True


def run_documents(ctx, shard, sc):
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        g = Gen(r)
        blocks = [header(r)]
        for _ in range(r.randrange(0, 25)):
            blocks.append(header(r) if r.random() < 0.4 else g.block(r.randrange(0, 3)))
            if blocks[-1]["t"] != "Header" and r.random() < 0.08:
                ctx.count("repeated_blocks")
                blocks.append(copy.deepcopy(r.choice([b for b in blocks[-4:] if b["t"] != "Header"])))
        judge(ctx, blocks, i)
        if i % 200 == 0:
            ctx.sample(dict(levels=[b["c"][0] for b in blocks if b["t"] == "Header"], blocks=[b["t"] for b in blocks][:20]))


def run_exhaustive(ctx, shard, sc):
    import itertools
    todo = [seq for n in range(1, shard["n"] + 1) for seq in itertools.product([1, 2, 3, 4] if shard["n"] > 5 or n <= 5 else [1, 2, 3], repeat=n)]
    for cid, seq in ctx.items([("-".join(map(str, s)), s) for s in todo[shard["part"]::shard["parts"]]]):
        r = ctx.rng("ex", cid)
        g = Gen(r)
        blocks = []
        for k, lev in enumerate(seq):
            blocks.append(dict(t="Header", c=[lev, ["", [], []], [dict(t="Str", c=r.choice(["A", "B", "A/B", f"T{k}"]))]]))
            for _ in range(r.randrange(0, 2)):
                blocks.append(dict(t="Para", c=[g.word()]))
        ctx.count("exhaustive")
        judge(ctx, blocks, cid)


BAD = [dict(t="DefinitionList", c=[]), dict(t="Math", c=[dict(t="InlineMath"), "x"]), dict(t="Image", c=[["", [], []], [], ["x.png", "fig:"]]), dict(t="Nope"), dict(t="Superscript", c=[dict(t="Str", c="x")]), dict(t="HorizontalRule")]


def run_orders(ctx, shard, sc):
    """The same elements on fresh, reused and failed converters in any order."""
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        g = Gen(r, tag=f"i{i}")
        elements = []
        for _ in range(r.randrange(2, 7)):
            e = g.block(r.randrange(0, 3)) if r.random() < 0.8 else r.choice([header(r), g.inline(2)])
            if e not in elements:
                elements.append(e)
        keep = copy.deepcopy(elements)
        try:
            truth = [Markdown()(e) for e in elements]
        except Exception as e:  # noqa
            ctx.violation("error", f"conversion raised {e!r}", elements=brief(elements, 800))
            continue
        shared = [Markdown() for _ in range(2)]
        hist = []
        for _ in range(r.randrange(4, 20)):
            conv = r.choice(shared + [Markdown()])
            if r.random() < 0.25:
                # an element that cannot be converted, somewhere inside
                bad = copy.deepcopy(r.choice(BAD))
                for _ in range(r.randrange(0, 4)):
                    bad = r.choice([dict(t="BulletList", c=[[dict(t="Plain", c=[g.word()]), bad]]), dict(t="OrderedList", c=[[3, dict(t="Decimal"), dict(t="Period")], [[bad], [dict(t="Plain", c=[g.word()])]]]),
                                    dict(t="Div", c=[["", [], []], [dict(t="Plain", c=[g.word()]), bad]]), dict(t="BlockQuote", c=[bad]), dict(t="Para", c=[g.word(), bad]), dict(t="Strong", c=[bad])])
                ctx.count("failed_conversions")
                try:
                    conv(bad)
                    ctx.count("bad_accepted")
                except Exception:  # noqa
                    pass
                hist.append("failed")
                continue
            k = r.randrange(len(elements))
            ctx.count("conversions")
            try:
                got = conv(elements[k])
            except Exception as e:  # noqa
                ctx.violation("order", f"element {k} raised {e!r} after {hist}", element=brief(elements[k], 600))
                break
            if got != truth[k]:
                ctx.violation("order", f"element {k} became {got[:300]!r} instead of {truth[k][:300]!r} after {hist}", element=brief(elements[k], 600))
                break
            hist.append(k)
            ctx.ev((i, k, tuple(hist[-6:])))
        if elements != keep:
            ctx.violation("changed", "converting changed the element itself", before=brief(keep, 500), after=brief(elements, 500))
        # sub-elements of converted elements, on their own
        for e in elements:
            for sub in subs(e):
                if sub["t"] in ("Image",) or r.random() < 0.7:
                    continue
                a = copy.deepcopy(sub)
                try:
                    x = Markdown()(a)
                    y = shared[0](sub)
                except Exception as ex:  # noqa
                    ctx.violation("order", f"the part {brief(sub, 200)} raised {ex!r}")
                    break
                if x != y:
                    ctx.violation("order", f"the part {brief(sub, 200)} became {y[:200]!r} instead of {x[:200]!r}")
                    break
                ctx.count("conversions")


def subs(x):
    if isinstance(x, list):
        for y in x:
            yield from subs(y)
    elif isinstance(x, dict) and x.get("t") in ("Para", "Plain", "Emph", "Strong", "BulletList", "OrderedList", "BlockQuote", "Div", "Link", "Code"):
        yield x
        yield from subs(x.get("c"))


# ---------------------------------------------------------------- re-parsing with pandoc
def normal(x):
    """Pandoc blocks without what markdown does not keep."""
    if isinstance(x, list):
        return [normal(y) for y in x]
    if isinstance(x, dict):
        t, c = x["t"], x.get("c")
        if t in ("Para", "Plain"):
            return ["P", [normal(y) for y in c]]
        if t in ("SoftBreak", "LineBreak"):
            return ["Space"]
        if t == "OrderedList":
            return ["OL", c[0][0], normal(c[1])]
        if t == "Code":
            return ["Code", c[1]]
        if t == "CodeBlock":
            return ["CodeBlock", c[0][1], c[1]]
        if t == "Link":
            return ["Link", normal(c[1]), c[2][0]]
        if t == "Table":
            head, rows = rows_of(x)
            return ["Table", normal(head), normal(rows)]
        return [t, normal(c)]
    return x


def run_pandoc(ctx, shard, sc):
    exe = shutil.which("pandoc")
    if not exe:
        ctx.note("pandoc is not installed: re-parsing skipped")
        return
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        g = Gen(r, safe=True)
        blocks, no = [], 0
        for _ in range(r.randrange(2, 14)):
            # a separate section for each block, as neighbouring blocks of the same type may merge
            no += 1
            lev = r.randrange(1, 6)
            blocks.append(dict(t="Header", c=[lev, ["", [], []], [dict(t="Str", c=f"T{no}"), dict(t="Space"), dict(t="Str", c=r.choice(["a/b", "x", "/y", "Größe"]))]]))
            if r.random() < 0.9:
                blocks.append(g.block(1))
        if not judge(ctx, copy.deepcopy(blocks), i):
            continue
        card = PandocParser(json.dumps({"pandoc-api-version": [1, 23, 1], "meta": {}, "blocks": blocks})).generate()
        out = os.path.join(ctx.tmpdir(), "doc.md")
        card.save(out)
        p = subprocess.run([exe, "-t", "json", "-s", out], capture_output=True, timeout=60)
        if p.returncode:
            raise RuntimeError(p.stderr.decode())
        again = json.loads(p.stdout)["blocks"]
        a, b = outline(blocks), outline(again)
        ctx.count("reparsed")
        if [(d, ref_title(h["c"][2])) for d, h, _, _ in a] != [(h["c"][0], ref_title(h["c"][2])) for d, h, _, _ in b]:
            ctx.violation("reparsed-outline", f"the rendered card has the outline {[(h['c'][0], ref_title(h['c'][2])) for d, h, _, _ in b]} instead of {[(d, ref_title(h['c'][2])) for d, h, _, _ in a]}")
            continue
        for (_, h, _, x), (_, _, _, y) in zip(a, b):
            if normal(x) != normal(y):
                ctx.violation("reparsed-content", f"under {ref_title(h['c'][2])!r}: {brief(normal(x), 500)} came back as {brief(normal(y), 500)}", markdown=brief(Markdown()(copy.deepcopy(x[0])) if x else "", 500))
                break
            ctx.count("reparsed_blocks", len(x))
        # the user's way
        c2 = sc.parse_modelcard(out)
        if c2.get_toc() != card.get_toc():
            ctx.violation("parse_modelcard", f"{c2.get_toc()!r} instead of {card.get_toc()!r}")
        ctx.ev(("pandoc", i, tuple(b["t"] for b in blocks)))
