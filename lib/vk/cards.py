"""Shadow model of a card (ordered section tree), path writing, parsing of rendered cards."""
from __future__ import annotations

import re

POOL = ["A", "B", "C", "Model description", "a b", "a/b", "/x", "x/", "/", "//", "a//b", "Ä/ö", "日本語", "🎉 party", "A B/C", "é", "e\u0301", "#1", "*b*", "x|y", "1", "0",
        "None", "Größe", "a\\b", "tail\\", "A.B", "'q'", '"dq"', "<b>", "a\tb", "a  b", "ǅ", "ß", "SS", "-", "- A", "a: b", "A/B", "B/C", "..", ".", "%s", "{}", "{0}", "\\d+", "x=y", "Plot", "title", "\u200bz"]
BLANKS = ["", "", "", "", " ", "  ", "\t", " \t", "\n", "\u00a0", "\u3000"]


def titles(r, n):
    out = r.sample(POOL, min(n, len(POOL)))
    for _ in range(r.randrange(0, 3)):
        t = "".join(r.choice("ab /éß日|#") for _ in range(r.randrange(1, 8))).strip()
        if t and t not in out:
            out.append(t)
    return out


def write_path(r, parts, blanks=True):
    """One of the many spellings of a path."""
    out = []
    for i, t in enumerate(parts):
        s = t.replace("/", "\\/")
        pre, post = (r.choice(BLANKS), r.choice(BLANKS)) if blanks and r.random() < 0.5 else ("", "")
        if i < len(parts) - 1 and t.endswith("\\") and not post:
            post = " "
        out.append(pre + s + post)
    return "/".join(out)


class Node:
    def __init__(self, title, **kw):
        self.title = title
        self.subs = {}
        self.what = kw


class Shadow:
    def __init__(self):
        self.root = Node("")

    def get(self, parts):
        n = self.root
        for p in parts:
            n = n.subs.get(p)
            if n is None:
                return None
        return n

    def add(self, parts, **what):
        n = self.root
        for p in parts[:-1]:
            if p not in n.subs:
                n.subs[p] = Node(p, kind="text", content="", visible=True, folded=False)
            n = n.subs[p]
        leaf = n.subs.get(parts[-1])
        if leaf is None:
            leaf = n.subs[parts[-1]] = Node(parts[-1])
        leaf.what = what
        return leaf

    def delete(self, parts):
        del self.get(parts[:-1]).subs[parts[-1]]

    def walk(self, n=None, parts=()):
        n = n or self.root
        for k, c in list(n.subs.items()):
            yield parts + (k,), c
            yield from self.walk(c, parts + (k,))

    def paths(self):
        return [p for p, _ in self.walk()]


def fields(s):
    """What a section holds, apart from its subsections."""
    d = dict(cls=type(s).__name__, title=s.title, content=s.content, visible=s.visible, folded=s.folded)
    for k in ("path", "alt_text", "table"):
        if hasattr(s, k):
            v = getattr(s, k)
            d[k] = repr(v)
    return d


def toc_lines(card):
    """(level, title) as listed; the indentation unit is taken from the list itself."""
    t = card.get_toc()
    if not t:
        return []
    out = []
    for line in t.split("\n"):
        m = re.match(r"( *)- ", line)
        if not m:
            raise ValueError(f"not a TOC line: {line!r}")
        out.append((len(m.group(1)), line[m.end():]))
    return out


def toc_mismatch(card, expected):
    """expected: [(depth from 1, title)]; None when the list says exactly this."""
    try:
        got = toc_lines(card)
    except ValueError as e:
        return str(e)
    if [t for _, t in got] != [t for _, t in expected]:
        return f"titles {[t for _, t in got]!r} instead of {[t for _, t in expected]!r}"
    unit = next((w / (d - 1) for (w, _), (d, _) in zip(got, expected) if d > 1), 2)
    if unit <= 0 or any(w != unit * (d - 1) for (w, _), (d, _) in zip(got, expected)):
        return f"indentations {[w for w, _ in got]} for depths {[d for d, _ in expected]}"
    return None


def details(text, folded):
    return f"<details>\n<summary> Click to expand </summary>\n\n{text}\n\n</details>" if folded else text


def blocks_mismatch(text, blocks):
    """Is `text` these blocks, in order, with only empty lines in between?"""
    pos = 0
    for what, b in blocks:
        want = b.strip("\n")
        if not want:
            continue
        start = pos
        while pos < len(text) and text[pos] == "\n":
            pos += 1
        if start and pos - start < 1:
            return f"{what}: not on a line of its own: {text[max(0, pos - 40):pos + 60]!r}"
        if not text.startswith(want, pos):
            return f"expected {what} {want[:120]!r} but found {text[pos:pos + 160]!r}"
        pos += len(want)
        if pos < len(text) and text[pos] != "\n":
            return f"{what}: {want[-60:]!r} is followed by {text[pos:pos + 60]!r}"
    if text[pos:].strip("\n"):
        return f"left over: {text[pos:pos + 200]!r}"
    return None


PIPE = re.compile(r"(?<!\\)\|")


def parse_table(text):
    """The first markdown table in text -> (header, rows) of raw cell texts, or None."""
    lines = text.split("\n")
    for i in range(1, len(lines)):
        if re.fullmatch(r"\|(\s*:?-+:?\s*\|)+", lines[i]) and lines[i - 1].startswith("|"):
            break
    else:
        return None
    ncol = len(PIPE.split(lines[i])) - 2

    def cells(line):
        c = PIPE.split(line)
        if c[0] != "" or c[-1].strip() != "":
            return None
        return [x.strip() for x in c[1:-1]]
    head = cells(lines[i - 1])
    rows = []
    j = i + 1
    while j < len(lines) and lines[j].startswith("|"):
        rows.append(cells(lines[j]))
        j += 1
    return head, rows, ncol, "\n".join(lines[:i - 1]), "\n".join(lines[j:])


def cell_texts(value):
    """The acceptable raw texts of a cell."""
    t = re.sub(r"\r\n|\r|\n", "<br />", value if isinstance(value, str) else str(value))
    out = {t, PIPE.sub(r"\\|", t), t.replace("|", "\\|"), t.replace("\\", "\\\\").replace("|", "\\|")}
    if re.search("[\x0b\x0c\x1c-\x1e\x85\u2028\u2029]", t):
        out |= {re.sub("[\x0b\x0c\x1c-\x1e\x85\u2028\u2029]", "<br />", x) for x in list(out)}
    return {x.strip() for x in out}
