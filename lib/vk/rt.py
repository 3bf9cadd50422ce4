"""Round trips through the public API."""
from __future__ import annotations

import skops.io as sio

from .canon import canon, first_diff


def roundtrip(v, **kw):
    data = sio.dumps(v, **kw)
    return data, sio.loads(data, trusted=sio.get_untrusted_types(data=data))


def types_in(c, out=None):
    """the type names in a canonical form (for coverage counters)"""
    out = set() if out is None else out
    stack = [c]
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                if x[0].startswith("@") and len(x) > 1 and isinstance(x[1], str):
                    out.add(x[1])
                elif x[0] in ("np", "tuple", "slice", "dtype", "frozenset", "array", "method"):
                    out.add(x[0] + (":" + x[1] if x[0] == "np" and isinstance(x[1], str) else ""))
            stack.extend(x)
        elif isinstance(x, str) and x[:2] in ("s:", "i:", "f:", "b:", "y:", "c:"):
            out.add(x[:2])
        elif isinstance(x, str) and x.startswith(("type:", "func:")):
            out.add(x[:5])
    return out


def diff(a, b, **kw):
    return first_diff(canon(a, **kw), canon(b, **kw))


def brief(v, n=160):
    try:
        s = repr(v)
    except Exception:
        s = f"<{type(v).__name__}>"
    s = s.encode("ascii", "backslashreplace").decode().replace("\n", " ")
    return s[:n]
