"""Rewriting archives into the layouts of older protocols."""
from __future__ import annotations

import copy
import importlib
import json

from . import arch


class NotPossible(Exception):
    """the archive holds something the older protocol had no layout for"""


def real_nodes(schema):
    for p, n in arch.walk(schema):
        if isinstance(n["__loader__"], str) and isinstance(n.get("__class__"), str) and isinstance(n.get("__module__"), str):
            yield p, n


def function_v0(node):
    """a FunctionNode as protocol 0 wrote it"""
    mod, name = node["__module__"], node["__class__"]
    if "." in name:
        raise NotPossible("functions had no qualified names")
    try:
        f = getattr(importlib.import_module(mod), name)
    except (ImportError, AttributeError):
        raise NotPossible("a function that cannot be found") from None
    new = {"__class__": type(f).__name__, "__module__": mod, "__loader__": "FunctionNode", "content": {"module_path": mod, "function": name}}
    if "__id__" in node:
        new["__id__"] = node["__id__"]
    return new


def generator_v1(node):
    """a RandomGeneratorNode as protocol 1 wrote it"""
    new = dict(node)
    new["content"] = {"bit_generator": node["content"]["bit_generator"]}
    return new


def plain(node):
    """the value of a node made of dicts, lists and JSON only"""
    ld = node["__loader__"]
    if ld == "JsonNode":
        return json.loads(node["content"])
    if ld == "DictNode":
        return {k: plain(v) for k, v in node["content"].items()}
    if ld == "ListNode":
        return [plain(v) for v in node["content"]]
    raise NotPossible(f"a {ld} in the state of a bit generator")


def generator_v0(node):
    """a RandomGeneratorNode as protocol 0 wrote it (its state was stored as it is)"""
    new = dict(node)
    new["content"] = {"bit_generator": plain(node["content"]["bit_generator"])}
    return new


def downgrade(schema, protocol):
    """the archive as an older protocol would have written it, and what had to be rewritten"""
    s = copy.deepcopy(schema)
    s["protocol"] = protocol
    done = []
    if protocol >= 2:
        return s, done
    for p, n in list(real_nodes(s)):
        if n["__loader__"] == "FunctionNode" and protocol == 0:
            new = function_v0(n)
        elif n["__loader__"] == "RandomGeneratorNode":
            new = generator_v1(n) if protocol == 1 else generator_v0(n)
        else:
            continue
        done.append((p, n["__loader__"]))
        if not p:
            new.update({k: s[k] for k in ("protocol", "_skops_version") if k in s})
            s = new
        else:
            # in place, so that what is below or above stays reachable
            n.clear()
            n.update(new)
    return s, done


def used_members(schema):
    return {n["file"] for _, n in real_nodes(schema) if isinstance(n.get("file"), str)}


def rewrite(data, protocol):
    """(archive in the layout of the protocol, what was rewritten)"""
    s, m = arch.read(data)
    s, done = downgrade(s, protocol)
    keep = used_members(s)
    return arch.write(s, {k: b for k, b in m.items() if k in keep}), done


def v1_canon(c):
    """canonical form without what protocol 1 did not store: the seed sequence of a generator"""
    if isinstance(c, list):
        if len(c) >= 6 and c[2] == "gen":
            return c[:4] + [v1_canon(c[4]), "?"] + [v1_canon(x) for x in c[6:]]
        return [v1_canon(x) for x in c]
    return c
