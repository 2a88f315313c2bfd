"""Helpers shared by the property modules."""

from __future__ import annotations

import importlib

from hypothesis import strategies as st

_WHERE = {
    "Rebulk": "rebulk.rebulk", "Match": "rebulk.match", "Matches": "rebulk.match", "Markers": "rebulk.match",
    "Key": "rebulk.key", "Rule": "rebulk.rules", "CustomRule": "rebulk.rules", "Rules": "rebulk.rules",
    "RemoveMatch": "rebulk.rules", "AppendMatch": "rebulk.rules", "RenameMatch": "rebulk.rules",
    "AppendTags": "rebulk.rules", "RemoveTags": "rebulk.rules", "ConflictSolver": "rebulk.processors",
    "PrivateRemover": "rebulk.processors", "PRE_PROCESS": "rebulk.processors", "POST_PROCESS": "rebulk.processors",
    "call": "rebulk.loose", "find_all": "rebulk.utils", 
    "introspect": "rebulk.introspector",
    "StringPattern": "rebulk.pattern", "RePattern": "rebulk.pattern", "FunctionalPattern": "rebulk.pattern",
}


class _Lazy:
    """The public names of the package, imported when first used."""

    def __getattr__(self, name):
        if name in _WHERE:
            value = getattr(importlib.import_module(_WHERE[name]), name)
        else:
            value = importlib.import_module("rebulk." + name)
        setattr(self, name, value)
        return value


rb = _Lazy()


def few(elements, low, high, **kw):
    """A short list, and now and then a long one."""
    return st.sampled_from([False] * 24 + [True]).flatmap(
        lambda many: st.lists(elements, min_size=7 if many else low, max_size=9 if many else high, **kw))


def own(bulk, children=(), rules=False):
    """The patterns or rules registered on a builder itself, not on the given children."""
    def every(one):
        return one.effective_rules({}) if rules else one.effective_patterns({})

    others = {id(item) for child in children for item in every(child)}
    return [item for item in every(bulk) if id(item) not in others]


def span_of(match):
    return [match.start, match.end]


def spans(matches):
    return [[m.start, m.end] for m in matches]


def plain(value):
    """A comparable, printable form of a value (keeps 1, True and 1.0 apart)."""
    if isinstance(value, (list, tuple)):
        return [type(value).__name__] + [plain(v) for v in value]
    if isinstance(value, dict):
        return ["dict"] + [[plain(k), plain(v)] for k, v in value.items()]
    return [type(value).__name__, repr(value)]


def snap(match, depth=4):
    """Everything observable of a match."""
    return {
        "span": [match.start, match.end], "raw": match.raw, "rawspan": [match.raw_start, match.raw_end],
        "value": plain(match.value), "name": match.name, "tags": list(match.tags), "marker": bool(match.marker),
        "private": bool(match.private),
        "parent": None if match.parent is None else [match.parent.start, match.parent.end, match.parent.name],
        "initiator": [match.initiator.start, match.initiator.end],
        "children": [snap(child, depth - 1) for child in match.children] if depth else "...",
    }


def snap_all(matches):
    """Everything observable of a search result."""
    return {"matches": [snap(m) for m in matches], "markers": [snap(m) for m in matches.markers]}


def subspans(max_pos=12):
    """Non-empty spans within max_pos."""
    return st.integers(0, max_pos - 1).flatmap(lambda a: st.tuples(st.just(a), st.integers(a + 1, max_pos)).map(list))


def spans_in(text_len):
    return st.tuples(st.integers(0, text_len - 1), st.integers(0, text_len - 1)).map(
        lambda p: [min(p), max(p) + 1])


def pick(*values):
    return st.sampled_from(list(values))


NAMES = ["n", "m", "o", "title", "year"]
TAGS = ["t", "u", "v"]
