"""Configurations as JSON: generators, builders for the real thing, and the reference model of pattern options.

A pattern spec is ``{"kind": "string"|"regex"|"functional", "args": [...], "opts": {...}}``; callables are
named in ``opts`` and resolved by ``options()`` for the real code and by the model functions here.
"""

from __future__ import annotations

import copy
import re

from hypothesis import strategies as st

from harness.lib import few, rb

# -- callables by name -----------------------------------------------------------------------------------

class UpperText(str):
    """A value type that is its own converter."""

    def __new__(cls, raw):
        return str.__new__(cls, raw.upper())


class Length(int):
    """A value type that is its own converter."""

    def __new__(cls, raw):
        return int.__new__(cls, len(raw))


FORMATTERS = {
    "UpperText": UpperText, "Length": Length,
    "upper": lambda raw: raw.upper(), "len": lambda raw: len(raw), "wrap": lambda raw: "<" + raw + ">", "zero": lambda raw: 0,
    "empty": lambda raw: "", "first": lambda raw: raw[:1], "pair": lambda raw: [raw, len(raw)],
    "none": lambda raw: None, "half": lambda raw: len(raw) / 2, "truth": lambda raw: len(raw) > 1,
}


def _accept(name, start, raw, value, mname):
    """Validators and filters, on plain data."""
    if name == "true":
        return True
    if name == "false":
        return False
    if name == "even":
        return start % 2 == 0
    if name == "short":
        return len(raw) < 3
    if name == "long":
        return len(raw) > 1
    if name == "value_str":
        return isinstance(value, str)
    if name == "value_upper":
        return value == raw.upper()
    if name == "value_truthy":
        return value  # a truthy or falsy object, not a bool
    if name == "has_a":
        return "a" in raw.lower()
    if name == "named":
        return mname is not None
    raise KeyError(name)


VALIDATORS = ["true", "false", "even", "short", "long", "value_str", "value_upper", "value_truthy", "has_a", "named"]


def validator(name):
    return lambda match: _accept(name, match.start, match.raw, match.value, match.name)


PROCESSORS = ["nothing", "same", "drop_even", "drop_short", "drop_all", "cut", "rename", "tag", "novalue"]


def processor(name):
    """Match processors: answer None (leave), False (drop) or a match (replace)."""

    def run(match):
        if name == "same":
            return match
        if name == "drop_even" and match.start % 2 == 0:
            return False
        if name == "drop_short" and len(match) < 2:
            return False
        if name == "drop_all":
            return False
        if name == "cut" and len(match) > 1:
            return rb.Match(match.start + 1, match.end, name="cut", tags=["cut"], input_string=match.input_string)
        if name == "rename":
            match.name = "m"
        if name == "tag":
            match.tags.append("seen")
        return None

    return run


def model_processor(name, match):
    """The same on a model match; answers the match to go on with, or None."""
    start, end = match["span"]
    if name == "drop_even" and start % 2 == 0 or name == "drop_short" and end - start < 2 or name == "drop_all":
        return None
    if name == "cut" and end - start > 1:
        return {"span": [start + 1, end], "name": "cut", "tags": ["cut"], "private": False, "marker": False, "literal": None,
                "formatter": None, "children": [], "raw": match["raw"][1:]}
    if name == "rename":
        match["name"] = "m"
    if name == "tag":
        match["tags"] = match["tags"] + ["seen"]
    return match


POST = ["reverse", "first", "last", "nothing", "drop_even", "twice_named", "spare"]


def post_processor(name):
    def run(matches, pattern):
        if name == "spare" and not matches:
            from harness.lib import rb
            return [rb.Match(0, 1, value="SPARE", name="spare")]
        return _post(name, matches, lambda m: m.start)

    return run


def _post(name, matches, start):
    if name == "reverse":
        return list(reversed(matches))
    if name == "first":
        return matches[:1]
    if name == "last":
        return matches[-1:]
    if name == "nothing":
        return []
    if name == "drop_even":
        return [m for m in matches if start(m) % 2]
    return list(matches)


def disabling(flag):
    """A disabled= argument: True/False or the name of a context key."""
    if isinstance(flag, str):
        return lambda context: bool(context and context.get(flag))
    return flag


def is_disabled(flag, context):
    if isinstance(flag, str):
        return bool(context and context.get(flag))
    return bool(flag)


def solver(name):
    def run(match, other):
        return {"self": match, "other": other, "none": None, "default": "__default__"}[name]

    return run


def mapping(value, resolve):
    """A plain entry, or [key, entry] pairs for a dict."""
    if isinstance(value, list):
        return {key: None if entry is None else resolve(entry) for key, entry in value}
    return None if value is None else resolve(value)


given = None  # a list here collects (object handed to the builder, copy of it)


def watch(value):
    if given is not None and isinstance(value, (list, dict)):
        given.append((value, copy.deepcopy(value)))
    return value


def options(opts):
    """Keyword arguments for the real builder methods."""
    out = {}
    for key, value in opts.items():
        if value is None:
            pass
        elif key == "formatter":
            value = mapping(value, FORMATTERS.__getitem__)
        elif key == "validator":
            value = mapping(value, validator)
        elif key == "value":
            value = mapping(value, copy.deepcopy)
        elif key in ("pre_match_processor", "post_match_processor"):
            value = processor(value)
        elif key == "post_processor":
            value = post_processor(value)
        elif key == "disabled":
            value = disabling(value)
        elif key == "conflict_solver":
            value = solver(value)
        elif key == "abbreviations":
            value = [tuple(pair) for pair in value]
        elif isinstance(value, (list, dict)):
            value = type(value)(value)
        out[key] = watch(value)
    return out


def function_result(items):
    """What a functional pattern's function returns."""
    out = []
    for item in items:
        if isinstance(item, dict):
            item = {k: (list(v) if isinstance(v, list) else v) for k, v in item.items()}
            if "conflict_solver" in item:
                item["conflict_solver"] = solver(item["conflict_solver"])
            out.append(item)
        else:
            out.append(tuple(item))
    return out


def pattern_args(spec):
    if spec["kind"] == "functional":
        return [_function(items) for items in spec["args"]]
    form = spec.get("form")  # of an expression
    if form == "dict":
        return [watch({"pattern": arg, "flags": 0}) for arg in spec["args"]]
    if form:
        return [watch([arg, 0] if form == "list" else (arg, 0)) for arg in spec["args"]]
    return list(spec["args"])


def finder(needle):
    """A function finding the occurrences of a text."""
    def run(string):
        found = []
        at = string.find(needle)
        while at >= 0:
            found.append((at, at + len(needle)))
            at = string.find(needle, at + len(needle))
        return found

    return run


def _function(items):
    if isinstance(items, str):
        return finder(items)

    def run(string):
        return [item for item in function_result(items) if _inside(item, string)]

    return run


def _inside(item, string):
    end = item["end"] if isinstance(item, dict) else item[1]
    return end <= len(string)


def add_pattern(builder, spec):
    """Register a pattern spec on a builder."""
    getattr(builder, spec["kind"])(*pattern_args(spec), **options(spec["opts"]))


# -- reference model of one pattern ------------------------------------------------------------------------


def listed(tags):
    """Tags as a list; a single one may be given as is."""
    return [tags] if tags and isinstance(tags, str) else list(tags or [])


def raw_of(spec, text, arg):
    """Unprocessed model matches of one expression."""
    opts = spec["opts"]

    def match(start, end, name, **extra):
        return {"span": [start, end], "name": name, "tags": listed(opts.get("tags")), "private": bool(opts.get("private")),
                "marker": bool(opts.get("marker")), "literal": None, "formatter": None, "children": [], "raw": text[start:end], **extra}

    out = []
    if spec["kind"] == "string" or isinstance(arg, str) and spec["kind"] == "functional":
        at = 0
        while arg and text.find(arg, at) >= 0:
            at = text.find(arg, at)
            out.append(match(at, at + len(arg), opts.get("name")))
            at += len(arg)
    elif spec["kind"] == "regex":
        for short, expanded in opts.get("abbreviations", []):
            arg = arg.replace(short, expanded)
        expression = re.compile(arg)
        names = {number: name for name, number in expression.groupindex.items()}
        for found in expression.finditer(text):
            if found.end() == found.start():
                continue
            parent = match(found.start(), found.end(), opts.get("name"))
            for number in range(1, expression.groups + 1):
                start, end = found.span(number)
                if end > start:
                    parent["children"].append(match(start, end, names.get(number, opts.get("name"))))
            out.append(parent)
    else:
        for item in arg:
            if isinstance(item, dict):
                start, end, extra = item["start"], item["end"], item
            else:
                start, end, extra = item[0], item[1], {}
            if end <= start or end > len(text):
                continue
            one = match(start, end, extra.get("name", opts.get("name")))
            for key in ("tags", "private", "marker"):
                if key in extra:
                    one[key] = extra[key]
            one["tags"] = list(one["tags"])
            one["literal"] = extra.get("value")
            out.append(one)
    return out


def lookup(entry, name, child, absent=None):
    """An option by match name, then parent/children entry, then default entry."""
    if isinstance(entry, list):
        table = {key: value for key, value in entry}
        for key in ([name] if name else []) + ["__children__" if child else "__parent__", None]:
            if key in table:
                return table[key]
        return absent
    return absent if entry is None else entry


def model_value(match):
    if match["literal"]:
        return match["literal"]
    if match["formatter"]:
        return FORMATTERS[match["formatter"]](match["raw"])
    return match["raw"]


def outputs(spec, text):
    """Model of everything one pattern yields, in order."""
    opts = spec["opts"]
    every, children = bool(opts.get("every")), bool(opts.get("children"))
    with_parent = not children or every
    with_children = children or every
    out = []

    def configure(match, child):
        """False when refused by its validator."""
        if match["name"] and match["name"] in opts.get("private_names", []) or opts.get("private_children" if child else "private_parent"):
            match["private"] = True
        literal = lookup(opts.get("value"), match["name"], child)
        if literal:
            match["literal"] = literal
        included = with_children if child else with_parent
        if included or opts.get("format_all"):
            match["formatter"] = lookup(opts.get("formatter"), match["name"], child)
        if included or opts.get("validate_all"):
            name = lookup(opts.get("validator"), match["name"], child)
            if name and not _accept(name, match["span"][0], match["raw"], model_value(match), match["name"]):
                return False
        return True

    for arg in spec["args"]:
        for match in raw_of(spec, text, arg):
            if "pre_match_processor" in opts:
                match = model_processor(opts["pre_match_processor"], match)
                if match is None:
                    continue
            if not configure(match, False) or not all(configure(child, True) for child in match["children"]):
                continue
            if "post_match_processor" in opts:
                match = model_processor(opts["post_match_processor"], match)
                if match is None:
                    continue
            ignored = opts.get("ignore_names", [])
            if (with_parent or opts.get("private_parent")) and match["name"] not in ignored:
                out.append(match)
            if with_children or opts.get("private_children"):
                out.extend(child for child in match["children"] if child["name"] not in ignored)
    if "post_processor" in opts:
        out = _post(opts["post_processor"], out, lambda m: m["span"][0])
        if opts["post_processor"] == "spare" and not out:
            out = [{"span": [0, 1], "name": "spare", "tags": [], "private": False, "marker": False, "raw": None, "children": [],
                    "literal": "SPARE", "formatter": None}]
    return out


def model_view(match, deep=True):
    """Comparable form of a model match."""
    view = {"span": match["span"], "name": match["name"], "tags": match["tags"], "private": bool(match["private"]),
            "marker": bool(match["marker"]), "raw": match["raw"], "value": repr(model_value(match))}
    if deep:
        view["children"] = [model_view(child, False) for child in match["children"]]
    return view


def real_view(match, deep=True):
    """Comparable form of a real match."""
    view = {"span": [match.start, match.end], "name": match.name, "tags": list(match.tags), "private": bool(match.private),
            "marker": bool(match.marker), "raw": match.raw, "value": repr(match.value)}
    if deep:
        view["children"] = [real_view(child, False) for child in match.children]
    return view


# -- generators --------------------------------------------------------------------------------------------

REGEXES = ["ab", "a+", "(?P<n>a)", "(a)(b)", "(?P<n>a)(?P<m>b)?", "(?P<n>a+)(b)?(?P<o>c)?", "(?P<m>b(?P<n>c))", "([ab])c", "(?P<n>a)|(?P<m>b)",
           "a(?=(b))", "(a|b)+", "b(?P<n>.)(?P<o>.)?", "(?P<n>[abc]{2})", "c(?P<m>)b?", "[a-c]+", ".(?P<n>b).?", "(?P<n>a)(?P<m>[bc])(?P<o>.)"]
STRINGS = ["a", "b", "ab", "bc", "abc", "c", "aa", "ca"]
PATNAMES = ["n", "m", "o", "p"]
KEYS = ["n", "m", "o", "p", "__parent__", "__children__", None]


@st.composite
def mapped(draw, entries, plain=True, absent=False):
    """A plain entry or [key, entry] pairs; when absent, some entries say that there is none."""
    if plain and draw(st.booleans()):
        return draw(st.sampled_from(entries))
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=4, unique=True))
    return [[key, None if absent and draw(st.sampled_from([True, False, False])) else draw(st.sampled_from(entries))] for key in keys]


@st.composite
def selection_options(draw):
    opts = {}
    if draw(st.sampled_from([True, True, False])):
        opts["name"] = draw(st.sampled_from(PATNAMES))
    if draw(st.booleans()):
        opts["tags"] = draw(st.lists(st.sampled_from(["t", "u"]), min_size=1, max_size=2, unique=True))
    for flag, odds in (("children", 3), ("every", 4), ("private_parent", 5), ("private_children", 5), ("private", 6), ("marker", 6)):
        if draw(st.sampled_from([True] + [False] * (odds - 1))):
            opts[flag] = draw(st.sampled_from([True, True, True, False]))
    for names in ("private_names", "ignore_names"):
        if draw(st.sampled_from([True, False, False])):
            opts[names] = draw(st.lists(st.sampled_from(PATNAMES), min_size=1, max_size=2, unique=True))
    return opts


@st.composite
def patterns(draw, length, kinds=("string", "regex", "functional"), rich=False):
    """A pattern spec with options about which matches are returned."""
    kind = draw(st.sampled_from(list(kinds)))
    opts = draw(selection_options())
    if kind == "string":
        args = draw(few(st.sampled_from(STRINGS), 1, 2))
    elif kind == "regex":
        args = draw(few(st.sampled_from(REGEXES), 1, 2))
    else:
        args = []
        for _ in range(draw(st.sampled_from([1, 1, 2]))):
            items = []
            for _ in range(draw(st.integers(0, 3))):
                start = draw(st.integers(0, length - 1))
                end = draw(st.integers(start, length))
                if draw(st.booleans()):
                    items.append([start, end])
                else:
                    item = {"start": start, "end": end}
                    if draw(st.booleans()):
                        item["name"] = draw(st.sampled_from(PATNAMES))
                    if draw(st.sampled_from([True, False, False])):
                        item["tags"] = draw(st.lists(st.sampled_from(["v", "t"]), max_size=1))
                    for flag in ("private", "marker"):
                        if draw(st.sampled_from([True, False, False, False])):
                            item[flag] = draw(st.booleans())
                    if draw(st.sampled_from([True, False, False])):
                        item["value"] = draw(st.sampled_from(["own", 5]))
                    items.append(item)
            args.append(items)
    return {"kind": kind, "args": args, "opts": opts}
