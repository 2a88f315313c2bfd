"""Histories of a builder: defaults, declared keys, registrations; their reference model and the real side.

Operations (JSON):

* ``["declare", [key...]]`` with key ``{"name", "conv", "type"}`` (conv may be None: the type converts);
* ``["defaults", scope, {option: value}]``, scope in general/string/regex/functional/chain;
* ``["pattern", spec, key, overrides]`` (and, for a chain part, ``[[method, argument]...]`` called on it) with key None, a key, or ``{"several": [key...], "form"}``;
* ``["search", text]``: a search in between;
* ``["chain", opts, overrides, [operation...]]`` whose operations run on the chain builder.
"""

from __future__ import annotations

import copy

from hypothesis import strategies as st

from harness import specs
from harness.lib import rb

KEY_TYPES = {"UpperText": specs.UpperText, "Length": specs.Length, "int": int, "str": str, "object": object, "float": float, "bool": bool}
DICTS = ("formatter", "value", "validator")  # options spelled as [key, entry] pairs in JSON


class OutOfDomain(Exception):
    """Not judged."""


class Rejected(Exception):
    """The builder refuses this registration."""


# -- model ---------------------------------------------------------------------------------------------------


def is_list(option, value):
    return isinstance(value, list) and option not in DICTS


def merge(option, default, explicit):
    if default is None or explicit is None:
        return explicit
    if option == "properties":
        both = {name: default[name] + explicit[name] for name in default if isinstance(default[name], list) and isinstance(explicit.get(name), list)}
        return {**default, **explicit, **both}
    if is_list(option, default) and is_list(option, explicit):
        return default + explicit
    if option in DICTS and isinstance(default, list) and isinstance(explicit, list):
        named = [key for key, _entry in explicit]
        return explicit + [pair for pair in default if pair[0] not in named]
    return explicit


class Model:
    """Defaults and declared keys in force."""

    def __init__(self, source=None):
        self.defaults = copy.deepcopy(source.defaults) if source else {}
        self.keys = dict(source.keys) if source else {}

    def declare(self, keys):
        for key in keys:
            self.keys[key["name"]] = key["conv"] or key["type"]

    def set_defaults(self, scope, values):
        values = dict(values)
        if values.pop("clear", False):
            self.defaults[scope] = {}
        self.defaults[scope] = {**self.defaults.get(scope, {}), **values}

    def effective(self, kind, opts, key, overrides):
        """Options a pattern ends up with."""
        opts = dict(opts)
        if key and "several" not in key:
            opts.setdefault("name", key["name"])
            opts.setdefault("formatter", key["conv"] or key["type"])
        elif key and key["several"]:
            if isinstance(opts.get("formatter"), str):
                raise Rejected
            opts["formatter"] = list(opts.get("formatter", []))
            for one in key["several"]:
                if one["name"] not in [name for name, _entry in opts["formatter"]]:
                    opts["formatter"].append([one["name"], one["conv"] or one["type"]])
        kept = {name: opts[name] for name in overrides}
        for scope in (kind, "general"):
            for option, default in self.defaults.get(scope, {}).items():
                opts[option] = merge(option, default, opts[option]) if option in opts else default
        opts.update(kept)
        opts = {option: value for option, value in opts.items() if value is not None}
        own = opts.get("formatter")
        if self.keys and not isinstance(own, str):
            table = list(own or [])
            table += [[name, conv] for name, conv in self.keys.items() if name not in [n for n, _entry in table]]
            opts["formatter"] = table
        return opts, own


def run_model(ops, text, chain_text=None):
    """Everything the history's patterns yield on a text; None entries mark rejected registrations."""
    model = Model()
    out = []
    rejected = []
    for op in ops:
        if op[0] == "declare":
            model.declare(op[1])
        elif op[0] == "defaults":
            model.set_defaults(op[1], op[2])
        elif op[0] == "pattern":
            try:
                opts, _own = model.effective(op[1]["kind"], op[1]["opts"], op[2], op[3])
            except Rejected:
                rejected.append(True)
                continue
            rejected.append(False)
            if not specs.is_disabled(opts.get("disabled"), None):
                out += specs.outputs({**op[1], "opts": opts}, text)
        elif op[0] == "chain":
            opts, own, parts = chain_parts(op, model, rejected)
            if parts and not specs.is_disabled(opts.get("disabled"), None):
                out += chain_outputs(opts, own, parts, text)
    return out, rejected


def chain_parts(op, model, rejected):
    """Options of a chain, its own formatter, and its parts as (sample, visible matches in the sample)."""
    opts, own = model.effective("chain", op[1], None, op[2])
    parts = []
    inner = Model(model)
    for sub in op[3]:
        if sub[0] == "declare":
            inner.declare(sub[1])
        elif sub[0] == "defaults":
            inner.set_defaults(sub[1], sub[2])
        elif sub[0] == "chain":
            nested = chain_parts(sub, inner, rejected)
            sample = "".join(sample for sample, _run in nested[2])
            for one, run in nested[2]:
                seen = run(one)
                if not seen or min(m["span"][0] for m in seen) > 0 or max(m["span"][1] for m in seen) < len(one):
                    raise OutOfDomain  # text of a nested chain that no visible part covers: known finding of C07
            parts.append((sample, lambda text, nested=nested: chain_outputs(*nested, text)))
        else:
            try:
                part, _own = inner.effective(sub[1]["kind"], sub[1]["opts"], sub[2], sub[3])
            except Rejected:
                rejected.append(True)
                continue
            rejected.append(False)
            parts.append((sub[1]["sample"], lambda text, part={**sub[1], "opts": part}: specs.outputs(part, text)))
    return opts, own, parts


def chain_outputs(opts, own, parts, text):
    """A chain of parts each matching exactly once."""
    out = []
    offset = 0
    if not parts or any(not sample for sample, _run in parts):
        return out
    while True:
        found = None
        while found is None:
            at, visible = text.find(parts[0][0], offset), []
            if at < 0:
                return out
            offset = at + len(parts[0][0])
            for sample, run in parts:
                size = len(sample)
                if text[at:at + size] != sample:
                    break
                found_here = run(sample)
                shift(found_here, at, set())
                visible += found_here
                at += size
            else:
                found = at, visible
                break
        offset, visible = found
        if visible:
            out += chain_match(opts, own, visible, text)


def shift(matches, at, seen):
    for match in matches:
        if id(match) not in seen:
            seen.add(id(match))
            match["span"] = [match["span"][0] + at, match["span"][1] + at]
            shift(match["children"], at, seen)


def chain_match(opts, own, visible, text):
    children = []
    for match in visible:
        for one in [*match["children"], match]:
            if not any(one is other for other in children):
                children.append(one)
    start = min(m["span"][0] for m in visible)
    end = max(m["span"][1] for m in visible)
    match = {"span": [start, end], "name": opts.get("name"), "tags": list(opts.get("tags", [])), "private": bool(opts.get("private")),
             "marker": False, "literal": None, "formatter": None, "children": children, "raw": text[start:end]}
    every, only = bool(opts.get("every")), bool(opts.get("children"))
    for one, child in [(match, False)] + [(c, True) for c in children]:
        if one["name"] and one["name"] in opts.get("private_names", []):
            one["private"] = True
        literal = specs.lookup(opts.get("value"), one["name"], child)
        if literal:
            one["literal"] = literal
        if (only or every) if child else (not only or every):
            configured = specs.lookup(own, one["name"], child, "nowhere") != "nowhere"
            if not (child and one["formatter"] and not configured):
                one["formatter"] = specs.lookup(opts.get("formatter"), one["name"], child)
    ignored = opts.get("ignore_names", [])
    out = []
    if (not only or every) and match["name"] not in ignored:
        out.append(match)
    if only or every:
        out += [c for c in children if c["name"] not in ignored]
    return out


# -- real side -------------------------------------------------------------------------------------------------


def real_key(key, cache):
    blob = repr(sorted(key.items(), key=str))
    if blob not in cache:
        formatter = specs.FORMATTERS[key["conv"]] if key["conv"] else None
        cache[blob] = rb.Key(key["name"], KEY_TYPES[key["type"]], formatter)
    return cache[blob]


class Watch:
    """Objects handed to the builder, to see that they stay as they were."""

    def __init__(self):
        self.items = []

    def __call__(self, options):
        for value in options.values():
            if isinstance(value, (list, dict)):
                self.items.append((value, copy.copy(value)))
        return options

    def check(self, rec):
        for value, before in self.items:
            rec.eq(value, before, "an object supplied by the caller")


def run_real(ops, builder, rec, watch, cache, rejected):
    """Run the history on a builder."""
    rejected = iter(rejected)

    def register(target, op):
        _what, spec, key, over, *more = op
        kwargs = watch(specs.options(spec["opts"]))
        if key and "several" in key:
            keys = [real_key(one, cache) for one in key["several"]]
            kwargs["key"] = tuple(keys) if key["form"] == "tuple" else keys
            watch({"key": kwargs["key"]} if isinstance(kwargs["key"], list) else {})
        elif key:
            kwargs["key"] = real_key(key, cache)
        if over:
            kwargs["overrides"] = list(over)
        method = getattr(fluent(target), spec["kind"])
        if next(rejected):
            with rec.raises(TypeError, "several keys with a single formatter"):
                method(*specs.pattern_args(spec), **kwargs)
        else:
            made = method(*specs.pattern_args(spec), **kwargs)
            done(target, made)
            for call, value in more[0] if more else ():
                rec.ok(getattr(made, call)(value) is made, "configuring a part does not return it")

    parts = {}  # last part of each chain builder; parts have the builder's methods too

    def fluent(target):
        return parts.get(target, target)

    def done(target, result):
        if target is builder:
            rec.ok(result is target, "registering does not return the builder", result)
        else:
            parts[target] = result
            rec.ok(result.close() is builder, "closing a chain does not return its owner", result.close())

    def configured(target, result):
        rec.ok(result is target, "not the configured builder", result)

    def run(target, ops):
        for op in ops:
            if op[0] == "declare":
                configured(target, target.declare_keys(*[real_key(key, cache) for key in op[1]]))
            elif op[0] == "defaults":
                values = dict(op[2])
                clear = values.pop("clear", None)
                kwargs = watch(specs.options(values))
                if clear is not None:
                    kwargs["clear"] = clear
                configured(target, getattr(target, "defaults" if op[1] == "general" else op[1] + "_defaults")(**kwargs))
            elif op[0] == "pattern":
                register(target, op)
            elif op[0] == "search":  # changes nothing
                builder.matches(op[1])
                builder.check_keys()
            else:
                kwargs = watch(specs.options(op[1]))
                if op[2]:
                    kwargs["overrides"] = list(op[2])
                made = (target if kwargs else fluent(target)).chain(**kwargs)
                rec.ok(made.close() is builder, "closing a chain does not return its owner", made.close())
                run(made, op[3])

    run(builder, ops)


# -- generators -------------------------------------------------------------------------------------------------

NAMES = ["n", "m", "o", "p"]
CONVERTERS = ["upper", "len", "wrap", "first", "zero", "none", "half", "truth", "UpperText", "Length"]


@st.composite
def keys(draw):
    conv = draw(st.sampled_from([None, None, "len", "wrap", "upper", "first", "truth"]))
    kind = draw(st.sampled_from(["UpperText", "Length"])) if conv is None else draw(st.sampled_from(["int", "str", "object", "Length", "float", "bool", "UpperText"]))
    return {"name": draw(st.sampled_from(NAMES)), "conv": conv, "type": kind}


@st.composite
def given_keys(draw):
    """The key= of a pattern."""
    style = draw(st.sampled_from(["none", "none", "one", "one", "several"]))
    if style == "none":
        return None
    if style == "one":
        return draw(keys())
    return {"several": draw(st.lists(keys(), min_size=draw(st.sampled_from([0, 1, 1, 1, 1, 1])), max_size=3)), "form": draw(st.sampled_from(["list", "tuple"]))}


LETTERS = "pqrstuvwxyzDEFGHIJKLMNOPQRSTUVWXYZ"  # 5 for each chain at the top


@st.composite
def parts(draw, number, options):
    """A chain part matching its own letters once."""
    letter = LETTERS[number]
    style = draw(st.sampled_from(["string", "regex", "functional", "group", "group", "groups"]))
    arg, sample, kind = {
        "string": (letter, letter, "string"), "regex": (letter, letter, "regex"), "functional": (letter, letter, "functional"), "group": ("(?P<n>%s)" % letter, letter, "regex"),
        "groups": ("(?P<m>%s)(?P<o>%s)" % (letter, letter), letter * 2, "regex"),
    }[style]
    opts = draw(options)
    if style in ("string", "regex", "functional"):
        opts.pop("children", None)  # nothing to return
    return {"kind": kind, "args": [arg], "opts": opts, "sample": sample}
