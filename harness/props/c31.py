"""Introspection."""

import re

from hypothesis import strategies as st

from harness import configs, specs
from harness.core import Prop
from harness.lib import few, rb, snap_all

NAMES = ["n", "m", "o", "p"]
GROUPS = ["a", "(a)(b)", "(?P<n>a)", "(?P<n>a)(?P<m>b)?", "(?P<m>b(?P<n>c))", "(?P<o>a)|(?P<p>b)", "(?P<p>c)(a)(?P<n>b)", "ab+",
          "(?P<p>a)?(?P<o>b)?(?P<n>c)?(?P<m>ab)?(?P<x0>a)?(?P<x1>b)?(?P<x2>c)?V"]
VALUES = ["V", "W", 7, 2.5, [1, 2], [3], {"k": "v"}]
PROPERTY_VALUES = ["V", "x", "y", 7, [1, 2], {"k": "v"}, None, "a"]


@st.composite
def properties(draw):
    return {name: draw(few(st.sampled_from(PROPERTY_VALUES + ["a%d" % n for n in range(4)]), 0, 4)) for name in draw(few(st.sampled_from(NAMES + ["x%d" % n for n in range(9)]), 0, 3, unique=True))}


@st.composite
def described(draw):
    kind = draw(st.sampled_from(["string", "string", "regex", "regex", "regex", "functional"]))
    opts = {}
    if draw(st.sampled_from([True, True, False])):
        opts["name"] = draw(st.sampled_from(NAMES))
    for flag in ("private", "marker", "private_children", "private_parent", "children", "every"):
        if draw(st.sampled_from([True, False, False, False, False])):
            opts[flag] = draw(st.sampled_from([True, True, False]))
    if draw(st.sampled_from([True, False])) and not (kind == "string" and "name" in opts):
        opts["private_names"] = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=2))
    if draw(st.sampled_from([True, False, False, False])):
        opts["ignore_names"] = ["zz"]
    if draw(st.sampled_from([True, False, False])):
        opts["properties"] = draw(properties())
    if draw(st.sampled_from([True, False, False])):
        if draw(st.booleans()):
            opts["value"] = draw(st.sampled_from(["V", "W", 7, 2.5]))
        else:
            keys = draw(few(st.sampled_from(NAMES + [None] + ["x%d" % n for n in range(5)]), 1, 3, unique=True))
            if None in keys and opts.get("name") in keys:
                keys.remove(None)
            opts["value"] = [[key, draw(st.sampled_from(VALUES))] for key in keys or [None]]
    if draw(st.sampled_from([True, False, False, False, False])):
        opts["disabled"] = draw(st.sampled_from([True, "off", "flag"]))
    if kind == "string":
        args = draw(few(st.sampled_from(["a", "b", "ab", "V", "aa", "bb", "c", "d", "e"]), 1, 4))
    elif kind == "regex":
        args = draw(few(st.sampled_from(GROUPS), 1, 3))
    else:
        args = [[[0, 1]]]
    return {"kind": kind, "args": args, "opts": opts}


@st.composite
def owners(draw, child):
    return {
        "patterns": draw(st.lists(described(), min_size=0 if child else 1, max_size=3)),
        "rules": draw(st.lists(st.builds(lambda name, props: [name, props], st.sampled_from(["A", "B", "C"]), properties() | st.none()), max_size=2,
                               unique_by=lambda rule: rule[0])),
        "default_rules": draw(st.sampled_from([True, False])),
        "disabled": draw(st.sampled_from([False, False, True, "off", "flag"] if child else [False])),
    }


@st.composite
def cases(draw):
    objects = [draw(owners(False))] + [draw(owners(True)) for _ in range(draw(st.sampled_from([0, 0, 1, 2] * 6 + [7])))]
    shared = []
    for number in range(1, len(objects)):
        for position in range(len(objects[0]["patterns"])):
            if draw(st.sampled_from([True, False, False])):
                shared.append([number, position])
    return {"objects": objects, "shared": shared, "context": draw(configs.contexts), "text": draw(st.text("abcV", max_size=6))}


def union(target, name, values):
    have = target.setdefault(name, [])
    for value in values:
        if not any(value == other for other in have):
            have.append(value)


def pattern_properties(spec):
    opts = spec["opts"]
    out = {}
    if opts.get("properties"):
        for name, values in opts["properties"].items():
            union(out, name, values)
        return out
    if "value" in opts:
        pairs = opts["value"] if isinstance(opts["value"], list) else [[None, opts["value"]]]
        for name, value in pairs:
            union(out, name if name else opts.get("name"), [value])
        return out
    hidden = opts.get("private_names", [])
    if spec["kind"] == "string":
        union(out, opts.get("name"), spec["args"])
        return out
    if opts.get("name") and opts["name"] not in hidden:
        union(out, opts["name"], [None])
    if spec["kind"] == "regex" and not opts.get("private_children"):
        for arg in spec["args"]:
            for name in re.compile(arg).groupindex:
                if name not in hidden:
                    union(out, name, [None])
    return out


class C31(Prop):
    id = "C31"
    rule = ("a parent and up to 2 children (some disabled), string, regex and functional patterns with several expressions, declared properties, "
            "value overrides (unhashable ones too), private options and markers, rules with declared properties, shared patterns and rule classes; "
            "descriptions, their order and the union against a model; non-trivial: at least two described patterns or rules share a name")
    quick = 1000
    thorough = 40000

    def strategy(self):
        return cases()

    def live_objects(self, case):
        return [number for number, owner in enumerate(case["objects"]) if not specs.is_disabled(owner["disabled"], case["context"])]

    def expect(self, case):
        patterns, rules = [], []
        for number in self.live_objects(case):
            owner = case["objects"][number]
            for position, spec in enumerate(owner["patterns"]):
                if not spec["opts"].get("private") and not spec["opts"].get("marker"):
                    patterns.append([[number, position], list(pattern_properties(spec).items())])
            for name, props in ([["conflict", None], ["private", None]] if owner["default_rules"] else []) + owner["rules"]:
                if name not in [rule[0] for rule in rules]:
                    out = {}
                    for key, values in self.rule_properties(case, name).items():
                        union(out, key, values)
                    rules.append([name, list(out.items())])
        total = {}
        for _what, props in patterns + rules:
            for name, values in props:
                union(total, name, values)
        return {"patterns": patterns, "rules": rules, "total": list(total.items())}

    def rule_properties(self, case, name):
        """One class per name: the properties of its first mention."""
        for owner in case["objects"]:
            for rule, props in owner["rules"]:
                if rule == name:
                    return props or {}
        return {}

    def check(self, case, expected, rec):
        classes = {}
        for name in "ABC":
            props = self.rule_properties(case, name)
            classes[name] = type("Rule" + name, (rb.Rule,), {"properties": {k: list(v) for k, v in props.items()} if props else None,
                                                             "when": lambda self, matches, context: None})
        made, registered = [], {}
        for number, owner in enumerate(case["objects"]):
            bulk = rb.Rebulk(disabled=specs.disabling(owner["disabled"]), default_rules=owner["default_rules"])
            for position, spec in enumerate(owner["patterns"]):
                specs.add_pattern(bulk, spec)
                registered[number, position] = bulk.effective_patterns({})[-1]
            for other, position in case["shared"]:
                if other == number:
                    bulk.pattern(registered[0, position])
            for name, _props in owner["rules"]:
                bulk.rules(classes[name])
            made.append(bulk)
        root = made[0].rebulk(*made[1:])
        before = snap_all(root.matches(case["text"], case["context"]))
        for turn in range(2):
            intro = rb.introspect(root, case["context"])
            rec.eq(len(intro.patterns), len(expected["patterns"]), "described patterns")
            for description, (where, props) in zip(intro.patterns, expected["patterns"]):
                rec.ok(description.pattern is registered[tuple(where)], "pattern described here", where, description.pattern)
                rec.eq(dict(description.properties), dict(props), "properties of pattern %r (%d)" % (where, turn))
            rec.eq([classes.get(r[0]) or getattr(rb, {"conflict": "ConflictSolver", "private": "PrivateRemover"}[r[0]]) for r in expected["rules"]],
                   [description.rule.__class__ for description in intro.rules], "described rules")
            for description, (name, props) in zip(intro.rules, expected["rules"]):
                rec.eq(dict(description.properties), dict(props), "properties of rule " + name)
            for _ in range(2):
                rec.eq(dict(intro.properties), dict(expected["total"]), "properties (introspection %d)" % turn)
            if turn == 0:  # results belong to the caller
                for values in intro.properties.values():
                    values.append("mine")
                for description in intro.patterns + intro.rules:
                    for values in description.properties.values():
                        values.append("mine")
        rec.eq(snap_all(root.matches(case["text"], case["context"])), before, "a search after introspection")
        names = [name for _w, props in expected["patterns"] + expected["rules"] for name, _v in props]
        rec.label("objects:%d" % len(case["objects"]), "rules" if expected["rules"] else "no rules")
        rec.hit(len(names) > len(set(names)))


PROP = C31
