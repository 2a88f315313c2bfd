"""Whole configurations as JSON: patterns, chains, rules, keys, children; builders for the real thing."""

from __future__ import annotations

import copy
import logging

from hypothesis import strategies as st

from harness import chainmodel, seqgen, specs
from harness.lib import rb

# -- rules by name -----------------------------------------------------------------------------------------

RULES = ["remove_short", "remove_first", "rename_n", "tag_named", "untag", "append_hole", "crop", "drop_tagged", "rename_all_upper", "count_context",
         "merge", "twins", "generate", "reversed"]


def make_rule(spec, log_level=None):
    """A rule class doing something simple to the matches; spec: {"kind","priority","disabled","log"}."""
    kind = spec["kind"]

    def enabled(self, context):
        return not specs.is_disabled(spec.get("disabled"), context)

    def when(self, matches, context):
        if kind == "remove_short":
            return [m for m in matches if len(m) < 2]
        if kind == "remove_first":
            return matches[0] if matches else None
        if kind == "rename_n":
            return matches.named("n")
        if kind == "rename_all_upper":
            return [m for m in matches if isinstance(m.value, str) and m.value.isupper()]
        if kind == "tag_named":
            return matches.named("n", "m")
        if kind == "untag":
            return matches.tagged("t")
        if kind == "append_hole":
            return [rb.Match(h.start, h.end, name="hole", input_string=matches.input_string) for h in matches.holes()[:2]]
        if kind == "crop":
            return [piece for m in matches.range(0, 6) for piece in m.crop((m.start, m.start + 1)) if len(m) > 1]
        if kind == "drop_tagged":
            return matches.tagged("u", lambda m: m.start % 2 == 0)
        if kind == "merge":  # some become equal to others
            return [m for m in matches if m.name != "n"]
        if kind == "twins":
            return [rb.Match(m.start, m.end, value=m.value, name=m.name, parent=m.parent, input_string=m.input_string) for m in matches[:3]]
        if kind == "generate":
            return (m for m in list(matches) if m.start % 3 == 0)
        if kind == "reversed":
            return reversed(list(matches)[:4])
        if kind == "count_context":
            return matches if context and context.get("flag") else None
        raise KeyError(kind)

    consequence = {
        "remove_short": lambda: rb.RemoveMatch, "remove_first": lambda: rb.RemoveMatch, "rename_n": lambda: rb.rules.RenameMatch("renamed"),
        "rename_all_upper": lambda: rb.rules.RenameMatch("upper"), "tag_named": lambda: rb.rules.AppendTags(["ruled"]),
        "untag": lambda: rb.rules.RemoveTags(["t"]), "append_hole": lambda: rb.AppendMatch, "crop": lambda: rb.rules.AppendMatch("cropped"),
        "merge": lambda: rb.rules.RenameMatch("n"), "twins": lambda: rb.AppendMatch,
        "generate": lambda: rb.rules.AppendTags(["generated"]), "reversed": lambda: rb.rules.RenameMatch("back"),
        "drop_tagged": lambda: rb.RemoveMatch, "count_context": lambda: rb.rules.AppendTags(["context"]),
    }[kind]()
    body = {"priority": spec["priority"], "consequence": consequence, "when": when, "enabled": enabled}
    if log_level is not None:
        body["log_level"] = log_level
    return type("Rule_%s_%s" % (kind, spec["priority"]), (rb.Rule,), body)


@st.composite
def rules(draw):
    """One rule."""
    spec = {"kind": draw(st.sampled_from(RULES)), "priority": draw(st.sampled_from([-1, 0, 0, 1, 3000, -3000]))}
    if draw(st.sampled_from([True, False, False])):
        spec["disabled"] = draw(st.sampled_from([True, "off", "flag", False]))
    return spec


# -- patterns ----------------------------------------------------------------------------------------------


@st.composite
def entries(draw, length, chain=True, flags=True, disabling=True, solvers=False, nested=True, formatters=True, kinds=("string", "regex", "functional")):
    """One pattern or chain of a configuration."""
    if chain and draw(st.sampled_from([True, False, False])):
        spec = draw(chainmodel.chains(nest=draw(st.sampled_from([0, 0, 0, 1])) if nested else 0))
        if draw(st.sampled_from([True, False, False])):
            spec["opts"][draw(st.sampled_from(["children", "every"]))] = True
    else:
        spec = draw(specs.patterns(length, kinds=kinds))
        opts = spec["opts"]
        if formatters and draw(st.sampled_from([True, False, False])):
            opts["formatter"] = draw(specs.mapped(sorted(specs.FORMATTERS)))
        if formatters and draw(st.sampled_from([True, False, False, False, False])):
            opts["validator"] = draw(specs.mapped(specs.VALIDATORS))
        if formatters and draw(st.sampled_from([True, False, False, False, False])):
            opts["value"] = draw(specs.mapped(["V", 3]))
        if not flags:
            for flag in ("marker", "private", "private_names", "private_parent", "private_children"):
                opts.pop(flag, None)
            for items in spec["args"] if spec["kind"] == "functional" else []:
                for item in items:
                    if isinstance(item, dict):
                        item.pop("marker", None), item.pop("private", None)
    if solvers and draw(st.sampled_from([True, False, False])):
        spec["opts"]["conflict_solver"] = draw(st.sampled_from(["self", "other", "none", "default"]))
    if disabling and draw(st.sampled_from([True, False, False, False, False])):
        spec["opts"]["disabled"] = draw(st.sampled_from([True, "off", "flag", False]))
    return spec


def add(bulk, entry, log_level=None):
    """Register one entry; answers the registered pattern."""
    before = {id(pattern) for pattern in bulk.effective_patterns({})}
    if log_level is not None:
        entry = {**entry, "opts": {**entry["opts"], "log_level": log_level}}
    if entry["kind"] == "chain":
        opts = entry["opts"]
        special = {key: opts[key] for key in ("disabled", "conflict_solver") if key in opts}
        chain = {**entry, "opts": {k: v for k, v in opts.items() if k not in special}}
        builder = bulk.chain(**chainmodel.chain_options(chain["opts"]), **specs.options(special))
        chainmodel.add_parts(builder, chain)
    else:
        specs.add_pattern(bulk, entry)
    return [pattern for pattern in bulk.effective_patterns({}) if id(pattern) not in before][-1]


def texts(entries_of):
    """A text made from what the patterns look for, with noise."""
    from harness.props.c06 import sentences

    @st.composite
    def make(draw):
        found = [entry for entry in entries_of if entry["kind"] == "chain"]
        out = ""
        for _ in range(draw(st.sampled_from([1, 1, 2]))):
            out += draw(st.text("aabbcx-", max_size=6))
            if found:
                out += draw(sentences(draw(st.sampled_from(found))))
        out += draw(st.text("aabbcx-", max_size=4))
        return out[:24] or "ab"

    return make()


# -- whole configurations ------------------------------------------------------------------------------------


@st.composite
def configs(draw, children=True, rules_odds=2, default_rules=True, max_patterns=4, length=10, **kw):
    """{"disabled","default_rules","patterns","rules","children"}"""
    conf = {
        "patterns": [draw(entries(length, **kw)) for _ in range(draw(st.sampled_from(range(1, max_patterns + 1))))],
        "rules": [], "children": [], "default_rules": True, "disabled": False,
    }
    if draw(st.sampled_from([True, False, False])):  # the same once more, maybe under another name
        twin = copy.deepcopy(draw(st.sampled_from(conf["patterns"])))
        if "name" in twin["opts"] and draw(st.booleans()):
            twin["opts"]["name"] = draw(st.sampled_from(["n", "m", "o"]))
        conf["patterns"].append(twin)
    if rules_odds and draw(st.sampled_from([True] + [False] * (rules_odds - 1))):
        conf["rules"] = draw(st.lists(rules(), min_size=1, max_size=3, unique_by=lambda r: (r["kind"], r["priority"])))
    if default_rules and draw(st.sampled_from([True, False, False, False])):
        conf["default_rules"] = False
    if children:
        conf["children"] = [draw(configs(children=False, rules_odds=rules_odds, default_rules=default_rules, max_patterns=2, length=length, **kw))
                            for _ in range(draw(st.sampled_from([0, 0, 1, 2] * 10 + [7])))]
        for child in conf["children"]:
            if draw(st.sampled_from([True, False, False])):
                child["disabled"] = draw(st.sampled_from([True, "off", "flag", False]))
        if conf["children"]:  # an object with nothing but rules, or nothing but others
            bare = draw(st.sampled_from([None] * 6 + [conf] + conf["children"][-1:]))
            if bare:
                bare["patterns"] = []
    return conf


class Registry:
    """Rule classes of one case: one class per spec, so that it may be shared between objects."""

    def __init__(self, log_level=None):
        self.classes = {}
        self.log_level = log_level

    def __getitem__(self, spec):
        key = repr(sorted(spec.items()))
        if key not in self.classes:
            self.classes[key] = make_rule(spec, self.log_level)
        return self.classes[key]


def build(conf, registry=None, log_level=None):
    """The real object of a configuration."""
    registry = Registry(log_level) if registry is None else registry
    bulk = rb.Rebulk(disabled=specs.disabling(conf["disabled"]), default_rules=conf["default_rules"])
    for entry in conf["patterns"]:
        add(bulk, entry, log_level)
    for spec in conf["rules"]:
        bulk.rules(registry[spec])
    for child in conf["children"]:
        bulk.rebulk(build(child, registry, log_level))
    return bulk


def all_entries(conf):
    out = list(conf["patterns"])
    for child in conf["children"]:
        out += child["patterns"]
    return out


contexts = st.sampled_from([None, {}, {"flag": True}, {"off": True}, {"off": True, "flag": 1}, {"flag": False}])


@st.composite
def cases(draw, **kw):
    conf = draw(configs(**kw))
    return {"conf": conf, "text": draw(texts(all_entries(conf))), "context": draw(contexts)}


def quiet():
    logging.getLogger("rebulk").setLevel(logging.CRITICAL)
