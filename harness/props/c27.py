"""Well-formedness of everything a search reports."""

import re

from hypothesis import strategies as st

from harness import chainmodel, configs, regexgen, seqgen, specs
from harness.core import Prop
from harness.lib import rb

ALPHABET = "aabb1-_ éAİßﬁ\u0301\U0001F600\n"
WORDS = ["a", "b", "ab", "a1", "é", "İ", "ß", "ﬁ", "i", "ss", "\U0001F600", "-", "aa", "", "A", "e\u0301", "\n"]
HOLLOW = ["(x?)a", "(?P<n>-?)b", "a(?P<m>x*)(b?)", "(|a)b", "(?P<o>)a", "a(?P<n>)", "(?P<m>a?)(?P<n>a?)(b?)a"]  # groups that may take no text
REPEATERS = [None, None, 1, 2, "+", "*", "?", "{1,2}", "{0,2}", "{2,}", "{,2}", "{0}", "{2}", 0]
NAMES = ["n", "m", "o"]


@st.composite
def expressions(draw):
    if draw(st.sampled_from([True, True, False])):
        return draw(st.sampled_from(specs.REGEXES + chainmodel.GROUPED + chainmodel.LOOSE + HOLLOW))
    tree = draw(regexgen.trees(max_leaves=6).filter(lambda t: not regexgen.nested_repeats(t)))
    return regexgen.render(tree)


@st.composite
def options(draw, part=False):
    opts = draw(specs.selection_options())
    if part:
        opts.pop("marker", None)
        for option in ("ignore_names", "children"):
            if draw(st.booleans()):
                opts.pop(option, None)
    if draw(st.sampled_from([True, False, False])):
        opts["formatter"] = draw(specs.mapped(sorted(specs.FORMATTERS)))
    if draw(st.sampled_from([True, False, False, False])):
        opts["value"] = draw(specs.mapped(["V", 3]))
    if draw(st.sampled_from([True, False, False, False])):
        opts["validator"] = draw(specs.mapped(specs.VALIDATORS))
    for flag in ("format_all", "validate_all"):
        if draw(st.sampled_from([True, False, False, False, False])):
            opts[flag] = True
    if not part and draw(st.sampled_from([True, False, False, False, False])):
        opts[draw(st.sampled_from(["pre_match_processor", "post_match_processor"]))] = draw(st.sampled_from(["same", "drop_even", "drop_short", "rename", "tag"]))
    return opts


@st.composite
def plain_patterns(draw, part=False):
    kind = draw(st.sampled_from(["string", "regex", "regex", "regex", "functional"]))
    opts = draw(options(part))
    if kind == "string":
        args = draw(st.lists(st.sampled_from(WORDS + ["a", "b", "c", "a", "b"] * 3), min_size=1, max_size=3))
        if draw(st.booleans()):
            opts["ignore_case"] = True
    elif kind == "regex":
        args = draw(st.lists(expressions(), min_size=1, max_size=2))
    else:
        args = [draw(st.lists(st.tuples(st.integers(0, 8), st.integers(0, 8)).map(sorted), max_size=4))]
    return {"kind": kind, "args": args, "opts": opts}


@st.composite
def wild_chains(draw, nest=2):
    opts = {}
    if draw(st.booleans()):
        opts["name"] = draw(st.sampled_from(NAMES))
    for flag in ("children", "every", "private_children", "private_parent"):
        if draw(st.sampled_from([True, False, False, False])):
            opts[flag] = True
    for names in ("private_names", "ignore_names"):
        if draw(st.sampled_from([True, False, False, False, False])):
            opts[names] = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=2))
    if draw(st.sampled_from([True, False, False, False])):
        opts["chain_breaker"] = draw(st.sampled_from(chainmodel.BREAKERS))
    if draw(st.sampled_from([True, False, False, False])):
        opts["validator"] = draw(st.sampled_from(chainmodel.VALIDATORS))
    if draw(st.sampled_from([True, False, False, False])):
        opts["formatter"] = "upper"
    parts = []
    for _ in range(draw(st.sampled_from([1, 2, 2, 3]))):
        if nest and draw(st.sampled_from([True, False, False, False])):
            parts.append({"part": draw(wild_chains(nest - 1)), "repeater": None, "hidden": False})
        else:
            parts.append({"part": draw(plain_patterns(part=True)), "repeater": draw(st.sampled_from(REPEATERS)),
                          "hidden": draw(st.sampled_from([True, False, False, False, False]))})
    return {"kind": "wild", "parts": parts, "opts": opts}


@st.composite
def cases(draw):
    entries = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        style = draw(st.sampled_from(["plain", "plain", "wild", "wild", "config"]))
        entries.append(draw({"plain": plain_patterns(), "wild": wild_chains(), "config": configs.entries(8, disabling=False)}[style]))
    found = [e for e in entries if e["kind"] == "chain"]
    if found and draw(st.booleans()):
        text = draw(configs.texts(found))
    else:
        style = draw(st.sampled_from(["empty"] + ["short"] * 8 + ["unicode"] * 3 + ["words"] * 3))
        text = "" if style == "empty" else draw({"short": seqgen.sized_text("aaabbc1-", 3, 9), "unicode": seqgen.sized_text(ALPHABET, 1, 10),
                                                 "words": st.lists(st.sampled_from(WORDS), min_size=1, max_size=6).map("".join)}[style])
    return {"entries": entries, "text": text, "default_rules": draw(st.booleans()), "child": draw(st.sampled_from([False, False, True]))}


def spans_function(items):
    def run(string):
        return [tuple(item) for item in items if item[1] <= len(string) and item[0] <= len(string)]

    return run


def register(builder, spec):
    args = [spans_function(items) for items in spec["args"]] if spec["kind"] == "functional" else spec["args"]
    return getattr(builder, spec["kind"])(*args, **specs.options(spec["opts"]))


def add_wild(builder, chain):
    inner = builder.chain(**chainmodel.chain_options(chain["opts"]))
    for entry in chain["parts"]:
        if entry["part"]["kind"] == "wild":
            add_wild(inner, entry["part"])
            continue
        part = register(inner, entry["part"])
        if entry["repeater"] is not None:
            part.repeater(entry["repeater"])
        if entry["hidden"]:
            part.hidden()


def looks_around(entry):
    """Whether group text may lie outside its match."""
    if entry["kind"] in ("chain", "wild"):
        return any(looks_around(part.get("part", part)) for part in entry["parts"])
    return entry["kind"] == "regex" and any("(?=" in arg or "(?<" in arg or "(?!" in arg for arg in entry.get("args") or [entry.get("arg")])


def simple(entry):
    """No formatter and no value anywhere."""
    if "formatter" in entry["opts"] or "value" in entry["opts"]:
        return False
    return all(simple(part.get("part", part)) for part in entry.get("parts", ()))


class C27(Prop):
    id = "C27"
    rule = ("1 to 3 patterns of any kind: strings (case ignored, non-ASCII), random regular expressions with groups, anchors and look-arounds, "
            "functional patterns, and wild chains (nested, with optional first parts, several expressions, hidden parts, any repeater, validators "
            "on parts and chains, anchors and empty matches), all return, privacy, value and formatter options; any text; the well-formedness of "
            "every match, marker and child; non-trivial: something reported has children or lies beside a text of two characters")
    assumptions = ("functions of functional patterns return (possibly empty) spans inside the text they are given",)
    fixed = [{'entries': [{'kind': 'wild', 'parts': [{'part': {'kind': 'regex', 'args': ['b', '.(?P<n>b).?'], 'opts': {'name': 'm', 'children': True, 'validator': [['m', 'false']], 'validate_all': True}}, 'repeater': None, 'hidden': False}, {'part': {'kind': 'string', 'args': ['a'], 'opts': {'name': 'n'}}, 'repeater': None, 'hidden': False}], 'opts': {'children': True}}], 'text': '11b', 'default_rules': False, 'child': False}]
    quick = 1400
    thorough = 60000
    shards = 8
    regex_shards = 1

    def strategy(self):
        return cases()

    def check(self, case, expected, rec):
        text = case["text"]
        bulk = rb.Rebulk(default_rules=case["default_rules"])
        target = rb.Rebulk(default_rules=False) if case["child"] else bulk
        for entry in case["entries"]:
            if entry["kind"] == "wild":
                add_wild(target, entry)
            elif entry["kind"] == "chain" or "args" in entry and entry["kind"] == "functional" and not isinstance((entry["args"][0] or [[0]])[0], list):
                configs.add(target, entry)
            elif entry["kind"] == "functional" and any(isinstance(item, dict) for items in entry["args"] for item in items):
                configs.add(target, entry)
            else:
                register(target, entry)
        if target is not bulk:
            bulk.rebulk(target)
        configured = {}

        def collect(pattern, root):
            configured[id(pattern)] = root
            for part in getattr(pattern, "parts", ()):
                collect(part.pattern, root)

        for number, pattern in enumerate(target.effective_patterns({})):
            collect(pattern, number)
        found = bulk.matches(text)
        families = 0
        for match in list(found) + list(found.markers):
            families += self.judge(match, text, case, configured, rec, 0)
        for match in found:
            rec.ok(not match.marker, "a marker among the matches", match)
        for match in found.markers:
            rec.ok(match.marker, "a match among the markers", match)
        rec.label(*{entry["kind"] for entry in case["entries"]}, "empty text" if not text else "text")
        rec.hit(families or len(found) and len(text) > 2)

    def judge(self, match, text, case, configured, rec, depth):
        rec.ok(depth < 12, "children without end", match)
        rec.ok(isinstance(match.start, int) and isinstance(match.end, int) and 0 <= match.start < match.end <= len(text), "span", match.start, match.end, text)
        rec.eq(match.raw, text[match.start:match.end], "raw text at (%d, %d)" % (match.start, match.end))
        rec.eq((match.raw_start, match.raw_end), (match.start, match.end), "raw span")
        rec.eq(len(match), match.end - match.start, "length")
        rec.eq(match.input_string, text, "input string")
        rec.ok(id(match.pattern) in configured, "a match of no configured pattern", match, match.pattern)
        entry = case["entries"][configured[id(match.pattern)]]
        if match.has_literal_value:
            rec.ok(not simple(entry) or entry["kind"] == "functional", "literal value of its own", match)
        else:
            rec.eq(match.value, match.formatter(match.raw) if match.formatter else match.raw, "value")
            if simple(entry):
                rec.eq(match.value, match.raw, "value without formatter")
        top = match
        for _ in range(20):
            if top.parent is None:
                break
            top = top.parent
        rec.ok(match.initiator is top, "initiator", match, match.initiator, top)
        rec.ok(id(top.pattern) in configured and configured[id(top.pattern)] == configured[id(match.pattern)], "initiator of another pattern", match)
        for child in match.children:
            above = child.parent
            while above is not None and above is not match:
                above = above.parent
            rec.ok(above is match, "a child does not lead to its parent", child, match)
            if not looks_around(entry):
                rec.ok(match.start <= child.start and child.end <= match.end, "child outside of its parent", child, match)
            self.judge(child, text, case, configured, rec, depth + 1)
        return len(match.children)


PROP = C27
