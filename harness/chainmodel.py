"""Reference chain matcher and chain generators (no code under test in the model)."""

from __future__ import annotations

import re

from hypothesis import strategies as st

from harness import specs
from harness.lib import rb

# expressions whose every match has a group with text / that may have none
GROUPED = ["(?P<n>a)", "(a)(b)", "(?P<n>a+)(b)?(?P<o>c)?", "(?P<m>b(?P<n>c))", "([ab])c", "(?P<n>a)|(?P<m>b)", "(a|b)", "(?P<n>[abc]{2})",
           "b(?P<o>.)", "(?P<o>c+)", "(?P<n>b)(?P<m>c)?", "((a|b))", "(?P<m>(?P<n>[ab])c)"]
LOOSE = ["ab", "a+", "b", "(?P<n>a)?b", "c(?P<m>)b?", "[a-c]", "bc?", "(a)?(?P<o>b)?c"]
AHEAD = ["a(?=(b))", "(?P<n>b)(?=(?P<m>c))"]
SAMPLES = {
    "(?P<n>a)": ["a"], "(a)(b)": ["ab"], "(?P<n>a+)(b)?(?P<o>c)?": ["a", "ab", "abc", "aac"], "(?P<m>b(?P<n>c))": ["bc"], "([ab])c": ["ac", "bc"],
    "(?P<n>a)|(?P<m>b)": ["a", "b"], "(a|b)": ["a", "b"], "(?P<n>[abc]{2})": ["ab", "ca", "bb"], "b(?P<o>.)": ["ba", "b-", "bx"], "(?P<o>c+)": ["c", "cc"],
    "(?P<n>b)(?P<m>c)?": ["b", "bc"], "ab": ["ab"], "a+": ["a", "aa"], "b": ["b"], "(?P<n>a)?b": ["b", "ab"], "c(?P<m>)b?": ["c", "cb"],
    "[a-c]": ["a", "b", "c"], "bc?": ["b", "bc"], "(a)?(?P<o>b)?c": ["c", "ac", "bc", "abc"], "a(?=(b))": ["a"], "(?P<n>b)(?=(?P<m>c))": ["b"],
}
STRINGS = ["a", "b", "c", "ab", "bc", "aa", "-"]
REPEATERS = {  # spelled -> (min, max)
    "first": [[None, 1, 1], [1, 1, 1], [2, 2, 2], ["2", 2, 2], ["+", 1, None], ["+", 1, None], ["{1,2}", 1, 2], ["{2}", 2, 2], ["{2,}", 2, None],
              ["{1,3}", 1, 3], ["{1,}", 1, None], ["{ 1 , 2 }", 1, 2]],
    "other": [[None, 1, 1], [None, 1, 1], [1, 1, 1], [2, 2, 2], ["3", 3, 3], ["+", 1, None], ["+", 1, None], ["*", 0, None], ["*", 0, None],
              ["?", 0, 1], ["?", 0, 1], ["{1,2}", 1, 2], ["{2}", 2, 2], ["{2,}", 2, None], ["{,2}", 0, 2], ["{0,1}", 0, 1], ["{2,3}", 2, 3],
              ["{0}", 0, 0], [0, 0, 0], ["{,1}", 0, 1]],
}


# several expressions for one part, whose occurrences never overlap
ALTERNATIVES = {"string": [["a", "b"], ["b", "a"], ["ab", "c"], ["bc", "a"], ["c", "-"], ["c", "a", "b"]],
                "functional": [["a", "b"], ["b", "a"], ["ab", "c"], ["c", "b", "a"]],
                "regex": [["(?P<n>a)", "(?P<m>b)"], ["(b)", "(a)(a)?"], ["c+", "a+"], ["b(?P<o>c)?", "a"], ["bc?", "a+"], ["a", "c(b)", "-"]]}
SAMPLES.update({"((a|b))": ["a", "b"], "(?P<m>(?P<n>[ab])c)": ["ac", "bc"], "(?P<m>b)": ["b"], "(b)": ["b"], "(a)(a)?": ["a", "aa"], "c+": ["c", "cc"], "b(?P<o>c)?": ["b", "bc"], "a": ["a"], "c(b)": ["cb"],
                "-": ["-"]})


def occurrences(part, text):
    """Raw occurrences of one part in a text: [span, [[group span, group name]...]]."""
    if part.get("also"):
        each = [occurrences({**part, "arg": arg, "also": []}, text) for arg in [part["arg"], *part["also"]]]
        return sorted((occurrence for some in each for occurrence in some), key=lambda occurrence: occurrence[0])
    kind, arg = part["kind"], part["arg"]
    out = []
    if kind in ("string", "functional"):
        at = text.find(arg)
        while at >= 0:
            out.append([[at, at + len(arg)], []])
            at = text.find(arg, at + len(arg))
    else:
        expression = re.compile(arg)
        names = {number: name for name, number in expression.groupindex.items()}
        for found in expression.finditer(text):
            if found.end() > found.start():
                groups = [[list(found.span(number)), names.get(number, part["opts"].get("name"))]
                          for number in range(1, expression.groups + 1) if found.end(number) > found.start(number)]
                out.append([list(found.span()), groups])
    return out


BREAKERS = ["never", "always", "many", "even", "repeat", "long", "has_c", "last_b"]


def breaks(name, raws):
    if name == "never":
        return False
    if name == "always":
        return True
    if name == "many":
        return len(raws) > 2
    if name == "even":
        return len(raws) % 2 == 0
    if name == "repeat":
        return len(raws) > 1 and raws[-1] == raws[-2]
    if name == "long":
        return sum(map(len, raws)) > 3
    if name == "has_c":
        return any("c" in raw for raw in raws)
    return bool(raws) and raws[-1].endswith("b")


VALIDATORS = ["true", "false", "ends_a", "ends_b", "short2", "short4", "even", "few", "value_b"]


def valid(name, raw, value, children):
    if name == "true":
        return True
    if name == "false":
        return False
    if name == "ends_a":
        return raw.endswith("a")
    if name == "ends_b":
        return raw.endswith("b")
    if name == "short2":
        return len(raw) <= 2
    if name == "short4":
        return len(raw) <= 4
    if name == "even":
        return len(raw) % 2 == 0
    if name == "few":
        return children <= 2
    return value.lower().endswith("b")


def node(span, name, children=(), tags=(), private=False):
    return {"span": list(span), "raw": list(span), "name": name, "children": list(children), "tags": list(tags), "private": private}


def shifted(items, offset, seen=None):
    """Copies of some nodes moved by an offset; a node met twice stays one node."""
    seen = {} if seen is None else seen
    out = []
    for item in items:
        if id(item) not in seen:
            seen[id(item)] = node([item["span"][0] + offset, item["span"][1] + offset], item["name"],
                                  shifted(item["children"], offset, seen), item["tags"], item["private"])
            seen[id(item)]["raw"] = [item["raw"][0] + offset, item["raw"][1] + offset]
        out.append(seen[id(item)])
    return out


def visible_of(part, occurrence):
    """What a part yields for one of its occurrences, given its children/every options."""
    span, groups = occurrence
    opts = part["opts"]
    tags = opts.get("tags", [])
    groups = [node(s, n, tags=tags) for s, n in groups]
    own = node(span, opts.get("name"), groups, tags)
    if part.get("explicit", "").startswith("shorter") and span[1] - span[0] > 1:
        own["span"][1] -= 1
    return reported(own, opts)


def reported(match, opts):
    """What a pattern yields for a match of its own, privacy marked."""
    names = opts.get("private_names", [])
    match["private"] = match["private"] or bool(opts.get("private_parent")) or match["name"] in names
    for child in match["children"]:
        child["private"] = child["private"] or bool(opts.get("private_children")) or child["name"] in names
    out = []
    if not opts.get("children") or opts.get("every") or opts.get("private_parent"):
        out.append(match)
    if opts.get("children") or opts.get("every") or opts.get("private_children"):
        out.extend(match["children"])
    return [item for item in out if item["name"] not in opts.get("ignore_names", [])]


def runs(part, text, first):
    """The run of a part in the rest of the text: [(end, visible)...] and the end of its first occurrence."""
    if part["kind"] == "chain":
        found = []
        for chain in search(part, text):
            found.append((chain["span"], reported(chain, part["opts"])))
    else:
        found = [(occurrence[0], visible_of(part, occurrence)) for occurrence in occurrences(part, text)]
    if not found or not first and found[0][0][0] != 0:
        return []
    out = []
    for span, visible in found:
        if out and span[0] != out[-1][0][1]:
            break
        if part["max"] is not None and len(out) == part["max"]:
            break
        out.append((span, visible))
    return out


def search(chain, text):
    """Chains found in a text, as nodes with their children, in order."""
    opts = chain["opts"]
    out = []
    offset = 0
    while offset < len(text):
        entries = []  # (part number, visible matches at their place in the text)
        at = offset
        resume = None
        ok = True
        for number, part in enumerate(chain["parts"]):
            run = runs(part, text[at:], number == 0)
            if number == 0:
                if not run:
                    return out
                resume = at + run[0][0][1]
            if len(run) < part["min"]:
                ok = False
                break
            for _span, visible in run:
                if part.get("hidden"):
                    continue
                visible = shifted(visible, at)
                so_far = [v for _n, entry in entries for v in entry] + visible
                if opts.get("chain_breaker") and breaks(opts["chain_breaker"], [text[v["raw"][0]:v["raw"][1]] for v in so_far]):
                    continue
                entries.append((number, visible))
            if run:
                at += run[-1][0][1]
        if not ok:
            offset = resume
            continue
        offset = at
        built = build(chain, text, entries)
        if built is not None:
            out.append(built)
    return out


def build(chain, text, entries):
    opts = chain["opts"]
    entries = [(n, v) for n, v in entries if v]
    if not entries:
        return None

    def form(entries, end=None):
        flat = [v for _n, visible in entries for v in visible]
        children = []
        for item in flat:
            for part in [*item["children"], item]:
                if not any(part is other for other in children):
                    children.append(part)
        start = min(v["span"][0] for v in flat)
        return node([start, max(v["span"][1] for v in flat)], opts.get("name"), children, opts.get("tags", []))

    whole = form(entries)
    validator = opts.get("validator")
    if validator is None:
        return whole

    def accepted(match):
        raw = text[match["span"][0]:match["span"][1]]
        value = raw.upper() if opts.get("formatter") == "upper" else raw
        return valid(validator, raw, value, len(match["children"]))

    if accepted(whole):
        return whole
    last = entries[-1][0]
    count = sum(1 for n, _v in entries if n == last)
    keep = chain["parts"][last]["min"]
    while count > keep and len(entries) > 1:
        entries = entries[:-1]
        count -= 1
        shorter = form(entries)
        shorter["span"][0] = whole["span"][0]
        if accepted(shorter):
            return shorter
    return None


def outputs(chain, text):
    """What the chain pattern yields."""
    return [item for match in search(chain, text) for item in reported(match, chain["opts"])]


# -- real side ----------------------------------------------------------------------------------------------


CONTEXT = {"on": True}


def function_for(needle, context=False):
    """A function finding the occurrences of a text, if wanted in CONTEXT only."""
    find = specs.finder(needle)
    if not context:
        return find

    def run(string, context):
        return find(string) if context == CONTEXT else []

    return run


def explicit(match):
    """A match processor giving the match and its groups raw bounds, those they have."""
    for item in (match, *match.children):
        item.raw_start, item.raw_end = item.start, item.end


def shorter(match):
    """A match processor cutting the last character of a match, which remains the text it was found on."""
    match.raw_start, match.raw_end = match.span
    if len(match) > 1:
        match.end -= 1
    return match


def anew(match):
    """A match processor giving another match in its place."""
    made = rb.Match(match.start, match.end, name=match.name, tags=list(match.tags), private=match.private, marker=match.marker, pattern=match.pattern,
                    input_string=match.input_string, formatter=match.formatter, parent=match.parent)
    for child in match.children:
        child.parent = made
        made.children.append(child)
    return made


EFFECTS = {"same": explicit, "shorter": shorter, "anew": anew}


def add_parts(builder, chain):
    for part in chain["parts"]:
        if part["kind"] == "chain":
            add_parts(builder.chain(**chain_options(part["opts"])), part)
            continue
        args = [function_for(arg, part.get("context")) if part["kind"] == "functional" else arg for arg in [part["arg"], *part.get("also", [])]]
        opts = specs.options(part["opts"])
        if part.get("explicit"):
            effect, which = part["explicit"].split()
            opts[which] = EFFECTS[effect]
        made = getattr(builder, part["kind"])(*args, **opts)
        for spelled in part.get("earlier", []):
            made.repeater(spelled)
        if part["repeater"] is not None:
            made.repeater(part["repeater"])
        for flag in part.get("flips", []):
            made.hidden(flag)
        if part.get("hidden"):
            made.hidden()


def chain_options(opts):
    out = {}
    for key, value in opts.items():
        if key == "chain_breaker":
            out[key] = lambda matches, name=value: breaks(name, [m.raw for m in matches])
        elif key == "validator":
            check = lambda match, name=value: valid(name, match.raw, match.value, len(match.children))  # noqa: E731
            out[key] = {"__parent__": check}
        elif key == "formatter":
            out[key] = {"__parent__": specs.FORMATTERS[value]}
        else:
            out[key] = list(value) if isinstance(value, list) else value
    return out


def add_chain(bulk, chain):
    builder = bulk.chain(**chain_options(chain["opts"]))
    add_parts(builder, chain)
    return builder


# -- generators ---------------------------------------------------------------------------------------------


@st.composite
def parts(draw, first, look=True, rich=False):
    kind = draw(st.sampled_from(["string", "string", "regex", "regex", "regex", "functional"]))
    spelled, low, high = draw(st.sampled_from(REPEATERS["first" if first else "other"]))
    opts = {}
    if draw(st.booleans()):
        opts["name"] = draw(st.sampled_from(["n", "p", "q"]))
    if draw(st.sampled_from([True, False, False])):
        opts["tags"] = draw(st.lists(st.sampled_from(["t", "u"]), min_size=1, max_size=2, unique=True))
    if kind == "regex":
        returned = draw(st.sampled_from([None, None, "children", "every"]))
        if returned:
            opts[returned] = True
        if returned == "children" and high != 1 and not (rich and draw(st.booleans())):
            arg = draw(st.sampled_from(GROUPED))
        else:
            arg = draw(st.sampled_from(GROUPED + LOOSE + (AHEAD if look else [])))
    elif kind == "functional":
        arg = draw(st.sampled_from(STRINGS[:4]))
    else:
        arg = draw(st.sampled_from(STRINGS))
    made = {"kind": kind, "arg": arg, "opts": opts, "repeater": spelled, "min": low, "max": high}
    if rich:
        enrich(draw, made)
    return made


def rarely(draw, one_in):
    return draw(st.sampled_from([False] * (one_in - 1) + [True]))


def enrich(draw, part):
    """Less usual ways to write a part."""
    if rarely(draw, 6):
        part["arg"], *part["also"] = draw(st.sampled_from(ALTERNATIVES[part["kind"]]))
    if rarely(draw, 30):
        part["repeater"], part["min"], part["max"] = draw(st.sampled_from([["{10,}", 10, None], ["{1,12}", 1, 12], ["12", 12, 12], ["{11}", 11, 11]]))
    if part["repeater"] is not None and rarely(draw, 6):
        part["earlier"] = draw(st.lists(st.sampled_from(["*", "+", "?", 2, "{2,3}", "{,4}", "3"]), min_size=1, max_size=2))
    if rarely(draw, 12):
        part["flips"] = draw(st.sampled_from([[False], [True, False]]))
    if rarely(draw, 10):
        part["explicit"] = draw(st.sampled_from([effect + " " + which for effect in ("same", "shorter", "anew") for which in ("pre_match_processor", "post_match_processor")]))
    if part["kind"] == "functional" and rarely(draw, 2):
        part["context"] = True
    privacy(draw, part["opts"])


def privacy(draw, opts):
    for flag in ("private_parent", "private_children"):
        if rarely(draw, 10):
            opts[flag] = True
    for flag in ("private_names", "ignore_names"):
        if rarely(draw, 12):
            opts[flag] = draw(st.lists(st.sampled_from(["n", "m", "o", "p"]), min_size=1, max_size=2, unique=True))


@st.composite
def chains(draw, look=True, nest=0, max_parts=4, rich=False):
    count = draw(st.sampled_from(list(range(1, max_parts + 1)) + [2, 3]))
    made = []
    for number in range(count):
        if nest and draw(st.sampled_from([True] + [False] * 5)):
            inner = draw(chains(look=look, nest=nest - 1, max_parts=2))
            inner.update({"kind": "chain", "repeater": None, "min": 1, "max": 1})
            made.append(inner)
        else:
            made.append(draw(parts(number == 0, look=look, rich=rich)))
    opts = {}
    if draw(st.booleans()):
        opts["name"] = draw(st.sampled_from(["chain", "n"]))
    if draw(st.sampled_from([True, False, False])):
        opts["tags"] = ["ct"]
    return {"kind": "chain", "parts": made, "opts": opts}
