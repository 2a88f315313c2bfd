"""Regex patterns against the engine itself."""

import copy
import importlib
import os
import re
import warnings

from hypothesis import assume
from hypothesis import strategies as st

from harness import regexgen, seqgen
from harness.core import Prop
from harness.lib import rb

ABBREVIATIONS = [["@", "[ab]"], ["#", r"\d+"], ["~", "(?P<abb>a)"], ["§§", "b?"], ["%", "[@1]"], ["%", "(?:@|#)"], ["@", "1"]]
FORMS = ["text", "text", "text", "tuple", "tuple_flags", "list_flags", "dict", "dict_flags", "compiled"]


@st.composite
def cases(draw):
    text = draw(seqgen.sized_text("aab1-_Aé\n", 2, 12))
    use = draw(st.sampled_from([(), (), ("@", "#", "~", "§§", "%")]))
    flags = draw(st.sampled_from([0, 0, int(re.I), int(re.S), int(re.M), int(re.I | re.M)]))
    expressions = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3] * 6 + [7]))):
        tree = draw(regexgen.trees(abbreviations=use))
        if draw(st.sampled_from([True] + [False] * 11)):
            # groups outside what is matched
            around = draw(st.sampled_from([["look", "(?=", ["cat", [["grp", tree, draw(st.sampled_from([None, "x"]))], ["lit", "b?"]]], "a"],
                                           ["lit", draw(st.sampled_from(["(?<=(a))", "(?<=(?P<before>[ab]))"]))]]))
            tree = ["cat", [["lit", draw(st.sampled_from(["a", ".", "[^b]", "b"]))], around] if around[0] == "look" else
                    [around, ["lit", draw(st.sampled_from(["a", "b", "."]))]]]
        expressions.append({"regex": regexgen.render(tree), "form": draw(st.sampled_from(FORMS)),
                            "flags": draw(st.sampled_from([0, int(re.I), int(re.M), int(re.S)]))})
    return {
        "text": text, "expressions": expressions, "kw_flags": flags,
        "abbreviations": draw(st.lists(st.sampled_from(ABBREVIATIONS), min_size=1, max_size=4, unique_by=tuple)) if use else None,
        "where": draw(st.sampled_from(["option", "defaults", "regex_defaults"])),
        "name": draw(st.sampled_from([None, "pat"])), "returned": draw(st.sampled_from(["parent", "parent", "every", "children"])),
        "repeated": draw(st.sampled_from([None, None, None, None, True, False])), "object": draw(st.booleans()),
    }


def engine():
    if os.environ.get("REBULK_REGEX_ENABLED"):
        return importlib.import_module("regex"), True
    return re, False


def spelled(case, expression):
    """The expression after abbreviations, and its flags."""
    text = expression["regex"]
    if expression["form"] != "compiled":
        for key, replacement in case["abbreviations"] or ():
            text = text.replace(key, replacement)
    flags = case["kw_flags"] if expression["form"] == "text" else (
        expression["flags"] if expression["form"] in ("tuple_flags", "list_flags", "dict_flags", "compiled") else 0)
    return text, flags


class C02(Prop):
    id = "C02"
    rule = ("1 to 3 random expressions (named, unnamed, nested, optional and repeated groups, anchors, look-arounds, alternation) given "
            "as text, tuple, list, dict or compiled, with flags and abbreviations at three levels, on 2 shards of 8 with the regex "
            "backend; non-trivial: at least one non-empty match, and a group or two matches")
    quick = 1000
    thorough = 40000
    regex_shards = 2

    def strategy(self):
        return cases()

    def compile(self, case):
        module, _ = engine()
        out = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for expression in case["expressions"]:
                text, flags = spelled(case, expression)
                try:
                    out.append(module.compile(text, flags))
                except (module.error, OverflowError):
                    return None
        return out

    def expect(self, case):
        module, is_regex = engine()
        compiled = self.compile(case)
        if compiled is None:
            return None
        repeated = is_regex if case["repeated"] is None else case["repeated"]
        out = []
        for expression in compiled:
            names = {number: name for name, number in expression.groupindex.items()}
            for found in expression.finditer(case["text"]):
                if found.start() == found.end():
                    continue
                children = []
                for number in range(1, expression.groups + 1):
                    if repeated and is_regex:
                        spans = found.spans(number)
                    else:
                        spans = [found.span(number)]
                    children.extend([[s, e], names.get(number, case["name"])] for s, e in spans if e > s >= 0)
                out.append([[found.start(), found.end()], children])
        return out

    def check(self, case, expected, rec):
        assume(expected is not None)
        _module, is_regex = engine()
        backend = rb.remodule.re
        text = case["text"]
        args = []
        for expression in case["expressions"]:
            source, form, flags = expression["regex"], expression["form"], expression["flags"]
            args.append({"text": source, "tuple": (source,), "tuple_flags": (source, flags), "list_flags": [source, flags],
                         "dict": {"pattern": source}, "dict_flags": {"pattern": source, "flags": flags}}.get(form)
                        if form != "compiled" else backend.compile(source, flags))
            rec.label("form:" + form)
        options = {}
        if case["kw_flags"]:
            options["flags"] = case["kw_flags"]
        if case["name"]:
            options["name"] = case["name"]
        if case["returned"] != "parent":
            options[case["returned"]] = True
        if case["repeated"] is not None:
            options["repeated_captures"] = case["repeated"]
        bulk = rb.Rebulk(default_rules=False)
        abbreviations = [tuple(pair) for pair in case["abbreviations"]] if case["abbreviations"] else None
        if abbreviations:
            rec.label("abbreviations", "abbreviations:" + case["where"])
            if case["where"] == "option":
                options["abbreviations"] = abbreviations
            else:
                getattr(bulk, case["where"])(abbreviations=abbreviations)
        before = copy.deepcopy([args, options, abbreviations])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if case["repeated"] and not is_regex:
                rec.label("repeated captures unavailable")
                with rec.raises(NotImplementedError, "repeated_captures without the regex backend"):
                    bulk.regex(*args, **options)
                return
            if case["object"] and case["where"] == "option" or case["object"] and not abbreviations:
                pattern = rb.RePattern(*args, **options)
                bulk.pattern(pattern)
            else:
                bulk.regex(*args, **options)
        rec.eq([args, options, abbreviations], before, "objects given by the caller")
        wanted = []
        for span, children in expected:
            if case["returned"] != "children":
                wanted.append([span, case["name"], children])
            if case["returned"] != "parent":
                wanted.extend([s, n, []] for s, n in children)
        for turn in range(2):
            found = bulk.matches(text)
            got = [[[m.start, m.end], m.name, [[[c.start, c.end], c.name] for c in m.children]] for m in found]
            rec.eq(got, wanted, "matches of %s (search %d)" % ([spelled(case, e) for e in case["expressions"]], turn))
        for match in found:
            rec.eq(match.raw, text[match.start:match.end], "text of a match")
            rec.ok(not match.children or match.children[0].parent is match, "parent of a child")
            for child in match.children:
                rec.eq(child.raw, text[child.start:child.end], "text of a child")
        rec.eq([args, options, abbreviations], before, "objects given by the caller after a search")
        groups = sum(len(children) for _span, children in expected)
        rec.hit(expected and (groups or len(expected) > 1))
        rec.label("groups:%d" % min(groups, 4), "matches:%d" % min(len(expected), 3))


PROP = C02
