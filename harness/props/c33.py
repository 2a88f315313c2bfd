"""The standard and the optional regex backend."""

import re
import sys

from hypothesis import assume
from hypothesis import strategies as st

from harness import configs, core, regexgen, seqgen, specs
from harness.core import Prop
from harness.lib import rb, snap_all
from harness.peers import Peer

FLAGS = [0, 0, 0, re.IGNORECASE, re.MULTILINE, re.DOTALL, re.VERBOSE, re.IGNORECASE | re.MULTILINE, re.ASCII]
CAPTURES = ["(a|b)+", "(?:(?P<n>a)|(?P<m>b))+", "(?:(a)-?)+", "((a)|b)+c?", "(?P<n>[ab])+(?P<o>c)*", "(?:(?P<n>a)(?P<m>b)?)+", "(?:(?P<n>ab?)|(?P<m>c))+"]
# read otherwise by the newer dialect of the regex engine, which is not the one asked for
SPECIAL = ["ss", "(?P<n>s+)", "ß", "[[a]b?", "[ab--b]+", "[a&&b]+", "[a||b]", "[^[a]+", "(?i:ss)", "(?P<n>(?i:SS))", "[ss]", "(?P<n>s)?s", r"[\w--a]+",
           "x*?", "(?:|a)b", "(a|ab)(c|bcd)?"]


@st.composite
def expressions(draw):
    style = draw(st.sampled_from(["tree", "tree", "known", "captures", "captures", "special"]))
    if style == "special":
        return draw(st.sampled_from(SPECIAL))
    if style == "tree":
        return regexgen.render(draw(regexgen.trees(max_leaves=7).filter(lambda t: not regexgen.nested_repeats(t))))
    return draw(st.sampled_from(specs.REGEXES if style == "known" else CAPTURES))


def regexes(entry):
    """The regex patterns of an entry, at any depth."""
    if entry["kind"] == "regex":
        yield entry
    for part in entry.get("parts", ()):
        yield from regexes(part)


@st.composite
def cases(draw):
    repeated = draw(st.sampled_from([False, False, True]))
    conf = draw(configs.configs(rules_odds=0 if repeated else 2, solvers=not repeated, disabling=False, formatters=not repeated))
    flags = {}
    found = configs.all_entries(conf)
    for number, entry in enumerate(found):
        if repeated:
            for option in ("pre_match_processor", "post_match_processor", "post_processor", "value", "validator", "formatter", "conflict_solver"):
                entry["opts"].pop(option, None)
        for part in regexes(entry):
            if "args" in part and draw(st.sampled_from([True, True, False])):
                part["args"] = [draw(expressions()) for _ in range(draw(st.sampled_from([1, 1, 2])))]
                part.pop("form", None)
                part["opts"].pop("abbreviations", None)
                if draw(st.sampled_from([True, False])):
                    part["opts"]["flags"] = draw(st.sampled_from(FLAGS)).__int__()
    if repeated:
        conf["default_rules"] = False
        for child in conf["children"]:
            child["default_rules"] = False
    how = draw(st.sampled_from(["option", "defaults"]))
    if draw(st.booleans()):
        text = draw(configs.texts(found))
    else:
        text = draw(st.one_of(seqgen.sized_text("aaabbbcc1-", 2, 10), seqgen.sized_text("aAbBéÉßſ1-_ \n", 2, 10), seqgen.sized_text("ssSßaab[]-&|", 2, 8)))
    return {"conf": conf, "text": text, "context": draw(configs.contexts), "repeated": repeated, "how": how, "flags": flags}


def build(case, repeated):
    conf = case["conf"]

    def make(conf):
        bulk = rb.Rebulk(disabled=specs.disabling(conf["disabled"]), default_rules=conf["default_rules"])
        if case["how"] == "defaults" and repeated is not None:
            bulk.regex_defaults(repeated_captures=repeated)
        for entry in conf["patterns"]:
            if case["how"] == "option" and repeated is not None:
                entry = tell(entry, repeated)
            configs.add(bulk, entry)
        for spec in conf["rules"]:
            bulk.rules(registry[spec])
        for child in conf["children"]:
            bulk.rebulk(make(child))
        return bulk

    registry = configs.Registry()
    return make(conf)


def tell(entry, repeated):
    entry = dict(entry)
    if entry["kind"] == "regex":
        entry["opts"] = {**entry["opts"], "repeated_captures": repeated}
    if "parts" in entry:
        entry["parts"] = [tell(part, repeated) for part in entry["parts"]]
    return entry


def key(match):
    return [match["span"], match["raw"], match["value"], match["name"], match["tags"], match["marker"], match["private"]]


class C33(Prop):
    id = "C33"
    rule = ("configurations of any kind of pattern with random and known expressions, flags and repeated groups; one run with the standard "
            "engine, one in another process with the regex engine, repeated captures off (per pattern or by default) or on; expressions the two "
            "engines themselves disagree about on the text are left out; non-trivial: something with children is reported")
    assumptions = ("the expressions mean the same to both engines: their own finditer() agrees on the text",)
    quick = 1000
    thorough = 25000

    def strategy(self):
        return cases()

    def setup(self):
        self.peer = Peer("C33", self.job["shard"], regex=True)

    def teardown(self):
        self.peer.close()

    def remote(self, case):
        if not rb.remodule.REGEX_ENABLED:
            raise RuntimeError("the regex backend is not enabled")
        bulk = build(case, True if case["repeated"] and len(case["text"]) % 2 else None if case["repeated"] else False)
        return snap_all(bulk.matches(case["text"], case["context"]))

    def expect(self, case):
        """Whether the engines agree."""
        sys.path.extend(path for path in core.REGEX_PATHS if path not in sys.path)
        import regex

        for entry in configs.all_entries(case["conf"]):
            for part in regexes(entry):
                for arg in part["args"] if "args" in part else [part["arg"]]:
                    for short, expanded in part["opts"].get("abbreviations", []):
                        arg = arg.replace(short, expanded)
                    flags = part["opts"].get("flags", 0)
                    try:
                        one, other = re.compile(arg, flags), regex.compile(arg, int(flags))
                    except (re.error, regex.error):
                        return False
                    if [m.regs for m in one.finditer(case["text"])] != [m.regs for m in other.finditer(case["text"])]:
                        return False
        return True

    def check(self, case, expected, rec):
        assume(expected)
        rec.ok(not rb.remodule.REGEX_ENABLED, "the regex backend is enabled unasked")
        here = snap_all(build(case, None if case["repeated"] else False).matches(case["text"], case["context"]))
        there = self.peer.ask(case)
        families = sum(len(m["children"]) for m in here["matches"] + here["markers"])
        if not case["repeated"]:
            rec.eq(there, here, "result with the regex engine")
        else:
            for where in ("matches", "markers"):
                self.compare(here[where], there[where], rec)
        rec.label("repeated" if case["repeated"] else "single", case["how"])
        rec.hit(families)

    def compare(self, here, there, rec):
        """Parents the same; every child of the standard engine is there too, in the same relative order."""
        tops, others = [[m for m in some if m["parent"] is None] for some in (here, there)]
        rec.eq([key(m) for m in others], [key(m) for m in tops], "parent matches")
        for one, other in zip(tops, others):
            self.nested(one, other, rec)
        rest, others = [[key(m) for m in some if m["parent"] is not None] for some in (here, there)]
        self.among(rest, others, rec)

    def nested(self, one, other, rec):
        self.among([key(m) for m in one["children"]], [key(m) for m in other["children"]], rec)
        for child in one["children"]:
            same = [m for m in other["children"] if key(m) == key(child)]
            if len(same) == 1 and child["children"]:
                self.nested(child, same[0], rec)

    def among(self, some, others, rec):
        for item in some:
            rec.ok(some.count(item) <= others.count(item), "a child of the standard engine is not among", item, others)


PROP = C33
