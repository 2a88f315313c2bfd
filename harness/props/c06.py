"""Chains against a reference matcher."""

from hypothesis import strategies as st

from harness import chainmodel, seqgen
from harness.core import Prop
from harness.lib import rb


@st.composite
def cases(draw):
    chain = draw(chainmodel.chains(nest=draw(st.sampled_from([0, 0, 1, 2])), rich=draw(st.booleans())))
    returned = draw(st.sampled_from([None, None, "children", "every"]))
    if returned:
        chain["opts"][returned] = True
    chainmodel.privacy(draw, chain["opts"])
    flat = all(part["kind"] != "chain" for part in chain["parts"])
    if flat and draw(st.sampled_from([True, False, False])):
        draw(st.sampled_from(chain["parts"]))["hidden"] = True
    return {"text": draw(texts(chain)), "chain": chain}


@st.composite
def sentences(draw, chain):
    """A run through the parts of a chain, mostly a right one."""
    out = ""
    for part in chain["parts"]:
        low, high = part["min"], part["max"] if part["max"] is not None else part["min"] + 2
        for _ in range(draw(st.sampled_from([low, high, high, low + 1, max(0, low - 1)] if draw(st.sampled_from([False, True])) else [low, high]))):
            if part["kind"] == "chain":
                out += draw(sentences(part))
            elif part["kind"] == "regex":
                out += draw(st.sampled_from(chainmodel.SAMPLES[draw(st.sampled_from([part["arg"], *part.get("also", [])]))]))
            else:
                out += draw(st.sampled_from([part["arg"], *part.get("also", [])]))
            if draw(st.sampled_from([False] * 40 + [True])):
                out += " "
    return out


@st.composite
def texts(draw, chain):
    """Runs through the parts with noise in between."""
    noise = st.sampled_from(["", "", "x", "a", "b", "c", "-", "ab"])
    if draw(st.sampled_from([True, True, True, True, False])):
        out = draw(noise)
        for _ in range(draw(st.sampled_from([1, 1, 2]))):
            out += draw(sentences(chain)) + draw(noise)
        return out[:40] or "a"
    return draw(st.text("aabbc- x", min_size=1, max_size=14))


def tree(match):
    return [[match.start, match.end], [match.raw_start, match.raw_end], match.name, list(match.tags), bool(match.private), [tree(child) for child in match.children]]


def model_tree(item):
    return [item["span"], item["raw"], item["name"], item["tags"], item["private"], [model_tree(child) for child in item["children"]]]


def compare(case, expected, rec):
    text = case["text"]
    bulk = rb.Rebulk(default_rules=False)
    chainmodel.add_chain(bulk, case["chain"])
    for turn in range(2):
        found = bulk.matches(text, dict(chainmodel.CONTEXT))
        rec.eq([tree(m) for m in found], expected, "chains (search %d)" % turn)
        for match in found:
            for part in [match, *match.children]:
                rec.eq(part.raw, text[part.raw_start:part.raw_end], "text of %s" % (part.span,))
    return found


class C06(Prop):
    id = "C06"
    rule = ("chains of 1 to 4 string, regex (28 group structures) and functional parts of one to three expressions, with 24 repeater "
            "spellings (also given again), nested chains, part and chain level children/every, names, tags, private and ignored parents, "
            "groups and names, at most one hidden part, over texts up to 40 characters built from the parts; "
            "non-trivial: a chain of two parts, or one with a repetition, is found")
    assumptions = ("first part mandatory", "no anchors or look-behinds in parts: each part sees the rest of the text only",
                   "several expressions of one part never overlap")
    quick = 1800
    thorough = 60000

    def strategy(self):
        return cases()

    def expect(self, case):
        return [model_tree(item) for item in chainmodel.outputs(case["chain"], case["text"])]

    def check(self, case, expected, rec):
        chain = case["chain"]
        rec.hit(expected and (len(chain["parts"]) > 1 or chain["parts"][0]["max"] != 1))
        rec.label("found:%d" % min(len(expected), 3), "parts:%d" % len(chain["parts"]))
        for part in chain["parts"]:
            rec.label(part["kind"], "repeater:%s" % part["repeater"])
        compare(case, expected, rec)


PROP = C06
