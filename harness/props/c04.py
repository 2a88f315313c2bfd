"""Which matches a pattern returns, and their flags."""

from hypothesis import strategies as st

from harness import seqgen, specs
from harness.core import Prop
from harness.lib import rb


@st.composite
def cases(draw):
    text = draw(seqgen.sized_text("aabbcx", 3, 10))
    found = [draw(specs.patterns(len(text))) for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    for spec in found:
        if draw(st.sampled_from([True, False, False, False])):
            spec["opts"]["tags"] = draw(st.sampled_from(["t", "solo", "", None]))  # not a list
    return {"text": text, "patterns": found}


def run_model(case, rec, expected, build=None):
    bulk = rb.Rebulk(default_rules=False)
    for spec in case["patterns"]:
        specs.add_pattern(bulk, spec)
    for turn in range(2):
        found = bulk.matches(case["text"])
        rec.eq([specs.real_view(m) for m in found], expected["main"], "matches (search %d)" % turn)
        rec.eq([specs.real_view(m) for m in found.markers], expected["markers"], "markers (search %d)" % turn)
        for match in list(found) + list(found.markers):
            for child in match.children:
                rec.ok(child.parent is match, "parent of a child")
    reached = {id(m): m for top in list(found) + list(found.markers) for m in (top, *top.children)}
    for number, match in enumerate(reached.values()):
        match.tags.append("own%d" % number)
    for number, match in enumerate(reached.values()):
        rec.eq([tag for tag in match.tags if tag.startswith("own")], ["own%d" % number], "tags of its own")


class C04(Prop):
    id = "C04"
    rule = ("1 to 3 string, regex (17 group structures) and functional patterns, with names, tags (a list, one tag or none) and any combination of children, every, "
            "private*, marker, private_names and ignore_names, over texts of 3 to 10 characters; non-trivial: a pattern with two such "
            "options that yields something or drops something it found")
    quick = 1400
    thorough = 40000

    def strategy(self):
        return cases()

    def expect(self, case):
        out = [m for spec in case["patterns"] for m in specs.outputs(spec, case["text"])]
        views = [specs.model_view(m) for m in out]
        return {"main": [v for v in views if not v["marker"]], "markers": [v for v in views if v["marker"]],
                "raw": sum(len(specs.raw_of(spec, case["text"], arg)) for spec in case["patterns"] for arg in spec["args"])}

    def check(self, case, expected, rec):
        rec.hit(expected["raw"] > 0 and any(len(set(s["opts"]) - {"name", "tags"}) > 1 for s in case["patterns"]))
        for spec in case["patterns"]:
            rec.label(spec["kind"], *spec["opts"])
        run_model(case, rec, expected)


PROP = C04
