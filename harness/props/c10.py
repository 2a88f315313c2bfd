"""Private and marker matches."""

from hypothesis import assume
from hypothesis import strategies as st

from harness import configs, specs
from harness.core import Prop
from harness.lib import rb, snap_all


@st.composite
def cases(draw):
    length = draw(st.integers(4, 10))
    if draw(st.booleans()):
        conf = draw(configs.configs(children=True, default_rules=False, length=length, solvers=True))
        return {"style": "leak", "conf": conf, "text": draw(configs.texts(configs.all_entries(conf))), "context": draw(configs.contexts)}
    public = [draw(configs.entries(length, flags=False, disabling=False, solvers=False)) for _ in range(draw(st.integers(1, 3)))]
    extras = []
    for _ in range(draw(st.integers(1, 3))):
        flag = draw(st.sampled_from(["private", "private", "marker"]))
        if draw(st.booleans()):
            extra = dict(draw(st.sampled_from(public)))
            extra["opts"] = dict(extra["opts"])
        else:
            extra = draw(configs.entries(length, flags=False, disabling=False, solvers=True))
        extra["opts"].update({flag: True})
        if draw(st.sampled_from([True, False, False])):
            extra["opts"]["conflict_solver"] = draw(st.sampled_from(["self", "other", "none"]))
        extras.append([draw(st.integers(0, 3)), extra])
    return {"style": "add", "public": public, "extras": extras, "text": draw(configs.texts(public + [e for _p, e in extras]))}


class C10(Prop):
    id = "C10"
    rule = ("whole configurations with rules and children searched with the default rules, looking for leaked private or misplaced marker "
            "matches; and configurations of public patterns searched with and without private or marker patterns (also copies of the "
            "public ones) mixed in; non-trivial: a private or marker match was produced")
    quick = 1400
    thorough = 30000

    def strategy(self):
        return cases()

    def markers(self, result):
        return [specs.real_view(m) for m in result.markers]

    def check(self, case, expected, rec):
        rec.label(case["style"])
        if case["style"] == "leak":
            conf, text, context = case["conf"], case["text"], case["context"]
            result = configs.build(conf).matches(text, context)
            bare = {**conf, "default_rules": False, "rules": [], "children": [{**c, "default_rules": False, "rules": []} for c in conf["children"]]}
            raw = configs.build(bare).matches(text, context)
            rec.hit(len(raw.markers) or any(m.private for m in raw))
            for match in result:
                rec.ok(not match.private, "private match in the result", match)
                rec.ok(not match.marker, "marker among the matches", match)
            for match in result.markers:
                rec.ok(match.marker, "not a marker among the markers", match)
            rec.eq(self.markers(result), self.markers(raw), "markers")
            return
        text = case["text"]
        plain = rb.Rebulk()
        both = rb.Rebulk()
        only = rb.Rebulk(default_rules=False)
        for number in range(len(case["public"]) + 1):
            for place, extra in case["extras"]:
                if place == number or number == len(case["public"]) and place > number:
                    configs.add(both, extra)
                    configs.add(only, extra)
            if number < len(case["public"]):
                configs.add(both, case["public"][number])
                configs.add(plain, case["public"][number])
        added = only.matches(text)
        assume(all(m.private for m in added))
        rec.hit(len(added) or len(added.markers))
        one, other = plain.matches(text), both.matches(text)
        rec.eq(snap_all(other)["matches"], snap_all(one)["matches"], "public matches with private and marker patterns added")
        rec.eq(self.markers(other), self.markers(added), "markers")


PROP = C10
