"""Formatters, values, validators and processors."""

from hypothesis import strategies as st

from harness import seqgen, specs
from harness.core import Prop
from harness.props.c04 import run_model


@st.composite
def cases(draw):
    text = draw(seqgen.sized_text("aabbcx", 3, 10))
    patterns = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        spec = draw(specs.patterns(len(text), kinds=("regex", "regex", "regex", "string", "functional")))
        opts = spec["opts"]
        for flag in ("private", "marker", "private_names", "ignore_names"):
            if flag in opts and draw(st.sampled_from([True, flag != "ignore_names", False])):
                del opts[flag]
        for _ in range(draw(st.integers(1, 4))):
            kind = draw(st.sampled_from(["formatter", "formatter", "value", "validator", "validator", "pre", "post", "all", "format_all", "validate_all"]))
            if kind == "formatter":
                opts["formatter"] = draw(specs.mapped(sorted(specs.FORMATTERS), absent=True))
            elif kind == "value":
                opts["value"] = draw(specs.mapped(["V", "W", 3], absent=True))
            elif kind == "validator":
                opts["validator"] = draw(specs.mapped(specs.VALIDATORS, absent=True))
            elif kind == "pre":
                opts["pre_match_processor"] = draw(st.sampled_from(specs.PROCESSORS))
            elif kind == "post":
                opts["post_match_processor"] = draw(st.sampled_from(specs.PROCESSORS))
            elif kind == "all":
                opts["post_processor"] = draw(st.sampled_from(specs.POST))
            else:
                opts[kind] = True
        patterns.append(spec)
    return {"text": text, "patterns": patterns}


class C05(Prop):
    id = "C05"
    rule = ("patterns as in C04 with formatters, literal values and validators given plainly or by name, __parent__, __children__ and "
            "default entry, format_all, validate_all, match processors and post processors; non-trivial: at least two of those on a "
            "pattern that finds something")
    quick = 1600
    thorough = 50000

    def strategy(self):
        return cases()

    def expect(self, case):
        out = [m for spec in case["patterns"] for m in specs.outputs(spec, case["text"])]
        views = [specs.model_view(m) for m in out]
        return {"main": [v for v in views if not v["marker"]], "markers": [v for v in views if v["marker"]],
                "raw": sum(len(specs.raw_of(spec, case["text"], arg)) for spec in case["patterns"] for arg in spec["args"])}

    def check(self, case, expected, rec):
        mine = {"formatter", "value", "validator", "pre_match_processor", "post_match_processor", "post_processor", "format_all", "validate_all"}
        rec.hit(expected["raw"] > 0 and any(len(set(s["opts"]) & mine) > 1 for s in case["patterns"]))
        for spec in case["patterns"]:
            rec.label(spec["kind"], *spec["opts"])
        rec.label("found" if expected["main"] or expected["markers"] else "nothing found")
        run_model(case, rec, expected)


PROP = C05
