"""Stock validators and formatter chains."""

import functools

from hypothesis import strategies as st

from harness.core import Prop
from harness.lib import few, rb

FORMATTERS = {
    "upper": lambda v: str(v).upper(), "rev": lambda v: str(v)[::-1], "len": lambda v: len(str(v)),
    "wrap": lambda v: "<%s>" % (v,), "first": lambda v: str(v)[:1], "none": lambda v: v, "double": lambda v: str(v) * 2,
    "list": lambda v: [v], "blank": lambda v: "", "zero": lambda v: 0, "nil": lambda v: None, "strip": lambda v: str(v).strip("ab"),
    "show": repr, "not": lambda v: not v, "empty": lambda v: [],
}


def truth(value):
    return {"t": True, "f": False, "one": 1, "zero": 0, "str": "x", "empty": "", "none": None}[value]


@st.composite
def cases(draw):
    alphabet = draw(st.sampled_from(["ab-", "ab-_ .", "aé-ß"]))
    text = draw(st.text(alphabet, min_size=1, max_size=10))
    a = draw(st.integers(0, len(text) - 1))
    b = draw(st.integers(a + 1, len(text)))
    chars = draw(st.lists(st.sampled_from(alphabet), max_size=3))
    answers = draw(st.lists(st.sampled_from(["t", "t", "t", "f", "one", "zero", "str", "empty", "none"]), max_size=4) | st.lists(st.sampled_from(["t"] * 6 + ["f", "none"]), min_size=7, max_size=9))
    formatters = draw(few(st.sampled_from(sorted(FORMATTERS)), 0, 4))
    return {"text": text, "span": [a, b], "chars": chars, "form": draw(st.sampled_from(["str", "list", "set", "tuple", "frozenset"])),
            "answers": answers, "formatters": formatters, "where": draw(st.sampled_from(["before", "after", "surround"])),
            "mix": draw(st.booleans()), "raw": draw(st.sampled_from([None, None, "wide", "start", "end", "narrow"]))}


class C32(Prop):
    id = "C32"
    rule = ("texts, spans, character sets (str, list, tuple, set), lists of validator answers of any truthiness and of "
            "formatters; non-trivial: the match has neighbours on both sides or a list has at least two members")
    quick = 2400
    thorough = 40000

    def strategy(self):
        return cases()

    def expect(self, case):
        text, (a, b), chars = case["text"], case["span"], case["chars"]
        before = a == 0 or text[a - 1] in chars
        after = b == len(text) or text[b] in chars
        value = text[a:b]
        for name in case["formatters"]:
            value = FORMATTERS[name](value)
        answers = [truth(x) for x in case["answers"]]
        called = []
        for i, answer in enumerate(answers):
            called.append(i)
            if not answer:
                break
        found = []
        sub = text[a:b]
        at = 0
        while True:
            at = text.find(sub, at)
            if at < 0:
                break
            e = at + len(sub)
            ok = {"before": at == 0 or text[at - 1] in chars, "after": e == len(text) or text[e] in chars}
            ok["surround"] = ok["before"] and ok["after"]
            if ok[case["where"]]:
                found.append([at, e])
            at = e
        return {"before": before, "after": after, "value": value, "all": all(answers), "called": called, "found": found}

    def check(self, case, expected, rec):
        validators, formatters = rb.validators, rb.formatters
        text, (a, b) = case["text"], case["span"]
        chars = {"str": "".join, "list": list, "set": set, "tuple": tuple, "frozenset": frozenset}[case["form"]](case["chars"])
        rec.hit(0 < a and b < len(text) or len(case["answers"]) > 1 or len(case["formatters"]) > 1)
        rec.label("before:%s" % expected["before"], "after:%s" % expected["after"], "all:%s" % expected["all"])
        match = rb.Match(a, b, input_string=text)
        # the text a match was found on may be larger or smaller than its span
        if case["raw"] in ("wide", "start"):
            match.raw_start = max(0, a - 1)
        if case["raw"] in ("wide", "end"):
            match.raw_end = min(len(text), b + 1)
        if case["raw"] == "narrow":
            match.raw_start, match.raw_end = min(a + 1, b), b
        rec.eq(bool(validators.chars_before(chars, match)), expected["before"], "chars_before")
        rec.eq(bool(validators.chars_after(chars, match)), expected["after"], "chars_after")
        rec.eq(bool(validators.chars_surround(chars, match)), expected["before"] and expected["after"], "chars_surround")
        called = []

        def answering(index, answer):
            def validator(m):
                rec.ok(m is match, "the validator sees the match")
                called.append(index)
                return answer
            return validator

        chain = validators.validators(*[answering(i, truth(x)) for i, x in enumerate(case["answers"])])
        for _ in range(2):
            del called[:]
            rec.eq(bool(chain(match)), expected["all"], "validator chain")
            rec.eq(called, expected["called"], "validators asked")
        rec.ok(bool(validators.allways_true(match)), "allways_true")
        chain = formatters.formatters(*[FORMATTERS[name] for name in case["formatters"]])
        for _ in range(2):
            rec.eq(chain(text[a:b]), expected["value"], "formatter chain")
        rec.eq(formatters.default_formatter(text[a:b]), text[a:b], "default formatter")
        # used in a pattern
        stock = {"before": validators.chars_before, "after": validators.chars_after,
                 "surround": validators.chars_surround}[case["where"]]
        validator = functools.partial(stock, chars)
        if case["mix"]:
            validator = validators.validators(validator, validators.allways_true)
        got = rb.Rebulk().string(text[a:b], validator=validator, formatter=chain).matches(text)
        rec.eq([list(m.span) for m in got], expected["found"], "validated matches")
        for m in got:
            rec.eq(m.value, expected["value"], "formatted value")


PROP = C32
