"""Hidden parts, chain breakers and chain validators."""

import copy

from hypothesis import strategies as st

from harness import chainmodel
from harness.core import Prop
from harness.lib import rb
from harness.props.c06 import compare, model_tree, texts


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(["hidden", "breaker", "validator", "validator", "validator_breaker"]))
    chain = draw(chainmodel.chains(look=mode == "hidden" or mode == "breaker", max_parts=4, rich="validator" not in mode and draw(st.booleans())))
    chainmodel.privacy(draw, chain["opts"])
    returned = draw(st.sampled_from([None, None, "children", "every"]))
    if returned:
        chain["opts"][returned] = True
    if mode == "hidden":
        for part in chain["parts"]:
            if draw(st.sampled_from([True, False])):
                part["hidden"] = True
        if draw(st.sampled_from([True, False, False])):
            chain["opts"]["chain_breaker"] = draw(st.sampled_from(chainmodel.BREAKERS))
    if "breaker" in mode:
        chain["opts"]["chain_breaker"] = draw(st.sampled_from(chainmodel.BREAKERS))
        if mode == "breaker" and draw(st.sampled_from([True, False, False])):
            draw(st.sampled_from(chain["parts"]))["hidden"] = True
    if "validator" in mode:
        chain["opts"]["validator"] = draw(st.sampled_from(chainmodel.VALIDATORS))
        if returned == "children":
            chain["opts"]["validate_all"] = True
        if not returned and draw(st.booleans()):
            chain["opts"]["formatter"] = "upper"
        if len(chain["parts"]) > 1 and draw(st.sampled_from([True, False, False])):
            draw(st.sampled_from(chain["parts"][:-1]))["hidden"] = True
        last = chain["parts"][-1]
        if draw(st.booleans()):
            last["repeater"], last["min"], last["max"] = draw(st.sampled_from([["+", 1, None], ["{2,}", 2, None], ["{1,3}", 1, 3]]))
            if last["opts"].get("children") and last["arg"] not in chainmodel.GROUPED:
                del last["opts"]["children"]
        if chain["parts"][-1]["min"] == 0 and any(p.get("hidden") for p in chain["parts"]):
            for part in chain["parts"]:
                part.pop("hidden", None)
    return {"text": draw(texts(chain)), "chain": chain, "mode": mode}


class C07(Prop):
    id = "C07"
    rule = ("chains as in C06 with any parts hidden, 8 chain breakers over the chain so far, or 9 chain validators with optional and "
            "repeated last parts; non-trivial: hiding, breaking or the validator changes what the plain chain reports")
    assumptions = ("first part mandatory", "with a validator: the last part is visible, no look-ahead groups")
    quick = 1800
    thorough = 60000

    def strategy(self):
        return cases()

    def expect(self, case):
        plain = copy.deepcopy(case["chain"])
        for part in plain["parts"]:
            part.pop("hidden", None)
        for key in ("chain_breaker", "validator"):
            plain["opts"].pop(key, None)
        return {"out": [model_tree(item) for item in chainmodel.outputs(case["chain"], case["text"])],
                "plain": [model_tree(item) for item in chainmodel.outputs(plain, case["text"])]}

    def check(self, case, expected, rec):
        rec.hit(expected["out"] != expected["plain"])
        rec.label(case["mode"], "found:%d" % min(2, len(expected["out"])), "plain:%d" % min(2, len(expected["plain"])))
        if expected["out"] and expected["plain"] and expected["out"] != expected["plain"]:
            rec.label(case["mode"] + ":changed")
        compare(case, expected["out"], rec)

    def known(self):
        bulk = rb.Rebulk(default_rules=False)
        outer = bulk.chain()
        outer.string("a")
        inner = outer.chain()
        inner.string("b")
        inner.string("c").hidden()
        outer.string("d")
        found = [list(m.span) for m in bulk.matches("abcd")]
        if found != [[0, 4]]:
            return [("nested-hidden-tail", "a nested chain that ends with a hidden part does not connect to the part that follows it: "
                     "a(b(c hidden))d on 'abcd' yields %s instead of [[0, 4]]" % found)]
        return []


PROP = C07
