"""The declared-key contract check."""

import importlib
import os

from hypothesis import strategies as st

from harness import builders, configs, specs
from harness.core import Prop, Violation
from harness.lib import few, rb, snap_all
from harness.props import c19

VARIABLE = "REBULK_CHECK_DECLARED_KEYS"
ON = ["1", "true", "yes", "on", "TRUE", "Yes", " on "]
OFF = [None, "", "0", "false", "no", "off", "2"]


@st.composite
def cases(draw):
    histories = []
    text = ""
    for number in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3]))):
        history = draw(c19.cases(flags=True))
        if draw(st.sampled_from([True, True, True, False])):
            if draw(st.sampled_from([True] + [False] * 12)):
                history["ops"].insert(0, ["declare", [{"name": "other%d" % n, "conv": None, "type": "str"} for n in range(7)]])
            history["ops"].insert(1 if len(history["ops"]) > 1 and history["ops"][0][0] == "declare" else 0, ["declare", draw(few(sound_keys() if draw(st.sampled_from([True, True, False])) else builders.keys(), 1, 3))])
        if len(text) < 40:
            text += history["text"]
        histories.append({"ops": history["ops"], "disabled": draw(st.sampled_from([False, False, False, True, "off"] if number else
                                                                                  [False] * 8 + [True, "off"]))})
    return {"histories": histories, "text": text, "context": draw(configs.contexts), "before": draw(st.lists(configs.contexts, max_size=1)), "rule": draw(st.booleans()), "ask": draw(st.booleans()),
            "default_rules": draw(st.booleans()), "on": draw(st.sampled_from(ON)), "off": draw(st.sampled_from(OFF))}


def sound_keys():
    """Keys whose converter gives the type."""
    return st.builds(lambda name, pair: {"name": name, "conv": pair[0], "type": pair[1]}, st.sampled_from(builders.NAMES),
                     st.sampled_from([[None, "Length"], [None, "UpperText"], ["upper", "str"], ["len", "int"], ["half", "float"], ["none", "int"], ["truth", "bool"], ["truth", "int"]]))


class Rename:
    """Stands for rules: values of other types onto declared names."""

    def __new__(cls):
        def when(self, matches, context):
            found = list(matches.named("n"))
            return found, [rb.Match(0, 1, name=name, input_string=matches.input_string) for name in ("m", "o", "n")]

        return type("Onto", (rb.Rule,), {"priority": 3000, "consequence": [rb.rules.RenameMatch("p"), rb.AppendMatch], "when": when})


class C20(Prop):
    id = "C20"
    rule = ("a parent and up to 2 children (some disabled), each with a history of key declarations, defaults, patterns and chains, formatters "
            "whose results have or lack the declared type, value overrides, private options, markers and None values; searched with the check "
            "off and on (switched by its environment variable, or by its flag), with and without rules renaming and appending onto declared "
            "names; non-trivial: a public named match with a declared key is judged")
    quick = 1000
    thorough = 30000

    def strategy(self):
        return cases()

    def setup(self):
        self.before = os.environ.get(VARIABLE)

    def teardown(self):
        os.environ.pop(VARIABLE, None)

    def expect(self, case):
        live = [h for h in case["histories"] if not specs.is_disabled(h["disabled"], case["context"])]
        rejected = []
        out = []
        declared = {}
        for history in case["histories"]:
            try:
                found, refused = builders.run_model(history["ops"], case["text"])
            except builders.OutOfDomain:
                return None
            rejected.append(refused)
            if case["histories"][0] not in live or history not in live:
                continue
            out += found
            keys = {}
            for op in history["ops"]:
                if op[0] == "declare":
                    keys.update({key["name"]: key for key in op[1]})
            for name, key in keys.items():
                declared.setdefault(name, key)
        judged, wrong = [], []
        for match in out:
            key = declared.get(match["name"]) if match["name"] else None
            if match["marker"] or match["private"] or key is None or match["literal"]:
                continue
            value = specs.model_value(match)
            judged.append(match["name"])
            if value is not None and not isinstance(value, builders.KEY_TYPES[key["type"]]):
                wrong.append(match["name"])
        return {"rejected": rejected, "declared": declared, "judged": len(judged), "wrong": len(wrong)}

    def build(self, case, expected, rec, cache):
        registry = Rename() if case["rule"] else None
        made = []
        for number, history in enumerate(case["histories"]):
            bulk = rb.Rebulk(disabled=specs.disabling(history["disabled"]), default_rules=case["default_rules"])
            builders.run_real(history["ops"], bulk, rec, builders.Watch(), cache, expected["rejected"][number])
            if registry is not None and number == 0:
                bulk.rules(registry)
            made.append(bulk)
        return made[0].rebulk(*made[1:])

    def check(self, case, expected, rec):
        if expected is None:
            rec.label("not judged")
            return
        cache = {}
        bulk = self.build(case, expected, rec, cache)
        declared = {name: builders.real_key(key, cache) for name, key in expected["declared"].items()}
        try:
            self.switch(case["off"])
            rec.eq(bool(rb.debug.CHECK_DECLARED_KEYS), False, "check with %s=%r" % (VARIABLE, case["off"]))
            if case["ask"]:
                bulk.check_keys()
            for other in case["before"]:
                bulk.matches(case["text"], other)
            plain = bulk.matches(case["text"], case["context"])
            off = snap_all(plain)
            self.carried(plain, declared, rec)
            plain.declared_keys.clear()
            for flag in (True, False):
                if flag:
                    self.switch(case["on"])
                    rec.eq(bool(rb.debug.CHECK_DECLARED_KEYS), True, "check with %s=%r" % (VARIABLE, case["on"]))
                else:
                    self.switch(None)
                    rb.debug.CHECK_DECLARED_KEYS = True
                if expected["wrong"]:
                    with rec.raises(TypeError, "a value of another type than the declared one"):
                        bulk.matches(case["text"], case["context"])
                else:
                    try:
                        result = bulk.matches(case["text"], case["context"])
                    except TypeError as error:
                        raise Violation("the check raised %r, nothing is wrong" % error) from error
                    rec.eq(snap_all(result), off, "result with the check on")
                    self.carried(result, declared, rec)
            rb.debug.CHECK_DECLARED_KEYS = False
            rec.eq(snap_all(bulk.matches(case["text"], case["context"])), off, "result with the check off again")
        finally:
            self.switch(None)
        rec.label("raises" if expected["wrong"] else "judged" if expected["judged"] else "nothing judged")
        rec.hit(expected["judged"])

    def carried(self, result, declared, rec):
        rec.eq(dict(result.declared_keys), declared, "declared keys on the result")
        for name, key in declared.items():
            rec.ok(result.declared_keys[name] is key, "declared key is the one given", name)

    def switch(self, value):
        os.environ.pop(VARIABLE, None)
        if value is not None:
            os.environ[VARIABLE] = value
        importlib.reload(rb.debug)


PROP = C20
