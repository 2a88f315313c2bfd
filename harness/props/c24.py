"""Composition of objects, disabled parts, order and context."""

from hypothesis import strategies as st

from harness import configs, specs
from harness.core import Prop
from harness.lib import rb, snap, snap_all


@st.composite
def cases(draw):
    conf = draw(configs.configs(rules_odds=2, solvers=True))
    conf["disabled"] = draw(st.sampled_from([False] * 8 + [True, "off"]))
    objects = [conf] + conf["children"]
    if draw(st.booleans()) and len(objects) > 1:
        # patterns and rule classes shared between objects
        for number, owner in enumerate(objects):
            for other in objects[number + 1:]:
                for entry in owner["patterns"]:
                    if draw(st.sampled_from([True, False, False])) and entry not in other["patterns"]:
                        other["patterns"].insert(draw(st.integers(0, len(other["patterns"]))), entry)
                for rule in owner["rules"]:
                    if draw(st.sampled_from([True, False])) and rule not in other["rules"]:
                        other["rules"].insert(0, rule)
    index = []
    for owner in objects:
        for position, entry in enumerate(owner["patterns"]):
            if entry not in index:
                index.append(entry)
            owner["patterns"][position] = index.index(entry)
    # equal specs of one object are different patterns there: number every registration of its own
    again = draw(st.sampled_from([False, False, False, True])) and bool(conf["children"])
    dependencies = []
    rules = distinct(objects)
    if len(rules) > 1 and not any(rule.get("disabled") for rule in rules) and draw(st.booleans()):
        forward = draw(st.booleans())
        for i in range(len(rules)):
            for j in range(i + 1, len(rules)):
                if draw(st.booleans()):
                    dependencies.append([i, j] if forward else [j, i])
    text = draw(configs.texts(index))
    return {"entries": index, "conf": conf, "again": again, "dependencies": dependencies, "text": text, "context": draw(configs.contexts),
            "others": draw(st.lists(configs.contexts, max_size=2)), "early": draw(st.booleans()), "instances": draw(st.booleans()), "late": draw(st.booleans())}


def distinct(objects):
    out = []
    for owner in objects:
        out += [rule for rule in owner["rules"] if rule not in out]
    return out


class Marked(dict):
    """A context that can be recognised."""


class Probe:
    """Records the contexts that arrive."""

    def __init__(self):
        self.seen = {}

    def add(self, bulk, number):
        def note(what, context, answer):
            self.seen.setdefault((number, what), []).append(context)
            return answer

        def function(string, context):
            return note("functional", context, None)

        bulk.functional(function, disabled=lambda context: note("disabled", context, False))
        bulk.chain(disabled=lambda context: note("chain disabled", context, False)).functional(lambda string, context: note("part", context, None))
        bulk.chain().chain().functional(lambda string, context: note("nested part", context, None))
        body = {"priority": 4000, "enabled": lambda rule, context: note("enabled", context, True),
                "when": lambda rule, matches, context: note("when", context, [1]), "consequence": None,
                "then": lambda rule, matches, response, context: note("then", context, None)}
        bulk.rules(type("Probe%d" % number, (rb.Rule,), body))


class C24(Prop):
    id = "C24"
    rule = ("a parent (sometimes disabled) and up to 2 children (some disabled by flag or context, one given twice) with patterns of all kinds, "
            "chains and rules (some disabled, some with dependencies), sharing pattern objects and rule classes; compared with the flat "
            "configuration without the disabled parts, for up to 3 contexts in turn on one object, some searched while being built, and with the patterns one by one; non-trivial: several objects or disabled parts, and "
            "something matches")
    quick = 800
    thorough = 20000

    def strategy(self):
        return cases()

    def live(self, flag, case, context=()):
        return not specs.is_disabled(flag, case["context"] if context == () else context)

    def make(self, case, probe=None):
        registry = configs.Registry()
        self.depend(case, registry)
        patterns = {}
        holder = rb.Rebulk()

        def shared(number):
            if number not in patterns:
                patterns[number] = configs.add(holder, case["entries"][number])
            return patterns[number]

        def fill(conf, bulk, number):
            if probe:
                probe.add(bulk, number)
            own = set()
            for position in conf["patterns"]:
                if position in own:  # the same options again: a pattern of its own
                    bulk.pattern(configs.add(holder, case["entries"][position]))
                else:
                    bulk.pattern(shared(position))
                own.add(position)
            for rule in conf["rules"]:
                bulk.rules(registry[rule]() if case["instances"] and number else registry[rule])

        conf = case["conf"]
        bulk = rb.Rebulk(disabled=specs.disabling(conf["disabled"]), default_rules=conf["default_rules"])
        children = [rb.Rebulk(disabled=specs.disabling(child["disabled"]), default_rules=child["default_rules"]) for child in conf["children"]]
        if case["late"]:
            bulk.rebulk(*children)
        fill(conf, bulk, 0)
        early = case.get("early") and not probe
        if early:
            bulk.matches(case["text"], case["context"])  # searching before everything is there changes nothing
        for number, child in enumerate(children):
            fill(conf["children"][number], child, number + 1)
            if not case["late"]:
                bulk.rebulk(child)
            if early:
                bulk.matches(case["text"], case["context"])
        if case["again"]:
            bulk.rebulk(children[0])
        return bulk

    def depend(self, case, registry):
        conf = case["conf"]
        rules = distinct([conf] + conf["children"])
        for i, j in case["dependencies"]:
            registry[rules[i]].dependency = list(registry[rules[i]].dependency or []) + [registry[rules[j]]]

    def flat_parts(self, case, context):
        """Numbers of the patterns and rules of the flat configuration, in order."""
        conf = case["conf"]
        if not self.live(conf["disabled"], case, context):
            return [], [], False
        objects = [conf] + [child for child in conf["children"] if self.live(child["disabled"], case, context)]
        patterns, rules = [], []
        for number, owner in enumerate(objects):
            fresh = [p for p in owner["patterns"]]
            seen = set(patterns)
            own = set()
            for position in fresh:
                if position in own or position not in seen:
                    patterns.append(position)
                own.add(position)
            for rule in (["default"] if owner["default_rules"] else []) + owner["rules"]:
                if rule not in rules:
                    rules.append(rule)
        patterns = [p for p in patterns if self.live(case["entries"][p]["opts"].get("disabled", False), case, context)]
        rules = [r for r in rules if r == "default" or self.live(r.get("disabled", False), case, context)]
        return patterns, rules, True

    def expect(self, case):
        patterns, rules, live = self.flat_parts(case, case["context"])
        return {"patterns": patterns, "rules": rules, "live": live, "others": [self.flat_parts(case, context) for context in case["others"]]}

    def without_disabled(self, entry):
        return {**entry, "opts": {k: v for k, v in entry["opts"].items() if k != "disabled"}}

    def flat(self, case, patterns, rules):
        flat = rb.Rebulk(default_rules=False)
        registry = configs.Registry()
        self.depend(case, registry)
        for number in patterns:
            configs.add(flat, self.without_disabled(case["entries"][number]))
        for rule in rules:
            if rule == "default":
                flat.rules(rb.ConflictSolver, rb.PrivateRemover)
            else:
                flat.rules(registry[rule])
        return flat

    def check(self, case, expected, rec):
        context = None if case["context"] is None else Marked(case["context"])
        bulk = self.make(case)
        found = bulk.matches(case["text"], context)
        result = snap_all(found)
        # the flat configuration, without anything disabled
        flat = self.flat(case, expected["patterns"], expected["rules"])
        rec.eq(result, snap_all(flat.matches(case["text"], context)), "composed and flat configuration")
        # the same object searched with other contexts, and the first again
        for other, parts in zip(case["others"], expected["others"]):
            now = snap_all(bulk.matches(case["text"], other))
            rec.eq(now, snap_all(self.flat(case, *parts[:2]).matches(case["text"], other)), "composed and flat configuration, with %s next" % other)
        if case["others"]:
            rec.eq(snap_all(bulk.matches(case["text"], context)), result, "the first context again")
        if not expected["live"]:
            rec.eq(result, {"matches": [], "markers": []}, "a disabled object")
        # order: patterns one by one, no rules
        bare = self.make({**case, "dependencies": [], "conf": {**case["conf"], "rules": [], "default_rules": False, "children": [
            {**child, "rules": [], "default_rules": False} for child in case["conf"]["children"]]}})
        one_by_one = {"matches": [], "markers": []}
        for number in expected["patterns"]:
            single = rb.Rebulk(default_rules=False)
            configs.add(single, self.without_disabled(case["entries"][number]))
            alone = single.matches(case["text"], context)
            one_by_one["matches"] += [snap(m) for m in alone]
            one_by_one["markers"] += [snap(m) for m in alone.markers]
        rec.eq(snap_all(bare.matches(case["text"], context)), one_by_one, "patterns one by one")
        # context
        probe = Probe()
        probed = self.make(case, probe)
        rec.eq(snap_all(probed.matches(case["text"], context)), result, "with patterns and rules that do nothing")
        objects = [case["conf"]] + case["conf"]["children"]
        for number, owner in enumerate(objects):
            if expected["live"] and self.live(owner["disabled"], case):
                for what in ("functional", "disabled", "chain disabled", "part", "nested part", "enabled", "when", "then"):
                    rec.ok((number, what) in probe.seen, "the context does not reach", number, what)
        for where, seen in probe.seen.items():
            for one in seen:
                rec.ok(one is context if context is not None else one == {}, "context that reaches", where, one, context)
        disabled = any(not self.live(owner["disabled"], case) for owner in objects) or any("disabled" in e["opts"] for e in case["entries"])
        rec.label("disabled parts" if disabled else "all live", "shared" if len(set(p for o in objects for p in o["patterns"])) < sum(
            len(o["patterns"]) for o in objects) else "not shared", "root disabled" if not expected["live"] else "root live",
            "dependencies" if case["dependencies"] else "no dependency", "objects:%d" % len(objects))
        rec.hit((len(objects) > 1 or disabled) and (one_by_one["matches"] or one_by_one["markers"]))


PROP = C24
