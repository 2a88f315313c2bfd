"""Rule scheduling."""

import types

from hypothesis import strategies as st

from harness.core import Prop
from harness.lib import rb

ANSWERS = {"true": True, "one": 1, "text": "x", "list": [0], "match": None, "none": None, "empty": [], "false": False, "zero": 0, "blank": "", "iterator": None}
ENABLED = [True, 1, "yes"]  # what rules answer when asked whether they are enabled
DISABLED = [False, None, 0, ""]
TRUTHY = ["true", "one", "text", "list", "match", "iterator"]


@st.composite
def cases(draw):
    count = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7] * 3 + [10]))
    names = draw(st.permutations(["Ra", "_Rb", "Rc", "rd", "Re", "__Rf", "Rg", "Rh", "rI", "Rj"]))[:count]
    acyclic = draw(st.sampled_from([True, True, True, False]))
    order = draw(st.permutations(list(range(count))))
    priorities = draw(st.sampled_from([[0], [0], [0, 1], [0, 0, -1, 5], [1, -2048, 2048, 0]]))
    rules = []
    for number in range(count):
        rank = order.index(number)
        pool = order[:rank] if acyclic else list(range(count))
        deps = []
        if draw(st.sampled_from([True, True, False])):
            for _ in range(draw(st.sampled_from([1, 1, 2, 3] * 4 + [8]))):
                target = draw(st.sampled_from(pool + [number, -1])) if pool else draw(st.sampled_from([number, -1]))
                deps.append([target, draw(st.sampled_from(["class", "class", "instance"])) if target != number else "class"])
        rules.append({
            "name": names[number], "priority": draw(st.sampled_from(priorities)), "deps": deps,
            "form": draw(st.sampled_from(["list", "tuple", "single"])) if len(deps) == 1 else draw(st.sampled_from(["list", "tuple", "none"])),
            "answer": draw(st.sampled_from(TRUTHY * 2 + sorted(ANSWERS))), "disabled": draw(st.sampled_from([False] * 4 + [True, 1, 2])),
            "how": draw(st.sampled_from(["class", "instance", "module"])), "place": draw(st.sampled_from(["own", "own", "own", "child"])),
            "again": draw(st.sampled_from([None] * 12 + ["class", "instance", "other", "late", "late"])),
            "derives": draw(st.sampled_from([False, False, True])),
            "act": draw(st.sampled_from(["then", "consequence", "consequences"])),
        })
        if rules[-1]["priority"] == 0 and draw(st.booleans()):
            rules[-1]["default"] = True  # says nothing of its priority
    return {"rules": rules, "text": draw(st.sampled_from(["x", "x", ""])), "api": draw(st.sampled_from(["rules", "rebulk", "rebulk"])), "together": draw(st.sampled_from([False, False, False, "load", "new"])), "child off": draw(st.sampled_from([False] * 3 + [True, 1, 2])),
            "contexts": draw(st.lists(st.sampled_from([None, {"c": 1}, {"c": 2}]), min_size=1, max_size=3))}


def off(flag, context):
    """Disabled always, or where the context says so."""
    return flag is True or flag is not False and bool(context) and context["c"] == flag


class C11(Prop):
    id = "C11"
    rule = ("1 to 10 rules with up to 4 priorities, dependencies on classes or instances of each other, of themselves, of rules of other "
            "priorities or of absent rules, some deriving from another rule or an absent one, registered as class, instance or module, one by one or together, in the object or in a child, some disabled always or by the context (up to 3 in turn), some "
            "registered twice, some in cycles; non-trivial: at least two rules in one priority, with a dependency between them")
    quick = 1800
    thorough = 50000

    def strategy(self):
        return cases()

    # -- model ----------------------------------------------------------------
    def registered(self, case, context):
        """(rule number, priority) in registration order."""
        rules = case["rules"]
        out = []
        child = []
        module = []

        def flush():
            module.sort(key=lambda n: rules[n]["name"])
            out.extend((n, rules[n]["priority"]) for n in module)
            module.clear()

        for number, rule in enumerate(rules):
            if case["api"] == "rebulk" and rule["place"] == "child":
                child.append((number, rule["priority"]))
            elif rule["how"] == "module":
                module.append(number)  # neighbours share a module
                continue
            else:
                flush()
                out.append((number, rule["priority"]))
            if rule["again"] not in (None, "late"):
                flush()
                out.append((number, rule["priority"] + (1 if rule["again"] == "other" else 0)))
        flush()
        out.extend((number, rule["priority"] + 1) for number, rule in enumerate(rules) if rule["again"] == "late")
        taken = {number for number, _priority in out}
        if off(case["child off"], context):
            return out
        return out + [entry for entry in child if entry[0] not in taken]

    def expect(self, case):
        return [self.events(case, context) for context in case["contexts"]]

    def events(self, case, context):
        rules = case["rules"]
        registered = self.registered(case, context)
        events = []
        shared = False
        for priority in sorted({p for _n, p in registered}, reverse=True):
            group = [n for n, p in registered if p == priority]
            if len(set(group)) != len(group):
                return {"error": True}
            depends = {n: {t for t, _form in rules[n]["deps"] if t in group and t != n} for n in group}
            shared = shared or any(depends.values())
            done = set()
            while len(done) < len(group):
                layer = [n for n in group if n not in done and depends[n] <= done]
                if not layer:
                    return {"error": True}
                for number in layer:
                    if not off(rules[number]["disabled"], context):
                        events.append(["when", number, priority])
                        if rules[number]["answer"] in TRUTHY:
                            events.append(["then", number, priority])
                done |= set(layer)
        return {"error": False, "events": events, "shared": shared}

    # -- real ------------------------------------------------------------------
    def classes(self, case, log, state):
        match = rb.Match(0, 1, input_string="x")
        made = []
        absent = type("Absent", (rb.Rule,), {"__module__": "rules_under_test.absent", "when": lambda self, matches, context: log.append(["absent"])})
        given = {}

        def check(number, response, answer):
            if number in given:
                assert response is given[number], "response given to then"
                assert list(response) == [7], "response, used up"
            else:
                assert response is answer, "response given to then"

        family = absent  # a rule may derive from one that is absent, or from another rule
        for number, rule in enumerate(case["rules"]):
            answer = match if rule["answer"] == "match" else ANSWERS[rule["answer"]]

            def enabled(self, context, number=number, rule=rule):
                state.append(("enabled", context))
                return ENABLED[number % 3] if not off(rule["disabled"], context) else DISABLED[number % 4]

            def when(self, matches, context, number=number, answer=answer, rule=rule):
                log.append(["when", number, self.priority])
                state.append((matches, context))
                if rule["answer"] == "iterator":
                    given[number] = iter([7])
                    return given[number]
                return answer

            def then(self, matches, response, context, number=number, answer=answer):
                log.append(["then", number, self.priority])
                state.append((matches, context))
                check(number, response, answer)

            body = {"priority": rule["priority"], "enabled": enabled, "when": when, "__module__": "rules_under_test"}
            if rule["act"] == "then":
                body["then"] = then
            else:

                class Act(rb.rules.Consequence):
                    def then(self, matches, response, context, number=number, answer=answer, whole=rule["act"] == "consequence"):
                        log.append(["then", number, None])
                        state.append((matches, context))
                        first = answer
                        if not whole and isinstance(answer, (list, tuple)):
                            first = answer[0]
                        if not whole and number in given:
                            assert response == 7, "response given to the consequence"
                        else:
                            check(number, response, first)

                body["consequence"] = Act if rule["act"] == "consequence" else [Act()]
            body.setdefault("then", rb.Rule.then)
            body["dependency"] = None
            if rule.get("default") and not rule["derives"]:
                del body["priority"]
            made.append(type(rule["name"], (family if rule["derives"] else rb.Rule,), body))
            family = made[-1]
        for number, rule in enumerate(case["rules"]):
            targets = []
            for target, form in rule["deps"]:
                cls = absent if target < 0 else made[target]
                targets.append(cls() if form == "instance" else cls)
            if rule["form"] == "single":
                made[number].dependency = targets[0]
            elif targets or rule["form"] != "none":
                made[number].dependency = targets if rule["form"] == "list" else tuple(targets)
        return made, absent

    def register(self, case, made, absent):
        rules = case["rules"]
        bulk = rb.Rebulk(default_rules=False)
        flag = case["child off"]
        child = rb.Rebulk(default_rules=False, disabled=flag if isinstance(flag, bool) else lambda context: off(flag, context))
        target = rb.Rules() if case["api"] == "rules" else bulk
        at_once = target.load if case["api"] == "rules" else target.rules
        gathered = []
        load = gathered.append if case["together"] else at_once
        module = []

        def flush():
            if module:
                holder = types.ModuleType("rules_under_test")
                holder.helper = lambda: 1 / 0
                holder.helper.__module__ = "rules_under_test"
                holder.Helper = type("Helper", (), {"__module__": "rules_under_test"})
                holder.Rule = rb.Rule
                holder.Imported = absent  # defined elsewhere
                holder.Base = type("Base", (rb.Rule,), {"__module__": "rules_under_test"})
                for number in module:
                    setattr(holder, rules[number]["name"], made[number])
                load(holder)
                module.clear()

        for number, rule in enumerate(rules):
            if case["api"] == "rebulk" and rule["place"] == "child":
                child.rules(made[number])
            elif rule["how"] == "module":
                module.append(number)
                continue
            else:
                flush()
                load(made[number]() if rule["how"] == "instance" else made[number])
            if rule["again"] not in (None, "late"):
                flush()
                instance = made[number]()
                if rule["again"] == "other":
                    instance.priority = rule["priority"] + 1
                load(made[number] if rule["again"] == "class" else instance)
        flush()
        for number, rule in enumerate(rules):
            if rule["again"] == "late":
                instance = made[number]()
                instance.priority = rule["priority"] + 1
                load(instance)
        if case["together"] == "new" and case["api"] == "rules":
            return rb.Rules(*gathered)
        if case["together"]:
            at_once(*gathered)
        if target is bulk:
            bulk.rebulk(child)
        return target

    def check(self, case, expected, rec):
        log, state = [], []
        target = self.register(case, *self.classes(case, log, state))
        rec.label(case["api"])
        for rule in case["rules"]:
            rec.label(rule["how"], rule["act"])
            for to, form in rule["deps"]:
                rec.label("on:" + form)
        for turn, (context, expected) in enumerate(zip(case["contexts"] * 2, expected * 2)):
            rec.label("error" if expected["error"] else "fine")
            del log[:], state[:]
            matches = rb.Matches(input_string=case["text"])

            def run():
                if case["api"] == "rules":
                    return target.execute_all_rules(matches, context)
                return target.matches(case["text"], context)

            if expected["error"]:
                rec.hit()
                with rec.raises(ValueError, "a cycle or a rule class twice"):
                    run()
                continue
            run()
            rec.hit(expected["shared"])
            want = [[what, number, None if what == "then" and case["rules"][number]["act"] != "then" else priority]
                    for what, number, priority in expected["events"]]
            rec.eq(log, want, "rule events (run %d)" % turn)
            given = [entry[1] for entry in state]
            if context is not None:
                rec.ok(all(c is context for c in given), "context given to rules", given)
            seen = {id(entry[0]) for entry in state if entry[0] != "enabled"}
            rec.ok(len(seen) <= 1, "rules were given different sequences")
            if case["api"] == "rules":
                rec.ok(seen <= {id(matches)}, "rules were given another sequence")


PROP = C11
