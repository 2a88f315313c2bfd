"""Searches that overlap in time."""

import copy

from hypothesis import strategies as st

from harness import configs, seqgen
from harness.core import Prop, Violation
from harness.lib import rb, snap_all
from harness.props import c22
from harness.turns import Turns

GAPS = [1, 1, 2, 3, 5, 8, 13, 20, 35, 60, 100, 200, 400, 900]
HOSTS = ["functional", "generator", "disabled", "validator", "formatter", "processor", "post", "breaker", "solver", "enabled", "when", "then", "late"]


@st.composite
def cases(draw):
    case = draw(st.one_of(c22.composed(), c22.composed(), c22.histories()))
    case["rules"] = draw(st.lists(configs.rules(), max_size=2, unique_by=lambda r: (r["kind"], r["priority"]))) if case["style"] == "history" else []
    case["texts"] += [draw(seqgen.sized_text("aabbc-", 1, 8)) + "---" for _ in range(draw(st.sampled_from([1, 1, 2])))]
    case["contexts"] = [draw(configs.contexts) for _ in range(2)]
    searches = st.tuples(st.integers(0, len(case["texts"]) - 1), st.sampled_from([0, 0, 1])).map(list)
    mode = draw(st.sampled_from(["threads", "threads", "nested"]))
    if mode == "nested":
        plan = {"hosts": draw(st.lists(st.sampled_from(HOSTS), min_size=1, max_size=4, unique=True)), "outer": draw(searches),
                "inner": draw(st.lists(searches, min_size=1, max_size=3)), "every": draw(st.sampled_from([1, 1, 2, 3])), "deep": draw(st.booleans())}
    else:
        other = st.sampled_from([["introspect"], ["fresh"], ["fresh"], ["keys"]])
        plan = {"jobs": draw(st.lists(st.one_of(searches, searches, searches, other), min_size=2, max_size=3)),
                "after": draw(st.sampled_from([0, 0, 25, 50, 75, 90])), "schedule": draw(st.lists(st.sampled_from(GAPS), min_size=1, max_size=5))}
    return {"case": case, "mode": mode, **plan}


def add_hosts(bulk, hosts, hook):
    """Patterns and rules of every kind that call a hook while they are at work."""

    def answer(result):
        def run(*args):
            hook()
            return result
        return run

    for host in hosts:
        if host == "functional":
            def find(string):
                hook()
                return (0, 1)

            bulk.functional(find, name="host")
        elif host == "generator":
            def several(string):
                yield (0, 1)
                hook()
                yield (0, 2)

            bulk.functional(several, name="host", tags=["g"])
        elif host == "disabled":
            bulk.string("b", name="host", disabled=answer(False))
        elif host == "validator":
            bulk.regex("(?P<host>a).", children=True, validator=answer(True))
        elif host == "formatter":
            def form(value):
                hook()
                return "f" + value

            bulk.string("a", name="host", formatter=form, validator=lambda match: match.value == "fa")
        elif host in ("processor", "post"):
            bulk.string("ab", "b", name="host", **{"pre_match_processor" if host == "processor" else "post_match_processor": answer(None)})
        elif host == "breaker":
            bulk.chain(name="host", chain_breaker=answer(False)).string("a", "b").repeater("+").string("-").repeater("?").close()
        elif host == "solver":
            bulk.string("-", "a-", name="host", conflict_solver=answer("__default__"))
        else:
            body = {"priority": {"enabled": 3000, "when": 0, "then": -1, "late": -3000}[host], "when": lambda self, matches, context: True,
                    "then": lambda self, matches, response, context: None}
            if host in ("when", "late"):
                body["when"] = answer(None)
            else:
                body[host] = answer(True)
            bulk.rules(type("Host" + host, (rb.Rule,), body))


class C34(Prop):
    id = "C34"
    rule = ("the configurations of C22 (composed objects with rules, chains, disabled parts and functions using the context, or builder histories); "
            "either two or three threads searching one object (or building another, introspecting, checking keys) interleaved line by line as "
            "a generated schedule says, or searches started by functions, generators, validators, formatters, processors, breakers, solvers and rules of the "
            "search under way; each against the search alone on a fresh object; non-trivial: two overlapping searches find something")
    assumptions = ("threads take over from each other between lines of the package (1500 times in a run at most)",)
    quick = 440
    thorough = 12000

    def strategy(self):
        return cases()

    def build(self, plan, hook=lambda: None):
        bulk = c22.build(plan["case"])
        add_hosts(bulk, plan.get("hosts", []), hook)
        return bulk

    def look(self, plan, bulk, search):
        found = bulk.matches(plan["case"]["texts"][search[0]], copy.deepcopy(plan["case"]["contexts"][search[1]]))
        return [snap_all(found), repr(found.to_dict())]

    def check(self, plan, expected, rec):
        rec.label(plan["mode"])
        alone = {}

        def by_itself(search):
            key = tuple(search)
            if key not in alone:
                alone[key] = self.look(plan, self.build(plan), search)
            return alone[key]

        if plan["mode"] == "nested":
            self.nested(plan, by_itself, rec)
        else:
            self.threads(plan, by_itself, rec)

    def nested(self, plan, by_itself, rec):
        state = {"calls": 0, "depth": 0, "made": 0}
        outer = by_itself(plan["outer"])
        for search in plan["inner"]:
            by_itself(search)
        wrong = []

        def hook():
            if state["depth"] > plan["deep"] or state["made"] >= 5:
                return
            state["calls"] += 1
            if state["calls"] % plan["every"]:
                return
            search = plan["inner"][state["made"] % len(plan["inner"])]
            state["made"] += 1
            state["depth"] += 1
            try:
                got = self.look(plan, bulk, search)
            finally:
                state["depth"] -= 1
            if got != by_itself(search):
                wrong.append((got, by_itself(search)))
            rec.hit(got[0]["matches"] and outer[0]["matches"])

        bulk = self.build(plan, hook)
        for turn in ("search with others inside", "search with others inside, again"):
            rec.eq(self.look(plan, bulk, plan["outer"]), outer, turn)
            for got, want in wrong:
                rec.eq(got, want, "search inside another")
            state["made"] = 0
        rec.label(*plan["hosts"])

    def threads(self, plan, by_itself, rec):
        bulk = self.build(plan)
        jobs = []
        for job in plan["jobs"]:
            if job == ["introspect"]:
                jobs.append((lambda: repr(rb.introspect(bulk, plan["case"]["contexts"][0]).properties),
                             repr(rb.introspect(self.build(plan), plan["case"]["contexts"][0]).properties)))
            elif job == ["keys"]:
                jobs.append((lambda: bulk.check_keys(), self.build(plan).check_keys()))
            elif job == ["fresh"]:
                jobs.append((lambda: self.look(plan, self.build(plan), [0, 0]), by_itself([0, 0])))
            else:
                jobs.append((lambda job=job: self.look(plan, bulk, job), by_itself(job)))
        skip = None
        if plan["after"]:  # the interleaving starts after that part of each
            fresh = self.build(plan)
            skip = []
            for job in plan["jobs"]:
                single = Turns([lambda job=job: self.look(plan, fresh, job if len(job) == 2 else [0, 0])], [1])
                single.run()
                skip.append(single.lines[0] * plan["after"] // 100)
            rec.label("after %d%%" % plan["after"])
        turns = Turns([job for job, _want in jobs], plan["schedule"], skip)
        results = turns.run()
        for number, ((how, got), (_job, want)) in enumerate(zip(results, jobs)):
            if how == "error":
                raise Violation("thread %d raised %r" % (number, got)) from got
            rec.eq(got, want, "thread %d of %d" % (number, len(jobs)))
        searching = [job for job in plan["jobs"] if len(job) == 2]
        rec.hit(turns.switches and len(searching) > 1 and all(by_itself(job)[0]["matches"] for job in searching))


PROP = C34
