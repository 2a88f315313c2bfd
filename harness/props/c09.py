"""Custom conflict solvers."""

from hypothesis import strategies as st

from harness.core import Prop
from harness.lib import rb

TEXT = "abcdefghijkl"


@st.composite
def cases(draw):
    count = draw(st.sampled_from([2, 2, 2, 3, 3, 4, 5, 6]))
    items = []
    for number in range(count):
        start = draw(st.integers(0, 8)) if count > 2 else draw(st.integers(0, 3))
        end = start + draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
        item = {"span": [start, end], "kind": draw(st.sampled_from(["string", "regex", "group", "dict", "functional"])),
                "private": draw(st.sampled_from([False] * 6 + [True])), "solver": None}
        if draw(st.sampled_from([True, True, False])):
            item["solver"] = [draw(st.sampled_from(["self", "other", "none", "default"])) for _ in range(count)]
        items.append(item)
    return {"items": items, "shared": draw(st.sampled_from([False, False, True]))}


def decide(case, asked_first, asked_second):
    """One decision on a pair: the dropped number or None."""
    items = case["items"]
    for own, other in ((asked_first, asked_second), (asked_second, asked_first)):
        if items[own]["solver"]:
            answer = items[own]["solver"][other]
            if answer != "default":
                return {"self": own, "other": other, "none": None}[answer]
    first, second = (items[n]["span"][1] - items[n]["span"][0] for n in (asked_first, asked_second))
    if first == second:
        return None
    return asked_first if first < second else asked_second


def answering(found):
    return lambda string: found


class C09(Prop):
    id = "C09"
    rule = ("2 to 6 overlapping matches of string, regex, group-in-regex, functional and dict-returning patterns, each with its own solver "
            "answering self, other, None or __default__ per opponent, or none, some private; sometimes one function is the solver of all; non-trivial: a solver decided about an "
            "overlapping public pair")
    quick = 1800
    thorough = 50000

    def strategy(self):
        return cases()

    def expect(self, case):
        items = case["items"]
        public = [n for n, item in enumerate(items) if not item["private"]]
        pairs = {}
        for n in public:
            for m in public:
                if n < m and items[n]["span"][0] < items[m]["span"][1] and items[m]["span"][0] < items[n]["span"][1]:
                    pairs[n, m] = [decide(case, n, m), decide(case, m, n)]
        return {"public": public, "pairs": pairs}

    def build(self, case, calls):
        bulk = rb.Rebulk()

        def common(match, other):
            """One solver for all matches that have one."""
            number = int(match.name[1:])
            return ask(match, other, number, case["items"][number]["solver"])

        def ask(match, other, number, answers):
            calls.append((number, match.name, other.name))
            if answers is None:
                raise AssertionError("solver asked for a match that has none")
            answer = answers[int(other.name[1:])]
            return {"self": match, "other": other, "none": None, "default": "__default__"}[answer]

        for number, item in enumerate(case["items"]):
            start, end = item["span"]
            opts = {"name": "m%d" % number, "private": item["private"]}
            solver = None
            if item["solver"]:

                def solver(match, other, number=number, answers=item["solver"]):
                    return ask(match, other, number, answers)

                if case["shared"]:
                    solver = common

            kind = item["kind"]
            if kind != "dict" and solver:
                opts["conflict_solver"] = solver
            if kind == "string":
                bulk.string(TEXT[start:end], **opts)
            elif kind == "regex":
                bulk.regex(TEXT[start:end], **opts)
            elif kind == "group":  # the match is a child, as long as its parent
                bulk.regex("(%s)" % TEXT[start:end], children=True, **opts)
            elif kind == "functional":
                bulk.functional(answering((start, end)), **opts)
            else:
                found = {"start": start, "end": end}
                if solver:
                    found["conflict_solver"] = solver
                bulk.functional(answering(found), **opts)
        return bulk

    def check(self, case, expected, rec):
        items, pairs, public = case["items"], expected["pairs"], expected["public"]
        for _turn in range(2):
            calls = []
            found = [m.name for m in self.build(case, calls).matches(TEXT)]
            kept = [int(name[1:]) for name in found]
            rec.eq(kept, [n for n in public if n in kept], "result")
            for number, own, other in calls:
                rec.eq(own, "m%d" % number, "first argument of the solver of m%d" % number)
                rec.ok(tuple(sorted((number, int(other[1:])))) in pairs, "solver asked about a pair that does not conflict", own, other)
            solved = False
            for (n, m), decisions in pairs.items():
                alone = not any(set(pair) & {n, m} and pair != (n, m) for pair in pairs)
                solvers = [x for x in (n, m) if items[x]["solver"]]
                if alone:
                    if len(solvers) < 2:
                        want = {n, m} - {decisions[0]}
                        rec.eq({x for x in (n, m) if x in kept}, want, "kept of the pair %s" % ((n, m),))
                    if len(set(decisions)) == 1:
                        rec.eq({x for x in (n, m) if x in kept}, {n, m} - {decisions[0]}, "kept of the pair %s, on which all agree" % ((n, m),))
                    rec.ok(n in kept or m in kept, "both of a pair were dropped", n, m)
                    for own in solvers[:1] if len(solvers) == 1 else []:
                        other = n if own == m else m
                        rec.ok((own, "m%d" % own, "m%d" % other) in calls, "solver not asked", own, other)
                if n in kept and m in kept:
                    rec.ok(None in decisions, "both kept although every decision drops one", n, m, decisions)
                if any(items[x]["solver"] and items[x]["solver"][n if x == m else m] != "default" for x in (n, m)):
                    solved = True
            for x in public:
                if x not in kept:
                    rec.ok(any(x in decisions for decisions in pairs.values()), "dropped by no decision", x)
            rec.hit(solved)
            rec.label("pairs:%d" % min(len(pairs), 6), "calls:%d" % min(len(calls), 5))
            for item in items:
                rec.label(item["kind"])


PROP = C09
