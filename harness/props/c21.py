"""check_keys: declared names nothing can produce."""

import re

from hypothesis import strategies as st

from harness import builders, configs, specs
from harness.core import Prop
from harness.lib import few, rb, snap_all

POOL = ["n", "m", "o", "p", "q", "r", "year", "two words"]
GROUPS = ["a", "(a)(b)", "(?P<n>a)", "(?P<m>b)?c", "(?P<n>a)(?P<m>b)?", "(?P<m>b(?P<q>c))", "(?P<year>a)|(?P<o>b)", "(?:a)(?P<N>b)", "a(?=(?P<r>b))",
          "(?P<q>a)(?P=q)", "[(]?P", "(?i:(?P<p>a))"]


@st.composite
def spec_of(draw):
    kind = draw(st.sampled_from(["string", "regex", "regex", "regex", "functional"]))
    if kind == "regex":
        args = draw(few(st.sampled_from(GROUPS), 1, 3))
    elif kind == "string":
        args = draw(few(st.sampled_from(["a", "b", "n"]), 1, 2))
    else:
        args = [[{"start": 0, "end": 1, "name": draw(st.sampled_from(POOL))}]]
    return {"kind": kind, "args": args, "opts": draw(options())}


@st.composite
def options(draw):
    opts = {}
    if draw(st.booleans()):
        opts["name"] = draw(st.sampled_from(POOL))
    for option, odds in (("private", 5), ("marker", 5), ("children", 4), ("every", 5), ("private_children", 5), ("private_parent", 5)):
        if draw(st.sampled_from([True] + [False] * odds)):
            opts[option] = True
    for option in ("private_names", "ignore_names"):
        if draw(st.sampled_from([True, False, False])):
            opts[option] = draw(few(st.sampled_from(POOL), 1, 3))
    if draw(st.sampled_from([True, False, False, False])):
        opts["properties"] = {name: draw(st.lists(st.sampled_from(["x", "y", None]), max_size=2)) for name in draw(few(st.sampled_from(POOL), 0, 2))}
    if draw(st.sampled_from([True, False, False, False])):
        opts["disabled"] = draw(st.sampled_from([True, "off"]))
    if draw(st.sampled_from([True, False, False, False])):
        opts["value"] = draw(specs.mapped(["V"]))
    return opts


@st.composite
def histories(draw, depth=0):
    ops = []
    for _ in range(draw(st.sampled_from([1, 2, 2, 3, 4] * 6 + ([8] if depth < 2 else [])))):
        kind = draw(st.sampled_from(["declare", "declare", "defaults", "pattern", "pattern", "pattern", "chain", "chain"] if depth < 4 else ["pattern"]))
        if kind == "declare":
            names = st.sampled_from(POOL)
            ops.append(["declare", draw(few(st.builds(lambda name: {"name": name, "conv": None, "type": "str"}, names), 1, 4))])
            if draw(st.sampled_from([True] + [False] * 12)):  # all of them at once
                ops[-1][1] = [{"name": name, "conv": None, "type": "str"} for name in draw(st.permutations(POOL))]
        elif kind == "defaults":
            scope = draw(st.sampled_from(["general", "regex", "string", "functional", "chain"]))
            given = {key: value for key, value in draw(options()).items() if key in ("name", "properties", "disabled", "private_names")}
            ops.append(["defaults", scope, given])
        elif kind == "pattern":
            key = draw(st.sampled_from([None, None, "one", "several"]))
            if key:
                made = [{"name": draw(st.sampled_from(POOL)), "conv": None, "type": "str"} for _ in range(2)]
                key = made[0] if key == "one" else {"several": made, "form": "list"}
            ops.append(["pattern", draw(spec_of()), key, []])
            if depth and draw(st.sampled_from([True, False])):
                ops[-1].append(draw(st.lists(st.sampled_from([["hidden", True], ["hidden", False], ["repeater", "*"], ["repeater", 0], ["repeater", "{2,3}"], ["repeater", "?"]]),
                                             min_size=1, max_size=2)))
        else:
            ops.append(["chain", draw(options()), [], draw(histories(depth + 1))])
    return ops


@st.composite
def cases(draw):
    children = [{"disabled": draw(st.sampled_from([False, True, "off"])), "ops": draw(histories())} for _ in range(draw(st.sampled_from([0, 0, 1, 2] * 5 + [5])))]
    return {"ops": draw(histories()), "children": children, "disabled": draw(st.sampled_from([False, False, True])),
            "allowed": draw(few(st.sampled_from(POOL), 0, 3)), "form": draw(st.sampled_from(["none", "none", "str", "list", "tuple", "set", "iterator", "dict"])),
            "text": draw(st.sampled_from(["", "abc", "aabcn"]))}


def merged(default, explicit):
    return {**default, **explicit}


def names_of(ops, model, out):
    """Names the patterns of a history can emit."""
    for op in ops:
        if op[0] == "declare":
            model.declare(op[1])
        elif op[0] == "defaults":
            model.set_defaults(op[1], op[2])
        else:
            kind = "chain" if op[0] == "chain" else op[1]["kind"]
            given = op[1] if op[0] == "chain" else op[1]["opts"]
            scopes = [model.defaults.get(kind, {}), model.defaults.get("general", {})]
            name = given.get("name")
            if name is None and op[0] == "pattern" and op[2] and "several" not in op[2]:
                name = op[2]["name"]
            for scope in scopes:
                name = name if name is not None else scope.get("name")
            properties = dict(scopes[1].get("properties", {}))
            properties.update(scopes[0].get("properties", {}))
            properties.update(given.get("properties", {}))
            out.update(properties)
            out.update([name] if name else [])
            if op[0] == "chain":
                names_of(op[3], builders.Model(model), out)
            elif kind == "regex":
                for arg in op[1]["args"]:
                    out.update(re.compile(arg).groupindex)


def declared_in(ops):
    return {key["name"] for op in ops if op[0] == "declare" for key in op[1]}


class C21(Prop):
    id = "C21"
    rule = ("a parent and up to 2 children with histories of key declarations, default names and properties, patterns of every kind with several "
            "expressions and chains nested to depth 4; disabled, private, ignored and hidden ones included; allowed names in every form; non-trivial: some "
            "declared names are produced and some are not")
    quick = 1000
    thorough = 30000

    def strategy(self):
        return cases()

    def expect(self, case):
        produced = set()
        declared = set()
        for ops in [case["ops"]] + [child["ops"] for child in case["children"]]:
            names_of(ops, builders.Model(), produced)
            declared |= declared_in(ops)
        return {"produced": sorted(produced & declared), "missing": sorted(declared - produced)}

    def allowed(self, case):
        names = case["allowed"]
        form = case["form"]
        if form == "str":
            names = names[:1] or ["none of them"]
            return names, names[0]
        wrap = {"none": list, "list": list, "tuple": tuple, "set": set, "iterator": iter, "dict": dict.fromkeys}[form]
        return names, wrap(names)

    def check(self, case, expected, rec):
        cache = {}
        bulk = rb.Rebulk(disabled=specs.disabling(case["disabled"]))
        builders.run_real(case["ops"], bulk, rec, builders.Watch(), cache, [False] * 100)
        for child in case["children"]:
            other = rb.Rebulk(disabled=specs.disabling(child["disabled"]))
            builders.run_real(child["ops"], other, rec, builders.Watch(), cache, [False] * 100)
            bulk.rebulk(other)
        chained = any(op[0] == "chain" for op in case["ops"])

        def searched():
            return snap_all(bulk.matches(case["text"])) if not chained else None

        before = searched()
        names, given = self.allowed(case)
        for turn in range(2):
            answer = bulk.check_keys()
            rec.eq(answer, expected["missing"], "check_keys() (call %d)" % turn)
            if case["form"] != "none":
                _names, given = self.allowed(case)
                kept = sorted(given) if case["form"] in ("list", "set", "tuple", "dict") else None
                rec.eq(bulk.check_keys(allowed_unused=given), [n for n in expected["missing"] if n not in names], "check_keys(allowed_unused=%s)" % case["form"])
                if kept is not None:
                    rec.eq(sorted(given), kept, "the allowed names given")
            rec.eq(searched(), before, "a search after check_keys")
            answer.append("mine")
        rec.label("chain" if chained else "flat", "children" if case["children"] else "alone", case["form"])
        rec.hit(expected["produced"] and expected["missing"])


PROP = C21
