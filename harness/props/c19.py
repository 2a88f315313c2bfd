"""Keys: names and converters."""

from hypothesis import strategies as st

from harness import builders, seqgen, specs
from harness.core import Prop
from harness.lib import few, rb


EVERY = ("regex", "regex", "string", "functional")
FOCUS = [(["general", "regex", "regex", "string", "functional", "chain"], EVERY)] * 2 + \
    [(["general", kind, kind], (kind, kind, "regex")) for kind in ("string", "functional")] + [(["general", "chain", "chain"], EVERY)]


@st.composite
def pattern_options(draw, flags=False):
    opts = {}
    if flags:
        for option, odds in (("private", 5), ("private_names", 5), ("private_children", 6), ("private_parent", 6), ("marker", 12)):
            if draw(st.sampled_from([True] + [False] * odds)):
                opts[option] = draw(st.lists(st.sampled_from(builders.NAMES), min_size=1, max_size=2)) if option == "private_names" else True
    if draw(st.sampled_from([True, flags])):
        opts["name"] = draw(st.sampled_from(builders.NAMES * 3 + [None]))
    if draw(st.sampled_from([True, False] + [False, False] * flags)):
        opts["formatter"] = draw(specs.mapped(builders.CONVERTERS, absent=True))
    if draw(st.sampled_from([True, not flags, False])):
        opts[draw(st.sampled_from(["children", "children", "every", "format_all"]))] = True
    if draw(st.sampled_from([True, False, False, False, False])):
        opts["value"] = draw(specs.mapped(["V", 7]))
    return opts


@st.composite
def cases(draw, flags=False):
    text = draw(seqgen.sized_text("aabbc", 3, 8)) + "-"
    scopes, patterns = draw(st.sampled_from(FOCUS))
    samples = []
    letters = iter(range(30))

    def fresh():
        return [next(letters) for _ in range(5)]

    def chain(depth, free):
        """A chain over some of the letters."""
        opts = draw(pattern_options(flags))
        for option in ("format_all", "marker", "private_children", "private_parent"):
            opts.pop(option, None)
        inner = []
        for _ in range(draw(st.integers(1, 5))):
            if len(free) == 1:
                break
            inner.append(operation(depth, free))
        if not any(op[0] in ("pattern", "chain") for op in inner):
            inner.append(part(free))
        return ["chain", opts, [], inner]

    def part(free):
        spec = draw(builders.parts(free.pop(0), pattern_options(flags)))
        for option in ("marker", "private_children", "private_parent"):
            spec["opts"].pop(option, None)
        samples.append(spec["sample"])
        key = draw(builders.given_keys())
        if key and "several" in key and isinstance(spec["opts"].get("formatter"), str) and draw(st.booleans()):
            del spec["opts"]["formatter"]
        return ["pattern", spec, key, []]

    def operation(depth, free):
        kind = draw(st.sampled_from(["declare", "declare", "defaults", "pattern", "pattern", "pattern", "chain"] if depth == 0 else
                                    ["declare", "defaults", "pattern", "pattern", "pattern", "pattern", "chain" if depth < 3 and len(free) > 2 else "pattern"]))
        if kind == "declare":
            return ["declare", draw(few(builders.keys(), 1, 3))]
        if kind == "defaults":
            return ["defaults", draw(st.sampled_from(scopes)),
                    {"formatter": draw(specs.mapped(builders.CONVERTERS, absent=True))}]
        if kind == "pattern" and depth:
            return part(free)
        if kind == "pattern":
            spec = draw(specs.patterns(len(text), kinds=patterns))
            spec["opts"] = draw(pattern_options(flags))
            for items in spec["args"] if spec["kind"] == "functional" else []:
                for item in items:
                    if isinstance(item, dict) and not flags:
                        item.pop("marker", None)
            return ["pattern", spec, draw(builders.given_keys()), []]
        made = chain(depth + 1, free if depth else fresh())
        if not depth:
            samples.append("-")
        return made

    ops = [operation(0, []) for _ in range(draw(st.sampled_from([1, 2, 3, 4, 5])))]
    text += "".join(samples) + "-" + "".join(samples)
    if draw(st.sampled_from([True, False, False])):
        ops.insert(draw(st.integers(0, len(ops))), ["search", text])
    return {"text": text, "ops": ops}


def views(out):
    return [specs.model_view(m) for m in out]


def run(case, expected, rec):
    bulk = rb.Rebulk(default_rules=False)
    watch = builders.Watch()
    builders.run_real(case["ops"], bulk, rec, watch, {}, expected["rejected"])
    for turn in range(2):
        found = bulk.matches(case["text"])
        rec.eq([specs.real_view(m) for m in found], expected["views"], "matches (search %d)" % turn)
    watch.check(rec)
    return bulk


class C19(Prop):
    id = "C19"
    rule = ("histories of up to 5 builder operations: key declarations, default formatters, patterns and chains (with operations of their "
            "own) given one key or a sequence of keys and formatters plain or by name; values of all matches against the precedence "
            "model; non-trivial: a registration with both a key (given or declared) and another source of a formatter")
    quick = 1400
    thorough = 40000

    def strategy(self):
        return cases()

    def expect(self, case):
        try:
            out, rejected = builders.run_model(case["ops"], case["text"])
        except builders.OutOfDomain:
            return None
        return {"views": views(out), "rejected": rejected}

    def check(self, case, expected, rec):
        if expected is None:
            rec.label("not judged")
            return
        for op in case["ops"]:
            rec.label(op[0])
        if any(expected["rejected"]):
            rec.label("rejected")
        declared = any(op[0] == "declare" for op in case["ops"])
        rec.hit(expected["views"] and any(op[0] == "pattern" and (op[2] or declared) and "formatter" in op[1]["opts"] or op[0] == "chain" and declared
                                          for op in case["ops"]))
        run(case, expected, rec)


PROP = C19
