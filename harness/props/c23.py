"""Defaults and how they merge."""

from hypothesis import strategies as st

from harness import builders, seqgen, specs
from harness.core import Prop
from harness.lib import rb
from harness.props import c19

SCOPES = ["general", "general", "regex", "regex", "string", "functional", "chain"]
EVERY = ("regex", "regex", "string", "functional")
FOCUS = [(SCOPES, EVERY), (SCOPES, EVERY)] + [(["general", kind, kind, kind], (kind, kind, kind, "regex")) for kind in ("regex", "string", "functional")] + \
    [(["general", "chain", "chain"], EVERY)]
SHORT = [["~", "b"], ["~", "(?P<m>c)"], ["ab", "(?P<o>a)b"], ["~", "."], ["a", "(?:a|b)"]]
CHAINED = ["name", "tags", "private_names", "ignore_names", "formatter", "value", "children", "every", "private"]
ALL = CHAINED + ["validator", "private_parent", "private_children", "marker", "format_all", "validate_all", "disabled", "pre_match_processor",
                 "post_match_processor", "post_processor", "properties"]
MERGED = ["tags", "private_names", "formatter", "value", "name"]
NAMES = st.sampled_from(builders.NAMES)


def entry_of(option):
    if option == "name":
        return NAMES
    if option == "tags":
        return st.lists(st.sampled_from(["t", "u", "v", "w", "x"]), min_size=1, max_size=2, unique=True)
    if option in ("private_names", "ignore_names"):
        return st.lists(NAMES, min_size=1, max_size=2)
    if option == "formatter":
        return specs.mapped(builders.CONVERTERS, absent=True)
    if option == "value":
        return specs.mapped(["V", "W", 7], absent=True)
    if option == "validator":
        return specs.mapped(specs.VALIDATORS, absent=True)
    if option in ("pre_match_processor", "post_match_processor"):
        return st.sampled_from(specs.PROCESSORS)
    if option == "post_processor":
        return st.sampled_from(specs.POST)
    if option == "properties":
        values = st.sampled_from(["x", "y"])
        return st.dictionaries(st.sampled_from(builders.NAMES[:2]), values | st.lists(values, max_size=2), max_size=2)
    if option == "abbreviations":
        return st.lists(st.sampled_from(SHORT), min_size=1, max_size=2)
    return st.sampled_from([True, True, False])


@st.composite
def options(draw, pool, most, favoured):
    """Some of the options; the favoured ones come back at several levels."""
    names = [name for name in favoured if draw(st.sampled_from([True, True, False]))]
    names += [name for name in draw(st.lists(st.sampled_from(pool), max_size=most)) if name not in names]
    return {name: None if draw(st.sampled_from([True] + [False] * 9)) else draw(entry_of(name)) for name in names}


@st.composite
def cases(draw):
    chained = draw(st.sampled_from([True, False, False]))
    pool = CHAINED if chained else ALL
    favoured = draw(st.lists(st.sampled_from(pool + CHAINED + MERGED), min_size=1, max_size=3, unique=True))
    scopes, patterns = draw(st.sampled_from(FOCUS))
    text = draw(seqgen.sized_text("aabbcc~", 3, 8)) + "-"
    samples = []
    letters = iter(range(30))

    def fresh():
        return [next(letters) for _ in range(5)]

    def given(most=1, nested=False):
        opts = draw(options(pool, most, favoured))
        if nested:
            opts.pop("ignore_names", None)
        over = draw(st.lists(st.sampled_from(sorted(opts)), max_size=2, unique=True)) if opts and draw(st.booleans()) else []
        return opts, over

    def defaults(depth):
        scope = draw(st.sampled_from(scopes))
        values = given()[0]
        if scope == "regex" and not chained and draw(st.booleans()):
            values["abbreviations"] = draw(entry_of("abbreviations"))
        if draw(st.sampled_from([True, False, False, False, False])):
            values["clear"] = draw(st.sampled_from([True, True, False]))
        return ["defaults", scope, values]

    def pattern(depth, free):
        opts, over = given()
        if depth:
            for option in ("private_parent", "private_children"):
                opts.pop(option, None)
            spec = draw(builders.parts(free.pop(0), st.just(opts)))
            samples.append(spec["sample"])
            over = [name for name in over if name in spec["opts"]]
            return ["pattern", spec, None, over]
        spec = draw(specs.patterns(len(text), kinds=patterns))
        spec["opts"] = opts
        for items in spec["args"] if spec["kind"] == "functional" else []:
            for item in items:
                if isinstance(item, dict) and chained:
                    item.pop("marker", None)
        if spec["kind"] == "regex" and not chained:
            if draw(st.booleans()):
                spec["args"] = [draw(st.sampled_from(["a~", "~", "(?P<n>a)~", "ab~?", "ab"]))]
            if draw(st.booleans()):
                opts["abbreviations"] = draw(entry_of("abbreviations"))
                if draw(st.booleans()):
                    over = over + ["abbreviations"]
        return ["pattern", spec, None, over]

    def chain(depth, free):
        opts, over = given(nested=depth > 0)
        inner = []
        for _ in range(draw(st.integers(1, 5))):
            if len(free) > 1:
                inner.append(operation(depth + 1, free))
        if not any(op[0] in ("pattern", "chain") for op in inner):
            inner.append(pattern(depth + 1, free))
        return ["chain", opts, over, inner]

    def operation(depth, free):
        kinds = ["defaults"] * 3 + ["pattern"] * 4
        if chained and depth < 3 and (not free or len(free) > 2):
            kinds += ["chain"] * (3 - depth)
        kind = draw(st.sampled_from(kinds))
        if kind == "defaults":
            return defaults(depth)
        if kind == "pattern":
            return pattern(depth, free)
        return chain(depth, free if depth else fresh())

    ops = [defaults(0)] + [operation(0, []) for _ in range(draw(st.sampled_from([1, 2, 3, 4, 5])))] + [pattern(0, [])]
    text += "".join(samples) + "-" + "".join(samples)
    if draw(st.sampled_from([True, False, False])):
        ops.insert(draw(st.integers(0, len(ops))), ["search", text])
    return {"text": text, "ops": ops}


def nested_ignore(ops):
    """A nested chain that ends up with ignored names."""
    found = []

    def walk(ops, model, depth):
        for op in ops:
            if op[0] == "defaults":
                model.set_defaults(op[1], op[2])
            elif op[0] == "chain":
                opts, _own = model.effective("chain", op[1], None, op[2])
                found.append(depth and opts.get("ignore_names"))
                walk(op[3], builders.Model(model), depth + 1)

    walk(ops, builders.Model(), 0)
    return any(found)


def levels(ops):
    """Registrations where an option comes from several levels."""
    several = 0
    model = builders.Model()
    for op in ops:
        if op[0] == "defaults":
            model.set_defaults(op[1], op[2])
        elif op[0] in ("pattern", "chain"):
            kind, given = ("chain", op[1]) if op[0] == "chain" else (op[1]["kind"], op[1]["opts"])
            names = list(given) + list(model.defaults.get(kind, {})) + list(model.defaults.get("general", {}))
            several += len(names) > len(set(names))
    return several


class C23(Prop):
    id = "C23"
    rule = ("histories of up to 6 operations: defaults at five scopes (with clear), patterns and chains (with defaults of their own, nested) with "
            "explicit options and overrides; 21 options of all kinds; spans, names, tags, values, flags, children of all matches and declared "
            "properties against the merge model; non-trivial: a registration takes an option from two levels and something matches")
    quick = 1400
    thorough = 40000

    def strategy(self):
        return cases()

    def expect(self, case):
        if nested_ignore(case["ops"]):
            return None
        try:
            out, rejected = builders.run_model(case["ops"], case["text"])
        except builders.OutOfDomain:
            return None
        model = builders.Model()
        properties = []
        for op in case["ops"]:
            if op[0] == "defaults":
                model.set_defaults(op[1], op[2])
            elif op[0] == "pattern":
                properties.append(model.effective(op[1]["kind"], op[1]["opts"], None, op[3])[0].get("properties"))
            elif op[0] == "chain":
                properties.append(model.effective("chain", op[1], None, op[2])[0].get("properties"))
        return {"views": c19.views(out), "rejected": rejected, "properties": properties}

    def check(self, case, expected, rec):
        if expected is None:
            rec.label("not judged")
            return
        for op in case["ops"]:
            rec.label(op[0])
        bulk = rb.Rebulk(default_rules=False)
        watch = builders.Watch()
        builders.run_real(case["ops"], bulk, rec, watch, {}, expected["rejected"])
        for turn in range(2):
            found = bulk.matches(case["text"])
            real = [specs.real_view(m) for m in found]
            markers = [specs.real_view(m) for m in found.markers]
            rec.eq(real, [v for v in expected["views"] if not v["marker"]], "matches (search %d)" % turn)
            rec.eq(markers, [v for v in expected["views"] if v["marker"]], "markers (search %d)" % turn)
        patterns = bulk.effective_patterns()
        rec.eq(len(patterns), len(expected["properties"]), "patterns")
        for pattern, properties in zip(patterns, expected["properties"]):
            rec.eq(dict(pattern.properties or {}), properties or {}, "declared properties")
        watch.check(rec)
        rec.hit(levels(case["ops"]) and expected["views"])


PROP = C23
