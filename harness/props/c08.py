"""Default conflict resolution."""

from hypothesis import strategies as st

from harness import configs, seqgen
from harness.core import Prop
from harness.lib import rb


@st.composite
def spans_pattern(draw, length):
    """A functional pattern yielding a cluster."""
    items = []
    for _ in range(draw(st.integers(1, 5))):
        start = draw(st.integers(0, length - 1))
        end = start + draw(st.sampled_from([1, 1, 2, 2, 3, 4, 6]))
        item = {"start": start, "end": min(end, length)}
        if draw(st.booleans()):
            item["name"] = draw(st.sampled_from(["n", "m", None]))
        if draw(st.sampled_from([True, False, False, False])):
            item["private"] = True
        if draw(st.sampled_from([True, False, False, False])):
            item["value"] = draw(st.sampled_from(["V", 5]))
        items.append(item)
    return {"kind": "functional", "args": [items], "opts": {}}


@st.composite
def cases(draw):
    length = draw(st.integers(4, 12))
    entries = []
    for _ in range(draw(st.sampled_from([1, 2, 2, 3]))):
        style = draw(st.sampled_from(["cluster", "cluster", "any", "groups"]))
        if style == "cluster":
            entries.append(draw(spans_pattern(length)))
        else:
            entry = draw(configs.entries(length, disabling=False, **({"chain": False, "kinds": ["regex"]} if style == "groups" else {})))
            if style == "groups":
                entry["opts"].pop("marker", None)
                entry["opts"][draw(st.sampled_from(["children", "every"]))] = True
            entries.append(entry)
    if any(entry["kind"] == "chain" for entry in entries):
        text = draw(configs.texts(entries))
        text += "ab-" * ((max(length - len(text), 0) + 2) // 3)
    else:
        text = draw(seqgen.sized_text("aabbcx", length, length))
    return {"text": text, "patterns": entries, "child": draw(st.sampled_from([False, False, True]))}


def capture(into, priority):
    """A rule that takes a picture of the sequence."""

    def when(self, matches, context):
        into.append(list(matches))

    return type("Capture%d" % priority, (rb.Rule,), {"priority": priority, "when": when})


def overlap(a, b):
    return a.start < b.end and b.start < a.end


def root(match):
    while match.parent is not None:
        match = match.parent
    return match.end - match.start


class C08(Prop):
    id = "C08"
    rule = ("1 to 3 patterns: functional clusters of up to 5 overlapping matches, or any string, regex or functional pattern or chain with "
            "children, values, private matches and markers; resolved with the default rules, pictures taken right before and after; "
            "non-trivial: at least three public matches, some dropped, some kept")
    quick = 1600
    thorough = 40000

    def strategy(self):
        return cases()

    def check(self, case, expected, rec):
        pictures = []
        bulk = rb.Rebulk()
        target = rb.Rebulk() if case["child"] else bulk
        for entry in case["patterns"]:
            configs.add(target, entry)
        if target is not bulk:
            bulk.rebulk(target)
        bulk.rules(capture(pictures, rb.PRE_PROCESS + 1), capture(pictures, rb.PRE_PROCESS - 1))
        result = list(bulk.matches(case["text"]))
        rec.eq(len(pictures), 2, "pictures taken")
        before, after = pictures
        ids = [id(m) for m in before]
        rec.eq(len(set(ids)), len(ids), "matches found once")
        kept = {id(m) for m in after}
        rec.eq([id(m) for m in after], [i for i in ids if i in kept], "order and identity of the survivors")
        rec.eq([id(m) for m in result], [id(m) for m in after if not m.private], "result")
        public = [m for m in before if not m.private]
        flat = all(m.parent is None for m in public)
        for match in before:
            if match.private:
                rec.ok(id(match) in kept, "a private match was removed", match)
                continue
            longer = [m for m in public if overlap(m, match) and root(m) > root(match)]
            if id(match) not in kept:
                rec.ok(longer, "dropped without an overlapping longer match", match, before)
            if not longer:
                rec.ok(id(match) in kept, "overlaps no longer match but was dropped", match, before)
            elif flat:
                rec.ok(id(match) not in kept, "overlaps a longer match but was kept", match, before)
        for match in result:
            for other in result:
                if overlap(match, other):
                    rec.eq(root(match), root(other), "source lengths of overlapping results %r, %r" % (match, other))
        rec.label("flat" if flat else "with children", "private" if len(public) < len(before) else "public only")
        rec.hit(len(public) > 2 and 0 < len(result) < len(public))


PROP = C08
