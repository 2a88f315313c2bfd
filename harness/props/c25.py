"""Match equality, hashing, ordering."""

from hypothesis import strategies as st

from harness.core import Prop
from harness.lib import rb

TEXT = "abABabcdef"
FORMATTERS = {"upper": str.upper, "len": len, None: None}
FOREIGN = [0, 1, None, "ab", [0, 2], (0, 2), 1.5, object(), {"start": 0, "end": 2}]


class Lookalike:
    """Not a match, whatever it looks like."""

    def __init__(self, match):
        self.start, self.end, self.span = match.start, match.end, match.span
        self.value, self.name, self.parent = match.value, match.name, match.parent

    __hash__ = None

    def __len__(self):
        return self.end - self.start


@st.composite
def cases(draw):
    n = draw(st.integers(2, 6))
    specs = []
    for i in range(n):
        if specs and draw(st.sampled_from([True, False, False])):
            spec = dict(draw(st.sampled_from(specs)))
            change = draw(st.sampled_from(["none", "tags", "private", "name", "value", "end", "parent", "input", "marker", "formatter", "class"]))
            if change == "tags":
                spec["tags"] = ["x"]
            elif change == "private":
                spec["private"] = not spec["private"]
            elif change == "marker":
                spec["marker"] = not spec["marker"]
            elif change == "name":
                spec["name"] = draw(st.sampled_from([None, "n", "m"]))
            elif change == "value":
                spec["value"] = draw(st.sampled_from([None, "ab", "AB", 2]))
            elif change == "end":
                spec["span"] = [spec["span"][0], spec["span"][1] + 1]
            elif change == "parent":
                spec["parent"] = draw(st.sampled_from([None] + list(range(i))))
            elif change == "class":
                spec["special"] = not spec["special"]
            elif change == "input":
                spec["input"] = not spec["input"]
            elif change == "formatter":
                spec["formatter"] = draw(st.sampled_from([None, "upper", "len"]))
            if spec["parent"] is not None and spec["parent"] >= i:
                spec["parent"] = None
        else:
            a = draw(st.integers(0, 4))
            spec = {
                "span": [a, a + draw(st.integers(1, 4))], "name": draw(st.sampled_from([None, None, "n", "m"])),
                "value": draw(st.sampled_from([None, None, None, "ab", "AB", 2, [1], ""])),
                "formatter": draw(st.sampled_from([None, None, "upper", "len"])),
                "parent": draw(st.sampled_from([None, None] + list(range(i)))),
                "input": draw(st.sampled_from([True, True, True, False])), "tags": draw(st.sampled_from([[], ["t"]])),
                "private": draw(st.booleans()), "marker": False, "special": False,
            }
        specs.append(spec)
    return specs


def value_of(spec):
    if spec["value"]:
        return spec["value"]
    if not spec["input"]:
        # nothing to format: a formatter is given no text
        return None
    raw = TEXT[spec["span"][0]:spec["span"][1]]
    return FORMATTERS[spec["formatter"]](raw) if spec["formatter"] else raw


class C25(Prop):
    id = "C25"
    rule = ("2-6 matches, many of them near-copies differing in one attribute (tags, privacy, name, value, end, parent, text, "
            "formatter, class), parents up to 5 deep, against each other and against foreign objects; non-trivial: two distinct "
            "objects are equal or differ in exactly the parent or the value")
    quick = 1400
    thorough = 30000

    def strategy(self):
        return cases()

    def expect(self, case):
        def key(i):
            spec = case[i]
            return [spec["span"], value_of(spec), spec["name"], key(spec["parent"]) if spec["parent"] is not None else None]
        return [key(i) for i in range(len(case))]

    def check(self, case, keys, rec):
        class Special(rb.Match):
            """A match too."""

        def build():
            made = []
            for spec in case:
                made.append((Special if spec["special"] else rb.Match)(
                    spec["span"][0], spec["span"][1], value=spec["value"], name=spec["name"], tags=list(spec["tags"]),
                    private=spec["private"], marker=spec["marker"], parent=made[spec["parent"]] if spec["parent"] is not None else None,
                    input_string=TEXT if spec["input"] else None,
                    formatter=FORMATTERS[spec["formatter"]] if spec["input"] else None))
            return made

        ms = build()
        n = len(ms)
        eqs = {}
        for i in range(n):
            rec.eq(len(ms[i]), case[i]["span"][1] - case[i]["span"][0], "length")
            rec.ok(ms[i] == ms[i] and not (ms[i] != ms[i]), "reflexive")
            for j in range(n):
                a, b = ms[i], ms[j]
                same = keys[i] == keys[j]
                eqs[i, j] = a == b
                rec.eq(a == b, same, "equality of %s and %s" % (case[i], case[j]))
                rec.eq(a != b, not same, "inequality of %s and %s" % (case[i], case[j]))
                if same:
                    rec.eq(hash(a), hash(b), "hashes of equal matches")
                    if i != j:
                        rec.hit()
                        rec.label("equal twins")
                else:
                    diff = [x for x in range(4) if keys[i][x] != keys[j][x]]
                    if diff in ([1], [3]):
                        rec.hit()
                        rec.label("differ by " + {1: "value", 3: "parent"}[diff[0]])
                sa, sb = tuple(case[i]["span"]), tuple(case[j]["span"])
                rec.eq((a < b, a <= b, a > b, a >= b), (sa < sb, sa <= sb, sa > sb, sa >= sb), "order of %s and %s" % (sa, sb))
        for i in range(n):
            for j in range(n):
                rec.eq(eqs[i, j], eqs[j, i], "symmetric")
                for k in range(n):
                    rec.ok(not (eqs[i, j] and eqs[j, k]) or eqs[i, k], "transitive")
        rec.eq([m.span for m in sorted(ms)], sorted(tuple(s["span"]) for s in case), "sorted")
        rec.eq([id(m) for m in sorted(ms)], [id(m) for m in sorted(ms, key=lambda m: m.span)], "stable order")
        for foreign in FOREIGN + [Lookalike(ms[0])]:
            m = ms[0]
            rec.ok(not (m == foreign) and not (foreign == m), "equal to %r" % (foreign,))
            rec.ok(m != foreign and foreign != m, "not different from %r" % (foreign,))
            for name, op in (("<", lambda x, y: x < y), ("<=", lambda x, y: x <= y), (">", lambda x, y: x > y), (">=", lambda x, y: x >= y)):
                with rec.raises(TypeError, "match %s %r" % (name, foreign)):
                    op(m, foreign)
        table = {}
        for m in ms:
            table.setdefault(m, m)
        pool = set(ms)
        rec.eq(len(pool), len({repr(k) for k in keys}), "distinct matches in a set")
        for i, m in enumerate(build()):
            rec.ok(m in pool and m in table, "an equal match is found in a set and a dict")
        # a match stays findable after changes
        alone = {ms[-1]}
        book = {ms[-1]: "x"}
        before = hash(ms[-1])
        for change in ("value", "name", "tags"):
            if change == "value":
                ms[-1].value = "changed"
            elif change == "name":
                ms[-1].name = "changed"
            else:
                ms[-1].tags.append("changed")
            rec.ok(ms[-1] in alone and book.get(ms[-1]) == "x", "findable after a change of " + change)
            rec.eq(hash(ms[-1]), before, "hash after a change of " + change)


PROP = C25
