"""What a match says of itself."""

from hypothesis import strategies as st

from harness.core import Prop
from harness.lib import plain, rb

TEXTS = ["abcdefgh", "ABC-def ghi", "0123456789", "h\u00e9\u0130\u00df\U0001f600xyz"]
VALUES = [None, "own", 0, 5, "", [], ["l"], False, True, 1.5, {"k": 1}]
FORMATTERS = {"none": None, "upper": str.upper, "len": len, "zero": lambda raw: 0, "null": lambda raw: None, "list": list, "twice": lambda raw: raw + raw}
NAMES = [None, "n", "m", "o", ""]


class Callable:
    """A formatter that is an object; without a length of its own it is true."""

    def __call__(self, raw):
        return "<%s>" % raw


class Empty(Callable):
    """A formatter whose truth is its length."""

    def __len__(self):
        return 3


FORMATTERS["object"] = Callable()
FORMATTERS["sized"] = Empty()


def matches(number):
    return st.fixed_dictionaries({
        "start": st.integers(0, 6), "size": st.integers(1, 4), "text": st.sampled_from([None, 0, 0, 1, 2, 3]), "value": st.sampled_from(VALUES + [None] * 8),
        "formatter": st.sampled_from(sorted(FORMATTERS)), "name": st.sampled_from(NAMES), "tags": st.lists(st.sampled_from(["t", "u"]), max_size=2),
        "parent": st.sampled_from([None] + list(range(number)))})


@st.composite
def cases(draw):
    count = draw(st.sampled_from([1, 2, 3, 4, 5] * 4 + [9]))
    pool = [draw(matches(number)) for number in range(count)]
    ops = []
    which = st.integers(0, count - 1)
    for _ in range(draw(st.sampled_from([1, 3, 5, 8, 12]))):
        kind = draw(st.sampled_from(["start", "end", "raw_start", "raw_start", "raw_end", "raw_end", "text", "value", "formatter", "name", "adopt", "adopt", "orphan",
                                     "tag", "children", "look", "both"]))
        number = draw(which)
        if kind in ("start", "raw_start"):
            arg = draw(st.sampled_from(list(range(7)) + [None] if kind == "raw_start" else list(range(7))))
        elif kind in ("end", "raw_end"):
            arg = draw(st.sampled_from(list(range(11)) + [None] if kind == "raw_end" else list(range(11))))
        elif kind == "text":
            arg = draw(st.sampled_from([None, 0, 1, 2, 3]))
        elif kind == "value":
            arg = draw(st.integers(0, len(VALUES) - 1))
        elif kind == "formatter":
            arg = draw(st.sampled_from(sorted(FORMATTERS)))
        elif kind == "name":
            arg = draw(st.sampled_from(NAMES))
        elif kind == "tag":
            arg = draw(st.sampled_from(["t", "u", "v"]))
        elif kind == "both":
            arg = [draw(st.integers(0, 5)), draw(st.integers(6, 11))]
        elif kind == "adopt":
            arg = draw(which)
        elif kind == "children":
            arg = draw(st.lists(which, max_size=draw(st.sampled_from([3, 3, 3, 9])), unique=True))
        else:
            arg = None
        ops.append([kind, number, arg])
    return {"pool": pool, "ops": ops}


class Model:
    """Matches as plain records."""

    def __init__(self, pool):
        self.items = []
        for spec in pool:
            self.items.append({"start": spec["start"], "end": spec["start"] + spec["size"], "raw_start": None, "raw_end": None, "text": spec["text"],
                               "value": spec["value"], "formatter": spec["formatter"], "name": spec["name"], "tags": list(spec["tags"]),
                               "parent": spec["parent"], "children": []})

    def above(self, number):
        """The match and its parents."""
        out = []
        while number is not None and number not in out:
            out.append(number)
            number = self.items[number]["parent"]
        return out

    def below(self, number):
        out, todo = set(), [number]
        while todo:
            one = todo.pop()
            if one not in out:
                out.add(one)
                todo += self.items[one]["children"]
        return out

    def fits(self, op):
        """Whether an operation keeps the matches non-empty and their family a tree."""
        kind, number, arg = op
        item = self.items[number]
        if kind in ("start", "end"):
            start, end = (arg, item["end"]) if kind == "start" else (item["start"], arg)
            return start < end
        if kind == "adopt":
            return number not in self.above(arg) and number not in self.below(arg) and arg not in item["children"] and number != arg and arg not in self.above(number)
        if kind == "children":
            return all(number not in self.below(child) and number != child for child in arg)
        return True

    def apply(self, op):
        kind, number, arg = op
        item = self.items[number]
        if kind == "value":
            item["value"] = VALUES[arg]
        elif kind == "tag":
            item["tags"].append(arg)
        elif kind == "both":
            item["start"], item["end"] = arg
        elif kind == "adopt":
            item["children"].append(arg)
            self.items[arg]["parent"] = number
        elif kind == "orphan":
            item["parent"] = None
        elif kind == "children":
            item["children"] = list(arg)
        elif kind != "look":
            item[kind] = arg

    def names(self, number):
        item = self.items[number]
        if not item["children"]:
            return {item["name"]}
        return {name for child in item["children"] for name in self.names(child)}

    def view(self, number):
        item = self.items[number]
        text = None if item["text"] is None else TEXTS[item["text"]]
        raw_start = item["start"] if item["raw_start"] is None else item["raw_start"]
        raw_end = item["end"] if item["raw_end"] is None else item["raw_end"]
        raw = None if text is None else "".join(char for place, char in enumerate(text) if raw_start <= place < raw_end)
        if item["value"]:
            value = item["value"]
        elif item["formatter"] != "none":
            value = None if raw is None else FORMATTERS[item["formatter"]](raw)
        else:
            value = raw
        names = self.names(number)
        return {"span": (item["start"], item["end"]), "len": item["end"] - item["start"], "raw bounds": (raw_start, raw_end), "raw": raw,
                "value": plain(value) if raw is not None or item["value"] or item["formatter"] == "none" else "not asked",
                "literal": bool(item["value"]), "names": names, "initiator": self.above(number)[-1], "name": item["name"], "tags": list(item["tags"]),
                "named": [bool(names & {name}) for name in NAMES] + [bool(names & {"m", "o"})],
                "tagged": [tag in item["tags"] for tag in "tuv"] + [bool({"u", "v"} & set(item["tags"]))], "children": list(item["children"])}


class C35(Prop):
    id = "C35"
    rule = ("up to 5 matches with and without text, value, formatter, name and tags, in a family tree, under up to 12 edits of bounds, raw bounds (set and unset), text, "
            "value, formatter, name, tags, parents and children, everything derived being read after each edit; non-trivial: raw bounds or text "
            "or children of a match change after it was read")
    quick = 1800
    thorough = 60000

    def strategy(self):
        return cases()

    def expect(self, case):
        model = Model(case["pool"])
        views = [[model.view(number) for number in range(len(case["pool"]))]]
        kept = []
        for op in case["ops"]:
            if model.fits(op):
                model.apply(op)
                kept.append(op)
                views.append([model.view(number) for number in range(len(case["pool"]))])
        return {"ops": kept, "views": views}

    def make(self, spec, made):
        return rb.Match(spec["start"], spec["start"] + spec["size"], value=spec["value"], name=spec["name"], tags=list(spec["tags"]),
                        parent=None if spec["parent"] is None else made[spec["parent"]], formatter=FORMATTERS[spec["formatter"]],
                        input_string=None if spec["text"] is None else TEXTS[spec["text"]])

    def view(self, made, number, want):
        match = made[number]
        place = {id(m): n for n, m in enumerate(made)}
        return {"span": match.span, "len": len(match), "raw bounds": (match.raw_start, match.raw_end), "raw": match.raw,
                "value": plain(match.value) if want["value"] != "not asked" else "not asked", "literal": match.has_literal_value, "names": set(match.names),
                "initiator": place.get(id(match.initiator)), "name": match.name, "tags": match.tags,
                "named": [match.named(name) for name in NAMES] + [match.named("m", "o")],
                "tagged": [match.tagged(tag) for tag in "tuv"] + [match.tagged("u", "v")], "children": [place.get(id(c)) for c in match.children]}

    def check(self, case, expected, rec):
        made = []
        for spec in case["pool"]:
            made.append(self.make(spec, made))
        self.compare(made, expected["views"][0], rec, "at first")
        for op, want in zip(expected["ops"], expected["views"][1:]):
            self.apply(made, op)
            rec.label(op[0])
            rec.hit(op[0] in ("raw_start", "raw_end", "text", "children", "adopt"))
            self.compare(made, want, rec, "after %s" % (op,))

    def compare(self, made, want, rec, when):
        for number in range(len(made)):
            rec.eq(self.view(made, number, want[number]), want[number], "match %d %s" % (number, when))

    def apply(self, made, op):
        kind, number, arg = op
        match = made[number]
        if kind == "text":
            match.input_string = None if arg is None else TEXTS[arg]
        elif kind == "value":
            match.value = VALUES[arg]
        elif kind == "formatter":
            match.formatter = FORMATTERS[arg]
        elif kind == "tag":
            match.tags.append(arg)
        elif kind == "both":
            match.start, match.end = arg
        elif kind == "adopt":
            match.children.append(made[arg])
            made[arg].parent = match
        elif kind == "orphan":
            match.parent = None
        elif kind == "children":
            match.children = rb.Matches([made[child] for child in arg])
        elif kind != "look":
            setattr(match, kind, arg)


PROP = C35
