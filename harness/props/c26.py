"""Cropping and splitting."""

from hypothesis import strategies as st

from harness import seqgen
from harness.core import Prop
from harness.lib import plain, rb, snap

FORMATTERS = {"upper": str.upper, "len": len}


@st.composite
def cases(draw):
    text = draw(seqgen.sized_text("abab-_ c", 2, 16))
    a = draw(st.sampled_from([0, 0, 1, 2, 3, 4, len(text) - 1]))
    a = min(a, len(text) - 1)
    b = draw(st.sampled_from([len(text)] * 2 + list(range(a + 1, len(text) + 1))))
    crops = []
    for _ in range(draw(st.sampled_from([0, 1, 2, 3, 4, 5] * 5 + [9]))):
        style = draw(st.sampled_from(["any", "inside", "inside", "inside", "adjacent", "over", "empty"]))
        if style == "any":
            s = draw(st.integers(0, len(text)))
            e = draw(st.integers(s, len(text) + 1))
        elif style == "inside":
            s = draw(st.integers(a, b - 1))
            e = draw(st.sampled_from(list(range(s + 1, min(b, s + 3) + 1)) + [b]))
        elif style == "adjacent" and crops:
            s = crops[-1][1]
            e = s + draw(st.integers(1, 3))
        elif style == "over":
            s, e = max(0, a - draw(st.integers(0, 2))), b + draw(st.integers(0, 2))
            if draw(st.booleans()):
                e = draw(st.integers(a, b))
            s = min(s, e)
        else:
            s = e = draw(st.integers(0, len(text)))
        crops.append([s, e])
    return {
        "text": text, "span": [a, b], "crops": crops,
        "form": draw(st.sampled_from(["tuples", "lists", "matches", "mixed", "sequence", "single", "frozen", "frozen matches"])),
        "seps": draw(st.sampled_from(["-", "-_", " ", "-_ ", "a", "", "abc-_ ", "x"])),
        "name": draw(st.sampled_from([None, "n"])), "tags": draw(st.sampled_from([[], ["t"], ["t", "u"]])),
        "formatter": draw(st.sampled_from([None, "upper", "len"])), "value": draw(st.sampled_from([None, None, "lit"])),
        "private": draw(st.booleans()), "from_search": draw(st.booleans()),
        "index": draw(st.sampled_from([None, 0, 1, -1, 5])), "min": draw(st.sampled_from([None, 1, 2])),
        "as_index": draw(st.booleans()), "crop_style": draw(st.sampled_from(["plain", "child", "parent", "dressed"])),
    }


class C26(Prop):
    id = "C26"
    rule = ("matches (made by hand or by a search, with groups) over texts with separators; up to 5 overlapping, nested, "
            "adjacent, enclosing, empty or outside crops given as tuples, lists or matches, in a list, a tuple or a sequence, or as one bare span; "
            "separator sets; non-trivial: at least two pieces")
    quick = 1800
    thorough = 40000

    def strategy(self):
        return cases()

    def expect(self, case):
        a, b = case["span"]
        crops = case["crops"][:1] if case["form"] == "single" else case["crops"]
        left = [p for p in range(a, b) if not any(s <= p < e for s, e in crops)]
        runs = []
        for p in range(a, b):
            if case["text"][p] in case["seps"]:
                continue
            if runs and runs[-1][1] == p:
                runs[-1][1] = p + 1
            else:
                runs.append([p, p + 1])
        return {"left": left, "runs": runs}

    def piece(self, case, rec, piece, what):
        start, end = piece.start, piece.end
        text = case["text"]
        rec.ok(start < end, what + ": empty piece", (start, end))
        rec.eq(piece.raw, text[start:end], what + ": text of the piece")
        rec.eq((piece.name, list(piece.tags), bool(piece.private)), (case["name"], case["tags"], case["private"]), what + ": name, tags, privacy")
        value = text[start:end]
        if case["formatter"]:
            value = FORMATTERS[case["formatter"]](value)
        rec.eq(piece.value, case["value"] or value, what + ": value of the piece")
        rec.eq(piece.input_string, text, what + ": input string")

    def check(self, case, expected, rec):
        text, (a, b) = case["text"], case["span"]
        formatter = FORMATTERS.get(case["formatter"])
        if case["from_search"]:
            options = {"name": case["name"], "tags": list(case["tags"]), "formatter": formatter, "value": case["value"], "private": case["private"]}
            wanted = (a, b)
            pattern = rb.Rebulk(default_rules=False).regex(
                "(?s)(?<=^.{%d})(?P<g>.)(.{%d})" % (a, b - a - 1),
                **{k: v for k, v in options.items() if v})
            found = [m for m in pattern.matches(text) if m.span == wanted]
            rec.eq(len(found), 1, "search for the match to cut")
            match = found[0]
        else:
            match = rb.Match(a, b, name=case["name"], tags=list(case["tags"]), formatter=formatter, value=case["value"],
                             private=case["private"], input_string=text)
        before = snap(match)
        form = case["form"]
        spans = case["crops"]
        if form == "tuples":
            crops = [tuple(s) for s in spans]
        elif form == "lists":
            crops = [list(s) for s in spans]
        elif form == "mixed":
            crops = [tuple(s) if i % 2 else self.crop(case, s) for i, s in enumerate(spans)]
        elif form == "matches":
            crops = [self.crop(case, s) for s in spans]
        elif form == "frozen":
            crops = tuple(tuple(s) for s in spans)
        elif form == "frozen matches":
            crops = tuple(self.crop(case, s) for s in spans)
        elif form == "sequence":
            crops = rb.Matches([self.crop(case, s) for s in spans], input_string=text)
        else:
            crops = tuple(spans[0]) if spans and case["as_index"] else (self.crop(case, spans[0]) if spans else [])
        crop_list = list(crops) if not isinstance(crops, rb.Match) else [crops]
        crops_before = [(c.span, c.name) if isinstance(c, rb.Match) else c for c in crop_list]
        pieces = match.crop(crops)
        rec.hit(len(pieces) > 1 or len(expected["runs"]) > 1)
        rec.label("pieces:%d" % min(len(pieces), 4), "runs:%d" % min(len(expected["runs"]), 4), "form:" + form)
        for piece in pieces:
            self.piece(case, rec, piece, "crop")
            rec.ok(piece is not match, "a piece is a new match")
        covered = sorted(p for piece in pieces for p in range(piece.start, piece.end))
        rec.eq(covered, expected["left"], "positions left by cropping %s with %s" % (case["span"], spans))
        rec.eq(snap(match), before, "the cropped match itself")
        rec.eq([(c.span, c.name) if isinstance(c, rb.Match) else c for c in crop_list], crops_before, "the crops")
        self.select(case, rec, lambda *args, **kw: match.crop(crops, *args, **kw), pieces)

        runs = match.split(case["seps"])
        rec.eq([[p.start, p.end] for p in runs], expected["runs"], "pieces of splitting %r on %r" % (text[a:b], case["seps"]))
        for piece in runs:
            self.piece(case, rec, piece, "split")
        rec.eq(snap(match), before, "the split match itself")
        self.select(case, rec, lambda *args, **kw: match.split(case["seps"], *args, **kw), runs)
        # pieces are independent objects
        children = [len(piece.children) for piece in pieces + runs]
        for number, piece in enumerate(pieces + runs):
            rec.eq((piece.name, list(piece.tags), len(piece.children)), (case["name"], case["tags"], children[number]),
                   "piece %d after other pieces changed" % number)
            piece.tags.append("mine")
            piece.name = "mine"
            piece.children.clear()
        rec.eq(snap(match), before, "the match after its pieces changed")

    def crop(self, case, span):
        """A match to cut with: some have a parent, children, another value or raw span, none of which counts."""
        style, text = case["crop_style"], case["text"]
        made = rb.Match(*span, input_string=text)
        if style == "child":
            made.parent = rb.Match(max(0, span[0] - 2), span[1] + 2, input_string=text)
        elif style == "parent":
            made.children.append(rb.Match(span[0], span[0] + 1, parent=made, input_string=text))
        elif style == "dressed":
            made.value = "other"
            made.raw_start, made.raw_end = span[0] + 1, span[1] + 3
            made.private = True
        return made

    def select(self, case, rec, query, full):
        full = [[m.start, m.end] for m in full]
        predicate = (lambda m: len(m) >= case["min"]) if case["min"] else None
        wanted = [s for s in full if not case["min"] or s[1] - s[0] >= case["min"]]
        rec.eq([[m.start, m.end] for m in query(predicate)], wanted, "predicate")
        index = case["index"]
        if index is not None:
            one = wanted[index] if -len(wanted) <= index < len(wanted) else None
            for got in (query(predicate, index), query(predicate=predicate, index=index)):
                rec.eq(got and [got.start, got.end], one, "predicate and index")
            got = query(index)
            one = full[index] if -len(full) <= index < len(full) else None
            rec.eq(got and [got.start, got.end], one, "index")


PROP = C26
