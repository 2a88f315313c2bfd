"""String patterns."""

from hypothesis import strategies as st

from harness.core import Prop
from harness.lib import rb

ALPHABETS = ["ab", "ab", "abAB", "ab c", "aAbBİıſ", "éÉaßẞ", "ΣσΑα", "ǅǆa", "a.*(", "a\n\t-"]


def fold(char):
    lower = char.lower()
    return lower if len(lower) == 1 else char


def occurrences(text, sub, ignore_case, start=0, end=None):
    """Left-to-right non-overlapping scan, character by character."""
    n = len(text)
    start = 0 if start is None else (max(n + start, 0) if start < 0 else start)
    end = n if end is None else (max(n + end, 0) if end < 0 else min(end, n))
    found = []
    if not sub:
        return found
    same = (lambda a, b: fold(a) == fold(b)) if ignore_case else (lambda a, b: a == b)
    at = start
    while at + len(sub) <= end:
        if all(same(text[at + k], sub[k]) for k in range(len(sub))):
            found.append(at)
            at += len(sub)
        else:
            at += 1
    return found


@st.composite
def cases(draw):
    alphabet = draw(st.one_of(st.sampled_from(ALPHABETS), st.sampled_from(ALPHABETS), st.just(None)))
    chars = st.sampled_from(alphabet) if alphabet else st.characters(blacklist_categories=("Cs",))
    text = "".join(draw(st.lists(chars, max_size=24)))
    subs = []
    for _ in range(draw(st.integers(1, 4)) + draw(st.sampled_from([0] * 19 + [5]))):
        style = draw(st.sampled_from(["cut", "cut", "free", "repeat", "empty", "case", "dup", "whole"]))
        if style == "empty":
            sub = ""
        elif style == "dup" and subs:
            sub = draw(st.sampled_from(subs))
        elif style == "whole":
            sub = text
        elif style == "repeat":
            sub = draw(chars) * draw(st.integers(1, 3))
        elif style == "free" or not text:
            sub = "".join(draw(st.lists(chars, min_size=1, max_size=3)))
        else:
            a = draw(st.integers(0, len(text) - 1))
            sub = text[a:a + draw(st.integers(1, 4))]
            if style == "case":
                sub = "".join(c.swapcase() if len(c.swapcase()) == 1 else c for c in sub)
        subs.append(sub)
    bounds = st.one_of(st.none(), st.integers(-3, len(text) + 2))
    return {"text": text, "subs": subs, "ignore_case": draw(st.booleans()), "window": [draw(bounds), draw(bounds)]}


class C01(Prop):
    id = "C01"
    rule = ("texts over small alphabets (repetitions, overlaps, special and case-length-changing characters) or any Unicode, "
            "1-4 search strings cut from the text, repeated, case-swapped, empty, duplicated or equal to it; ignore_case; "
            "windows; non-trivial: at least two occurrences")
    quick = 3000
    thorough = 60000
    fixed = [
        {"text": "İabc İABC", "subs": ["abc"], "ignore_case": True, "window": [None, None]},
        {"text": "aaaa", "subs": ["", "aa"], "ignore_case": False, "window": [0, None]},
    ]

    def strategy(self):
        return cases()

    def expect(self, case):
        text, ignore = case["text"], case["ignore_case"]
        found = [[i, i + len(sub)] for sub in case["subs"] for i in occurrences(text, sub, ignore)]
        window = [occurrences(text, sub, ignore, *case["window"]) for sub in case["subs"]]
        return {"found": found, "window": window}

    def check(self, case, expected, rec):
        text, subs, ignore = case["text"], case["subs"], case["ignore_case"]
        rec.hit(len(expected["found"]) > 1)
        rec.label("ignore_case" if ignore else "case", "found:%d" % min(len(expected["found"]), 4))
        options = {"ignore_case": True} if ignore else {}
        for rebulk in (
            rb.Rebulk(default_rules=False).string(*subs, **options),
            rb.Rebulk(default_rules=False).string_defaults(**options).string(*subs, name="n"),
        ):
            matches = rebulk.matches(text)
            rec.eq([[m.start, m.end] for m in matches], expected["found"], "occurrences")
            for m in matches:
                rec.eq((m.raw, m.value), (text[m.start:m.end],) * 2, "text of the match")
        one = [m.span for sub in subs for m in rb.StringPattern(sub, **options).matches(text)]
        rec.eq([list(s) for s in one], expected["found"], "occurrences, pattern by pattern")
        for sub, window in zip(subs, expected["window"]):
            start, end = case["window"]
            limit = len(text) + 3
            got = []
            for index in rb.find_all(text, sub, start, end, ignore):
                got.append(index)
                if len(got) > limit:
                    break
            rec.eq(got, window, "find_all(%r, start=%r, end=%r)" % (sub, start, end))


PROP = C01
