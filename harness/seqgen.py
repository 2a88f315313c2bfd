"""Match sequences: specs of matches, generators, and the model side of them.

A match spec is ``{"span": [s, e], "name":, "tags":, "value":, "private":, "fmt":}``; a sequence is a list of
indices in a pool of specs, so that identity (same index) and equality (equal specs) are both under control.
"""

from hypothesis import strategies as st

from harness.lib import rb

FORMATTERS = {"upper": str.upper, "len": len, "zero": lambda raw: 0, "none": lambda raw: None, "empty": lambda raw: ""}


@st.composite
def spec_pools(draw, length, max_size=8, min_size=1, values=(None, None, None, "lit", 7), names=(None, "n", "m", "o"),
               tags=("t", "u", "v"), fmt=(None,), dup=0.25):
    pool = []
    for _ in range(draw(st.integers(min_size, max_size)) + draw(st.sampled_from([0] * 19 + [7]))):
        if pool and draw(st.sampled_from([False] * 3 + [True])):
            spec = dict(draw(st.sampled_from(pool)))  # an equal twin, or nearly
            change = draw(st.sampled_from(["none", "none", "name", "tags", "shift"]))
            if change == "name":
                spec["name"] = draw(st.sampled_from(list(names)))
            elif change == "tags":
                spec["tags"] = draw(st.lists(st.sampled_from(list(tags)), max_size=3))
            elif change == "shift":
                spec["span"] = [spec["span"][0], draw(st.integers(spec["span"][0] + 1, length))]
            pool.append(spec)
            continue
        style = draw(st.sampled_from(["any", "any", "short", "short", "next"]))
        if style == "next" and pool and pool[-1]["span"][1] < length:
            start = pool[-1]["span"][1]
            end = draw(st.integers(start + 1, min(length, start + 3)))
        elif style == "short":
            start = draw(st.integers(0, length - 1))
            end = draw(st.integers(start + 1, min(length, start + 2)))
        else:
            start = draw(st.integers(0, length - 1))
            end = draw(st.integers(start + 1, length))
        pool.append({
            "span": [start, end], "name": draw(st.sampled_from(list(names))),
            "tags": draw(st.lists(st.sampled_from(list(tags)), max_size=3)),
            "value": draw(st.sampled_from(list(values))), "private": draw(st.sampled_from([False, False, True])),
            "fmt": draw(st.sampled_from(list(fmt))), "nth": draw(st.sampled_from([0, 0, 0, 1, 3])),
        })
        if draw(st.sampled_from([False] * 9 + [True])):  # the text of a match may be set apart from its span
            pool[-1]["raw"] = sorted([draw(st.integers(0, length)), draw(st.integers(0, length))])
    return pool


def value_of(spec, text):
    if spec["value"]:
        return spec["value"]
    start, end = spec.get("raw") or spec["span"]
    raw = text[start:end] if text else None
    if spec.get("fmt"):
        return FORMATTERS[spec["fmt"]](raw)
    return raw


def eq_key(spec, text):
    value = value_of(spec, text)
    return (tuple(spec["span"]), type(value).__name__, value, spec["name"])


def build(spec, text, marker=False):
    made = rb.Match(spec["span"][0], spec["span"][1], name=spec["name"], tags=list(spec["tags"]), value=spec["value"],
                    private=spec["private"], marker=marker, input_string=text, formatter=FORMATTERS.get(spec.get("fmt")))
    if spec.get("raw"):
        made.raw_start, made.raw_end = spec["raw"]
    made.match_index = spec.get("nth", 0)
    return made


def build_all(specs, text, marker=False):
    return [build(spec, text, marker) for spec in specs]


def max_end(specs, text):
    return max([len(text or "")] + [s["span"][1] for s in specs])


def covers(spec, pos):
    return spec["span"][0] <= pos < spec["span"][1]


# predicates usable by models (on specs) and by the real code (on matches)
PREDICATES = {
    None: (None, None),
    "named_n": (lambda s: s["name"] == "n", lambda m: m.name == "n"),
    "long": (lambda s: s["span"][1] - s["span"][0] > 1, lambda m: len(m) > 1),
    "tag_t": (lambda s: "t" in s["tags"], lambda m: "t" in m.tags),
    "none": (lambda s: False, lambda m: False),
    "truthy": (lambda s: s["span"][0] % 2, lambda m: m.start % 2),  # answers 0 or 1, not a bool
}


def select(items, predicate, index):
    """Model of predicate and index on a list."""
    out = [i for i in items if predicate is None or predicate(i)]
    if index is None:
        return out
    return out[index] if -len(out) <= index < len(out) else None


texts = st.text("ab-_. ", min_size=1, max_size=12)


def sized_text(alphabet, low, high):
    return st.sampled_from(list(range(low, high + 1))).flatmap(lambda n: st.text(alphabet, min_size=n, max_size=n))
