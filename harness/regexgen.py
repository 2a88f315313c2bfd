"""Random regular expressions as JSON trees."""

from hypothesis import strategies as st

ATOMS = ["a", "b", "1", ".", "-", "_", "[ab]", "[^a]", r"\d", r"\w", r"\W", "é", "A"]
FIXED = ["a", "b", "1", "[ab]", r"\d"]
QUANTIFIERS = ["?", "*", "+", "{2}", "{1,2}", "{0,1}", "*?", "+?", "??"]
ANCHORS = ["^", "$", r"\b", r"\B", r"\A", r"\Z"]
LOOKS = ["(?=", "(?!", "(?<=", "(?<!"]


def trees(atoms=None, anchors=None, looks=True, abbreviations=(), max_leaves=7):
    leaf = st.one_of(
        st.sampled_from(atoms or ATOMS).map(lambda a: ["lit", a]),
        st.sampled_from(atoms or ATOMS).map(lambda a: ["lit", a]),
        st.sampled_from(anchors or ANCHORS).map(lambda a: ["lit", a]),
        *([st.sampled_from(list(abbreviations)).map(lambda a: ["lit", a])] if abbreviations else []),
    )

    def extend(child):
        options = [
            st.lists(child, min_size=2, max_size=3).map(lambda c: ["cat", c]),
            st.lists(child, min_size=2, max_size=3).map(lambda c: ["cat", c]),
            st.lists(child, min_size=2, max_size=2).map(lambda c: ["alt", c]),
            st.tuples(child, st.sampled_from(QUANTIFIERS)).map(lambda c: ["rep", *c]),
            # groups that may be met in another order than they are written
            st.tuples(child, child, st.sampled_from([None, "x"]), st.sampled_from(["+", "*", "{2}", "{1,3}"])).map(
                lambda c: ["rep", ["alt", [["grp", c[0], "x"], ["grp", c[1], c[2]]]], c[3]]),
            child.map(lambda c: ["grp", c, None]),
            child.map(lambda c: ["grp", c, "x"]),
        ]
        if looks:
            options.append(st.tuples(st.sampled_from(LOOKS), child, st.sampled_from(FIXED)).map(lambda c: ["look", *c]))
        return st.one_of(*options)

    return st.recursive(leaf, extend, max_leaves=max_leaves)


def render(tree, names=("n", "m", "o", "p", "q", "r", "s")):
    """The expression; named groups get distinct names, in order."""
    counter = [0]

    def run(node):
        kind = node[0]
        if kind == "lit":
            return node[1]
        if kind == "cat":
            return "".join("(?:%s)" % run(c) if c[0] == "alt" else run(c) for c in node[1])
        if kind == "alt":
            return "|".join(run(c) for c in node[1])
        if kind == "rep":
            return "(?:%s)%s" % (run(node[1]), node[2])
        if kind == "grp":
            if node[2] and counter[0] < len(names):
                name = names[counter[0]]
                counter[0] += 1
                return "(?P<%s>%s)" % (name, run(node[1]))
            return "(%s)" % run(node[1])
        if kind == "look":
            inner = node[3] if "<" in node[1] else run(node[2])
            return "%s%s)" % (node[1], inner)
        raise KeyError(kind)

    return run(tree)


def nested_repeats(tree, inside=False):
    """Whether an unbounded repetition contains another repetition (slow on purpose-built texts)."""
    kind = tree[0]
    if kind == "lit":
        return False
    if kind == "rep":
        if inside:
            return True
        return nested_repeats(tree[1], True)
    if kind in ("cat", "alt"):
        return any(nested_repeats(c, inside) for c in tree[1])
    if kind == "look":
        return nested_repeats(tree[2], inside)
    return nested_repeats(tree[1], inside)
