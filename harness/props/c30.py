"""Dependency sorting."""

from hypothesis import strategies as st

from harness.core import Prop
from harness.lib import rb


MIXED = [0, "", None, "x", [0, 1], False, [1], "0", 2.5, [], "None", 7]  # some are falsy, not all can be compared


def node(label):
    """JSON label to item: a list stands for a tuple, false for a marker object."""
    return tuple(label) if isinstance(label, list) else ("no",) if label is False else label


def decoded(case):
    return [[node(item), [node(d) for d in deps]] for item, deps in case]


def comparable(case):
    items = {item for item, _deps in case} | {d for _item, deps in case for d in deps}
    return len({type(item) for item in items}) < 2 and None not in items


def ranked(items):
    items = list(items)
    try:
        return sorted(items)
    except TypeError:
        return sorted(items, key=repr)


def chain(n, order, back=False):
    """A long chain of items, each needing the one before it."""
    edges = [[i, [i - 1] if i else [n - 1] if back else []] for i in range(n)]
    return edges[::-1] if order == "backwards" else edges[::2] + edges[1::2] if order == "parted" else edges


@st.composite
def graphs(draw):
    if draw(st.sampled_from([True] + [False] * 29)):
        return chain(draw(st.sampled_from([33, 65, 130, 260])), draw(st.sampled_from(["forwards", "backwards", "parted"])),
                     draw(st.sampled_from([False, False, True])))
    n = draw(st.integers(0, 9))
    style = draw(st.sampled_from(["dag", "dag", "layered", "any", "backedge"]))
    names = draw(st.sampled_from(["int", "str", "pair", "mixed"]))
    edges = []
    for i in range(n):
        if style in ("dag", "backedge"):
            deps = draw(st.lists(st.integers(0, max(i - 1, 0)), max_size=3)) if i else []
        elif style == "layered":
            deps = [j for j in range(i) if draw(st.booleans())][-4:]
        else:
            deps = draw(st.lists(st.integers(0, n - 1), max_size=2))
        if draw(st.integers(0, 7)) == 0:
            deps = deps + [i]
        if draw(st.integers(0, 9)) == 0:
            deps = deps + [draw(st.integers(n, n + 2))]
        edges.append(deps)
    if style == "backedge" and n > 1:
        for _ in range(draw(st.integers(1, 2))):
            a = draw(st.integers(0, n - 1))
            edges[a] = edges[a] + [draw(st.integers(0, n - 1))]
    order = draw(st.permutations(list(range(n))))
    absent = draw(st.lists(st.integers(0, n - 1), max_size=1)) if n else []
    if names == "mixed":
        label = MIXED.__getitem__
    else:
        label = {"str": lambda x: "i%d" % x, "int": lambda x: x, "pair": lambda x: [x % 3, x]}[names]
    return [[label(i), [label(d) for d in edges[i]]] for i in order if i not in absent]


class C30(Prop):
    id = "C30"
    rule = ("random dependency graphs of up to 12 items (DAGs, dense layered DAGs, arbitrary digraphs, DAGs plus back "
            "edges; self loops, items only mentioned as a dependency; numbers, texts, pairs or a mix with falsy items) and chains of 33 to 1100 items; non-trivial: at least one dependency between two "
            "different items")
    quick = 3000
    thorough = 60000
    fixed = [chain(1100, "backwards"), chain(1100, "forwards")]

    def strategy(self):
        return graphs()

    def expect(self, case):
        deps = {}
        case = decoded(case)
        for item, item_deps in case:
            deps[item] = {d for d in item_deps if d != item}
        for item_deps in list(deps.values()):
            for d in item_deps:
                deps.setdefault(d, set())
        depth = {}
        layers = []
        while True:
            layer = ranked(i for i in deps if i not in depth and all(d in depth for d in deps[i]))
            if not layer:
                break
            for i in layer:
                depth[i] = len(layers)
            layers.append(layer)
        return {"layers": layers, "cyclic": ranked(i for i in deps if i not in depth)}

    def check(self, case, expected, rec):
        case = decoded(case)

        def graph():
            return {item: set(item_deps) for item, item_deps in case}

        rec.hit(any(d != item for item, item_deps in case for d in item_deps))
        rec.label("cyclic" if expected["cyclic"] else "acyclic", "layers:%d" % min(len(expected["layers"]), 5))
        data = graph()
        inner = {k: v for k, v in data.items()}
        layers = []
        error = None
        try:
            for layer in rb.toposort.toposort(data):
                layers.append(ranked(layer))
        except ValueError as exc:
            error = exc
        rec.eq(layers, expected["layers"], "layers")
        rec.eq(error is not None, bool(expected["cyclic"]), "rejected")
        if error is not None:
            rec.eq(ranked(error.cyclic), expected["cyclic"], "items named by the error")
            for item in expected["cyclic"]:
                rec.ok(repr(item) in str(error), "the message names %r" % (item,), str(error))
        rec.eq(data, graph(), "input graph after sorting")
        rec.eq(list(data), list(graph()), "input items after sorting")
        rec.ok(all(data[k] is inner[k] for k in inner), "input sets replaced")
        for sort in (True, False, None) if comparable(case) else (False,):
            data = graph()
            flat = None
            try:
                flat = rb.toposort.toposort_flatten(data) if sort is None else rb.toposort.toposort_flatten(data, sort=sort)
            except ValueError:
                rec.ok(expected["cyclic"], "flatten rejected an acyclic graph")
            else:
                rec.ok(not expected["cyclic"], "flatten accepted a cyclic graph")
                if sort is False:
                    position = 0
                    for layer in expected["layers"]:
                        rec.eq(ranked(flat[position:position + len(layer)]), layer, "flattened layer")
                        position += len(layer)
                    rec.eq(len(flat), position, "flattened length")
                else:
                    rec.eq(flat, [i for layer in expected["layers"] for i in layer], "flattened")
            rec.eq(data, graph(), "input graph after flattening")


PROP = C30
