"""Positional and named queries."""

import functools

from hypothesis import strategies as st

from harness import seqgen
from harness.core import Prop
from harness.lib import few, rb
from harness.seqgen import covers

KINDS = ["starting", "ending", "at_index", "at_span", "at_match", "range", "conflicting", "previous", "next", "named", "tagged"]


@st.composite
def cases(draw):
    length = draw(st.integers(1, 10))
    text = draw(st.sampled_from(["abcdefghij"[:length], "abcdefghij"[:length], None, "abcdefghijklm", "abcdefghij"[:length // 2]]))
    pool = draw(seqgen.spec_pools(length, max_size=8))
    order = draw(st.permutations(list(range(len(pool))))) if draw(st.booleans()) else list(range(len(pool)))
    queries = []
    for _ in range(draw(st.integers(2, 8))):
        kind = draw(st.sampled_from(KINDS))
        if kind in ("starting", "ending", "at_index"):
            args = [draw(st.integers(0, length))]
        elif kind == "at_span":
            args = [draw(st.integers(0, length - 1)), draw(st.integers(1, length))]
            args = [min(args), max(args)] if args[0] != args[1] else [args[0] - 1, args[1]]
        elif kind in ("at_match", "conflicting", "previous", "next"):
            if draw(st.booleans()):
                args = ["in", draw(st.integers(0, len(pool) - 1))]
            else:
                a = draw(st.integers(0, length - 1))
                args = ["out", a, draw(st.integers(a + 1, length))]
        elif kind == "range":
            a = draw(st.one_of(st.just(0), st.integers(0, length)))
            args = [a, draw(st.one_of(st.none(), st.just(0), st.integers(a + 1, length + 2), st.integers(a + 1, length + 2)))]
        elif kind == "named":
            args = draw(few(st.sampled_from(["n", "m", "o", "zz"]), 1, 3))
        else:
            args = [draw(st.sampled_from(["t", "u", "v", "zz"]))]
        queries.append([
            kind, args, draw(st.sampled_from([None, None, "named_n", "long", "tag_t", "none", "truthy"])),
            draw(st.sampled_from([None, None, None, 0, 1, -1, 2, -2, 9, -9])), draw(st.sampled_from(["pos", "kw"])),
        ])
    # matches with descendants, and what is asked about their names and tags
    tree = [[draw(st.sampled_from(["n", "m", "o", "p", "q", "r", None])), draw(st.lists(st.sampled_from(["t", "u"]), max_size=2)),
             draw(st.sampled_from([None] + [0, 0, min(i - 1, 1), min(i - 1, 1)] + list(range(i)))) if i else None] for i in range(draw(st.sampled_from([1, 2, 3, 4, 5] * 4 + [9])))]
    return {"tree": tree, "ask": draw(few(st.sampled_from(["n", "m", "o", "p", "q", "r", "t", "u", "zz"] + ["zz"] * 6), 0, 3)), "cls": draw(st.sampled_from(["Matches", "Matches", "Markers"])), "text": text, "pool": pool, "order": list(order),
            "drop": draw(st.lists(st.integers(0, len(pool) - 1), max_size=2, unique=True)), "queries": queries}


class C14(Prop):
    id = "C14"
    rule = ("sequences of up to 8 matches (overlaps, nested, equal twins, mixed names and tags), queried before and after some "
            "removals, with predicates and indices, positional or by keyword; non-trivial: a query that selects at least one "
            "match and not all of them")
    quick = 2000
    thorough = 60000

    def strategy(self):
        return cases()

    def selection(self, case, present, query):
        """Indices (of the pool) the definition selects, in list order or the documented one."""
        kind, args = query[0], query[1]
        pool = case["pool"]
        if kind == "starting":
            return [i for i in present if pool[i]["span"][0] == args[0]]
        if kind == "ending":
            return [i for i in present if pool[i]["span"][1] == args[0]]
        if kind == "at_index":
            return [i for i in present if covers(pool[i], args[0])]
        if kind == "range":
            end = args[1] if args[1] is not None else 10 ** 6
            found = [i for i in present if any(args[0] <= p < end for p in range(*pool[i]["span"]))]
            return sorted(found, key=lambda i: pool[i]["span"])
        if kind == "named":
            return [i for name in dict.fromkeys(args) for i in present if pool[i]["name"] == name]
        if kind == "tagged":
            return [i for i in present if args[0] in pool[i]["tags"]]
        if kind == "at_span":
            a, b = args
        else:
            a, b = pool[args[1]]["span"] if args[0] == "in" else args[1:]
        if kind in ("at_span", "at_match"):
            first = [i for i in present if covers(pool[i], a)]
            return first + [i for i in present if covers(pool[i], b - 1) and i not in first]
        if kind == "previous":
            before = [i for i in present if pool[i]["span"][1] <= a]
            nearest = max([pool[i]["span"][1] for i in before], default=None)
            return [i for i in before if pool[i]["span"][1] == nearest]
        if kind == "next":
            after = [i for i in present if pool[i]["span"][0] > a]
            nearest = min([pool[i]["span"][0] for i in after], default=None)
            return [i for i in after if pool[i]["span"][0] == nearest]
        assert kind == "conflicting"
        own = seqgen.eq_key(pool[args[1]], case["text"]) if args[0] == "in" else seqgen.eq_key(
            {"span": [a, b], "name": None, "value": None}, case["text"])
        found = [i for i in present if pool[i]["span"][0] < b and a < pool[i]["span"][1] and seqgen.eq_key(pool[i], case["text"]) != own]
        return sorted(found, key=lambda i: max(a, pool[i]["span"][0]))

    def expect(self, case):
        out = []
        half = len(case["queries"]) // 2
        for n, query in enumerate(case["queries"]):
            present = case["order"] if n < half else [i for i in case["order"] if i not in case["drop"]]
            out.append({"selection": self.selection(case, present, query), "of": len(present)})
        return out

    def call(self, seq, objs, case, query, with_filters=True):
        kind, args, predicate, index, form = query
        predicate = seqgen.PREDICATES[predicate][1]
        if kind in ("at_match", "conflicting", "previous", "next"):
            args = [objs[args[1]] if args[0] == "in" else rb.Match(args[1], args[2], input_string=case["text"])]
        elif kind == "at_span":
            args = [tuple(args)]
        elif kind == "range" and args[1] is None and not with_filters:
            args = args[:1]
        method = getattr(seq, kind)
        if kind == "range" and form == "kw":
            bounds = {"start": args[0], "end": args[1] if len(args) > 1 else None}
            method = functools.partial(method, **{k: v for k, v in bounds.items() if v not in ((0, None) if k == "start" else (None,))})
            args = []
        if not with_filters:
            return method(*args)
        if form == "kw":
            extra = {}
            if predicate is not None:
                extra["predicate"] = predicate
            if index is not None:
                extra["index"] = index
            return method(*args, **extra)
        if predicate is None and index is not None:
            return method(*args, index)
        if predicate is not None and index is not None:
            return method(*args, predicate, index)
        if predicate is not None:
            return method(*args, predicate)
        return method(*args)

    def names_and_tags(self, case, rec):
        """A match is named after its leaves, and tagged by its own tags."""
        tree, ask = case["tree"], case["ask"]
        below = {i: [j for j in range(len(tree)) if tree[j][2] == i] for i in range(len(tree))}

        def leaves(i):
            return {name for j in below[i] for name in leaves(j)} if below[i] else {tree[i][0]}

        objs = [rb.Match(0, 2, name=name, tags=list(tags), input_string="abc") for name, tags, _above in tree]
        for obj, (_name, _tags, above) in zip(objs, tree):
            if above is not None:
                objs[above].children.append(obj)
                obj.parent = objs[above]
        for i, obj in enumerate(objs):
            for _turn in range(2):
                rec.eq(obj.names, leaves(i), "names of a match with descendants")
                rec.eq(bool(obj.named(*ask)), any(name in leaves(i) for name in ask), "named(%s)" % ask)
                rec.eq(bool(obj.tagged(*ask)), any(tag in tree[i][1] for tag in ask), "tagged(%s)" % ask)
                obj.names.add("mine")

    def check(self, case, expected, rec):
        pool, text = case["pool"], case["text"]
        marker = case["cls"] == "Markers"
        objs = seqgen.build_all(pool, text, marker)
        number = {id(o): i for i, o in enumerate(objs)}
        seq = getattr(rb, case["cls"])([objs[i] for i in case["order"]], input_string=text)
        keys = [seqgen.eq_key(spec, text) for spec in pool]
        self.names_and_tags(case, rec)
        half = len(case["queries"]) // 2
        for n, (query, want) in enumerate(zip(case["queries"], expected)):
            if n == half:
                for i in case["drop"]:
                    seq.remove(objs[i])
            kind, args, predicate, index, _form = query
            what = "%s of the sequence" % (query,)
            selection = want["selection"]
            rec.label(kind)
            rec.hit(0 < len(selection) < want["of"])
            got = self.call(seq, objs, case, query, with_filters=False)
            rec.ok(isinstance(got, list), what + ": a list")
            listed = [number.get(id(m), m) for m in got]
            if kind in ("at_span", "at_match"):
                # equal twins may stand for each other here
                rec.eq(listed, [i for i in selection if i in listed], what)
                rec.eq({keys[i] for i in listed}, {keys[i] for i in selection}, what)
                selection = listed
            else:
                rec.eq(listed, selection, what)
            got.append("mine")
            got.reverse()
            model = seqgen.PREDICATES[predicate][0]
            picked = seqgen.select(selection, model and (lambda i: model(pool[i])), index)
            got = self.call(seq, objs, case, query)
            if isinstance(picked, list):
                rec.ok(isinstance(got, list), what + ": a list", got)
                rec.eq([number.get(id(m), m) for m in got], picked, what)
                got.clear()
            else:
                rec.eq(None if got is None else number.get(id(got), got), picked, what)
            rec.label("index" if index is not None else "noindex", "predicate" if predicate else "nopredicate")
            again = self.call(seq, objs, case, query, with_filters=False)
            rec.eq([number.get(id(m), m) for m in again], selection, what + " after the caller edited the answer")
            present = case["order"] if n < half else [i for i in case["order"] if i not in case["drop"]]
            rec.eq([number.get(id(m), m) for m in seq], present, "the sequence after " + what)


PROP = C14
