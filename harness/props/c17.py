"""Export to a dict."""

from hypothesis import strategies as st

from harness import seqgen
from harness.core import Prop
from harness.lib import rb, snap


@st.composite
def cases(draw):
    text = draw(seqgen.sized_text("aab1-", 2, 8))
    lists = draw(st.sampled_from([False, False, True]))
    values = [None, None, None, "lit", "a", 7] + ([[1, 2], [1], [[3]]] if lists else [])
    pool = draw(seqgen.spec_pools(len(text), max_size=8, values=values, names=("n", "n", "m", "o", None), fmt=(None, None, None, "len", "zero", "empty", "none")))
    from_search = draw(st.booleans())
    if from_search:
        pool = [{**spec, "fmt": None, "raw": None} for spec in pool]
    return {
        "text": text, "pool": pool, "from_search": from_search,
        "exports": draw(st.lists(st.tuples(st.booleans(), st.booleans(), st.booleans()).map(list), min_size=1, max_size=4)),
        "edit": draw(st.booleans()),
    }


def freeze(value):
    return repr((type(value).__name__, value))


class C17(Prop):
    id = "C17"
    rule = ("up to 8 matches with repeated names and values, unnamed ones, formatters giving 0 or '' and list literals, in a hand-made "
            "sequence or a search result, exported several times with every option; non-trivial: a name with two distinct values and "
            "one with a repeated value")
    quick = 1800
    thorough = 50000

    def strategy(self):
        return cases()

    def expect(self, case):
        pool, text = case["pool"], case["text"]
        order = sorted(range(len(pool)), key=lambda i: pool[i]["span"])
        names = list(dict.fromkeys(pool[i]["name"] for i in order))
        out = {}
        for details in (False, True):
            per = []
            for name in names:
                mine = [i for i in order if pool[i]["name"] == name]
                distinct = []
                for i in mine:
                    key = seqgen.eq_key(pool[i], text) if details else seqgen.value_of(pool[i], text)
                    if not any(key == other for other, _ in distinct):
                        distinct.append((key, i))
                listy = isinstance(seqgen.value_of(pool[mine[0]], text), list)  # taken as the list of values itself
                per.append([name, mine, [i for _, i in distinct], listy])
            out[details] = per
        return out

    def check(self, case, expected, rec):
        pool, text = case["pool"], case["text"]
        # list literals are objects of the caller: one shared object per spec
        specs = [dict(spec) for spec in pool]
        if case["from_search"]:
            returned = [{"start": s["span"][0], "end": s["span"][1], "name": s["name"], "tags": list(s["tags"]), "value": s["value"]}
                        for s in specs]
            returned = [{k: v for k, v in d.items() if v is not None} for d in returned]
            bulk = rb.Rebulk(default_rules=False).functional(lambda string: list(returned))
            seq = bulk.matches(text)
            objs = list(seq)
            rec.eq([[m.start, m.end] for m in objs], [s["span"] for s in pool], "the matches to export")
        else:
            objs = seqgen.build_all(specs, text)
            seq = rb.Matches(objs, input_string=text)
        literals = [s["value"] for s in specs]
        literals_before = [freeze(v) for v in literals]
        number = {id(o): i for i, o in enumerate(objs)}
        before = [snap(m) for m in objs]
        rec.label("search" if case["from_search"] else "sequence")
        for details, first, enforce in case["exports"]:
            what = "to_dict(details=%s, first_value=%s, enforce_list=%s)" % (details, first, enforce)
            options = {"details": details, "first_value": first, "enforce_list": enforce}
            got = seq.to_dict(**{k: v for k, v in options.items() if v})
            per = expected[details]
            rec.eq(list(got), [p[0] for p in per], what + ": names")
            rec.eq([[n, [number.get(id(m), m) for m in ms]] for n, ms in got.matches.items()], [[p[0], p[1]] for p in per], what + ": matches")
            for name, mine, distinct, listy in per:
                rec.hit(len(distinct) > 1 and len(distinct) < len(mine))
                if listy and not details:
                    rec.label("list literal")
                    continue
                values = [objs[i] if details else seqgen.value_of(pool[i], text) for i in distinct]
                if first:
                    values = values[:1]
                wanted = values if enforce or len(values) > 1 else values[0]

                def comparable(value):
                    if isinstance(value, list):
                        return [comparable(v) for v in value]
                    return number.get(id(value), value) if details else freeze(value)

                rec.eq(comparable(got[name]), comparable(wanted), "%s of %r" % (what, name))
                if not enforce and not details:
                    all_values = [seqgen.value_of(pool[i], text) for i in distinct]
                    rec.eq([freeze(v) for v in got.values_list[name]], [freeze(v) for v in all_values], "%s: values_list of %r" % (what, name))
                if case["edit"]:
                    if isinstance(got[name], list):
                        got[name].append("mine")
                    got.matches[name].clear()
                    got.values_list[name].append("mine")
            rec.eq([snap(m) for m in objs], before, what + ": the matches afterwards")
            rec.eq([number.get(id(m), m) for m in seq], list(range(len(objs))), what + ": the sequence afterwards")
            rec.eq([freeze(v) for v in literals], literals_before, what + ": literals given by the caller")
            if case["from_search"]:
                again = bulk.matches(text)
                rec.eq([snap(m) for m in again], before, what + ": a later search")


PROP = C17
