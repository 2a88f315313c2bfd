"""chain_before and chain_after."""

from hypothesis import strategies as st

from harness import seqgen
from harness.core import Prop
from harness.lib import rb


@st.composite
def cases(draw):
    text = draw(seqgen.sized_text("abab-_ ", 3, 14))
    pool = draw(seqgen.spec_pools(len(text), max_size=6))
    queries = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["before", "after"]))
        position = draw(st.one_of(
            st.integers(0, len(text) + 1).map(lambda p: ["pos", p]), st.integers(0, len(pool) - 1).map(lambda i: ["in", i]),
            st.integers(0, len(text) - 1).map(lambda p: ["out", p, p + 1])))
        limit = draw(st.sampled_from([None, None, None] + list(range(len(text) + 2))))
        queries.append([kind, position, draw(st.sampled_from(["-", "-_ ", " ", "", "ab-_ ", "a-"])), limit,
                        draw(st.sampled_from([None, None, None, "named_n", "long", "tag_t", "none", "truthy"])),
                        draw(st.sampled_from([None, None, None, 0, 1, -1, 9])), draw(st.sampled_from(["kw", "pos"]))])
    return {"text": text, "pool": pool, "order": list(draw(st.permutations(list(range(len(pool)))))), "queries": queries}


def distinct(keys):
    return list(dict.fromkeys(keys))


class C16(Prop):
    id = "C16"
    rule = ("up to 7 matches over texts with separators; walks before and after positions, present matches and absent matches, with "
            "limits, separators, acceptance predicates and indices; non-trivial: a walk that meets at least one match and stops "
            "before another")
    quick = 2000
    thorough = 60000

    def strategy(self):
        return cases()

    def expect(self, case):
        text, pool = case["text"], case["pool"]
        out = []
        for kind, position, seps, limit, predicate, _index, _form in case["queries"]:
            accept = seqgen.PREDICATES[predicate][0]
            accepted = [i for i in case["order"] if accept is None or accept(pool[i])]
            if kind == "before":
                at = position[1] if position[0] != "in" else pool[position[1]]["span"][0]
                walk = range(min(at, len(text)) - 1, (limit or 0) - 1, -1)
            else:
                at = position[-1] if position[0] != "in" else pool[position[1]]["span"][1]
                walk = range(at, len(text) if limit is None else min(limit, len(text)))
            met = []
            for p in walk:
                here = [i for i in accepted if seqgen.covers(pool[i], p)]
                met.extend(i for i in here if i not in met)
                if not here and text[p] not in seps:
                    break
            out.append(met)
        return out

    def check(self, case, expected, rec):
        text, pool = case["text"], case["pool"]
        objs = seqgen.build_all(pool, text)
        number = {id(o): i for i, o in enumerate(objs)}
        keys = [seqgen.eq_key(spec, text) for spec in pool]
        seq = rb.Matches([objs[i] for i in case["order"]], input_string=text)
        for query, met in zip(case["queries"], expected):
            kind, position, seps, limit, predicate, index, form = query
            accept = seqgen.PREDICATES[predicate][1]
            if position[0] == "pos":
                at = position[1]
            elif position[0] == "in":
                at = objs[position[1]]
            else:
                at = rb.Match(position[1], position[2], input_string=text)
            name = "start" if kind == "before" else "end"
            method = seq.chain_before if kind == "before" else seq.chain_after

            def call(pick=None):
                if form == "pos":
                    return method(at, seps, limit if limit is not None or kind == "after" else 0, accept, pick)
                options = {name: limit, "predicate": accept, "index": pick}
                return method(at, seps, **{k: v for k, v in options.items() if v is not None})

            what = "chain_%s %s" % (kind, query)
            got = call()
            listed = [number.get(id(m), m) for m in got]
            rec.eq(len(set(listed)), len(listed), what + ": a match twice")
            rec.eq([i for i in listed if i not in met], [], what + ": matches not met")
            rec.eq(distinct(keys[i] for i in listed), distinct(keys[i] for i in met), what)
            if index is not None:
                one = listed[index] if -len(listed) <= index < len(listed) else None
                picked = call(index)
                rec.eq(None if picked is None else number.get(id(picked), picked), one, what + ": index")
            got.clear()
            rec.eq([number.get(id(m), m) for m in call()], listed, what + ": asked again after an edit of the answer")
            rec.hit(0 < len(met) < len(pool))
            rec.label(kind, "met:%d" % min(3, len(met)), "predicate" if predicate else "nopredicate", "limit" if limit is not None else "nolimit")
        rec.eq([number[id(m)] for m in seq], case["order"], "the sequence")


PROP = C16
