"""Holes of a match sequence."""

from hypothesis import strategies as st

from harness import seqgen
from harness.core import Prop
from harness.lib import rb

FORMATTERS = {"upper": str.upper, "len": len}
FILTERS = {None: None, "long": lambda a, b: b - a > 1, "odd": lambda a, b: a % 2, "none": lambda a, b: False}


@st.composite
def cases(draw):
    text = draw(seqgen.sized_text("abab-_ ", 3, 14))
    pool = draw(seqgen.spec_pools(len(text), max_size=5, min_size=0))
    queries = []
    for _ in range(draw(st.integers(1, 5))):
        start = draw(st.sampled_from([0, 0, 0] + list(range(len(text) + 2))))
        end = draw(st.sampled_from([None, None] + list(range(len(text) + 3))))
        queries.append({
            "start": start, "end": end, "seps": draw(st.sampled_from([None, None, "", "-", "-_ ", " ", "a", "zz"])),
            "ignore": draw(st.sampled_from([None, None, "named_n", "long", "tag_t", "none", "truthy"])),
            "formatter": draw(st.sampled_from([None, None, "upper", "len"])),
            "filter": draw(st.sampled_from([None, None, "long", "odd", "none"])),
            "index": draw(st.sampled_from([None, None, None, 0, 1, -1, 9])), "form": draw(st.sampled_from(["kw", "pos"])),
        })
    return {"text": text, "pool": pool, "with_text": draw(st.sampled_from([True, True, True, False])), "beyond": draw(st.sampled_from([0] * 5 + [1, 3])),
            "order": list(draw(st.permutations(list(range(len(pool)))))), "queries": queries,
            "drop": draw(st.sampled_from([None, 0, 1])), "where": draw(st.sampled_from(["matches"] * 4 + ["markers", "children", "own children"]))}


class C15(Prop):
    id = "C15"
    rule = ("up to 5 matches, markers or children of a match over texts with separators, ranges inside, across and beyond the text, ignore functions, separators, "
            "formatters, predicate and index; non-trivial: a query with at least one hole and one covered position in its range")
    quick = 2000
    thorough = 60000

    def strategy(self):
        return cases()

    def usable(self, case):
        return [q for q in case["queries"] if case["with_text"] and not case["beyond"] or not q["seps"]]

    def ends(self, case, present):
        """Where the text and the matches end."""
        ends = [case["pool"][i]["span"][1] for i in present]
        return ends + [max(1, len(case["text"]) - case["beyond"])] if case["with_text"] else ends

    def expect(self, case):
        out = []
        present = list(case["order"])
        ends = self.ends(case, present)
        queries = self.usable(case)
        for n, query in enumerate(queries):
            if n == len(queries) // 2 and case["drop"] is not None and case["drop"] in present:
                present.remove(case["drop"])
                ends = self.ends(case, present)
            ignore = seqgen.PREDICATES[query["ignore"]][0]
            kept = [case["pool"][i] for i in present if not (ignore and ignore(case["pool"][i]))]
            end = max(ends, default=0)
            if query["end"] is not None:
                end = min(end, query["end"])
            free = [p for p in range(query["start"], end) if not any(seqgen.covers(s, p) for s in kept)]
            runs = []
            for p in free:
                if runs and runs[-1][1] == p:
                    runs[-1][1] = p + 1
                else:
                    runs.append([p, p + 1])
            out.append({"free": free, "runs": runs, "span": [query["start"], end]})
        return out

    def check(self, case, expected, rec):
        text = case["text"][:max(1, len(case["text"]) - case["beyond"])] if case["with_text"] else None
        objs = seqgen.build_all(case["pool"], text)
        if case["where"] == "matches":
            seq = rb.Matches([objs[i] for i in case["order"]], input_string=text)
        elif case["where"] == "markers":
            seq = rb.Matches(input_string=text).markers
            for obj in objs:
                obj.marker = True
            seq.extend(objs[i] for i in case["order"])
        else:
            parent = rb.Match(0, len(case["text"]), input_string=text)
            if case["where"] == "own children":
                parent.children = rb.Matches([objs[i] for i in case["order"]], input_string=text)
            else:
                parent.children.extend(objs[i] for i in case["order"])
            seq = parent.children
        queries = self.usable(case)
        for n, (query, want) in enumerate(zip(queries, expected)):
            if n == len(queries) // 2 and case["drop"] is not None and case["drop"] < len(objs):
                seq.remove(objs[case["drop"]])
            what = "holes %s" % query
            ignore = seqgen.PREDICATES[query["ignore"]][1]
            formatter = FORMATTERS.get(query["formatter"]) if text else None
            seps = query["seps"]

            def call(predicate=None, index=None):
                if query["form"] == "pos":
                    return seq.holes(query["start"], query["end"], formatter, ignore, seps, predicate, index)
                options = {"formatter": formatter, "ignore": ignore, "seps": seps, "predicate": predicate, "index": index,
                           "end": query["end"], "start": query["start"]}
                return seq.holes(**{k: v for k, v in options.items() if v is not None})

            holes = call()
            spans = [[h.start, h.end] for h in holes]
            free = set(want["free"])
            if not seps:
                rec.eq(spans, want["runs"], what)
            else:
                owner = {}
                for number, (a, b) in enumerate(spans):
                    rec.ok(a < b, what + ": empty hole", spans)
                    rec.ok(number == 0 or spans[number - 1][1] <= a, what + ": order and disjointness", spans)
                    for p in range(a, b):
                        rec.ok(p in free, what + ": position outside the range or covered", p, spans)
                        rec.ok(p == a or text[p] not in seps, what + ": goes past a separator", spans)
                        owner[p] = number
                for p in want["free"]:
                    if text[p] not in seps:
                        rec.ok(p in owner, what + ": position in no hole", p, spans)
                        if p + 1 in free and text[p + 1] not in seps:
                            rec.eq(owner.get(p + 1), owner[p], what + ": hole cut short at %d, %s" % (p, spans))
                rec.label("seps")
            for hole in holes:
                raw = text[hole.start:hole.end] if text else None
                rec.eq(hole.raw, raw, what + ": text")
                rec.eq(hole.value, formatter(raw) if formatter else raw, what + ": value")
                rec.ok(isinstance(hole, rb.Match), what + ": kind")
            rec.hit(bool(holes) and len(want["free"]) < want["span"][1] - want["span"][0])
            rec.label("holes:%d" % min(3, len(holes)), "ignore" if ignore else "noignore")
            keep = FILTERS[query["filter"]]
            picked = seqgen.select(spans, keep and (lambda s: keep(*s)), query["index"])
            got = call(keep and (lambda m: keep(m.start, m.end)), query["index"])
            if isinstance(got, list):
                got = [[h.start, h.end] for h in got]
            elif got is not None:
                got = [got.start, got.end]
            rec.eq(got, picked, what + ": predicate and index")
            rec.eq([[h.start, h.end] for h in call()], spans, what + ": asked again")
        rec.eq([[m.start, m.end] for m in objs], [s["span"] for s in case["pool"]], "the matches themselves")


PROP = C15
