"""Match sequences against a plain list."""

from hypothesis import strategies as st

from harness import seqgen
from harness.core import Prop
from harness.lib import rb

REJECT = (AssertionError, TypeError, ValueError)


class Rejected(Exception):
    pass


@st.composite
def cases(draw):
    length = draw(st.integers(1, 10))
    text = draw(st.sampled_from(["abcdefghij"[:length], "abcdefghij"[:length], None, "ab"]))
    pool = draw(seqgen.spec_pools(length, max_size=6))
    idx = st.integers(0, len(pool) - 1)
    pos = st.integers(-4, 6)
    bound = st.one_of(st.none(), st.integers(-4, 6))
    step = st.sampled_from([None, None, None, 1, 2, -1])
    lookups = st.lists(st.sampled_from(LOOKUPS), max_size=3)
    form = st.sampled_from(["list", "tuple", "generator", "sequence", "other"])

    def op():
        kind = draw(st.sampled_from([
            "append", "append", "append", "insert", "insert", "extend", "extend", "remove", "remove", "remove", "pop", "pop", "del", "del",
            "delslice", "set", "set", "setslice", "setslice", "clear", "reverse", "iadd", "self", "wrong", "count", "read", "read"]))
        if kind in ("append", "remove", "count"):
            return [kind, draw(idx)]
        if kind == "insert":
            return [kind, draw(pos), draw(idx)]
        if kind in ("extend", "iadd"):
            return [kind, draw(st.lists(idx, max_size=4)), draw(form)]
        if kind == "pop":
            return [kind, draw(st.one_of(st.none(), pos))]
        if kind == "del":
            return [kind, draw(pos)]
        if kind == "delslice":
            return [kind, draw(bound), draw(bound), draw(step)]
        if kind == "set":
            return [kind, draw(pos), draw(idx)]
        if kind == "setslice":
            return [kind, draw(bound), draw(bound), draw(step), draw(st.lists(idx, max_size=3)), draw(form)]
        if kind == "wrong":
            return [kind, draw(st.sampled_from(["append", "insert", "set", "extend", "setslice", "iadd"])), draw(pos), draw(st.lists(idx, max_size=2))]
        if kind == "read":
            return [kind, draw(st.sampled_from(READS)), draw(pos), draw(bound), draw(bound)]
        return [kind]

    return {
        "kind": draw(st.sampled_from(["Matches", "Markers"])), "text": text, "pool": pool,
        "init": draw(st.lists(idx, max_size=4)),
        "ops": [[op(), draw(lookups)] for _ in range(draw(st.integers(1, 8)))],
    }


LOOKUPS = ["name", "tag", "start", "end", "pos", "names", "tags", "max_end", "list"]
READS = ["slice", "item", "contains", "index", "missing", "previous", "range", "holes", "conflicting", "edit", "all", "to_dict", "reversed"]


class C13(Prop):
    id = "C13"
    rule = ("histories of up to 8 list operations on Matches and Markers built from a pool with equal twins, objects present "
            "twice, tags given twice and mixed names, some lookups being read after each operation; non-trivial: an operation "
            "that changed the list after a lookup had been read")
    quick = 1800
    thorough = 60000

    def strategy(self):
        return cases()

    # -- model -------------------------------------------------------------
    def step(self, model, op, keys):
        """Returns (new list, answer); raises Rejected."""
        model = list(model)
        kind = op[0]
        answer = None
        try:
            if kind == "append":
                model.append(op[1])
            elif kind == "insert":
                model.insert(op[1], op[2])
            elif kind in ("extend", "iadd"):
                model.extend(op[1])
            elif kind == "self":
                model.extend(list(model))
            elif kind == "remove":
                if op[1] in model:
                    model.remove(op[1])
                else:
                    model.remove(next((i for i in model if keys[i] == keys[op[1]]), None))
            elif kind == "pop":
                answer = model.pop() if op[1] is None else model.pop(op[1])
            elif kind == "del":
                del model[op[1]]
            elif kind == "delslice":
                del model[slice(*op[1:4])]
            elif kind == "set":
                model[op[1]] = op[2]
            elif kind == "setslice":
                model[slice(*op[1:4])] = op[4]
            elif kind == "clear":
                model.clear()
            elif kind == "reverse":
                model.reverse()
            elif kind == "wrong":
                raise ValueError
        except (ValueError, IndexError) as error:
            raise Rejected from error
        return model, answer

    def expect(self, case):
        keys = [seqgen.eq_key(spec, case["text"]) for spec in case["pool"]]
        model = list(case["init"])
        out = []
        for op, _lookups in case["ops"]:
            try:
                model, answer = self.step(model, op, keys)
                out.append({"list": model, "rejected": False, "answer": answer})
            except Rejected:
                out.append({"list": model, "rejected": True, "answer": None})
        return out

    # -- real --------------------------------------------------------------
    def form(self, seq, objs, indices, form):
        values = [objs[i] for i in indices]
        if form == "tuple":
            return tuple(values)
        if form == "generator":
            return (v for v in values)
        if form in ("sequence", "other"):
            return type(seq)(values, input_string=seq.input_string if form == "sequence" else "zz")
        return values

    def apply(self, seq, objs, wrong, op):
        kind = op[0]
        if kind == "append":
            seq.append(objs[op[1]])
        elif kind == "insert":
            seq.insert(op[1], objs[op[2]])
        elif kind == "extend":
            seq.extend(self.form(seq, objs, op[1], op[2]))
        elif kind == "iadd":
            seq += self.form(seq, objs, op[1], op[2])
        elif kind == "self":
            seq.extend(seq)
        elif kind == "remove":
            seq.remove(objs[op[1]])
        elif kind == "pop":
            return seq.pop() if op[1] is None else seq.pop(op[1])
        elif kind == "del":
            del seq[op[1]]
        elif kind == "delslice":
            del seq[slice(*op[1:4])]
        elif kind == "set":
            seq[op[1]] = objs[op[2]]
        elif kind == "setslice":
            seq[slice(*op[1:4])] = self.form(seq, objs, op[4], op[5])
        elif kind == "clear":
            seq.clear()
        elif kind == "reverse":
            seq.reverse()
        elif kind == "wrong":
            how, pos, indices = op[1:]
            mixed = [objs[i] for i in indices] + [wrong]
            if how == "append":
                seq.append(wrong)
            elif how == "insert":
                seq.insert(pos, wrong)
            elif how == "set":
                if not seq:
                    raise ValueError
                seq[max(-len(seq), min(pos, len(seq) - 1))] = wrong
            elif how == "extend":
                seq.extend(mixed)
            elif how == "iadd":
                seq += mixed
            else:
                seq[0:max(pos, 0)] = mixed
        return None

    def check(self, case, expected, rec):
        text, pool = case["text"], case["pool"]
        marker = case["kind"] == "Markers"
        objs = seqgen.build_all(pool, text, marker)
        wrong = seqgen.build(pool[0], text, not marker)
        rec.label(case["kind"])
        cls = getattr(rb, case["kind"])
        seq = cls([objs[i] for i in case["init"]], input_string=text)
        model = list(case["init"])
        looked = False
        for (op, lookups), want in zip(case["ops"], expected):
            what = "after " + repr(op)
            before = model
            model = want["list"]
            if op[0] == "read":
                self.read(case, rec, seq, objs, model, op)
            elif op[0] == "count":
                keys = [seqgen.eq_key(spec, text) for spec in pool]
                rec.eq(seq.count(objs[op[1]]), sum(keys[i] == keys[op[1]] for i in model), "count")
            elif want["rejected"]:
                with rec.raises((IndexError,) + REJECT, what):
                    self.apply(seq, objs, wrong, op)
                rec.label("rejected:" + op[0])
            else:
                answer = self.apply(seq, objs, wrong, op)
                if op[0] == "pop":
                    rec.ok(answer is objs[want["answer"]], what + ": popped match", answer)
                rec.hit(looked and before != model)
                rec.label("op:" + op[0])
            for lookup in lookups:
                self.lookup(case, rec, seq, objs, model, lookup, what)
                looked = True
        for lookup in LOOKUPS:
            self.lookup(case, rec, seq, objs, model, lookup, "at the end")
        for index, (obj, spec) in enumerate(zip(objs, pool)):
            rec.eq((list(obj.span), obj.name, list(obj.tags)), (spec["span"], spec["name"], spec["tags"]), "match %d itself" % index)

    def same(self, rec, got, objs, indices, what):
        index = {id(o): i for i, o in enumerate(objs)}
        rec.eq([index.get(id(m), m) for m in got], list(indices), what)

    def lookup(self, case, rec, seq, objs, model, lookup, what):
        pool, text = case["pool"], case["text"]
        what = "%s, %s" % (what, lookup)
        if lookup == "list":
            self.same(rec, list(seq), objs, model, what)
            rec.eq(len(seq), len(model), what + ": length")
            rec.eq(bool(seq), bool(model), what + ": truth")
        elif lookup == "name":
            for name in ("n", "m", "o", "zz"):
                self.same(rec, seq.named(name), objs, [i for i in model if pool[i]["name"] == name], what + " " + name)
        elif lookup == "tag":
            for tag in ("t", "u", "v", "zz"):
                self.same(rec, seq.tagged(tag), objs, [i for i in model if tag in pool[i]["tags"]], what + " " + tag)
        elif lookup == "start":
            for pos in range(-1, 12):
                self.same(rec, seq.starting(pos), objs, [i for i in model if pool[i]["span"][0] == pos], what + " %d" % pos)
        elif lookup == "end":
            for pos in range(-1, 12):
                self.same(rec, seq.ending(pos), objs, [i for i in model if pool[i]["span"][1] == pos], what + " %d" % pos)
        elif lookup == "pos":
            for pos in range(-1, 12):
                self.same(rec, seq.at_index(pos), objs, [i for i in model if seqgen.covers(pool[i], pos)], what + " %d" % pos)
        elif lookup == "names":
            rec.eq(sorted(seq.names), sorted({pool[i]["name"] for i in model if pool[i]["name"]}), what)
        elif lookup == "tags":
            rec.eq(sorted(seq.tags), sorted({t for i in model for t in pool[i]["tags"]}), what)
        elif lookup == "max_end":
            rec.eq(seq.max_end, seqgen.max_end([pool[i] for i in model], text), what)

    def read(self, case, rec, seq, objs, model, op):
        _kind, how, pos, a, b = op
        what = "read " + repr(op)
        rec.label("read:" + how)
        if how == "slice":
            for step in (None, 2, -1):
                part = seq[a:b:step]
                rec.ok(type(part) is type(seq), what + ": kind of a slice", type(part))
                rec.eq(part.input_string, case["text"], what + ": text of a slice")
                self.same(rec, part, objs, model[a:b:step], what)
                self.lookup(case, rec, part, objs, model[a:b:step], "name", what)
                part.clear()
        elif how == "item":
            if -len(model) <= pos < len(model):
                self.same(rec, [seq[pos]], objs, [model[pos]], what)
            else:
                with rec.raises(IndexError, what):
                    seq[pos]
        elif how in ("contains", "index"):
            keys = [seqgen.eq_key(spec, case["text"]) for spec in case["pool"]]
            target = pos % len(objs)
            twins = [n for n, i in enumerate(model) if keys[i] == keys[target]]
            rec.eq(objs[target] in seq, bool(twins), what)
            if twins:
                rec.eq(seq.index(objs[target]), twins[0], what)
            else:
                with rec.raises(ValueError, what):
                    seq.index(objs[target])
        elif how == "missing":
            seq.named("zz"), seq.tagged("zz"), seq.starting(99), seq.ending(99), seq.at_index(99), seq.at_span((98, 99))
        elif how == "previous":
            seq.previous(objs[0]), seq.next(objs[0])
        elif how == "range":
            seq.range(max(0, pos), 99)
        elif how == "holes":
            seq.holes()
            if case["text"] and seq.max_end == len(case["text"]):
                seq.holes(seps="a")
        elif how == "conflicting":
            seq.conflicting(objs[pos % len(objs)])
        elif how == "edit":
            for got in (seq.named("n"), seq.tagged("t"), seq.starting(0), seq.ending(1), seq.at_index(0), seq.range(),
                        seq.at_span((0, 1)), seq.conflicting(objs[0]), seq.previous(objs[0]), seq.next(objs[0]), seq.named("n", "m")):
                got.append("mine")
                del got[0]
        elif how == "all":
            seq.all(rb.Key("n", str)), seq[rb.Key("zz", str)], seq.all(rb.Key("zz", str))
        elif how == "to_dict":
            seq.to_dict(), seq.to_dict(details=True, enforce_list=True)
        elif how == "reversed":
            self.same(rec, list(reversed(seq)), objs, model[::-1], what)


PROP = C13
