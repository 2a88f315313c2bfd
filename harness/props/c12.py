"""Consequences of rules."""

from hypothesis import assume
from hypothesis import strategies as st

from harness import seqgen
from harness.core import Prop
from harness.lib import few, rb

KINDS = ["remove", "append", "append_as", "rename", "tags", "untag", "own"]


@st.composite
def cases(draw):
    length = draw(st.integers(2, 9))
    pool = draw(seqgen.spec_pools(length, max_size=7, min_size=2))
    idx = st.integers(0, len(pool) - 1)

    def consequence():
        kind = draw(st.sampled_from(KINDS))
        arg = None
        if kind in ("append_as", "rename"):
            arg = draw(st.sampled_from(["n", "m", "new"]))
        elif kind in ("tags", "untag"):
            arg = draw(few(st.sampled_from(["t", "u", "v", "w"]), 1, 2))
        form = draw(st.sampled_from(["one", "list", "list", "tuple", "generator", "matches", "set", "live", "lazy"]))
        if kind == "own":  # a consequence of the user's, given any answer
            return {"kind": kind, "arg": draw(st.sampled_from(["class", "object"])), "form": "own", "given": draw(st.sampled_from([None, 0, "", 5, [], "text"]))}
        given = [draw(idx)] if form == "one" else draw(st.lists(idx, max_size=draw(st.sampled_from([4] * 9 + [9])), unique=draw(st.sampled_from([True, True, False]))))
        if form in ("live", "lazy"):  # the edited sequence itself, or some of it, as it is at that time
            given = draw(st.sampled_from(["all", "all", "n", "m", "next", "next"])) if form == "lazy" else "all"
        return {"kind": kind, "arg": arg, "form": form, "given": given}

    return {
        "text": "abcdefghi"[:length], "pool": pool, "init": draw(st.lists(idx, max_size=draw(st.sampled_from([6] * 9 + [12])), unique=True)),
        "steps": [{"consequences": [consequence() for _ in range(draw(st.sampled_from([1, 1, 2, 3] * 6 + [8])))],
                   "looks": draw(st.lists(st.sampled_from(LOOKUPS), max_size=2)),
                   "via": draw(st.sampled_from(["rule", "run", "run", "direct"]))} for _ in range(draw(st.sampled_from([1, 1, 2, 3])))],
    }


LOOKUPS = ["name", "tag", "start", "end", "index"]


def look(seq, what):
    if what == "name":
        return seq.named("n")
    if what == "tag":
        return seq.tagged("t")
    if what == "start":
        return seq.starting(0)
    if what == "end":
        return seq.ending(1)
    return seq.at_index(0)


def fresh(rec, seq, length):
    """Every lookup against a scan."""
    items = list(seq)

    def same(got, want, what):
        rec.eq([id(m) for m in got], [id(m) for m in want], what)

    for name in ("n", "m", "o", "new"):
        same(seq.named(name), [m for m in items if m.name == name], "named " + name)
    for tag in ("t", "u", "v", "w"):
        same(seq.tagged(tag), [m for m in items if tag in m.tags], "tagged " + tag)
    for pos in range(length + 1):
        same(seq.starting(pos), [m for m in items if m.start == pos], "starting %d" % pos)
        same(seq.ending(pos), [m for m in items if m.end == pos], "ending %d" % pos)
        same(seq.at_index(pos), [m for m in items if m.start <= pos < m.end], "at_index %d" % pos)
    rec.eq(set(seq.names), {m.name for m in items if m.name}, "names")
    rec.eq(set(seq.tags), {t for m in items for t in m.tags}, "tags")


class C12(Prop):
    id = "C12"
    rule = ("sequences of up to 6 matches with equal twins; 1 to 3 rule runs with one to three consequences each (remove, append, append "
            "under a name, rename, append tags, remove tags, or one of the user's given any answer), given one match, a list, tuple, generator, set or sequence of present and "
            "absent ones, repeated ones, the edited sequence itself or a generator over it, some lookups read before; non-trivial: a present match is edited or an absent one added")
    quick = 1800
    thorough = 50000

    def strategy(self):
        return cases()

    def expect(self, case):
        """Per step: the others in order, the edited, and each object's name and tags."""
        text = case["text"]
        objs = [dict(spec, tags=list(spec["tags"])) for spec in case["pool"]]
        seq = list(case["init"])
        out = []
        nontrivial = False

        def key(i):
            return seqgen.eq_key(objs[i], text)

        for step in case["steps"]:
            for cons in step["consequences"]:
                given = cons["given"]
                if isinstance(given, str) and cons["kind"] != "own":
                    given = [(i + 1) % len(objs) for i in seq] if given == "next" else [i for i in seq if given == "all" or objs[i]["name"] == given]
                kind = cons["kind"]
                if kind == "own":
                    nontrivial = nontrivial or len(step["consequences"]) > 1
                    continue
                if kind in ("append", "append_as"):
                    for i in given:
                        if all(key(i) != key(j) for j in seq):
                            nontrivial = True
                            if kind == "append_as":
                                objs[i]["name"] = cons["arg"]
                            seq.append(i)
                    continue
                taken = []
                for number, i in enumerate(given):
                    if i in seq:
                        place = seq.index(i)
                    elif i in given[:number]:  # once more: nothing left to take, unless an equal one is mistaken for it
                        if any(key(j) == key(i) for j in seq):
                            return None
                        place = None
                    else:
                        place = next((n for n, j in enumerate(seq) if key(j) == key(i)), None)
                    if place is not None:
                        del seq[place]
                        taken.append(i)
                if not taken:
                    continue
                nontrivial = True
                for i in taken:
                    if kind == "rename":
                        objs[i]["name"] = cons["arg"]
                    elif kind == "tags":
                        objs[i]["tags"] += cons["arg"]
                    elif kind == "untag":
                        objs[i]["tags"] = [t for t in objs[i]["tags"] if t not in cons["arg"]]
                if kind == "rename":
                    for i in taken:
                        if all(key(i) != key(j) for j in seq):
                            seq.append(i)
                elif kind != "remove":
                    seq.extend(taken)
            out.append({"seq": list(seq), "objs": [[o["name"], list(o["tags"])] for o in objs]})
        return {"steps": out, "nontrivial": nontrivial}

    def response(self, seq, objs, cons):
        form = cons["form"]
        if form == "live":
            return seq
        if form == "lazy" and cons["given"] == "next":
            numbers = {id(o): i for i, o in enumerate(objs)}
            return (objs[(numbers[id(m)] + 1) % len(objs)] for m in seq)
        if form == "lazy":
            return (m for m in seq if cons["given"] in ("all", m.name))
        if form == "own":
            return cons["given"]
        values = [objs[i] for i in cons["given"]]
        if form == "one":
            return values[0]
        if form == "tuple":
            return tuple(values)
        if form == "generator":
            return iter(values)
        if form == "matches":
            return rb.Matches(values)
        if form == "set":
            return rb.utils.IdentitySet(values) if len(values) < 2 else values
        return values

    def consequence(self, cons):
        kind, arg = cons["kind"], cons["arg"]
        if kind == "own":

            class Own(rb.rules.Consequence):
                def then(self, matches, when_response, context, seen=cons["seen"]):
                    seen.append((matches, when_response))

            return Own if arg == "class" else Own()
        if kind == "remove":
            return rb.RemoveMatch if cons["form"] == "one" else rb.RemoveMatch()
        if kind == "append":
            return rb.AppendMatch if cons["form"] == "one" else rb.AppendMatch()
        return {"append_as": rb.AppendMatch, "rename": rb.RenameMatch, "tags": rb.AppendTags, "untag": rb.RemoveTags}[kind](arg)

    def check(self, case, expected, rec):
        assume(expected is not None)
        text = case["text"]
        objs = seqgen.build_all(case["pool"], text)
        seq = rb.Matches([objs[i] for i in case["init"]], input_string=text)
        number = {id(o): i for i, o in enumerate(objs)}
        rec.hit(expected["nontrivial"])
        for step, want in zip(case["steps"], expected["steps"]):
            for what in step["looks"]:
                look(seq, what)
            arguments = [list(c["arg"]) if isinstance(c["arg"], list) else c["arg"] for c in step["consequences"]]
            seen = []
            consequences = [self.consequence({**c, "arg": a, "seen": seen}) for c, a in zip(step["consequences"], arguments)]
            responses = [self.response(seq, objs, c) for c in step["consequences"]]
            if step["via"] == "direct":
                for made, response in zip(consequences, responses):
                    (made() if isinstance(made, type) else made).then(seq, response, {})
            else:
                answer = responses[0] if len(consequences) == 1 else (r for r in responses)
                if len(consequences) == 1 and step["consequences"][0]["form"] != "one":
                    consequences = consequences[0]
                rule = type("R", (rb.Rule,), {"consequence": consequences, "when": lambda self, m, c, answer=answer: answer})
                if step["via"] == "run" and (answer or not isinstance(answer, rb.Match)):  # an empty match is no answer
                    rb.Rules(rule).execute_all_rules(seq, {})
                else:
                    rule().then(seq, answer, {})
            own = [response for c, response in zip(step["consequences"], responses) if c["kind"] == "own"]
            if step["via"] != "run" or len(responses) > 1 or responses[0]:
                rec.ok(len(seen) == len(own) and all(got is response for (_matches, got), response in zip(seen, own)), "answers given to consequences", seen)
            rec.ok(all(matches is seq for matches, _got in seen), "sequence given to consequences")
            rec.eq(arguments, [c["arg"] for c in step["consequences"]], "argument of the consequence")
            rec.eq([number.get(id(m), m) for m in seq], want["seq"], "sequence after %s" % [c["kind"] for c in step["consequences"]])
            rec.eq([[o.name, list(o.tags)] for o in objs], want["objs"], "names and tags after %s" % [c["kind"] for c in step["consequences"]])
            fresh(rec, seq, len(text))
            for cons in step["consequences"]:
                rec.label(cons["kind"], "given:" + cons["form"])
        for obj, spec in zip(objs, case["pool"]):
            rec.eq(([obj.start, obj.end], obj.private), (spec["span"], spec["private"]), "the rest of a match")


PROP = C12
