"""Searching as a pure function."""

import copy

from hypothesis import strategies as st

from harness import builders, configs, seqgen, specs
from harness.core import Prop, Rec
from harness.lib import rb, snap_all
from harness.peers import Peer
from harness.props import c23, c24

EDITS = ["rename", "tags", "value", "move", "flags", "children", "clear", "remove", "append", "keys", "tag_lists", "parent"]
QUERIES = ["named", "tagged", "indexed", "around", "holes", "chains", "conflicting", "repr"]
EXPORTS = [{}, {"details": True}, {"first_value": True}, {"enforce_list": True}, {"details": True, "enforce_list": True}]


@st.composite
def composed(draw):
    case = draw(c24.cases())
    for entry in case["entries"]:
        if entry["kind"] == "regex" and draw(st.booleans()):
            entry["form"] = draw(st.sampled_from(["dict", "list", "tuple"]))
        value = entry["opts"].get("value")
        if isinstance(value, list) and draw(st.booleans()):
            for pair in value:
                pair[1] = ["L", 1]
    persistent = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
        item = {"start": draw(st.integers(0, 2)), "end": draw(st.integers(3, 4)), "name": draw(st.sampled_from(["n", "q"])),
                "tags": draw(st.lists(st.sampled_from(["t", "u"]), max_size=2)), "style": draw(st.sampled_from(["dict", "options", "list"]))}
        if draw(st.booleans()):
            item["value"] = draw(st.sampled_from(["own", ["own"], {"k": ["v"]}]))
        persistent.append(item)
    contextual = draw(st.lists(st.sampled_from(["reads", "counts", "counts", "removes", "rule counts"]), max_size=2, unique=True))
    return {"style": "composed", "case": case, "persistent": persistent, "contextual": contextual, "texts": [case["text"] + "-ab-"]}


@st.composite
def histories(draw):
    case = draw(c23.cases())
    return {"style": "history", "case": case, "persistent": [], "contextual": [], "texts": [case["text"]]}


@st.composite
def cases(draw):
    case = draw(st.one_of(composed(), composed(), histories()))
    case["texts"] += [draw(seqgen.sized_text("aabbc-", 1, 8)) + "---" for _ in range(draw(st.sampled_from([0, 1, 2])))]
    case["contexts"] = [draw(configs.contexts) for _ in range(2)]
    case["rules"] = draw(st.lists(configs.rules(), max_size=2, unique_by=lambda r: (r["kind"], r["priority"]))) if case["style"] == "history" else []
    ops = []
    for _ in range(draw(st.sampled_from([3, 4, 5, 6, 8]))):
        kind = draw(st.sampled_from(["search", "search", "search", "edit", "edit", "query", "export", "introspect", "check_keys", "rebuild"]))
        if kind == "search":
            ops.append([kind, draw(st.sampled_from([0, 0, 1])), draw(st.integers(0, len(case["texts"]) - 1)), draw(st.sampled_from([0, 0, 1]))])
        else:
            ops.append([kind, draw(st.sampled_from({"edit": EDITS, "query": QUERIES, "export": EXPORTS}.get(kind, [0, 1])))])
    case["ops"] = [["search", 0, 0, 0]] + ops + [["search", 0, 0, 0], ["search", 1, 0, 0]]
    return case


def persistent_function(items, watch):
    """A function that answers the same objects every time."""
    made = []
    for item in items:
        inner = {key: copy.deepcopy(value) for key, value in item.items() if key not in ("start", "end", "style")}
        if item["style"] == "dict":
            inner.update({"start": item["start"], "end": item["end"]})
            made.append(watch(inner))
        elif item["style"] == "list":
            made.append(watch([item["start"], item["end"], watch(inner)]))
        else:
            made.append((item["start"], item["end"], watch(inner)))
    watch(made)

    def run(string):
        return made if len(string) >= 4 else None

    return run


def contextual(kind, bulk):
    """Functions and rules that look into the context they are given, and leave something in it."""

    def reads(string, context):
        return (0, 2, {"name": "flagged"}) if context.get("flag") else (1, 3, {"name": "plain"})

    def counts(string, context):
        context["seen"] = context.get("seen", 0) + 1
        return (0, min(len(string), context["seen"]), {"name": "seen"})

    def removes(string, context):
        return (2, 4, {"name": "kept"}) if context.pop("off", None) else None

    if kind == "rule counts":
        def when(self, matches, context):
            context["ruled"] = context.get("ruled", 0) + 1
            return rb.Match(0, min(len(matches.input_string), context["ruled"]), name="ruled", input_string=matches.input_string)

        bulk.rules(type("Ruled", (rb.Rule,), {"when": when, "consequence": rb.AppendMatch, "priority": -7})())
    else:
        bulk.functional({"reads": reads, "counts": counts, "removes": removes}[kind])


def build(case):
    if case["style"] == "composed":
        bulk = c24.PROP().make(case["case"])
    else:
        bulk = rb.Rebulk()
        builders.run_real(case["case"]["ops"], bulk, Rec(), builders.Watch(), {}, [False] * 50)
        for rule in case["rules"]:
            bulk.rules(configs.make_rule(rule))
    for item in case["persistent"]:
        bulk.functional(persistent_function([item], specs.watch), tags=specs.watch(["mine"]))
    for kind in case["contextual"]:
        contextual(kind, bulk)
    return bulk


class C22(Prop):
    id = "C22"
    rule = ("configurations (composed objects with rules, dependencies, chains, disabled parts, mutable values, expressions given as dicts and "
            "lists, functions answering the same objects every time, functions and a rule reading and writing the context; or builder histories with defaults) searched over several texts and contexts "
            "in a random history with edits of results, queries, exports, introspection and rebuilds on two identical objects; every result "
            "against a search on a fresh object in another process with another hash seed; everything handed over is compared with a copy; "
            "non-trivial: a search that finds something comes after an edit or export of a result that had matches")
    quick = 600
    thorough = 12000

    def strategy(self):
        return cases()

    def setup(self):
        self.peer = Peer("C22", 4000 + self.job["shard"] * 7)

    def teardown(self):
        self.peer.close()

    def remote(self, case):
        """Fresh objects, one per search."""
        out = {}
        for _what, _number, text, context in [op for op in case["ops"] if op[0] == "search"]:
            key = "%d %d" % (text, context)
            if key not in out:
                out[key] = snap_all(build(case).matches(case["texts"][text], copy.deepcopy(case["contexts"][context])))
        return out

    def check(self, case, expected, rec):
        fresh = self.peer.ask(case)
        specs.given = []
        try:
            self.history(case, fresh, rec)
            for value, before in specs.given:
                rec.eq(value, before, "an object supplied by the caller")
        finally:
            specs.given = None

    def history(self, case, fresh, rec):
        contexts = [copy.deepcopy(context) for context in case["contexts"]]
        objects = [build(case), build(case)]
        last = None
        edited = False
        for number, op in enumerate(case["ops"]):
            kind = op[0]
            rec.label(kind if kind != "edit" else "edit " + op[1])
            if kind == "search":
                text, context = case["texts"][op[2]], contexts[op[3]]
                if case["contextual"]:
                    context = copy.deepcopy(context)
                    rec.label("contextual")
                last = objects[op[1]].matches(text, context)
                rec.eq(snap_all(last), fresh["%d %d" % (op[2], op[3])], "search %d, on object %d" % (number, op[1]))
                rec.hit(edited and (len(last) or len(last.markers)))
            elif kind == "rebuild":
                objects[op[1]] = build(case)
            elif kind == "introspect":
                rb.introspect(objects[op[1]], contexts[0]).properties.clear()
            elif kind == "check_keys":
                objects[op[1]].check_keys()
            elif last is not None:
                edited = edited or kind in ("edit", "export") and len(last) > 0
                getattr(self, kind)(op[1], last)
                if kind == "edit":
                    last = None
        rec.eq(contexts, case["contexts"], "contexts")

    def edit(self, kind, found):
        everything = list(found) + list(found.markers)
        everything += [child for match in everything for child in match.children]
        for match in everything:
            if kind == "rename":
                match.name = "edited"
            elif kind in ("tags", "tag_lists"):
                match.tags.append("edited") if kind == "tags" else match.tags.clear()
            elif kind == "value":
                match.value = "edited"
            elif kind == "move":
                match.start, match.end = 0, 1
            elif kind == "flags":
                match.private = match.marker = True
            elif kind == "children":
                match.children.clear()
            elif kind == "parent":
                match.parent = None
        if kind == "clear":
            found.clear()
            found.markers.clear()
        elif kind == "remove" and found:
            found.remove(found[0])
        elif kind == "append":
            found.append(rb.Match(0, 1, name="edited", input_string=found.input_string))
        elif kind == "keys":
            found.declared_keys.clear()

    def query(self, kind, found):
        if kind == "named":
            for name in ("n", "m", "q", "none"):
                found.named(name)
                found.markers.named(name)
            found.names, found.tags
        elif kind == "tagged":
            found.tagged("t"), found.tagged("none")
        elif kind == "indexed":
            for position in range(6):
                found.starting(position), found.ending(position), found.at_index(position)
        elif kind == "around":
            for match in list(found):
                found.previous(match), found.next(match), found.at_match(match)
        elif kind == "holes":
            found.holes(), found.holes(0, 5, seps="-")
        elif kind == "chains":
            for match in list(found):
                found.chain_before(match.start, "-"), found.chain_after(match.end, "-")
        elif kind == "conflicting":
            for match in list(found):
                found.conflicting(match), found.at_span(match.span)
        else:
            repr(found), str(found), [hash(match) for match in found]

    def export(self, options, found):
        found.to_dict(**options).clear()


PROP = C22
