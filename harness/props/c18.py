"""Typed retrieval."""

import dataclasses
import datetime
import typing

from hypothesis import strategies as st

from harness import seqgen
from harness.core import Prop
from harness.lib import rb

HINTS = {
    "int": int, "str": str, "float": float, "bool": bool, "date": datetime.date, "datetime": datetime.datetime, "object": object,
    "any": typing.Any, "opt_int": typing.Optional[int], "int_none": int | None, "opt_str": typing.Optional[str],
    "union": int | str, "list_int": list[int], "list_str": list[str], "List_int": typing.List[int], "list_any": list[typing.Any],
    "opt_list_int": list[int] | None, "Opt_list_str": typing.Optional[typing.List[str]], "list_opt_int": list[typing.Optional[int]],
    "bare_list": list, "List": typing.List, "dict": dict, "tuple": tuple[int, ...], "sequence": typing.Sequence[int], "union_none": int | str | None,
    "union_list": list[int] | str | None, "text_list": "list[int]", "text_opt": "int | None", "text_opt_list": "typing.Optional[list[int]]",
    "annotated_list": typing.Annotated[list[int], "x"], "annotated": typing.Annotated[int, "x"],
}
LISTS = {"List", "list_int", "list_str", "List_int", "list_any", "list_opt_int", "text_list", "annotated_list"}
OPTIONAL_LISTS = {"opt_list_int", "Opt_list_str", "text_opt_list"}
ELEMENT = {
    "int": int, "str": str, "float": float, "bool": bool, "date": datetime.date, "datetime": datetime.datetime, "object": object,
    "any": None, "opt_int": int, "int_none": int, "opt_str": str, "union": None, "list_int": int, "list_str": str, "List_int": int,
    "list_any": None, "opt_list_int": int, "Opt_list_str": str, "list_opt_int": int,
    "bare_list": None, "List": None, "dict": None, "tuple": None, "sequence": None, "union_none": None, "union_list": None, "text_list": int, "text_opt": int,
    "text_opt_list": int, "annotated_list": int, "annotated": int,
}
DECLARED = {"int": int, "str": str, "float": float, "bool": bool, "date": datetime.date, "datetime": datetime.datetime}
SCALARS = {"int": int, "str": str, "float": float, "date": datetime.date}
UNSUPPORTED = ["number", "string", "none", "dict_generic", "optional", "tuple_generic", "instance", "callable"]


@st.composite
def cases(draw):
    text = draw(seqgen.sized_text("aab1-", 2, 8))
    pool = draw(seqgen.spec_pools(len(text), max_size=7, min_size=0, names=("n", "n", "m", "o", None), fmt=(None, None, "len", "zero", "none", "empty")))
    fields = []
    for name in draw(st.lists(st.sampled_from(["n", "m", "o", "p", "q"]), min_size=1, max_size=4, unique=True)):
        fields.append([name, draw(st.sampled_from(sorted(HINTS))), draw(st.sampled_from(["required", "default", "default", "factory", "outside"]))])
    declared = draw(st.sampled_from([{}, {}, None]))
    if declared is None:
        declared = {name: draw(st.sampled_from(sorted(DECLARED))) for name in draw(st.lists(st.sampled_from(["n", "m", "o", "p"]), min_size=1, max_size=3, unique=True))}
        if draw(st.booleans()):  # mostly agreeing with the model
            for name, hint, _default in fields:
                element = next((k for k, v in DECLARED.items() if v is ELEMENT[hint]), None)
                if name in declared and element:
                    declared[name] = element
    return {
        "text": text, "pool": pool, "fields": fields, "declared": declared,
        "frozen": draw(st.booleans()), "keys": draw(st.lists(st.sampled_from(["n", "m", "o", "p"]), min_size=1, max_size=2)),
        "scalar": draw(st.sampled_from(sorted(SCALARS))), "unsupported": draw(st.sampled_from(UNSUPPORTED)),
        "based": draw(st.booleans()), "classvar": draw(st.sampled_from([None, "n", "m", "q"])), "history": draw(st.sampled_from([None, None, "swap", "pop"])),
    }


class C18(Prop):
    id = "C18"
    rule = ("up to 7 matches with repeated names and values of several types; dataclasses and TypedDicts of 1 to 4 fields (scalars, "
            "lists, optionals, optional lists, unions, Any, annotations as text, fields of a base class, class variables, fields outside the constructor) with and without defaults and declared keys; scalar, list and unsupported "
            "targets; non-trivial: a model with a field that has several matches or a field with none")
    quick = 1400
    thorough = 40000

    def strategy(self):
        return cases()

    def order(self, case):
        order = list(range(len(case["pool"])))
        if case["history"] == "swap" and len(order) > 1:
            order[0], order[-1] = order[-1], order[0]
        elif case["history"] == "pop" and order:
            order.pop(0)
        return order

    def expect(self, case):
        order = self.order(case)
        pool, text = case["pool"], case["text"]
        values = {}
        for i in order:
            values.setdefault(pool[i]["name"], []).append(seqgen.value_of(pool[i], text))
        contradiction = False
        for name, hint, _default in case["fields"]:
            if name in case["declared"] and ELEMENT[hint] is not None:
                declared, element = DECLARED[case["declared"][name]], ELEMENT[hint]
                contradiction |= not (issubclass(declared, element) or issubclass(element, declared))
        return {"values": values, "all": [seqgen.value_of(pool[i], text) for i in order], "contradiction": contradiction}

    def check(self, case, expected, rec):
        text = case["text"]
        objs = seqgen.build_all(case["pool"], text)
        seq = rb.Matches(objs, input_string=text)
        seq.named("n")
        if case["history"] == "swap" and len(objs) > 1:
            seq[0], seq[-1] = seq[-1], seq[0]
        elif case["history"] == "pop" and objs:
            seq.pop(0)
        values = expected["values"]
        shown = lambda vs: [(type(v).__name__, v) for v in vs]  # noqa: E731
        for name in case["keys"]:
            key = rb.Key(name, int)
            mine = values.get(name, [])
            rec.eq(shown([seq[key]]), shown(mine[:1] or [None]), "first value of %r" % name)
            got = seq.all(key)
            rec.eq(shown(got), shown(mine), "all values of %r" % name)
            got.append("mine")
            rec.eq(shown(seq.all(key)), shown(mine), "all values of %r after an edit" % name)
        rec.eq(len(seq), len(expected["all"]), "the sequence")

        # scalar and list targets
        scalar = SCALARS[case["scalar"]]
        if expected["all"]:
            rec.eq(shown([seq.to(scalar)]), shown(expected["all"][:1]), "to(%s)" % case["scalar"])
        else:
            with rec.raises(LookupError, "to(%s) without a match" % case["scalar"]):
                seq.to(scalar)
        for target in (list[scalar], typing.List[scalar], typing.List):
            rec.eq(shown(seq.to(target)), shown(expected["all"]), "to(%s)" % target)

        # models
        seq.declared_keys = {name: rb.Key(name, DECLARED[kind]) for name, kind in case["declared"].items()}
        defaults = {}
        fields = []
        for name, hint, how in case["fields"]:
            if how == "default":
                defaults[name] = "default of " + name
                fields.append((name, HINTS[hint], dataclasses.field(default=defaults[name], kw_only=True)))
            elif how == "factory":
                defaults[name] = []
                fields.append((name, HINTS[hint], dataclasses.field(default_factory=list, kw_only=True)))
            elif how == "outside":
                defaults[name] = "default of " + name
                fields.append((name, HINTS[hint], dataclasses.field(default=defaults[name], init=False)))
            else:
                fields.append((name, HINTS[hint], dataclasses.field(kw_only=True)))
        bases = (dataclasses.make_dataclass("Base", fields[:1], frozen=case["frozen"], namespace={"__module__": __name__}),) if case["based"] else ()
        more = fields[1:] if case["based"] else list(fields)
        if case["classvar"] and case["classvar"] not in [f[0] for f in fields]:
            more.append((case["classvar"], typing.ClassVar[int], 3))
        model = dataclasses.make_dataclass("Model", more, bases=bases, frozen=case["frozen"], namespace={"__module__": __name__})
        outside = {name for name, _hint, how in case["fields"] if how == "outside"}
        typed = typing.TypedDict("Typed", {name: HINTS[hint] for name, hint, _ in case["fields"]})
        for structured in (model, typed):
            for extra in ({}, {"formatter": int}):
                with rec.raises(TypeError, "a key of a structured type"):
                    rb.Key(case["keys"][0], structured, **extra)
        for target in (list[model], list[typed], typing.List[model]):
            with rec.raises(TypeError, "to(list of structured items)"):
                seq.to(target)
        unsupported = {"number": 42, "string": "int", "none": None, "dict_generic": dict[str, int], "optional": typing.Optional[int],
                       "tuple_generic": tuple[int, ...], "callable": len}
        if case["unsupported"] == "instance":
            made = dataclasses.make_dataclass("Empty", [])()
            with rec.raises(TypeError, "to(an instance)"):
                seq.to(made)
        else:
            with rec.raises(TypeError, "to(%s)" % case["unsupported"]):
                seq.to(unsupported[case["unsupported"]])
        rec.hit(any(len(values.get(n, ())) != 1 for n, _h, _d in case["fields"]))
        if expected["contradiction"]:
            rec.label("contradiction")
            for target in (model, typed):
                with rec.raises(TypeError, "to(%s) contradicting the declared keys" % target.__name__):
                    seq.to(target)
            return
        required = [n for n, hint, how in case["fields"] if how == "required" and n not in values
                    and hint not in LISTS]
        wanted = {}
        for name, hint, _how in case["fields"]:
            if name in values:
                wanted[name] = values[name] if hint in LISTS | OPTIONAL_LISTS else values[name][0]
        if required:
            rec.label("missing required")
            with rec.raises(TypeError, "to(Model) without %s" % required):
                seq.to(model)
        else:
            got = seq.to(model)
            rec.ok(type(got) is model, "to(Model): kind", got)
            for name, hint, _how in case["fields"]:
                value = getattr(got, name)
                if name in wanted and name not in outside:
                    rec.eq(shown([value]), shown([wanted[name]]), "to(Model).%s typed %s" % (name, hint))
                elif hint in LISTS | OPTIONAL_LISTS and value == []:
                    rec.label("empty list")
                else:
                    rec.eq(value, defaults[name], "to(Model).%s typed %s: default" % (name, hint))
        got = seq.to(typed)
        rec.ok(isinstance(got, dict), "to(TypedDict): kind", got)
        for name, hint, _how in case["fields"]:
            if name in wanted:
                rec.ok(name in got, "to(TypedDict) has no %s" % name)
                rec.eq(shown([got[name]]), shown([wanted[name]]), "to(TypedDict)[%s] typed %s" % (name, hint))
            else:
                rec.ok(name not in got or (hint in LISTS | OPTIONAL_LISTS and got[name] == []), "to(TypedDict)[%s] without match" % name, got)
        rec.eq(sorted(set(got) - {f[0] for f in case["fields"]}), [], "to(TypedDict): other entries")
        rec.label("model")


PROP = C18
