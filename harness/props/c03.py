"""Functional patterns."""

import functools

from hypothesis import strategies as st

from harness import seqgen
from harness.core import Prop
from harness.lib import few, rb

CALLABLES = ["one", "two", "two_default", "named", "kwonly", "kwonly_required", "varargs", "varkw", "all", "none", "method", "object", "object_ctx",
             "partial", "partial_kw", "classmethod", "static", "lambda", "builtin_like"]
SHAPES = ["item", "list", "tuple", "generator", "iterator", "list", "map"]


@st.composite
def items(draw, length):
    start = draw(st.integers(0, length - 1))
    end = draw(st.one_of(st.integers(start + 1, length), st.integers(start, length)))
    kind = draw(st.sampled_from(["span", "span", "span_list", "value", "options", "options", "value_options", "dict", "dict"]))
    extra = {}
    if kind in ("options", "value_options", "dict"):
        if draw(st.booleans()):
            extra["name"] = draw(st.sampled_from(["n", "m", "n", "m", None]))
        if draw(st.booleans()):
            extra["tags"] = draw(st.lists(st.sampled_from(["t", "u"]), max_size=2))
        if draw(st.sampled_from([True, False, False])):
            extra["private"] = draw(st.booleans())
        if draw(st.sampled_from([True, False, False])):
            extra["marker"] = draw(st.booleans())
        if kind != "value_options" and draw(st.booleans()):
            extra["value"] = draw(st.sampled_from(["own", 5, None]))
        if kind == "dict" and draw(st.sampled_from([True, False, False, False])):
            extra[draw(st.sampled_from(["input_string", "pattern"]))] = draw(st.sampled_from(["other text", "", None]))  # not an option
    value = draw(st.sampled_from(["val", 7, None])) if kind in ("value", "value_options") else None
    return {"kind": kind, "span": [start, end], "extra": extra, "value": value}


@st.composite
def cases(draw):
    text = draw(seqgen.sized_text("abc ", 2, 9))
    functions = []
    for _ in range(draw(st.sampled_from([1, 1, 2] * 8 + [7]))):
        shape = draw(st.sampled_from(SHAPES))
        returned = draw(few(items(len(text)), 0, 4))
        if shape == "item":
            returned = returned[:1]
        functions.append({"callable": draw(st.sampled_from(CALLABLES)), "shape": shape, "items": returned,
                          "nothing": draw(st.sampled_from(["none", "false", "empty", "zero"]))})
    options = {}
    if draw(st.booleans()):
        options["name"] = draw(st.sampled_from(["n", "o"]))
    if draw(st.booleans()):
        options["tags"] = draw(st.lists(st.sampled_from(["t", "w"]), min_size=1, max_size=2))
    for flag in ("private", "marker"):
        if draw(st.sampled_from([True, False, False, False])):
            options[flag] = True
    if draw(st.sampled_from([True, False, False, False])):
        options["value"] = "pattern value"
    if draw(st.booleans()):
        options["custom"] = draw(st.integers(0, 3))
    return {"text": text, "functions": functions, "options": options, "context": draw(st.sampled_from([None, {}, {"k": 1}])),
            "object": draw(st.booleans())}


class C03(Prop):
    id = "C03"
    rule = ("1 or 2 callables of 19 kinds (positional, defaulted, keyword-only, variadic, bound and class methods, callable objects, "
            "partials) returning nothing, one item or a list, tuple, generator, iterator or map of spans, spans with a value and/or an "
            "options dict, and dicts; patterns with name, tags, flags, value and custom options; non-trivial: two items, or an item with "
            "options")
    quick = 1400
    thorough = 40000

    def strategy(self):
        return cases()

    def expect(self, case):
        out = []
        options = case["options"]
        for function in case["functions"]:
            for item in function["items"]:
                extra = item["extra"]
                if item["span"][0] == item["span"][1]:
                    continue
                value = extra.get("value") or item["value"]
                if "value" in options:
                    value = options["value"]
                out.append({"span": item["span"], "name": extra.get("name", options.get("name")), "tags": extra.get("tags", options.get("tags", [])),
                            "private": extra.get("private", options.get("private", False)),
                            "marker": extra.get("marker", options.get("marker", False)),
                            "value": value or case["text"][item["span"][0]:item["span"][1]]})
        return out

    # -- the function under registration -------------------------------------
    def answer(self, function, made):
        def one(item):
            start, end = item["span"]
            kind = item["kind"]
            extra = {k: (list(v) if isinstance(v, list) else v) for k, v in item["extra"].items()}
            made.append((extra, {k: (list(v) if isinstance(v, list) else v) for k, v in item["extra"].items()}))
            if kind == "span":
                return (start, end)
            if kind == "span_list":
                return [start, end]
            if kind == "value":
                return (start, end, item["value"])
            if kind == "options":
                return (start, end, extra)
            if kind == "value_options":
                return [start, end, item["value"], extra]
            extra.update({"start": start, "end": end})
            made[-1] = (extra, {k: (list(v) if isinstance(v, list) else v) for k, v in extra.items()})
            return extra

        if not function["items"]:
            shape = function["shape"]
            if shape == "generator":
                return (x for x in ())
            return {"none": None, "false": False, "empty": [], "zero": ()}[function["nothing"]]
        if function["shape"] == "item":
            return one(function["items"][0])
        values = [one(item) for item in function["items"]]
        return {"list": list, "tuple": tuple, "generator": lambda v: (x for x in v), "iterator": iter,
                "map": lambda v: map(lambda x: x, v)}[function["shape"]](values)

    def callable(self, function, seen, made):
        """A callable of the wanted kind that records what it is given."""
        def note(**got):
            seen.append(got)
            return self.answer(function, made)

        class Owner:
            def method(self, string, context):
                return note(string=string, context=context)

            def __call__(self, string):
                return note(string=string)

            @classmethod
            def klass(cls, string, context=None, custom="no"):
                return note(string=string, context=context, custom=custom)

            @staticmethod
            def static(string, context, *, name="no"):
                return note(string=string, context=context, name=name)

        class WithContext:
            def __call__(self, string, context, tags="no", **kwargs):
                return note(string=string, context=context, tags=tags, rest=kwargs)

        def one(string):
            return note(string=string)

        def two(string, context):
            return note(string=string, context=context)

        def two_default(string, context="no"):
            return note(string=string, context=context)

        def named(string, context, name="no", custom="no"):
            return note(string=string, context=context, name=name, custom=custom)

        def kwonly(string, *, tags="no", custom="no"):
            return note(string=string, tags=tags, custom=custom)

        def kwonly_required(string, context, *, custom="no", unknown="no"):
            return note(string=string, context=context, custom=custom, unknown=unknown)

        def varargs(*args):
            return note(args=args)

        def varkw(string, **kwargs):
            return note(string=string, kwargs=kwargs)

        def everything(*args, **kwargs):
            return note(args=args, kwargs=kwargs)

        def none():
            return note()

        def partial(bound, string, context, custom="no"):
            return note(bound=bound, string=string, context=context, custom=custom)

        def builtin_like(string, /, context, *, name="no"):
            return note(string=string, context=context, name=name)

        return {
            "one": one, "two": two, "two_default": two_default, "named": named, "kwonly": kwonly, "kwonly_required": kwonly_required,
            "varargs": varargs, "varkw": varkw, "all": everything, "none": none, "method": Owner().method, "object": Owner(),
            "object_ctx": WithContext(), "partial": functools.partial(partial, "bound"),
            "partial_kw": functools.partial(named, custom="bound"), "classmethod": Owner.klass, "static": Owner.static,
            "lambda": lambda string, context, tags="no": note(string=string, context=context, tags=tags), "builtin_like": builtin_like,
        }[function["callable"]]

    def received(self, case, function, context):
        """What the recorder has to have seen."""
        options = case["options"]
        text = case["text"]

        def option(name):
            return options.get(name, "no")

        return {
            "one": {"string": text}, "two": {"string": text, "context": context}, "two_default": {"string": text, "context": context},
            "named": {"string": text, "context": context, "name": option("name"), "custom": option("custom")},
            "kwonly": {"string": text, "tags": option("tags"), "custom": option("custom")},
            "kwonly_required": {"string": text, "context": context, "custom": option("custom"), "unknown": "no"},
            "varargs": {"args": (text, context)}, "varkw": {"string": text, "kwargs": options}, "all": {"args": (text, context), "kwargs": options},
            "none": {}, "method": {"string": text, "context": context}, "object": {"string": text},
            "object_ctx": {"string": text, "context": context, "tags": option("tags"), "rest": {k: v for k, v in options.items() if k != "tags"}},
            "partial": {"bound": "bound", "string": text, "context": context, "custom": option("custom")},
            "partial_kw": {"string": text, "context": context, "name": option("name"), "custom": options.get("custom", "bound")},
            "classmethod": {"string": text, "context": context, "custom": option("custom")},
            "static": {"string": text, "context": context, "name": option("name")},
            "lambda": {"string": text, "context": context, "tags": option("tags")},
            "builtin_like": {"string": text, "context": context, "name": option("name")},
        }[function["callable"]]

    def check(self, case, expected, rec):
        seen = [[] for _ in case["functions"]]
        made = []
        callables = [self.callable(function, log, made) for function, log in zip(case["functions"], seen)]
        options = {k: (list(v) if isinstance(v, list) else v) for k, v in case["options"].items()}
        if case["object"]:
            bulk = rb.Rebulk(default_rules=False).pattern(rb.FunctionalPattern(*callables, **options))
        else:
            bulk = rb.Rebulk(default_rules=False).functional(*callables, **options)
        given = None if case["context"] is None else dict(case["context"])
        context = {} if given is None else given
        for turn in range(2):
            for log in seen:
                log.clear()
            del made[:]
            found = bulk.matches(case["text"], given) if given is not None else bulk.matches(case["text"])
            view = [{"span": [m.start, m.end], "name": m.name, "tags": list(m.tags), "private": bool(m.private), "marker": bool(m.marker),
                     "value": m.value} for m in list(found) + list(found.markers)]
            wanted = [w for w in expected if not w["marker"]] + [w for w in expected if w["marker"]]
            rec.eq(view, wanted, "matches (search %d)" % turn)
            for function, log in zip(case["functions"], seen):
                rec.eq(len(log), 1, "calls of the function")
                wanted_args = self.received(case, function, context)
                got = dict(log[0])
                for bag in ("kwargs", "rest"):
                    if bag in got:  # the builder may add options of its own
                        rec.eq({k: v for k, v in got[bag].items() if k in wanted_args[bag]}, wanted_args[bag], "options received by %(callable)s" % function)
                        got[bag] = wanted_args[bag]
                rec.eq(got, wanted_args, "arguments received by %(callable)s" % function)
                rec.label(function["callable"], "shape:" + function["shape"])
            for extra, before in made:
                rec.eq(extra, before, "the dict returned by the function")
            for match in list(found) + list(found.markers):
                match.tags.append("edited")
        rec.eq(options, case["options"], "options given by the caller")
        total = [item for function in case["functions"] for item in function["items"]]
        rec.hit(len(total) > 1 or any(item["extra"] or item["value"] for item in total))
        rec.label("items:%d" % min(len(total), 4))


PROP = C03
