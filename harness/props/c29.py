"""Signature-adapting calls."""

import dataclasses
import functools

from hypothesis import strategies as st

from harness.core import Prop
from harness.lib import rb

PARAMS = ["a", "b", "c", "d", "e"]
EXTRA = ["z", "y", "ignore_unused", "function", "callable_", "class_", "argspec", "constructor", "sig", "kw", "more", "self", "cls", "args", "rest"]
KINDS = ["function", "method", "classmethod", "staticmethod", "callable", "class", "subclass", "lambda", "partial",
         "boundpartial", "instance_method_of_class", "empty_class", "new_class", "wrapped", "wrapped_method", "dataclass"]
FREE = ("function", "staticmethod", "lambda", "partial", "wrapped")  # parameters may be called self and cls


@st.composite
def signatures(draw):
    names = draw(st.permutations(PARAMS))
    n_posonly = draw(st.sampled_from([0, 0, 0, 1, 2]))
    n_pos = draw(st.integers(0, 3 - (n_posonly > 1)))
    n_kwonly = draw(st.sampled_from([0, 0, 1, 2]))
    n_kwonly = min(n_kwonly, 5 - n_posonly - n_pos)
    total = n_posonly + n_pos
    n_default = draw(st.integers(0, total))
    params = []
    for i in range(total):
        params.append([names[i], "posonly" if i < n_posonly else "pos", i >= total - n_default])
    for i in range(n_kwonly):
        params.append([names[total + i], "kwonly", draw(st.booleans())])
    return {"params": params, "varargs": draw(st.integers(0, 3)) == 0, "varkw": draw(st.integers(0, 3)) == 0}


@st.composite
def cases(draw):
    sig = draw(signatures())
    kind = draw(st.sampled_from(KINDS))
    if kind in FREE and draw(st.booleans()):
        for p in sig["params"]:
            p[0] = {"a": "self", "b": "cls"}.get(p[0], p[0])
    if kind == "dataclass":
        sig = {"params": sorted([[p[0], "kwonly" if p[1] == "kwonly" else "pos", p[2]] for p in sig["params"]], key=lambda p: (p[1] == "kwonly", p[2])),
               "varargs": False, "varkw": False}
    names = [p[0] for p in sig["params"]]
    n = len([p for p in sig["params"] if p[1] != "kwonly"])
    args = draw(st.lists(st.integers(0, 9), min_size=0, max_size=n + 2))
    starred = ["args"] * 4 * sig["varargs"] + ["rest"] * 4 * sig["varkw"]
    keys = draw(st.lists(st.sampled_from(names + EXTRA + starred), unique=True, max_size=4))
    if draw(st.booleans()):
        # mostly give the keyword-only parameters that have no default
        for name, param_kind, default in sig["params"]:
            if param_kind == "kwonly" and not default and name not in keys:
                keys.append(name)
    if draw(st.booleans()):
        filled = [p[0] for p in sig["params"] if p[1] != "kwonly"][: len(args)]
        keys = [k for k in keys if k not in filled]
    bound = []
    if kind == "partial":
        bound = [draw(st.integers(0, n)), draw(st.sampled_from([None] + [p[0] for p in sig["params"] if p[1] != "posonly"]))]
    return {"sig": sig, "kind": kind, "args": args, "kwargs": [[k, i + 100] for i, k in enumerate(keys)],
            "fails": draw(st.sampled_from([False] * 11 + [True])), "bound": bound}


class Boom(Exception):
    pass


def source(sig, first=None):
    parts = [first] if first else []
    posonly = [p for p in sig["params"] if p[1] == "posonly"]
    # a leading bound parameter cannot come after positional-only ones
    for i, (name, kind, default) in enumerate(sig["params"]):
        if kind == "kwonly":
            continue
        parts.append(name + ("='d_%s'" % name if default else ""))
        if kind == "posonly" and i == len(posonly) - 1:
            parts.append("/")
    if sig["varargs"]:
        parts.append("*args")
    elif any(p[1] == "kwonly" for p in sig["params"]):
        parts.append("*")
    for name, kind, default in sig["params"]:
        if kind == "kwonly":
            parts.append(name + ("='d_%s'" % name if default else ""))
    if sig["varkw"]:
        parts.append("**rest")
    return ", ".join(parts)


def build(case):
    """The callable of a case; it returns what it received."""
    sig, kind = case["sig"], case["kind"]
    shown = ", ".join("(%r, %s)" % (p[0], p[0]) for p in sig["params"])
    shown = "[%s], %s, %s" % (shown, "args" if sig["varargs"] else "()", "rest" if sig["varkw"] else "{}")
    body = "boom()" if case["fails"] else "RESULT(%s)" % shown
    names = {"boom": boom, "wraps": functools.wraps, "dataclasses": dataclasses, "RESULT": lambda *a: ("got",) + a}
    if kind in ("function", "partial"):
        text = "def f(%s):\n    return %s\n" % (source(sig), body)
    elif kind == "lambda":
        text = "f = lambda %s: %s\n" % (source(sig), body)
    elif kind in ("method", "boundpartial", "instance_method_of_class"):
        text = "class C:\n    def f(self, %s):\n        return %s\nf = C().f\n" % (source(sig), body)
    elif kind == "classmethod":
        text = "class C:\n    @classmethod\n    def f(cls, %s):\n        return %s\nf = C.f\n" % (source(sig), body)
    elif kind == "staticmethod":
        text = "class C:\n    @staticmethod\n    def f(%s):\n        return %s\nf = C.f\n" % (source(sig), body)
    elif kind == "callable":
        text = "class C:\n    def __call__(self, %s):\n        return %s\nf = C()\n" % (source(sig), body)
    elif kind in ("class", "subclass"):
        text = "class f:\n    def __init__(self, %s):\n        self.got = %s\n" % (source(sig), body)
        if kind == "subclass":
            text = text.replace("class f", "class B") + "class f(B):\n    pass\n"
    elif kind == "wrapped":
        text = "def g(q, b=1, *, w=2):\n    return None\n@wraps(g)\ndef f(%s):\n    return %s\n" % (source(sig), body)
    elif kind == "wrapped_method":
        text = ("class C:\n    def g(self, q, b=1, *more):\n        return None\n    @wraps(g)\n    def f(self, %s):\n        return %s\nf = C().f\n"
                % (source(sig), body))
    elif kind == "dataclass":
        text = "@dataclasses.dataclass\nclass f:\n"
        for name, param_kind, default in sig["params"]:
            text += "    %s: object = dataclasses.field(kw_only=%s%s)\n" % (name, param_kind == "kwonly", ", default='d_%s'" % name if default else "")
        text += "    def __post_init__(self):\n        %s = %s\n" % (", ".join(["_"] + [p[0] for p in sig["params"]]), ", ".join(["0"] + ["self." + p[0] for p in sig["params"]]))
        text += "        self.got = %s\n" % body
    elif kind == "empty_class":
        text = "class f:\n    got = 'empty'\n"
    elif kind == "new_class":
        text = "class f:\n    def __new__(cls, %s):\n        self = object.__new__(cls)\n        self.got = %s\n        return self\n" % (
            source(sig), body)
    exec(text, names)  # noqa: S102
    f = names["f"]
    if kind == "partial":
        keyword = case["bound"][1]
        f = functools.partial(f, *(["p%d" % i for i in range(case["bound"][0])]), **({keyword: "pk"} if keyword else {}))
    elif kind == "boundpartial":
        f = functools.partial(f)
    elif kind == "instance_method_of_class":
        inner = names["C"]
        f = functools.partial(inner.f, inner())
    return f


def boom():
    raise Boom("boom")


def accepted(case):
    """The arguments that fit, from the signature as written."""
    sig = case["sig"]
    args = list(case["args"])
    kwargs = dict(case["kwargs"])
    params = [list(p) for p in sig["params"]]
    varargs, varkw = sig["varargs"], sig["varkw"]
    if case["kind"] == "empty_class":
        params, varargs, varkw = [], False, False
    if case["kind"] == "partial":
        count, keyword = case["bound"]
        positional = [p for p in params if p[1] != "kwonly"]
        params = positional[count:] + [p for p in params if p[1] == "kwonly"]
        names = [p[0] for p in params]
        if keyword in names and [p for p in params if p[0] == keyword][0][1] == "pos":
            at = names.index(keyword)
            for p in params[at:]:
                p[1] = "kwonly"
    positional = [p for p in params if p[1] != "kwonly"]
    if not varargs:
        args = args[: len(positional)]
    if not varkw:
        names = {p[0] for p in params if p[1] != "posonly"}
        kwargs = {k: v for k, v in kwargs.items() if k in names}
    return args, kwargs


def outcome(fn):
    try:
        value = fn()
    except Boom:
        return "boom"
    except TypeError:
        return "TypeError"
    return getattr(value, "got", value)


class C29(Prop):
    id = "C29"
    rule = ("generated parameter lists (positional-only, positional, defaulted, *args, keyword-only, **kw) on functions, "
            "bound/class/static methods, callable objects, classes (own, inherited, no constructor, __new__), lambdas and "
            "partials x surplus positional and keyword arguments; non-trivial: an argument has to be left out, or a "
            "keyword has to be passed")
    quick = 2400
    thorough = 40000

    def strategy(self):
        return cases()

    def expect(self, case):
        # a partial that binds a name twice, or binds a positional parameter of a later position, is no valid callable
        if case["kind"] == "partial" and case["bound"][1]:
            positional = [p[0] for p in case["sig"]["params"] if p[1] != "kwonly"]
            if case["bound"][1] in positional[: case["bound"][0]]:
                return {"skip": True}
            if case["sig"]["varargs"] and case["bound"][1] in positional:
                return {"skip": True}
        args, kwargs = accepted(case)
        f = build(case)
        return {"args": args, "kwargs": kwargs, "outcome": outcome(lambda: f(*args, **kwargs))}

    def check(self, case, expected, rec):
        if "skip" in expected:
            rec.label("skipped")
            return
        rec.label("kind:" + case["kind"], "outcome:" + (expected["outcome"] if isinstance(expected["outcome"], str) else "value"))
        rec.hit(len(expected["args"]) < len(case["args"]) or bool(expected["kwargs"]) or len(expected["kwargs"]) < len(case["kwargs"]))
        f = build(case)
        args, kwargs = list(case["args"]), dict(case["kwargs"])
        if expected["outcome"] == "TypeError":
            # a missing argument: the error of the direct call comes through
            with rec.raises(TypeError, "call without a required argument"):
                rb.call(f, *args, **kwargs)
            return
        if "self" in kwargs and case["kind"] in ("method", "callable", "class", "subclass", "boundpartial"):
            pass
        rec.eq(outcome(lambda: rb.call(f, *args, **kwargs)), expected["outcome"], "received arguments")
        rec.eq(kwargs, dict(case["kwargs"]), "the caller's arguments")


PROP = C29
