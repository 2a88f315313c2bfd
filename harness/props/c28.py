"""Debug mode, log levels and logging configuration."""

import itertools
import logging
import os
import sys

from hypothesis import strategies as st

from harness import chainmodel, configs, specs
from harness.core import Prop
from harness.lib import own, rb, snap_all

LEVELS = [None, 0, 5, 10, 20, 30, 50]
STYLES = ["line", "line", "split", "helper", "fluent", "comment", "nested"]


@st.composite
def cases(draw):
    conf = draw(configs.configs(solvers=True))
    entries = configs.all_entries(conf)
    context = draw(configs.contexts)
    text = draw(configs.texts(entries))
    styles = [draw(st.sampled_from(STYLES)) for _ in range(12)]
    variants = []
    for _ in range(2):
        variants.append({"build": draw(st.booleans()), "search": draw(st.booleans()), "module": draw(st.sampled_from([0, 5, 10, 10, 20, 50])),
                         "levels": draw(st.lists(st.sampled_from(LEVELS), min_size=1, max_size=4)),
                         "rule_levels": draw(st.lists(st.sampled_from(LEVELS), min_size=1, max_size=3)),
                         "instances": draw(st.booleans()),
                         "logger": draw(st.sampled_from([None, 1, 5, 10, 20, 60])), "where": draw(st.sampled_from(["rebulk", "", "rebulk.rebulk", "rebulk.rules"])),
                         "package": draw(st.sampled_from([None, "", "user", "user.rebulk", "rebulked"]))})
    return {"conf": conf, "text": text, "context": context, "styles": styles, "variants": variants}


def source(case):
    """User code registering everything, in several styles."""
    lines = ["# user code", "def helper(target, kind, *args, **kwargs):", "    return getattr(target, kind)(", "        *args, **kwargs)", "",
             "def deeper(target, kind, *args, **kwargs):", "    # one more", "    return helper(target, kind, *args, **kwargs)", ""]
    styles = itertools.cycle(case["styles"])
    number = [0]

    def call(target, kind, args, to=None):
        """One registration."""
        style = next(styles)
        head = "%s = " % to if to else ""
        if style == "comment":
            lines.extend(["", "# a comment"])
        if style in ("line", "comment"):
            lines.append("%s%s.%s(%s)" % (head, target, kind, args))
        elif style == "split":
            lines.extend(["%s%s.%s(" % (head, target, kind), "    %s" % args, ")"])
        elif style == "helper":
            lines.append("%shelper(%s, %r, %s)" % (head, target, kind, args))
        elif style == "nested":
            lines.append("%sdeeper(%s, %r, %s)" % (head, target, kind, args))
        else:
            lines.extend(["%s(%s" % (head, target), "    .%s(%s))" % (kind, args)])

    def chain(target, path):
        name = "c%d" % number[0]
        number[0] += 1
        call(target, "chain", "**O[%r]" % path, name)
        for position, part in enumerate(lookup(case, path)["parts"]):
            where = path + "/" + str(position)
            if part["kind"] == "chain":
                chain(name, where)
            else:
                call(name, part["kind"], "*A[%r], **O[%r]" % (where, where), "p")
                lines.append("finish(p, %r)" % where)

    def fill(conf, bulk, prefix):
        for position, entry in enumerate(conf["patterns"]):
            path = "%s%d" % (prefix, position)
            if entry["kind"] == "chain":
                chain(bulk, path)
            else:
                call(bulk, entry["kind"], "*A[%r], **O[%r]" % (path, path))
        for position, _rule in enumerate(conf["rules"]):
            call(bulk, "rules", "(lambda made, level: made if level is None else made(log_level=level))(*rule(%r, %d))" % (prefix, position))

    lines.append("bulk = new('')")
    fill(case["conf"], "bulk", "")
    for number_, child in enumerate(case["conf"]["children"]):
        lines.append("child = new('c%d:')" % number_)
        fill(child, "child", "c%d:" % number_)
        lines.append("bulk.rebulk(child)")
    return "\n".join(lines) + "\n"


def owner_of(case, prefix):
    return case["conf"]["children"][int(prefix[1:-1])] if prefix else case["conf"]


def lookup(case, path):
    prefix, _colon, rest = path.rpartition(":")
    steps = [int(step) for step in rest.split("/")]
    entry = owner_of(case, prefix + ":" if prefix else "")["patterns"][steps[0]]
    for step in steps[1:]:
        entry = entry["parts"][step]
    return entry


class Recorder:
    """Stands for a builder: notes the line of each call, in order."""

    def __init__(self, calls):
        self.calls = calls

    def note(self, kind):
        frame = sys._getframe(2)
        self.calls.append([kind, frame.f_lineno])

    def chain(self, **kwargs):
        self.note("chain")
        return Recorder(self.calls)

    def string(self, *args, **kwargs):
        self.note("string")
        return self

    regex = functional = None  # set below

    def rules(self, *args):
        self.note("rules")
        return self

    def rebulk(self, other):
        self.calls.append(["rebulk", 0])
        return self


def _kind(name):
    def run(self, *args, **kwargs):
        self.note(name)
        return self

    return run


Recorder.regex = _kind("regex")
Recorder.functional = _kind("functional")


class Everything(dict):
    """Empty options or arguments for any path."""

    def __missing__(self, key):
        return {}


FILE = "/home/user/code.py"


class Emit(logging.Handler):
    """Renders every message."""

    def __init__(self):
        super().__init__(0)
        self.texts = []

    def emit(self, record):
        self.texts.append(record.getMessage())


class C28(Prop):
    id = "C28"
    rule = ("a parent and children with patterns, chains, rules, registered by generated user code in several styles (calls over several lines, "
            "helpers, fluent), under two random variants of debug mode (at build, at search), module, pattern and rule log levels, logger levels and "
            "a handler rendering every message, against the plain search; in debug mode the defining file and line of patterns, chain parts, rules "
            "and matches against those seen by a stand-in builder; non-trivial: something matches and a variant builds in debug mode")
    quick = 700
    thorough = 15000

    def strategy(self):
        return cases()

    def expect(self, case):
        calls, created = [], []
        text = source(case)
        space = {"new": lambda prefix: Recorder(calls), "finish": lambda part, path: None, "rule": lambda prefix, position: (created.append(sys._getframe(1).f_lineno), None),
                 "A": Everything(), "O": Everything()}
        exec(compile(text, FILE, "exec"), space)
        patterns, rules = [], []
        for kind, line in calls:
            if kind == "rules":
                rules.append(line)
            elif kind != "rebulk":
                patterns.append([kind, line])
        return {"source": text, "patterns": patterns, "rules": rules, "created": created}

    def setup(self):
        self.debug = rb.debug

    def build(self, case, expected, variant, found):
        levels = itertools.cycle(variant["levels"] if variant else [None])
        rule_levels = itertools.cycle(variant["rule_levels"] if variant else [None])

        class Options(dict):
            def __missing__(self, path):
                entry = lookup(case, path)
                opts = entry["opts"]
                if entry["kind"] == "chain":
                    special = {key: opts[key] for key in ("disabled", "conflict_solver") if key in opts}
                    out = {**chainmodel.chain_options({k: v for k, v in opts.items() if k not in special}), **specs.options(special)}
                else:
                    out = specs.options(opts)
                level = next(levels)
                if level is not None:
                    out["log_level"] = level
                return out

        class Arguments(dict):
            def __missing__(self, path):
                entry = lookup(case, path)
                if "arg" not in entry:
                    return specs.pattern_args(entry)
                return [chainmodel.function_for(entry["arg"]) if entry["kind"] == "functional" else entry["arg"]]

        def new(prefix):
            conf = owner_of(case, prefix)
            made = rb.Rebulk(disabled=specs.disabling(conf["disabled"]), default_rules=conf["default_rules"])
            found["bulks"].append(made)
            return made

        def finish(part, path):
            entry = lookup(case, path)
            if entry["repeater"] is not None:
                part.repeater(entry["repeater"])

        classes = {}
        instances = bool(variant and variant["instances"])

        def rule(prefix, position):
            spec = owner_of(case, prefix)["rules"][position]
            key = repr(sorted(spec.items()))
            if key not in classes:
                classes[key] = configs.make_rule(spec, None if instances else next(rule_levels))
            return classes[key], next(rule_levels) if instances else None

        space = {"new": new, "finish": finish, "rule": rule, "A": Arguments(), "O": Options(), "__package__": variant["package"] if variant else None,
                 "__name__": "code"}
        exec(compile(expected["source"], FILE, "exec"), space)
        return space["bulk"]

    def check(self, case, expected, rec):
        plain = self.run(case, expected, None, rec)
        for variant in case["variants"]:
            rec.eq(self.run(case, expected, variant, rec), plain, "result with %r" % (variant,))
        rec.label("debug at build" if any(v["build"] for v in case["variants"]) else "no debug",
                  "rendered" if any(v["logger"] is not None for v in case["variants"]) else "not rendered")
        rec.hit(any(v["build"] for v in case["variants"]) and (plain["matches"] or plain["markers"]))

    def run(self, case, expected, variant, rec):
        debug = rb.debug
        logger = logging.getLogger(variant["where"]) if variant else None
        handler = Emit()
        before = debug.DEBUG, debug.LOG_LEVEL, logger.level if logger else None
        found = {"bulks": []}
        try:
            if variant:
                debug.DEBUG = variant["build"]
                debug.LOG_LEVEL = variant["module"]
            bulk = self.build(case, expected, variant, found)
            if variant:
                debug.DEBUG = variant["search"]
                if variant["logger"] is not None:
                    logger.setLevel(variant["logger"])
                    logger.addHandler(handler)
            result = bulk.matches(case["text"], case["context"])
        finally:
            debug.DEBUG, debug.LOG_LEVEL = before[:2]
            if logger is not None:
                logger.setLevel(before[2])
                logger.removeHandler(handler)
        if variant and variant["build"]:
            self.places(bulk, result, expected, found, variant, rec)
        elif variant:
            self.same_place(list(result) + list(result.markers), rec)
        return snap_all(result)

    def same_place(self, some, rec):
        for match in some:
            if match.pattern is not None:
                rec.eq(match.defined_at, match.pattern.defined_at, "place of definition of %r and of its pattern" % (match,))
            self.same_place(match.children, rec)

    def places(self, bulk, result, expected, found, variant, rec):
        patterns = []

        def collect(pattern):
            patterns.append(pattern)
            for part in getattr(pattern, "parts", ()):
                collect(part.pattern)

        for one in found["bulks"]:
            for pattern in own(one, found["bulks"][1:] if one is found["bulks"][0] else ()):
                collect(pattern)
        rec.eq(len(patterns), len(expected["patterns"]), "patterns registered")
        known = {}
        for pattern, (_kind, line) in zip(patterns, expected["patterns"]):
            self.at(pattern.defined_at, line, rec, pattern)
            rec.ok("%s#L%d" % (os.path.basename(FILE), line) in repr(pattern), "place in the repr of", pattern)
            known[id(pattern)] = line
        rules = [rule for one in found["bulks"]
                 for rule in own(one, found["bulks"][1:] if one is found["bulks"][0] else (), rules=True) if not isinstance(rule, (rb.ConflictSolver, rb.PrivateRemover))]
        rec.eq(len(rules), len(expected["rules"]), "rules registered")
        levels = variant["rule_levels"] * 40 if variant["instances"] else [None] * len(rules)
        for rule, line, created, level in zip(rules, expected["rules"], expected["created"], levels):
            self.at(rule.defined_at, line if level is None else created, rec, rule)
            if level is not None:
                rec.eq(rule.log_level, level, "log level of %r" % (rule,))

        def matches(some):
            for match in some:
                if match.pattern is not None:
                    line = known.get(id(match.pattern))  # pieces made by crop() have a copy of it
                    self.at(match.defined_at, line if line is not None else match.pattern.defined_at.lineno, rec, match)
                matches(match.children)

        matches(result)
        matches(result.markers)

    def at(self, place, line, rec, what):
        rec.ok(place is not None, "no place of definition", what)
        rec.eq([place.filename, place.lineno], [FILE, line], "place of definition of %r" % (what,))


PROP = C28
