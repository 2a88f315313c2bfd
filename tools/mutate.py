#!/usr/bin/env python3
"""Development aid: mutants of the code under test that its own tests let pass.

mutate.py survivors OUT.json [--files a.py,b.py]   run the repository's tests on every mutant, in scratch copies
mutate.py more OUT.json [--files a.py,b.py]        the same with another set of changes
mutate.py hunt SURVIVORS.json OUT.json             run the checks on the surviving mutants, in scratch copies
"""

import ast
import concurrent.futures
import json
import os
import queue
import random
import shutil
import subprocess
import sys

REPO = "/repo"
SCRATCH = os.environ.get("MUTATE_SCRATCH", "/tmp/mu")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["builder", "chain", "debug", "formatters", "introspector", "key", "loose", "match", "model", "pattern", "processors", "rebulk", "rules",
         "toposort", "utils", "validators", "remodule", "typed"]
COMPARE = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"],
           ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
NAMES = {"start": "end", "end": "start", "min": "max", "max": "min", "any": "all", "all": "any", "parent": "initiator", "initiator": "parent",
         "raw_start": "start", "raw_end": "end", "append": "insert(0, ", "value": "raw", "children": "named"}


class Finder(ast.NodeVisitor):
    def __init__(self, source):
        self.source = source
        self.lines = source.splitlines(True)
        self.offsets = [0]
        for line in self.lines:
            self.offsets.append(self.offsets[-1] + len(line.encode()))
        self.raw = source.encode()
        self.found = []

    def at(self, line, col):
        return self.offsets[line - 1] + col

    def span(self, node):
        return self.at(node.lineno, node.col_offset), self.at(node.end_lineno, node.end_col_offset)

    def text(self, node):
        a, b = self.span(node)
        return self.raw[a:b].decode()

    def put(self, node, new, what):
        a, b = self.span(node)
        self.found.append((a, b, new, what, node.lineno))

    def visit_AnnAssign(self, node):
        if node.value:
            self.visit(node.value)

    def visit_FunctionDef(self, node):
        for default in node.args.defaults + [d for d in node.args.kw_defaults if d]:
            self.visit(default)
        for number, statement in enumerate(node.body):
            if number == 0 and isinstance(statement, ast.Expr) and isinstance(statement.value, ast.Constant):
                continue
            self.visit(statement)

    def visit_Raise(self, node):
        self.put(node, "pass", "no raise")

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        if isinstance(node.value, ast.Call):
            self.put(node, "pass", "delete statement")
        self.generic_visit(node)

    def visit_Assign(self, node):
        if isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            self.put(node, "pass", "delete assignment")
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.put(node, "pass", "delete augmented assignment")
        self.generic_visit(node)

    def visit_Delete(self, node):
        self.put(node, "pass", "delete del")

    def visit_Return(self, node):
        if node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            self.put(node, "return None", "return None")
        self.generic_visit(node)

    def visit_Break(self, node):
        self.put(node, "continue", "continue")

    def visit_Continue(self, node):
        self.put(node, "break", "break")

    def visit_If(self, node):
        self.put(node.test, "True", "if True")
        self.put(node.test, "False", "if False")
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.put(node, "(" + self.text(node.body) + ")", "then branch")
        self.put(node, "(" + self.text(node.orelse) + ")", "else branch")
        self.generic_visit(node)

    def visit_comprehension(self, node):
        for test in node.ifs:
            self.put(test, "True", "filter True")
        self.generic_visit(node)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            for new in COMPARE.get(type(node.ops[0]), []):
                self.put(node, "%s %s %s" % (self.text(node.left), new, self.text(node.comparators[0])), "compare " + new)
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        word = " or " if isinstance(node.op, ast.And) else " and "
        self.put(node, "(" + word.join("(%s)" % self.text(v) for v in node.values) + ")", "swap to" + word)
        keep = " and " if isinstance(node.op, ast.And) else " or "
        for skip in range(len(node.values)):
            self.put(node, "(" + keep.join("(%s)" % self.text(v) for i, v in enumerate(node.values) if i != skip) + ")", "drop operand %d" % skip)
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            self.put(node, "(" + self.text(node.operand) + ")", "drop not")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if isinstance(node.op, (ast.Add, ast.Sub)):
            word = "-" if isinstance(node.op, ast.Add) else "+"
            self.put(node, "(%s %s %s)" % (self.text(node.left), word, self.text(node.right)), "swap " + word)
            self.put(node, "(%s)" % self.text(node.left), "left operand")
            self.put(node, "(%s)" % self.text(node.right), "right operand")
        self.generic_visit(node)

    def visit_Constant(self, node):
        if node.value is True or node.value is False:
            self.put(node, str(not node.value), "flip")
        elif isinstance(node.value, int):
            self.put(node, str(node.value + 1), "+1")
            self.put(node, "(%d)" % (node.value - 1), "-1")

    def visit_Call(self, node):
        name = node.func.attr if isinstance(node.func, ast.Attribute) else node.func.id if isinstance(node.func, ast.Name) else ""
        if name in ("copy",) and isinstance(node.func, ast.Attribute) and not node.args:
            self.put(node, self.text(node.func.value), "no copy")
        if name in ("sorted", "reversed", "list", "set", "tuple", "dict", "deepcopy", "str") and len(node.args) == 1:
            self.put(node, "(" + self.text(node.args[0]) + ")", "no " + name)
        for keyword in node.keywords:
            if keyword.arg and keyword.arg not in ("filename",):
                rest = [self.text(a) for a in node.args] + [("%s=%s" % (k.arg, self.text(k.value)) if k.arg else "**" + self.text(k.value))
                                                           for k in node.keywords if k is not keyword]
                self.put(node, self.text(node.func) + "(" + ", ".join(rest) + ")", "without %s=" % keyword.arg)
        if len(node.args) > 1:
            rest = [self.text(a) for a in node.args[:-1]] + [("%s=%s" % (k.arg, self.text(k.value)) if k.arg else "**" + self.text(k.value))
                                                            for k in node.keywords]
            self.put(node, self.text(node.func) + "(" + ", ".join(rest) + ")", "without last argument")
        if name == "append" and isinstance(node.func, ast.Attribute) and len(node.args) == 1:
            self.put(node, "%s.insert(0, %s)" % (self.text(node.func.value), self.text(node.args[0])), "insert first")
        if name in ("min", "max", "any", "all") and isinstance(node.func, ast.Name):
            self.put(node.func, NAMES[name], NAMES[name])
        self.generic_visit(node)

    def visit_Attribute(self, node):
        if node.attr in ("start", "end", "initiator", "parent", "raw_start", "raw_end", "value") and isinstance(node.ctx, ast.Load):
            self.put(node, self.text(node.value) + "." + NAMES[node.attr], "attribute " + NAMES[node.attr])
        self.generic_visit(node)

    def visit_Subscript(self, node):
        if isinstance(node.slice, ast.Slice) and isinstance(node.ctx, ast.Load):
            if node.slice.lower is None and node.slice.upper is None:
                self.put(node, self.text(node.value), "no slice copy")
        self.generic_visit(node)


SAME = ["start end raw_start raw_end", "name raw value", "children parent initiator", "matches markers patterns", "span raw_span",
        "private marker", "_patterns _rebulks _rules", "formatter validator", "extend update", "keys values items", "lower upper casefold"]
SAME = {word: [other for other in group.split() if other != word] for group in SAME for word in group.split()}


class More(Finder):
    """Other slips: a wrong variable, truth instead of presence, shortened loops, swapped arguments or statements."""

    names = []

    def visit_FunctionDef(self, node):
        outer = self.names
        arguments = node.args.posonlyargs + node.args.args + node.args.kwonlyargs
        self.names = sorted({a.arg for a in arguments if a.arg not in ("self", "cls")} |
                            {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        for default in node.args.defaults + [d for d in node.args.kw_defaults if d]:
            if isinstance(default, ast.Constant) and default.value in (True, False, None):
                for new in ("True", "False", "None"):
                    self.put(default, new, "default " + new)
        body = node.body[1:] if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else node.body
        self.block(body)
        for statement in body:
            self.visit(statement)
        self.names = outer

    def block(self, body):
        for one, two in zip(body, body[1:]):
            if isinstance(one, (ast.FunctionDef, ast.ClassDef)) or isinstance(two, (ast.FunctionDef, ast.ClassDef, ast.Return, ast.Raise)):
                continue
            a, b = self.span(one)
            c, d = self.span(two)
            middle = self.raw[b:c].decode()
            if not middle.strip():
                self.found.append((a, d, self.text(two) + middle + self.text(one), "swap statements", one.lineno))

    def visit_For(self, node):
        self.shorten(node.iter)
        self.block(node.body)
        self.generic_visit(node)

    def visit_If(self, node):
        if isinstance(node.test, ast.Name) and node.test.id == "TYPE_CHECKING":
            return
        self.block(node.body)
        if isinstance(node.test, (ast.Name, ast.Attribute)):
            self.put(node.test, self.text(node.test) + " is not None", "presence")
        self.generic_visit(node)

    def visit_While(self, node):
        self.block(node.body)
        self.generic_visit(node)

    def visit_Try(self, node):
        self.block(node.body)
        self.generic_visit(node)

    def visit_ExceptHandler(self, node):
        if node.type is not None:
            self.put(node.type, "Exception", "catch all")
            self.put(node.type, "ZeroDivisionError", "catch nothing")
        self.generic_visit(node)

    def visit_comprehension(self, node):
        self.shorten(node.iter)
        self.generic_visit(node)

    def shorten(self, node):
        text = self.text(node)
        self.put(node, "list(%s)[:3]" % text, "first three")
        self.put(node, "list(%s)[:6]" % text, "first six")
        self.put(node, "list(%s)[::-1]" % text, "backwards")

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            left, right = self.text(node.left), self.text(node.comparators[0])
            if isinstance(node.ops[0], ast.IsNot) and right == "None":
                self.put(node, "(bool(%s))" % left, "truth")
            elif isinstance(node.ops[0], ast.Is) and right == "None":
                self.put(node, "(not %s)" % left, "truth")
            elif isinstance(node.ops[0], (ast.Is, ast.IsNot)):
                self.put(node, "%s %s %s" % (left, "==" if isinstance(node.ops[0], ast.Is) else "!=", right), "equality")
            elif isinstance(node.ops[0], (ast.Eq, ast.NotEq)):
                self.put(node, "%s %s %s" % (left, "is" if isinstance(node.ops[0], ast.Eq) else "is not", right), "identity")
            elif isinstance(node.ops[0], (ast.In, ast.NotIn)):
                self.put(node, "%s(any(_x is %s for _x in %s))" % ("" if isinstance(node.ops[0], ast.In) else "not ", left, right), "identity in")
            else:
                self.put(node, "%s %s %s + 1" % (left, {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[type(node.ops[0]).__name__], right), "bound + 1")
                self.put(node, "%s %s %s - 1" % (left, {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[type(node.ops[0]).__name__], right), "bound - 1")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        if isinstance(node.op, ast.Or) and len(node.values) == 2:
            a, b = (self.text(v) for v in node.values)
            self.put(node, "(%s if %s is not None else %s)" % (a, a, b), "presence or")
        self.generic_visit(node)

    def visit_IfExp(self, node):
        if isinstance(node.test, (ast.Name, ast.Attribute)):
            self.put(node.test, "(%s is not None)" % self.text(node.test), "presence")
        self.generic_visit(node)

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load) and node.id in self.names:
            for other in self.names:
                if other != node.id:
                    self.put(node, other, "variable " + other)

    def visit_Attribute(self, node):
        for other in SAME.get(node.attr, []):
            self.put(node, self.text(node.value) + "." + other, "attribute " + other)
        self.generic_visit(node)

    def visit_Call(self, node):
        name = self.text(node.func)
        if name in ("log", "cast", "isinstance", "issubclass"):
            return
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            first, second = node.args[:2]
            a, b = self.span(first)
            c, d = self.span(second)
            self.found.append((a, d, self.text(second) + self.raw[b:c].decode() + self.text(first), "swap arguments", node.lineno))
        if isinstance(node.func, ast.Attribute) and node.func.attr == "get" and node.args:
            self.put(node, "%s[%s]" % (self.text(node.func.value), self.text(node.args[0])), "item")
        if isinstance(node.func, ast.Attribute) and node.func.attr == "setdefault" and len(node.args) == 2:
            self.put(node, "%s.update({%s: %s})" % (self.text(node.func.value), self.text(node.args[0]), self.text(node.args[1])), "overwrite")
        self.generic_visit(node)


def original_lines(name):
    out = subprocess.run(["git", "-C", REPO, "blame", "-s", "HEAD", "--", name], capture_output=True, text=True, check=True).stdout
    return [line.startswith("^") for line in out.splitlines()]


def mutants(names, finder_class=Finder):
    out = []
    for name in names:
        path = os.path.join(REPO, "rebulk", name + ".py")
        if not os.path.exists(path):
            continue
        source = open(path).read()
        finder = finder_class(source)
        finder.visit(ast.parse(source))
        blame = original_lines("rebulk/%s.py" % name)
        seen = set()
        for a, b, new, what, line in finder.found:
            changed = (finder.raw[:a] + new.encode() + finder.raw[b:]).decode()
            if changed in seen or changed == source:
                continue
            seen.add(changed)
            try:
                compile(changed, name, "exec")
            except SyntaxError:
                continue
            out.append({"file": name, "a": a, "b": b, "new": new, "what": what, "line": line, "old": finder.raw[a:b].decode(), "original": blame[line - 1]})
    return out


def apply(mutant, where):
    raw = open(os.path.join(REPO, "rebulk", mutant["file"] + ".py"), "rb").read()
    with open(os.path.join(where, "rebulk", mutant["file"] + ".py"), "wb") as stream:
        stream.write(raw[:mutant["a"]] + mutant["new"].encode() + raw[mutant["b"]:])


def restore(mutant, where):
    shutil.copyfile(os.path.join(REPO, "rebulk", mutant["file"] + ".py"), os.path.join(where, "rebulk", mutant["file"] + ".py"))


def tests(where):
    env = {"PATH": "/opt/venv/bin:/usr/bin:/bin", "PYTHONHASHSEED": "0", "PYTEST_DISABLE_PLUGIN_AUTOLOAD": "1", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": where}
    for extra, args in (({}, []), ({"REBULK_REGEX_ENABLED": "1"}, []), ({"REBULK_CHECK_DECLARED_KEYS": "1"}, ["--ignore=README.md"])):
        try:
            done = subprocess.run(["prlimit", "--as=4000000000", "timeout", "60", "python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider"] + args,
                                  cwd=where, env={**env, **extra}, capture_output=True, text=True)
        except OSError:
            return False
        if done.returncode != 0:
            return False
    return True


def pool(count):
    copies = queue.Queue()
    for number in range(count):
        where = os.path.join(SCRATCH, "w%d" % number)
        shutil.rmtree(where, ignore_errors=True)
        shutil.copytree(REPO, where, symlinks=True)
        copies.put(where)
    return copies


def survivors(out, names, finder_class=Finder):
    todo = mutants(names, finder_class)
    if finder_class is More:  # only its own kinds, in lines of the original, and one in ten of the many variables
        old = {(m["file"], m["a"], m["b"], m["new"]) for m in mutants(names)}
        chance = random.Random(1)
        todo = [m for m in todo if m["original"] and (m["file"], m["a"], m["b"], m["new"]) not in old
                and (not m["what"].startswith("variable") or chance.random() < 0.1)]
        chance.shuffle(todo)
    print(len(todo), "mutants", flush=True)
    copies = pool(8)
    alive = []

    def one(mutant):
        where = copies.get()
        try:
            apply(mutant, where)
            return tests(where)
        finally:
            restore(mutant, where)
            copies.put(where)

    with concurrent.futures.ThreadPoolExecutor(8) as workers:
        for mutant, passed in zip(todo, workers.map(one, todo)):
            if passed:
                alive.append(mutant)
                json.dump(alive, open(out, "w"), indent=1)
    json.dump(alive, open(out, "w"), indent=1)
    print(len(alive), "survive")


ORDER = {
    "chain": "C06 C07 C19 C27 C05 C04 C23 C22 C31 C21 C33 C28", "match": "C13 C14 C15 C16 C17 C18 C25 C26 C35 C12 C20 C27 C22 C08 C10 C11 C24",
    "builder": "C23 C19 C20 C21 C28 C06 C02 C24 C22 C07", "pattern": "C01 C02 C03 C04 C05 C19 C31 C27 C06 C24 C28 C33 C21 C32",
    "rules": "C11 C12 C24 C28 C31 C08 C22", "rebulk": "C24 C20 C21 C10 C11 C04 C28 C31 C22 C23", "processors": "C08 C09 C10 C24 C11",
    "loose": "C29 C03 C23 C19 C24", "toposort": "C30 C11", "utils": "C01 C03 C13 C24 C22 C17", "validators": "C32", "formatters": "C32",
    "introspector": "C31", "key": "C19 C18 C20", "model": "C18", "typed": "C18", "debug": "C28", "remodule": "C33 C02",
}


def hunt(source, out):
    todo = json.load(open(source))
    done = json.load(open(out)) if os.path.exists(out) else []
    known = {(m["file"], m["a"], m["b"], m["new"]) for m in done}
    todo = [m for m in todo if (m["file"], m["a"], m["b"], m["new"]) not in known]
    parallel = 4
    copies = pool(parallel)

    def one(mutant):
        where = copies.get()
        try:
            apply(mutant, where)
            for pid in ORDER[mutant["file"]].split()[:int(os.environ.get("MUTATE_CHECKS", "99"))]:
                env = {**os.environ, "VERIF_REPO": where, "VERIF_REPLAY_TAG": "mutant" + os.path.basename(where)}
                run = subprocess.run([sys.executable, "run.py", pid, "--scale", "0.25", "--shards", "3"], cwd=VERIF, env=env, capture_output=True, text=True)
                if run.returncode == 1:
                    return pid
                if run.returncode != 0:
                    return "ERROR %s %s" % (pid, run.stdout[-800:])
            return None
        finally:
            restore(mutant, where)
            copies.put(where)

    with concurrent.futures.ThreadPoolExecutor(parallel) as workers:
        for mutant, caught in zip(todo, workers.map(one, todo)):
            done.append({**mutant, "caught": caught})
            json.dump(done, open(out, "w"), indent=1)


if __name__ == "__main__":
    os.makedirs(SCRATCH, exist_ok=True)
    if sys.argv[1] == "survivors":
        survivors(sys.argv[2], sys.argv[3].split(",") if len(sys.argv) > 3 else FILES)
    elif sys.argv[1] == "more":
        survivors(sys.argv[2], sys.argv[3].split(",") if len(sys.argv) > 3 else FILES, More)
    else:
        hunt(sys.argv[2], sys.argv[3])
