"""Search engine of the checks: runs one property over generated cases.

A property module (harness/props/cNN.py) defines a class derived from ``Prop``.
Every case is plain JSON-able data, so a shrunk failing case *is* the replay.

* ``strategy()``  generates cases (all random choices are Hypothesis draws);
* ``expect(case)`` the oracle: computes the expected outcome from the case alone,
  never touching the code under test.  An exception in it is an error of the
  harness (exit 2);
* ``check(case, expected, rec)`` drives the real code.  An unexpected exception
  here, or a failed ``rec.eq``/``rec.ok``, is a violation.
"""

from __future__ import annotations

import contextlib
import hashlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

CASE_SECONDS = 20  # watchdog: never a verdict by itself, see run_watched
REGEX_PATHS = ("/opt/venv/lib/python3.12/site-packages",)  # where the regex module is installed
QUICK_SECONDS = 420  # a shard of a quick check evaluates nothing more after that
STEP_LIMIT = 4_000_000  # lines executed by one case before it counts as endless
SHRINK_SECONDS = 40


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The check itself is broken."""


class Inconclusive(Exception):
    """No verdict for this case."""


class Hang(BaseException):
    """The watchdog fired."""


class StepLimit(BaseException):
    """A case executed an absurd number of lines."""


def short(obj, limit=600):
    text = obj if isinstance(obj, str) else repr(obj)
    return text if len(text) <= limit else text[:limit] + "...(%d more)" % (len(text) - limit)


class Rec:
    """Recorder of one case: labels, non-triviality and expectations."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def hit(self, cond=True):
        """This case is non-trivial by the rule of the property."""
        if cond:
            self.nontrivial = True

    def ok(self, cond, message, *details):
        if not cond:
            raise Violation(message + "".join(" | " + short(d) for d in details))

    def eq(self, actual, expected, what):
        if actual != expected:
            raise Violation("%s: got %s, expected %s" % (what, short(actual), short(expected)))

    @contextlib.contextmanager
    def raises(self, exc, what):
        """The code under test has to raise ``exc``."""
        try:
            yield
        except exc:
            return
        except Exception as error:
            raise Violation("%s: raised %r instead of %s" % (what, error, exc)) from error
        raise Violation("%s: did not raise %s" % (what, exc))


class Prop:
    id = "C00"
    rule = ""
    assumptions = ()
    quick = 400  # examples per shard, quick tier
    thorough = 20000  # examples per shard, thorough tier
    shards = 8
    fuzz_runs = 20000  # thorough tier: evaluations of each coverage-guided shard
    fuzz_seconds = 120
    regex_shards = 0  # number of shards (of those) run with the regex backend
    fixed = ()  # cases always run first (replays of planted bugs and defects)

    def strategy(self):
        raise NotImplementedError

    def expect(self, case):
        return None

    def check(self, case, expected, rec):
        raise NotImplementedError

    def setup(self):
        """Once per worker."""

    def teardown(self):
        """Once per worker."""

    def known(self):
        """Known findings, as (key, text) pairs, that still show on this tree."""
        return []


def load_prop(pid):
    import importlib

    module = importlib.import_module("harness.props." + pid.lower())
    return module.PROP()


def import_rebulk(everything=False):
    """Import the package under test from REPO and nowhere else."""
    sys.path.insert(0, REPO)
    if os.environ.get("REBULK_REGEX_ENABLED"):
        sys.path.extend(path for path in REGEX_PATHS if os.path.isdir(path) and path not in sys.path)
    import rebulk

    if everything:
        import rebulk.introspector  # noqa: F401

    origin = os.path.realpath(rebulk.__file__)
    if not origin.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError("rebulk imported from %s" % origin)
    return rebulk


def count_steps(fn, limit=STEP_LIMIT):
    """Run fn, counting executed lines; raise StepLimit beyond the limit."""
    mon = sys.monitoring
    tool = mon.DEBUGGER_ID
    counter = [0]

    def tick(*_):
        counter[0] += 1
        if counter[0] > limit and counter[0] % 1000 == 0:  # again and again: a callback may swallow the exception
            raise StepLimit()

    mon.use_tool_id(tool, "verif-steps")
    try:
        mon.register_callback(tool, mon.events.LINE, tick)
        mon.register_callback(tool, mon.events.JUMP, tick)
        mon.set_events(tool, mon.events.LINE | mon.events.JUMP)
        fn()
    finally:
        mon.set_events(tool, 0)
        mon.register_callback(tool, mon.events.LINE, None)
        mon.register_callback(tool, mon.events.JUMP, None)
        mon.free_tool_id(tool)
    return counter[0]


def _alarm(_signum, _frame):
    raise Hang()


class Runner:
    """Runs cases of one property and keeps the statistics."""

    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0
        self.inconclusive = 0
        self.labels = {}
        self.hashes = set()
        self.samples = []
        self.plain_samples = []
        self.first_failure_at = None
        self.failing = None  # (size, case, message, trace)
        self.stop = False
        self.until = time.monotonic() + QUICK_SECONDS if prop.job.get("tier") == "quick" else None

    def verdict(self, case, rec):
        """One evaluation, no watchdog. Raises Violation / HarnessError / Inconclusive."""
        from hypothesis.errors import HypothesisException, UnsatisfiedAssumption

        try:
            expected = self.prop.expect(case)
        except Exception as error:
            raise HarnessError("oracle failed: %s\n%s" % (error, traceback.format_exc())) from error
        try:
            self.prop.check(case, expected, rec)
        except (Violation, HarnessError, Inconclusive, UnsatisfiedAssumption, HypothesisException):
            raise
        except MemoryError as error:
            raise Violation("the search exhausted memory") from error
        except Exception as error:
            trace = traceback.format_exc()
            raise Violation("unexpected %s: %s\n%s" % (type(error).__name__, short(str(error)), trace)) from error

    def watched(self, case, rec):
        """verdict() under the watchdog; an alarm is confirmed by counting steps."""
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS, 3)  # again and again: a callback may swallow the exception
        try:
            self.verdict(case, rec)
            return
        except Hang:
            pass
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        # The wall clock is no verdict: repeat and count executed lines instead.
        self.stop = True
        signal.setitimer(signal.ITIMER_REAL, 240, 3)
        try:
            count_steps(lambda: self.verdict(case, Rec()))
        except StepLimit:
            raise Violation("does not end: more than %d lines executed" % STEP_LIMIT) from None
        except Hang:
            raise Inconclusive("too slow") from None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        self.stop = False
        raise Inconclusive("slow machine")

    def run(self, case):
        """Evaluate one generated case; raise Violation so that Hypothesis shrinks."""
        if self.stop or self.until is not None and time.monotonic() > self.until:
            return
        if self.first_failure_at is not None and time.monotonic() - self.first_failure_at > SHRINK_SECONDS:
            return
        rec = Rec()
        counted = self.failing is None
        try:
            if counted:
                self.evaluations += 1
            self.watched(case, rec)
        except Violation as violation:
            if self.first_failure_at is None:
                self.first_failure_at = time.monotonic()
            blob = json.dumps(case)
            self.failing = (len(blob), case, str(violation))
            raise
        except Inconclusive:
            self.inconclusive += 1
            return
        if not counted:
            return
        for name in rec.labels:
            self.labels[name] = self.labels.get(name, 0) + 1
        if rec.nontrivial:
            blob = json.dumps(case, sort_keys=True)
            digest = int.from_bytes(hashlib.blake2b(blob.encode("utf-8", "surrogatepass"), digest_size=7).digest(), "big")
            new = digest not in self.hashes
            self.hashes.add(digest)
            if new and len(blob) < 3000:
                self._sample(blob, digest)

    def _sample(self, blob, digest):
        # keep the few with the smallest digest: an unbiased, deterministic sample
        self.samples.append((digest, blob))
        if len(self.samples) > 64:
            self.samples.sort()
            del self.samples[4:]

    def search(self, examples, seed):
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings

        for case in self.prop.fixed:
            self.run(json.loads(json.dumps(case)))

        @hypothesis.seed(seed)
        @settings(
            max_examples=examples,
            database=None,
            deadline=None,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
            report_multiple_bugs=False,
            print_blob=False,
        )
        @hypothesis.given(self.prop.strategy())
        def test(case):
            self.run(case)

        test()
        return test


def result_of(runner, violation, error):
    samples = [json.loads(blob) for _digest, blob in sorted(runner.samples)[:4]]
    return {
        "evaluations": runner.evaluations,
        "inconclusive": runner.inconclusive,
        "labels": runner.labels,
        "hashes": sorted(runner.hashes),
        "samples": samples,
        "violation": violation,
        "error": error,
    }
