"""Coverage-guided search: atheris drives the same generators and oracle, guided by branches of the code under test."""

from __future__ import annotations

import os
import tempfile
import time


def campaign(runner, job, done):
    """Runs until its budget is used or something fails; then calls done() and ends the process."""
    import atheris
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis.database import InMemoryExampleDatabase

    database = InMemoryExampleDatabase()

    @hypothesis.seed(job["seed"])
    @settings(max_examples=1000, database=database, deadline=None, suppress_health_check=list(HealthCheck),
              phases=(Phase.reuse, Phase.shrink), report_multiple_bugs=False, print_blob=False)
    @hypothesis.given(runner.prop.strategy())
    def test(case):
        runner.run(case)

    one_input = test.hypothesis.fuzz_one_input
    deadline = time.monotonic() + job["seconds"]
    error = None

    def target(data):
        nonlocal error
        try:
            one_input(data)
        except BaseException as exception:  # noqa: BLE001
            error = exception
        if error is not None and runner.failing is not None:
            try:
                test()  # the database has the failing input: shrink it
            except BaseException:  # noqa: BLE001
                pass
            finish(None)
        if error is not None or runner.stop or runner.evaluations >= job["examples"] or time.monotonic() > deadline:
            finish(error)

    def finish(problem):
        done(problem)
        os._exit(0)

    corpus = tempfile.mkdtemp(dir=job["tmp"])
    atheris.Setup(["fuzz", "-seed=%d" % (job["seed"] or 1), "-max_len=4096", "-len_control=20", "-timeout=0", "-handle_alrm=0", "-rss_limit_mb=0",
                   "-verbosity=0", "-print_final_stats=0", "-reload=0", corpus], target)
    atheris.Fuzz()
