"""One shard of one check, in its own process. Arguments and result are JSON."""

from __future__ import annotations

import json
import logging
import os
import resource
import sys
import traceback


def main():
    job = json.loads(sys.argv[1])
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    limit = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    logging.disable(logging.NOTSET)
    logging.getLogger().addHandler(logging.NullHandler())

    from harness import core

    out = {"error": None, "violation": None}
    runner = None
    prop = None
    try:
        if job["mode"] == "fuzz":
            import atheris

            with atheris.instrument_imports(include=["rebulk"], enable_loader_override=False):
                core.import_rebulk(everything=True)
        else:
            core.import_rebulk()
        prop = core.load_prop(job["property"])
        prop.job = job
        prop.setup()
        runner = core.Runner(prop)
        violation = None
        error = None
        try:
            if job["mode"] == "replay":
                runner.run(job["case"])
            elif job["mode"] == "fuzz":
                from harness import fuzz

                def done(problem):
                    found = runner.failing and {"case": runner.failing[1], "message": runner.failing[2]}
                    write(job, core.result_of(runner, found, None if problem is None else repr(problem)))
                    prop.teardown()

                fuzz.campaign(runner, job, done)
            else:
                runner.search(job["examples"], job["seed"])
        except core.HarnessError:
            error = traceback.format_exc()
        except BaseException as exc:  # Hypothesis wraps, groups or re-raises failures
            if isinstance(exc, KeyboardInterrupt):
                raise
            if runner.failing is None:
                error = traceback.format_exc()
        if runner.failing is not None and error is None:
            _size, case, message = runner.failing
            violation = {"case": case, "message": message}
        out = core.result_of(runner, violation, error)
        if job.get("known") and not violation and not error:
            out["known"] = prop.known()
    except core.Violation as exc:
        out["violation"] = {"case": None, "message": str(exc)}
    except BaseException:
        frames = traceback.extract_tb(sys.exc_info()[2])
        text = traceback.format_exc()
        if frames and os.path.realpath(frames[-1].filename).startswith(os.path.realpath(core.REPO) + os.sep + "rebulk"):
            out["violation"] = {"case": None, "message": "the package cannot be set up\n" + text}
        else:
            out["error"] = text
    finally:
        if prop is not None:
            try:
                prop.teardown()
            except Exception:  # noqa: BLE001
                pass
    write(job, out)


def write(job, out):
    with open(job["out"], "w") as stream:
        json.dump(out, stream)


if __name__ == "__main__":
    main()
