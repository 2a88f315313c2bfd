"""A second process running the code under test: another hash seed, another regex backend."""

from __future__ import annotations

import json
import os
import subprocess
import sys

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from harness import core  # noqa: E402


class Peer:
    """Client side."""

    def __init__(self, pid, hashseed, regex=False):
        env = {k: v for k, v in os.environ.items() if not k.startswith(("REBULK_", "PYTHONHASHSEED"))}
        env["PYTHONHASHSEED"] = str(hashseed)
        if regex:
            env["REBULK_REGEX_ENABLED"] = "1"
        self.process = subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), pid], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                        cwd=core.VERIF, env=env, text=True)

    def ask(self, case):
        try:
            self.process.stdin.write(json.dumps(case) + "\n")
            self.process.stdin.flush()
            line = self.process.stdout.readline()
        except OSError as error:
            raise core.HarnessError("the peer process is gone: %s" % error) from error
        if not line:
            raise core.HarnessError("the peer process ended with %s" % self.process.poll())
        answer = json.loads(line)
        if "error" in answer:
            raise core.Violation("the peer process fails\n" + answer["error"])
        return answer["result"]

    def close(self):
        self.process.kill()
        self.process.wait()
        self.process.stdin.close()
        self.process.stdout.close()


def serve(pid):
    import logging
    import traceback

    logging.getLogger().addHandler(logging.NullHandler())
    answers = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    core.import_rebulk()
    prop = core.load_prop(pid)
    for line in sys.stdin:
        try:
            answer = {"result": prop.remote(json.loads(line))}
        except Exception:  # noqa: BLE001
            answer = {"error": traceback.format_exc()}
        answers.write(json.dumps(answer) + "\n")
        answers.flush()


if __name__ == "__main__":
    serve(sys.argv[1])
