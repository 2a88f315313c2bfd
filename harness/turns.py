"""Threads that run in turns, interleaved line by line as a schedule says."""

import os
import sys
import threading

from harness.core import REPO

PACKAGE = os.path.join(os.path.realpath(REPO), "rebulk") + os.sep
SWITCHES = 1500  # after that many, each runs to its end


class Turns:
    """Runs jobs in threads of which one runs at a time, the next taking over after as many lines of the package as scheduled."""

    def __init__(self, jobs, schedule, skip=None):
        self.jobs = jobs
        self.schedule = schedule
        self.switches = 0
        self.skip = skip or [0] * len(jobs)  # lines each runs before any other may take over
        self.lines = [0] * len(jobs)
        self.left = schedule[0]
        self.gates = [threading.Semaphore(0) for _ in jobs]
        self.done = threading.Semaphore(0)
        self.finished = [False] * len(jobs)
        self.results = [None] * len(jobs)
        self.local = threading.local()
        self.inside = {}

    def run(self):
        threads = [threading.Thread(target=self.work, args=(number,), daemon=True) for number in range(len(self.jobs))]
        for thread in threads:
            thread.start()
        self.gates[0].release()
        self.done.acquire()
        for thread in threads:
            thread.join()
        return self.results

    def work(self, number):
        self.local.number = number
        self.gates[number].acquire()
        sys.settrace(self.called)
        try:
            self.results[number] = ("fine", self.jobs[number]())
        except BaseException as error:  # noqa: BLE001
            self.results[number] = ("error", error)
        finally:
            sys.settrace(None)
            self.finished[number] = True
            following = self.following(number)
            (self.done if following is None else self.gates[following]).release()

    def following(self, number):
        count = len(self.jobs)
        return next((other % count for other in range(number + 1, number + count) if not self.finished[other % count]), None)

    def called(self, frame, event, arg):
        code = frame.f_code
        if code not in self.inside:
            self.inside[code] = os.path.realpath(code.co_filename).startswith(PACKAGE)
        return self.line if self.inside[code] else None

    def line(self, frame, event, arg):
        if event != "line" or len(self.jobs) > 1 and self.switches >= SWITCHES:
            return self.line
        number = self.local.number
        self.lines[number] += 1
        if self.lines[number] <= self.skip[number]:
            return self.line
        self.left -= 1
        if self.left <= 0:
            following = self.following(number)
            self.switches += 1
            self.left = self.schedule[self.switches % len(self.schedule)]
            if following is not None:
                self.gates[following].release()
                self.gates[number].acquire()
        return self.line
