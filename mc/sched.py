"""A controlled scheduler for two real threads: every step of the code under test is a scheduling point.

Each execution runs in its own forked process, so lazily built state starts out pristine.  A thread
stops at every traced event of a source file of the code under test; the schedule says after how many
points it is preempted.  Everything between two points runs without interruption.
"""
from __future__ import annotations

import os
import pickle
import select
import signal
import sys
import threading

ROOT = os.path.dirname(os.path.abspath(__import__("asyncapi3").__file__)) + os.sep
LIMIT = 40.0


class Run:
    """Two threads, one running at a time. switches: [(thread, points it runs before it is preempted)]"""

    def __init__(self, bodies, plan, lines):
        self.bodies, self.plan, self.lines = bodies, list(plan), lines
        self.turn = 0                                  # whose turn it is
        self.left = None                               # points left before preemption; None: run to the end
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * len(bodies)
        self.points = [0] * len(bodies)
        self.results = [None] * len(bodies)
        self.over = threading.Event()
        self.log = None                                # record where each point of thread 0 and 1 is

    def _next(self):
        """Start the next leg of the plan (or any unfinished thread)."""
        while self.plan:
            t, n = self.plan.pop(0)
            if not self.done[t]:
                self.turn, self.left = t, n
                self.sems[t].release()
                return
        for t, d in enumerate(self.done):
            if not d:
                self.turn, self.left = t, None
                self.sems[t].release()
                return
        self.over.set()

    def point(self, t, where):
        self.points[t] += 1
        if self.log is not None:
            self.log[t].append(where)
        if self.left is not None:
            if self.left == 0:
                self._next()
                self.sems[t].acquire()
                return self.point_resume(t)
            self.left -= 1

    def point_resume(self, t):
        if self.left is not None:
            self.left = max(0, self.left - 1)

    def trace(self, t):
        lines = self.lines

        def local(frame, event, arg):
            if event == "line":
                self.point(t, (frame.f_code.co_name, frame.f_lineno))
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(ROOT):
                return None
            self.point(t, (frame.f_code.co_name, frame.f_code.co_firstlineno))
            return local if lines else None

        return glob

    def thread(self, t):
        self.sems[t].acquire()
        sys.settrace(self.trace(t))
        try:
            try:
                self.results[t] = self.bodies[t]()
            finally:
                sys.settrace(None)
        except BaseException as e:                      # an answer too
            self.results[t] = f"raised {type(e).__name__}: {e}"
        self.done[t] = True
        self._next()

    def run(self):
        ths = [threading.Thread(target=self.thread, args=(t,), daemon=True) for t in range(len(self.bodies))]
        for th in ths:
            th.start()
        self._next()
        if not self.over.wait(LIMIT):
            return "hang", self.points
        return self.results, self.points


def visits(run, t, most):
    """The points of thread t (running first and alone): the first `most` visits of each place and the last.

    None: all of them.  Returns (indices to preempt before, number of points).
    """
    run.log = [[], []]
    run.plan = [(t, None)]
    res = run.run()
    if res[0] == "hang":
        return None, 0
    log = run.log[t]
    if most is None:
        return list(range(len(log) + 1)), len(log)
    count, last, keep = {}, {}, set()
    for i, w in enumerate(log):
        count[w] = count.get(w, 0) + 1
        if count[w] <= most:
            keep.add(i)
        last[w] = i
    return sorted(keep | set(last.values()) | {len(log)}), len(log)


def isolated(fn, *args):
    """fn(*args) in a forked process; its pickled answer, or how it died.  No answer in time counts if it happens twice."""
    got = _isolated(fn, *args)
    if got == ("died", "no answer") or isinstance(got, tuple) and got and got[0] == "hang":
        got = _isolated(fn, *args)
    return got


def _isolated(fn, *args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(fn(*args))
            os.write(w, b"") if not data else None
            while data:
                data = data[os.write(w, data):]
        except BaseException as e:
            try:
                os.write(w, pickle.dumps(("died", f"{type(e).__name__}: {e}")))
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        ready, _, _ = select.select([r], [], [], LIMIT + 5)
        if not ready:
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("died", "no answer")
