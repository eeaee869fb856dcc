"""Controlled scheduler for two threads.  A thread is stopped before a chosen line of the library
(sys.settrace), the other one runs, then the first goes on.  A schedule is the list of these points, so
running every point (every pair of points) is every interleaving with one (two) preemptions at line level.

A thread that waits for the other one (a lock) is not a deadlock of the schedule: the scheduler lets the
stopped thread go on, and counts it."""
import os
import sys
import threading

PATIENCE = 2.0  # seconds after which a running thread counts as blocked by the stopped one
LIMIT = 60.0  # seconds after which neither can go on


class Thread:
    """One thread; it stops before its k-th event and asks the scheduler what to do."""

    def __init__(self, work, root, event="line"):
        self.work, self.root, self.event = work, root, event
        self.at, self.count, self.hook = None, 0, None
        self.result = self.error = None
        self.stopped = self.reached = False

    def __call__(self):
        if self.at is not None:
            sys.settrace(self.enter)
        try:
            self.result = self.work()
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)

    def enter(self, frame, kind, arg):
        if self.reached or not frame.f_code.co_filename.startswith(self.root):
            return None
        if self.event == "call":
            self.tick()
            return None
        return self.line

    def line(self, frame, kind, arg):
        if self.reached:
            return None
        if kind == "line":
            self.tick()
        return self.line

    def tick(self):
        self.count += 1
        if self.count == self.at:
            self.reached = True
            sys.settrace(None)
            self.hook()


def library():
    from mc import core

    return os.path.join(os.path.realpath(core.REPO), "pybbn") + os.sep


def run(a, b, at, bt=None, event="line"):
    """Thread a is preempted by b before its event number `at`; if bt is given, b is preempted by a before its event number
    bt, and ends after a.  Returns (results, reached, blocked)."""
    root = library()
    first, second = Thread(a, root, event), Thread(b, root, event)
    done, pause, resume = threading.Event(), threading.Event(), threading.Event()
    blocked = []

    def body():
        second()
        done.set()
        pause.set()

    def give_way():  # second stops until first has ended
        pause.set()
        if not resume.wait(LIMIT):
            raise RuntimeError("the first thread never ended")

    other = threading.Thread(target=body, daemon=True)
    second.at, second.hook = bt, give_way

    def switch():
        other.start()
        if not pause.wait(PATIENCE):
            blocked.append(True)

    first.at, first.hook = at, switch
    first()
    resume.set()
    if not first.reached:
        other.start()
    if not done.wait(LIMIT):
        raise RuntimeError("deadlock: the second thread never ended")
    other.join()
    for t in (first, second):
        if t.error is not None:
            raise t.error
    return (first.result, second.result), (first.reached, second.reached), bool(blocked)


def alike(a, b, tol=1e-9):
    """Equal up to the rounding of floats."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b)) or (a != a and b != b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(alike(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    return type(a) is type(b) and a == b
