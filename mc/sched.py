"""Controlled scheduler: runs functions in threads, one at a time, and switches between
them exactly at the chosen execution points (line events inside the code under test)."""
import os
import sys
import threading

from mc import core

ROOT = os.path.realpath(os.path.join(core.REPO, "dustmaker")) + os.sep
_inside = {}


def inside(filename):
    """Is this a file of the code under test?"""
    got = _inside.get(filename)
    if got is None:
        got = _inside[filename] = os.path.realpath(filename).startswith(ROOT)
    return got


def watched(fn, trace):
    """Runs fn in a thread of its own under the trace function."""
    res = []

    def run():
        sys.settrace(trace)
        try:
            res.append(fn())
        finally:
            sys.settrace(None)

    t = threading.Thread(target=run)
    t.start()
    t.join()
    if not res:
        fn()  # raises in the caller's thread


def functions(fn):
    """Functions of the code under test that fn executes."""
    seen = set()

    def trace(frame, event, _arg):
        if event == "call" and inside(frame.f_code.co_filename):
            seen.add(frame.f_code)

    watched(fn, trace)
    return seen


def points(fn, occ, within=None, where=None):
    """Indices of the line events of fn at which to preempt: the first occ times each
    line of the code under test is reached.  In functions other than those given (if
    any are) only the first time they are entered.  where gets the function and line of each."""
    where = {} if where is None else where
    out, seen = [], {}
    n = 0

    def local(frame, event, _arg):
        nonlocal n
        if event == "line":
            n += 1
            if within is None or frame.f_code in within:
                key = (frame.f_code, frame.f_lineno)
                seen[key] = seen.get(key, 0) + 1
                if seen[key] <= occ:
                    out.append(n)
                    where[n] = key
        return local

    def trace(frame, event, _arg):
        if event != "call" or not inside(frame.f_code.co_filename):
            return None
        if within is not None and frame.f_code not in within and frame.f_code not in seen:
            seen[frame.f_code] = 1
            out.append(n + 1)
        return local

    watched(fn, trace)
    return out


class Task:
    """One thread under the scheduler."""

    def __init__(self, sched, fn):
        self.sched, self.fn = sched, fn
        self.go = threading.Semaphore(0)
        self.n = 0
        self.stop = None
        self.done = False
        self.result = self.error = None
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.start()

    def local(self, frame, event, _arg):
        if event == "line":
            self.n += 1
            if self.n == self.stop:
                self.pause()
        if self.stop is None:
            sys.settrace(None)
            frame.f_trace = None
            return None
        return self.local

    def trace(self, frame, event, _arg):
        if self.stop is None:
            sys.settrace(None)
            return None
        if event != "call" or not inside(frame.f_code.co_filename):
            return None
        return self.local

    def pause(self):
        self.sched.back.release()
        self.go.acquire()

    def main(self):
        self.go.acquire()
        if self.stop is not None:
            sys.settrace(self.trace)
        try:
            self.result = self.fn()
        except BaseException as e:  # pylint: disable=broad-except
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.sched.back.release()


class Sched:
    """One execution of several functions under a plan of (task, stop event or None)."""

    blocked = 2.0  # seconds a running task may take before it counts as blocked

    def __init__(self, fns):
        self.back = threading.Semaphore(0)
        self.tasks = [Task(self, f) for f in fns]

    def run(self, plan):
        """Returns the results in order of the functions; (result, error) each."""
        for who, stop in plan:
            t = self.tasks[who]
            if t.done:
                continue
            t.stop = stop
            t.go.release()
            if not self.back.acquire(timeout=self.blocked):
                # waits for something another task holds: let the others go on
                Sched.blocked = 0.02
        for t in self.tasks:
            while not t.done:
                t.stop = None
                t.go.release()
                t.thread.join(0.5)
            t.thread.join()
        return [(t.result, t.error) for t in self.tasks]
