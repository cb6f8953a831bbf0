"""Deterministic scheduler for real threads.

Every thread runs with a trace function that counts the line (or call) events of the
package's own source files ("line", "call": every execution, "line1", "call1": only the
first execution of every source line / call of every function).  A schedule is a list of segments ``(thread, until)``: the
thread runs until it is about to execute its event number ``until`` (``None``: until it is
finished), then the next segment starts.  Only one thread runs at any time, so a schedule
determines the execution completely.

A thread that cannot proceed since it waits for another one (a lock) makes the rest of the
schedule infeasible: all threads are then released and have to finish on their own.
"""

import os
import sys
import threading
import time

PKG = None


def package():
    global PKG
    if PKG is None:
        import rt1_model

        PKG = os.path.dirname(os.path.abspath(rt1_model.__file__)) + os.sep
    return PKG


class Worker:
    def __init__(self, sched, body, kind):
        self.sched, self.body, self.kind = sched, body, kind
        self.n = 0  # events so far
        self.stop = 0  # yield before this event
        self.gate = threading.Semaphore(0)
        self.done = False
        self.value = self.exc = None
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.seen = set()

    def run(self):
        self.gate.acquire()
        sys.settrace(self.trace)
        try:
            self.value = self.body()
        except BaseException as ex:  # noqa
            self.exc = ex
        finally:
            sys.settrace(None)
            self.done = True
            self.sched.back.release()

    def trace(self, frame, event, arg):
        code = frame.f_code
        f = code.co_filename
        if not f.startswith(PKG) or "docscrape" in f:
            return None
        if self.kind.startswith("call"):
            self.event(frame)
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.event(frame)
        return self.local

    def event(self, frame):
        if self.kind.endswith("1"):
            where = frame.f_code, frame.f_lineno
            if where in self.seen:
                return
            self.seen.add(where)
        if self.stop is not None and self.n >= self.stop:
            self.at = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
            self.sched.back.release()
            self.gate.acquire()
        self.n += 1


class Sched:
    def __init__(self, bodies, kind="line"):
        package()
        self.back = threading.Semaphore(0)
        self.ws = [Worker(self, b, kind) for b in bodies]
        self.blocked = False

    def run(self, plan):
        for w in self.ws:
            w.thread.start()
        self.switches = []
        for t, until in plan:
            w = self.ws[t]
            if w.done or (until is not None and until <= w.n and w.n):
                continue
            w.stop = until
            w.gate.release()
            if not self._wait(w):
                self.blocked = True
                break
            if not w.done:
                self.switches.append(w.at)
        for w in self.ws:  # (everything that is left)
            if not w.done:
                w.stop = None
                w.gate.release()
                if not self.blocked:
                    self._wait(w)
        for w in self.ws:
            w.thread.join(60)
            if w.thread.is_alive():
                raise RuntimeError("deadlock: the threads do not finish")
        return self

    def _wait(self, w):
        if self.back.acquire(timeout=0.5):
            return True
        idle = 0
        while True:
            if self.back.acquire(timeout=0.1):
                return True
            idle = idle + 1 if self._sleeps(w) else 0
            if idle > 10:
                return False

    @staticmethod
    def _sleeps(w):
        try:
            s = open(f"/proc/self/task/{w.thread.native_id}/stat").read()
        except OSError:
            return False
        return s.rsplit(")", 1)[1].split()[0] == "S"


def events(body, kind="line"):
    """number of events of a body that runs alone"""
    s = Sched([body], kind).run([(0, None)])
    w = s.ws[0]
    if w.exc:
        raise w.exc
    return w.n
