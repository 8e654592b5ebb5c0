"""Controlled schedules: real threads that hand over at chosen bytecode instructions of the code under test.

A plan is a list of (thread, instructions): the thread runs that many instructions of the code under
test and hands over to the next entry; None means up to the end of its operation. When the plan is used
up everything runs freely. A thread that stands still (for instance at a lock which the other one holds)
ends the plan early, so code that synchronises its threads is not held up. It stands still when the
kernel has it asleep and it never woke while everybody else was asleep too.
"""
import os
import sys
import threading
import time

from .core import REPO

TOP = os.path.join(REPO, "pylogics_modalities") + os.sep
POLL = 0.004
STILL = 0.3
STUCK = 90.0


def asleep(native):
    """What changes whenever the thread gets to run; None when it is not asleep, or that cannot be told."""
    try:
        with open("/proc/self/task/%d/status" % native) as f:
            lines = f.read().splitlines()
    except (OSError, TypeError):
        return None
    if not any(x.startswith("State:") and x.split()[1] == "S" for x in lines):
        return None
    return [x for x in lines if "ctxt_switches" in x] or None


class Run:
    def __init__(self, ops, plan, record=None):
        self.ops, self.plan = ops, list(plan)
        self.cond = threading.Condition()
        self.seg = 0
        self.left = None
        self.n = [0] * len(ops)
        self.done = [False] * len(ops)
        self.results = [None] * len(ops)
        self.record = record
        self.switches = []
        self.gave_up = False
        self.native = [None] * len(ops)
        self._enter()

    # the following three are called with the condition held (or before the threads exist)
    def _enter(self):
        while self.seg < len(self.plan) and self.done[self.plan[self.seg][0]]:
            self.seg += 1
        self.left = self.plan[self.seg][1] if self.seg < len(self.plan) else None

    def _turn(self):
        return self.plan[self.seg][0] if self.seg < len(self.plan) else None

    def _advance(self):
        self.seg += 1
        self._enter()
        self.cond.notify_all()

    def _wait(self, tid):
        state = last = since = None
        while True:
            turn = self._turn()
            if turn is None or turn == tid:
                return
            before = sum(self.n), self.seg, sum(self.done)
            if before != state:
                state, last, since = before, None, time.monotonic()
            if self.cond.wait(POLL) or state != (sum(self.n), self.seg, sum(self.done)):
                continue
            now = asleep(self.native[turn])
            if (now is not None and now == last) or time.monotonic() - since > STILL:
                self.gave_up = True
                self.seg = len(self.plan)
                self.left = None
                self.cond.notify_all()
                return
            last = now

    def _point(self, tid, frame):
        self.n[tid] += 1
        if self.record is not None:
            self.record.append((frame.f_code.co_filename[len(TOP):], frame.f_code.co_name, frame.f_lineno, frame.f_lasti))
        if self.seg >= len(self.plan):
            return
        if self._turn() == tid and self.left is not None:
            self.left -= 1
            if self.left <= 0:
                with self.cond:
                    if self._turn() == tid:
                        self.switches.append((tid, frame.f_code.co_filename[len(TOP):], frame.f_code.co_name, frame.f_lasti))
                        self._advance()
                        self._wait(tid)

    def _main(self, tid):
        def local(frame, event, arg):
            if event == "opcode":
                self._point(tid, frame)
            return local

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(TOP):
                return None
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return local
        self.native[tid] = threading.get_native_id()
        with self.cond:
            self._wait(tid)
        sys.settrace(tracer)
        try:
            self.results[tid] = outcome(self.ops[tid])
        finally:
            sys.settrace(None)
            with self.cond:
                self.done[tid] = True
                if self._turn() == tid:
                    self._advance()
                self.cond.notify_all()

    def go(self):
        """True when all threads came to an end."""
        ts = [threading.Thread(target=self._main, args=(i,), daemon=True) for i in range(len(self.ops))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(STUCK)
        return not any(t.is_alive() for t in ts)


def _warm_up():
    """The interpreter reports instructions only to trace functions that are set after the first one asked for them."""
    def tracer(frame, event, arg):
        frame.f_trace_opcodes = True
        return tracer
    for _ in range(2):
        sys.settrace(tracer)
        (lambda: None)()
        sys.settrace(None)


_warm_up()


def outcome(fn):
    try:
        return fn()
    except Exception as e:  # noqa: B902
        return (["raises", type(e).__name__, str(e)[:200]], [])


def points(fn):
    """The instructions of the code under test that fn runs, when alone."""
    rec = []
    r = Run([fn], [(0, None)], rec)
    r.go()
    return r.results[0], rec
