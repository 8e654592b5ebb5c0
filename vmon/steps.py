"""Counts the steps (lines and calls) that the code under test executes, up to a limit."""
import os
import sys

from .bridge import REPO

TOP = os.path.join(os.path.abspath(REPO), "pylogics_modalities") + os.sep


class TooMany(BaseException):
    """More steps than allowed."""


class Steps:
    def __init__(self):
        m = sys.monitoring
        self.n, self.limit = 0, None
        self.tool = m.PROFILER_ID
        m.use_tool_id(self.tool, "vmon steps")
        self.events = m.events.LINE | m.events.PY_START | m.events.PY_RESUME
        m.register_callback(self.tool, m.events.LINE, self._event)
        m.register_callback(self.tool, m.events.PY_START, self._event)
        m.register_callback(self.tool, m.events.PY_RESUME, self._resume)
        m.set_events(self.tool, 0)

    def _event(self, code, _where):
        if not code.co_filename.startswith(TOP):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n > self.limit:
            self.limit = float("inf")   # once is enough
            raise TooMany()

    def _resume(self, code, _where):
        if code.co_filename.startswith(TOP):
            self.n += 1

    def count(self, limit, fn):
        """(steps, result); the result is None when the limit was hit."""
        self.n, self.limit = 0, limit
        sys.monitoring.set_events(self.tool, self.events)
        try:
            r = fn()
        except TooMany:
            return limit + 1, None
        finally:
            sys.monitoring.set_events(self.tool, 0)
        return self.n, r
