"""Breaks off an operation: an exception at a chosen call or return inside the code under test, or a low recursion limit.

Places are those at which the interpreter itself looks for signals: where a function of the code under
test is entered or resumed, where one has just come back to its caller, and where a loop goes round. So a `with` or
`try ... finally` in the code under test is honoured exactly as it is when a user presses Ctrl-C.
"""
import dis
import os
import sys

from .bridge import REPO

TOP = os.path.join(os.path.abspath(REPO), "pylogics_modalities") + os.sep
BACK = dis.opmap["JUMP_BACKWARD"]


class Interrupt(BaseException):
    """Stands for a signal; nothing in the code under test knows it."""


class Places:
    """Counts the places that fn passes and, if at is given, raises there."""

    def __init__(self, at=None, error=None):
        self.n, self.at, self.error = 0, at, error
        self.where = None
        self.log = []

    def _place(self, frame, event):
        self.n += 1
        if self.at is None:
            self.log.append((frame.f_code.co_filename[len(TOP):], frame.f_code.co_name, event, frame.f_lineno))
        elif self.n == self.at:
            self.where = "%s:%d %s (%s)" % (frame.f_code.co_filename[len(TOP):], frame.f_lineno, frame.f_code.co_name, event)
            sys.settrace(None)
            raise self.error()

    def _local(self, frame, event, arg):
        if event == "return":
            self._place(frame, "return")
        elif event == "opcode" and frame.f_code.co_code[frame.f_lasti] == BACK:
            self._place(frame, "loop")
        return self._local

    def _call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(TOP):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        self._place(frame, "call")
        return self._local

    def run(self, fn):
        """("value", result) or ("raised", exception)."""
        old = sys.gettrace()
        sys.settrace(self._call)
        try:
            return "value", fn()
        except BaseException as e:  # noqa: B902
            sys.settrace(None)
            return "raised", e
        finally:
            sys.settrace(old)


def depth():
    f, n = sys._getframe(1), 0
    while f is not None:
        f, n = f.f_back, n + 1
    return n


def shallow(fn, room):
    """Run fn with room for that many more frames only."""
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(depth() + room)
    try:
        return "value", fn()
    except Exception as e:  # noqa: B902
        return "raised", e
    finally:
        sys.setrecursionlimit(old)
