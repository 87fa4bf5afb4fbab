"""Threads that take turns as a generated schedule says.

Every thread stops before each line of the library that it is about to execute, and
goes on when it is its turn. The interleaving is therefore part of the case: it can be
replayed and made smaller.
"""

import os
import sys
import threading
import time

import ramannoodle

from rnv.core import HarnessError

LIBRARY = os.path.dirname(os.path.abspath(ramannoodle.__file__)) + os.sep
# somebody else goes on if the thread whose turn it is waits for something
PATIENCE_S = 0.4
LIMIT_S = 120


class _Turns:
    """Decides which thread may go on."""

    def __init__(self, count, bursts):
        self.waiting = threading.Condition()
        self.alive = set(range(count))
        self.turn = 0
        self.bursts = bursts
        self.used = 0
        self.left = bursts[0]
        self.lines = 0
        self.switches = 0
        self.end = time.monotonic() + LIMIT_S

    def _next(self):
        order = sorted(self.alive)
        if not order:
            return
        later = [i for i in order if i > self.turn]
        new = later[0] if later else order[0]
        self.switches += new != self.turn
        self.turn = new
        self.used += 1
        self.left = self.bursts[self.used % len(self.bursts)]

    def pause(self, me):
        """Called before a line is executed."""
        with self.waiting:
            self.lines += 1
            if self.turn == me:
                self.left -= 1
                if self.left > 0 or len(self.alive) == 1:
                    return
                self._next()
                self.waiting.notify_all()
            while self.turn != me:
                before = self.lines
                if not self.waiting.wait(PATIENCE_S) and self.lines == before:
                    self.turn = me
                if time.monotonic() > self.end:
                    raise HarnessError("threads take too long")

    def done(self, me):
        """Called when a thread ends."""
        with self.waiting:
            self.alive.discard(me)
            if self.turn == me:
                self._next()
            self.waiting.notify_all()


def run(programs, bursts):
    """Run programs at the same time, and return their results and number of switches.

    Programs are functions without arguments. Results are (value, exception).
    """
    turns = _Turns(len(programs), bursts)
    results = [None] * len(programs)

    def body(me):
        def line(_frame, event, _argument):
            if event == "line":
                turns.pause(me)
            return line

        def call(frame, _event, _argument):
            return line if frame.f_code.co_filename.startswith(LIBRARY) else None

        sys.settrace(call)
        try:
            results[me] = (programs[me](), None)
        except BaseException as exc:  # pylint: disable=broad-except
            results[me] = (None, exc)
        finally:
            sys.settrace(None)
            turns.done(me)

    threads = [
        threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(programs))
    ]
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join(LIMIT_S + 60)
        if thread.is_alive():
            raise HarnessError("a thread does not end")
    for _, exc in results:
        if isinstance(exc, HarnessError):
            raise exc
    return results, turns.switches
