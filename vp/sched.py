"""Threads under a schedule: one runs at a time, and the turn passes at those lines of the code under test that the schedule names."""
import os
import sys
import threading

from .core import HarnessError

WAIT = 120.0
STALL = 0.1            # seconds without a line of the code under test after which the turn goes to another thread
STALLS = 6              # so many of them, and the threads run on without turns


class Turns:
    """Runs functions in one thread each.

    schedule: a list of [lines, who]; after so many lines of the code under test the turn goes to the who-th of the other
    threads that have not ended. It is repeated from its beginning; an empty one runs the threads one after the other.
    A thread that holds the turn but waits for another one (for a lock of the code under test) loses it.
    """

    def __init__(self, root, schedule):
        self.root = os.path.join(os.path.realpath(root), "")
        self.schedule = [(max(1, n), who) for n, who in schedule]
        self.pos = 0
        self.left = self.schedule[0][0] if self.schedule else None
        self.passed = 0             # changes of turn in the middle of a call
        self.stalls = 0
        self.ticks = 0
        self.live = []
        self.current = None
        self.free = False           # no turns any more
        self.stopped = False
        self.cond = threading.Condition()
        self.ours = {}

    # -- in the threads -------------------------------------------------
    def _is_ours(self, name):
        r = self.ours.get(name)
        if r is None:
            r = self.ours[name] = os.path.realpath(name).startswith(self.root)
        return r

    def _trace_for(self, me):
        def local(frame, event, arg):
            if self.stopped:
                raise SystemExit
            if event == "line" and not self.free:
                self.ticks += 1
                if self.current != me:          # lost the turn while it waited
                    self._wait(me)
                if self.left is not None:
                    self.left -= 1
                    if self.left <= 0:
                        who = self.schedule[self.pos][1]
                        self.pos = (self.pos + 1) % len(self.schedule)
                        self.left = self.schedule[self.pos][0]
                        others = [t for t in self.live if t != me]
                        if others:
                            self.passed += 1
                            self._give(others[who % len(others)])
                            self._wait(me)
            return local

        def top(frame, event, arg):
            return local if self._is_ours(frame.f_code.co_filename) else None
        return top

    def _give(self, t):
        with self.cond:
            self.current = t
            self.cond.notify_all()

    def _wait(self, me):
        with self.cond:
            self.cond.wait_for(lambda: self.current == me or self.free or self.stopped)
        if self.stopped:
            raise SystemExit

    def _main(self, me, func, results):
        try:
            self._wait(me)
            sys.settrace(self._trace_for(me))
            try:
                results[me] = ("done", func())
            except Exception as e:
                results[me] = ("error", e)
            finally:
                sys.settrace(None)
        except SystemExit:
            pass
        finally:
            with self.cond:
                self.live.remove(me)
                if self.live and self.current == me:
                    self.current = self.live[0]
                self.cond.notify_all()

    # -- in the caller --------------------------------------------------
    def _next(self):
        """Takes the turn from a thread that does not go on."""
        self.stalls += 1
        if self.stalls >= STALLS:
            self.free = True
        elif self.live:
            later = [t for t in self.live if t > self.current]
            self.current = later[0] if later else self.live[0]
        self.cond.notify_all()

    def run(self, funcs):
        """The list of ("done", result) or ("error", exception)."""
        n = len(funcs)
        results = [None] * n
        self.live = list(range(n))
        threads = [threading.Thread(target=self._main, args=(i, f, results), daemon=True) for i, f in enumerate(funcs)]
        for t in threads:
            t.start()
        waited = 0.0
        try:
            with self.cond:
                self.current = 0
                self.cond.notify_all()
                while self.live:
                    seen = self.ticks, self.current, len(self.live)
                    if not self.cond.wait_for(lambda: not self.live, STALL):
                        waited += STALL
                        if waited > WAIT:
                            raise HarnessError("the threads did not end within %d s" % WAIT)
                        if not self.free and len(self.live) > 1 and seen == (self.ticks, self.current, len(self.live)):
                            self._next()
        except BaseException:
            with self.cond:
                self.stopped = True
                self.cond.notify_all()
            raise
        for t in threads:
            t.join(WAIT)
        if any(r is None for r in results):
            raise HarnessError("a thread was stopped")
        return results
