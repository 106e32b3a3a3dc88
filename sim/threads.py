"""Seeded preemptive scheduling of real threads: one runs at a time, and which one is decided at every line of the code
under test that they execute."""
import sys
import threading

from .core import REPO, SimHang, Violation


class Stop(BaseException):
    """A thread is being abandoned: the run is over."""


# in one call, the first so many lines can be preempted at (loops over samples are not of interest)
LINES = 120


class Threads:
    def __init__(self, env, gap=12):
        self.env = env
        self.gap = gap
        self.turn = None
        self.live = []
        self.cond = threading.Condition()
        self.error = None
        self.switches = 0
        self.left = 0

    def run(self, fns):
        """Run fns, each in its own thread, to their ends."""
        self.left = self.env.choose(self.gap)
        ts = [threading.Thread(target=self._body, args=(i, fn), daemon=True) for i, fn in enumerate(fns)]
        self.live = list(range(len(ts)))
        self.turn = self.live[self.env.choose(len(self.live))]
        for t in ts:
            t.start()
        try:
            for t in ts:
                while t.is_alive():
                    t.join(0.05)
        except SimHang:
            with self.cond:
                self.error = self.error or Violation("no-progress", "threads used more than their CPU time")
                self.cond.notify_all()
            for t in ts:
                t.join(5)
        if self.error is not None:
            raise self.error

    def _body(self, i, fn):
        try:
            self._wait(i)
            sys.settrace(self._tracer(i))
            try:
                fn()
            finally:
                sys.settrace(None)
        except Stop:
            pass
        except BaseException as e:
            self.error = self.error or e
        finally:
            with self.cond:
                self.live.remove(i)
                if self.live:
                    self.turn = self.live[0 if self.error else self.env.choose(len(self.live))]
                self.cond.notify_all()

    def _wait(self, i):
        with self.cond:
            while self.turn != i or self.error is not None:
                if self.error is not None:
                    raise Stop()
                self.cond.wait()

    def _switch(self, i):
        if self.error is not None:
            raise Stop()
        self.env.step()
        if self.left:
            self.left -= 1
            return
        self.left = self.env.choose(self.gap)
        if len(self.live) == 1:
            return
        n = self.live[self.env.choose(len(self.live))]
        if n == i:
            return
        self.switches += 1
        self.env.ev("switch", i, n)
        with self.cond:
            self.turn = n
            self.cond.notify_all()
        self._wait(i)

    def _tracer(self, i):
        def on_call(frame, event, arg):
            if not frame.f_code.co_filename.startswith(REPO):
                return None
            lines = 0

            def local(frame, event, arg):
                nonlocal lines
                if event == "line":
                    lines += 1
                    self._switch(i)
                    if lines >= LINES:
                        frame.f_trace_lines = False
                return local
            return local
        return on_call
