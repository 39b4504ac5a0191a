"""A controlled scheduler for threads inside the library: one thread runs at a time, and at lines of library code the
baton is handed to another one as a seeded random generator says, so an interleaving can be run again."""
import os
import sys
import threading
import zlib

from . import common

HOME = os.path.join(os.path.abspath(common.SRC), 'wai', 'ma') + os.sep


class Scheduler:
    def __init__(self, rng, rate, limit=1000, patience=3.0):
        self.rng, self.rate, self.limit, self.patience = rng, rate, limit, patience
        self.free = False  # no control any more (a thread waits for something else than the baton)
        self.lines = self.switches = 0
        self.busy, self.left = True, 0  # hand-overs come in bursts, with stretches where one thread gets far ahead
        self.trail = 0

    def run(self, tasks):
        """Runs the tasks in one thread each; a list of ('gave', result) or ('raised', exception)."""
        n = len(tasks)
        self.batons = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        out = [None] * n
        threads = [threading.Thread(target=self._thread, args=(i, t, out), daemon=True) for i, t in enumerate(tasks)]
        for t in threads:
            t.start()
        self.batons[int(self.rng.integers(n))].release()
        for t in threads:
            t.join(120)
            if t.is_alive():
                self.free = True
                raise AssertionError('a thread does not end')
        return out

    def _thread(self, me, task, out):
        self._wait(me)
        sys.settrace(self._tracer(me))
        try:
            out[me] = ('gave', task())
        except Exception as e:
            out[me] = ('raised', e)
        finally:
            sys.settrace(None)
            self.alive.remove(me)
            if self.alive and not self.free:
                self.batons[self.alive[int(self.rng.integers(len(self.alive)))]].release()

    def _wait(self, me):
        if not self.free and not self.batons[me].acquire(timeout=self.patience):
            self.free = True
            for b in self.batons:
                b.release()

    def _tracer(self, me):
        def line(frame, event, arg):
            if event == 'line' and not self.free:
                self.lines += 1
                self.left -= 1
                if self.left < 0 and self.rate < 1:  # rate 1: lockstep
                    self.busy = not self.busy
                    self.left = int(self.rng.integers(1, 80 if self.busy else 160))
                if self.busy and self.switches < self.limit and len(self.alive) > 1 and self.rng.random() < self.rate:
                    others = [i for i in self.alive if i != me]
                    to = others[int(self.rng.integers(len(others)))]
                    self.switches += 1
                    self.trail = zlib.crc32(f'{me}>{to}@{frame.f_lineno}'.encode(), self.trail)
                    self.batons[to].release()
                    self._wait(me)
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(HOME) else None
        return call
