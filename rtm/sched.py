"""Deterministic thread scheduler at line granularity of the code under test.

Only the thread that holds the baton runs.  Before every line of /repo/occuprob the
holder may pass it on, as decided by a seeded generator, so that an interleaving is
replayable.  A holder blocked on a lock of the code under test loses the baton after a
timeout (the schedule goes on; nothing is reported because of that).
"""
import os
import sys
import threading

from rtm import core


class Baton:
    def __init__(self, rng, n, style):
        self.cv = threading.Condition()
        self.rng, self.style = rng, style
        self.alive = set(range(n))
        self.current = int(rng.integers(n))
        self.points = 0
        self.switches = []          # (point number, from, to)
        self.rescued = 0
        if style == 'pct':          # priorities with a few change points
            self.prio = list(rng.permutation(n).astype(float))
            self.change = set(rng.integers(1, 1200, int(rng.integers(1, 12))).tolist())
            self.current = max(self.alive, key=lambda t: self.prio[t])
        self.p = {'storm': 0.6, 'random': 0.15, 'rare': 0.03}.get(style, 0)

    def _next(self, tid):
        if self.style == 'pct':
            if self.points in self.change:
                self.prio[tid] = -float(self.points)
            return max(self.alive, key=lambda t: self.prio[t])
        if self.rng.random() < self.p:
            alive = sorted(self.alive)
            return alive[int(self.rng.integers(len(alive)))]
        return tid

    def _wait(self, tid):
        while self.current != tid:
            seen = self.points
            if not self.cv.wait(timeout=1.0) and self.points == seen:
                self.rescued += 1
                self.current = tid

    def start(self, tid):
        with self.cv:
            self._wait(tid)

    def point(self, tid):
        with self.cv:
            if self.current != tid:         # was rescued from a lock: queue up again
                self._wait(tid)
            self.points += 1
            nxt = self._next(tid)
            if nxt != tid:
                self.switches.append((self.points, tid, nxt))
                self.current = nxt
                self.cv.notify_all()
                self._wait(tid)

    def stop(self, tid):
        with self.cv:
            self.alive.discard(tid)
            if self.alive and self.current == tid:
                alive = sorted(self.alive)
                self.current = (max(alive, key=lambda t: self.prio[t]) if self.style == 'pct'
                                else alive[int(self.rng.integers(len(alive)))])
                self.switches.append((self.points, tid, self.current))
            self.cv.notify_all()


def run(jobs, baton=None):
    """Runs the callables in one thread each; returns their results or exceptions."""
    root = os.path.join(os.path.realpath(core.REPO), 'occuprob') + os.sep
    out = [None] * len(jobs)
    barrier = threading.Barrier(len(jobs))

    def worker(tid):
        def local(frame, event, arg):
            if event == 'line':
                baton.point(tid)
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(root) else None
        barrier.wait()
        if baton:
            baton.start(tid)
            sys.settrace(trace)
        try:
            out[tid] = ('ok', jobs[tid]())
        except BaseException as e:      # noqa: BLE001
            out[tid] = ('error', e)
        finally:
            sys.settrace(None)
            if baton:
                baton.stop(tid)
    threads = [threading.Thread(target=worker, args=(i,), daemon=True) for i in range(len(jobs))]
    for t in threads:
        t.start()
    for t in threads:
        t.join(120)
        if t.is_alive():
            raise core.Inconclusive('a thread did not finish within 120 s')
    return out
