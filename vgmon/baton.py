"""Deterministic thread schedules: only the holder of the baton runs, and it may be handed over before any line (or
bytecode) of the code under test, as drawn from a random generator.  A thread that does not get the baton back in time
(because somebody else waits for a lock it holds, say) runs on without it: schedules may slip, but never hang."""
import os
import sys
import threading

from .core import REPO

ROOT = os.path.join(REPO, "src") + os.sep


class Baton:
    def __init__(self, rng, k, p, opcodes=False, wait=2.0):
        self.p, self.k, self.opcodes, self.wait = p, k, opcodes, wait
        self.coins = rng.random(1 << 14)
        self.dice = rng.integers(0, 1 << 30, size=1 << 14)
        self.pos = 0
        self.alive = set(range(k))
        self.sems = [threading.Semaphore(0) for _ in range(k)]
        self.points = 0
        self.log = []
        self.slips = 0

    def _next(self, me):
        others = sorted(self.alive - {me})
        return others[int(self.dice[self.pos % len(self.dice)]) % len(others)] if others else None

    def _point(self, me, frame):
        self.points += 1
        self.pos += 1
        if self.coins[self.pos % len(self.coins)] >= self.p:
            return
        nxt = self._next(me)
        if nxt is None:
            return
        if len(self.log) < 20000:
            self.log.append((me, frame.f_lineno))
        self.sems[nxt].release()
        if not self.sems[me].acquire(timeout=self.wait):
            self.slips += 1

    def run(self, fns):
        res, exc = [None] * self.k, [None] * self.k

        def go(me):
            def local(frame, event, arg):
                if event in ("line", "opcode"):
                    self._point(me, frame)
                return local

            def enter(frame, event, arg):
                if not frame.f_code.co_filename.startswith(ROOT):
                    return None
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            self.sems[me].acquire(timeout=60)
            sys.settrace(enter)
            try:
                res[me] = fns[me]()
            except BaseException as e:
                exc[me] = repr(e)
            finally:
                sys.settrace(None)
                self.alive.discard(me)
                nxt = self._next(me)
                if nxt is not None:
                    self.sems[nxt].release()
        ts = [threading.Thread(target=go, args=(k,)) for k in range(self.k)]
        for t in ts:
            t.start()
        self.sems[int(self.dice[0]) % self.k].release()
        for t in ts:
            t.join()
        return res, exc
