"""Deterministic asyncio event loop with virtual time.

The loop never sleeps: when nothing is ready the virtual clock jumps to the
next timer.  asyncio's own FIFO order of ready callbacks is kept (it is a
documented guarantee, so permuting it would explore impossible schedules);
schedules are varied from outside, by choosing at which loop iteration the
environment acts.
"""
import asyncio
import heapq
import logging
import random
import signal
import sys
import threading
import time as _time_mod
from asyncio import events

REAL_TIME = _time_mod.time
REAL_MONO = _time_mod.monotonic
EPOCH = 1_000_000.0  # virtual time.time() at loop time 0: keeps binary fractions exact


class Hang(BaseException):
    """Real-time watchdog: the code under test did not give control back."""


class Spin(Exception):
    """The loop kept running callbacks without virtual time moving."""


_current = None


def install(seed=None):
    """Patch time for the whole (worker) process; call before importing aiok8s."""
    def now():
        return EPOCH + (_current._vnow if _current is not None else 0.0)

    _time_mod.time = now
    _time_mod.monotonic = now
    _time_mod.perf_counter = now
    _time_mod.time_ns = lambda: int(now() * 1e9)
    _time_mod.monotonic_ns = lambda: int(now() * 1e9)
    logging.disable(logging.CRITICAL)
    sys.dont_write_bytecode = True

    def on_alarm(signum, frame):
        raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)


class VLoop(asyncio.SelectorEventLoop):
    MAX_ITER = 60000

    def __init__(self):
        self._vnow = 0.0
        super().__init__()
        self._clock_resolution = 1e-9
        self.errors = []
        self.set_exception_handler(lambda loop, ctx: self.errors.append(ctx))
        self.iters = 0
        self.late = 0.0  # how much later than its time a timer fires

    def time(self):
        return self._vnow

    # -- control -----------------------------------------------------------
    def enter(self):
        global _current
        _current = self
        self._thread_id = threading.get_ident()
        asyncio.set_event_loop(self)
        events._set_running_loop(self)

    def leave(self):
        global _current
        try:
            for _ in range(20):
                tasks = [t for t in asyncio.all_tasks(self) if not t.done()]
                if not tasks:
                    break
                for t in tasks:
                    t.cancel()
                for _ in range(200):
                    if not self._ready:
                        break
                    self._run_once()
        except BaseException:
            pass
        self._ready.clear()
        self._scheduled.clear()
        events._set_running_loop(None)
        asyncio.set_event_loop(None)
        self._thread_id = None
        _current = None
        try:
            self.close()
        except BaseException:
            pass

    def _head(self):
        while self._scheduled and self._scheduled[0]._cancelled:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            self._timer_cancelled_count = max(0, self._timer_cancelled_count - 1)
        return self._scheduled[0]._when if self._scheduled else None

    def step(self):
        """One loop iteration if anything is ready now. True if something ran."""
        h = self._head()
        if not self._ready and not (h is not None and h <= self._vnow):
            return False
        self._run_once()
        self.iters += 1
        return True

    def settle(self, limit=None):
        """Run until nothing is ready at the current virtual time."""
        n = 0
        limit = limit or self.MAX_ITER
        while self.step():
            n += 1
            if n > limit:
                raise Spin()
        return n

    def ticks(self, k):
        for _ in range(k):
            if not self.step():
                return False
        return True

    def advance(self, dt):
        """Move virtual time forward by dt, running every timer on the way."""
        self.advance_to(self._vnow + dt)

    def advance_to(self, target, hook=None):
        n = 0
        self.settle()
        while True:
            h = self._head()
            if h is None or h > target:
                break
            if h > self._vnow:
                self._vnow = h + self.late
            n += 1
            if n > self.MAX_ITER:
                raise Spin()
            self.settle()
            if hook:
                hook()
        if target > self._vnow:
            self._vnow = target

    def live_tasks(self):
        return [t for t in asyncio.all_tasks(self) if not t.done()]


SCRAMBLED = [False]


def enc(v):
    """A resource version: for its readers a string without an order."""
    s = str(v)
    return s[::-1] if SCRAMBLED[0] else s


def dec(s):
    s = str(s)
    return int(s[::-1] if SCRAMBLED[0] else s)


def watchdog(seconds):
    signal.setitimer(signal.ITIMER_REAL, seconds)


def unwatch():
    signal.setitimer(signal.ITIMER_REAL, 0)


class scenario:
    """Context manager: a fresh virtual loop, seeded RNG and a watchdog."""

    def __init__(self, seed, wall=20):
        self.seed = seed
        self.wall = wall

    def __enter__(self):
        random.seed(self.seed)
        SCRAMBLED[0] = False
        self.loop = VLoop()
        self.loop.enter()
        watchdog(self.wall)
        return self.loop

    def __exit__(self, *a):
        unwatch()
        watchdog(5)
        try:
            self.loop.leave()
        except Hang:
            pass
        finally:
            unwatch()
        return False
