"""Callbacks of timers; times are CLOCK_MONOTONIC, which is the same in all processes."""
import threading, time


class Ticker:
    def __init__(self):
        self.calls = []
        self.durations = []
        self.depth = 0
        self.overlaps = 0
        self.raise_at = None
        self.hook = None
        self.lock = threading.Lock()

    def setup(self, durations=(), raise_at=None):
        self.durations = list(durations)
        self.raise_at = raise_at
        self.calls.clear()

    def tick(self):
        t0 = time.monotonic()
        with self.lock:
            n = len(self.calls)
            self.calls.append([t0, None, threading.get_ident()])
            self.depth += 1
            if self.depth > 1:
                self.overlaps += 1
        try:
            d = self.durations[n % len(self.durations)] if self.durations else 0
            if d:
                time.sleep(d)
            if self.hook is not None:
                self.hook(n)
            if self.raise_at is not None and n == self.raise_at:
                raise ValueError("callback fails")
        finally:
            with self.lock:
                self.depth -= 1
                self.calls[n][1] = time.monotonic()

    __call__ = tick

    def get(self):
        with self.lock:
            return [list(c) for c in self.calls], self.overlaps

    def ident(self):
        return threading.get_ident()


def new():
    return Ticker()
