"""A wall clock that is set forward and back at random moments (as an administrator or NTP does)."""
import contextlib, random, threading, time


@contextlib.contextmanager
def stepping(ctx, once=None):
    real = time.time
    off = [0.0]
    stop = threading.Event()
    rng = random.Random(ctx.rng.random())

    def step():
        if once:
            if not stop.wait(once[0]):
                off[0] = once[1]
            return
        while not stop.wait(rng.choice([.0005, .002, .002, .02, .1])):
            off[0] = rng.choice([0, 0, rng.uniform(-3, 3), rng.uniform(-100, 100), 86400, -86400, 1e7, -1e7])
            ctx.count("clock steps")
    th = threading.Thread(target=step, daemon=True)
    time.time = lambda: real() + off[0]
    th.start()
    try:
        yield
    finally:
        stop.set()
        th.join()
        time.time = real
