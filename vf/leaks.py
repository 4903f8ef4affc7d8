"""Counts what a process holds: descriptors, threads, children, live objects."""
import collections, gc, logging, os, subprocess, sys, threading, time

MODULES = ("teleprox", "zmq", "subprocess", "vf.leaks")


class Token:
    """An object whose lifetime is watched."""

    def __init__(self, *a):
        self.a = a

    def same(self, x=None):
        return x

    def fail(self, *a):
        raise ValueError(Token())

    def make(self):
        return Token()

    def call(self, f, x):
        r = f(x)
        f._delete()
        return r

    def drop(self, x):
        x._delete()

    def keep(self, x):
        self.a = (x,)


def snap(deep=False):
    """-> {what: number}"""
    for _ in range(3):
        gc.collect()
    d = collections.Counter()
    for o in gc.get_objects():
        t = type(o)
        m = str(t.__module__)
        if m.startswith(MODULES):
            d[f"{m}.{t.__name__}"] += 1
    d["open files"] = len(os.listdir("/proc/self/fd")) - 1
    d["threads"] = threading.active_count()
    d["system threads"] = len(os.listdir("/proc/self/task"))
    d["child processes"] = sum(len(open(f"/proc/self/task/{t}/children").read().split()) for t in tasks())
    d["logging handlers"] = len(logging._handlers)
    d["sys.path"] = len(sys.path)
    d["attached handlers"] = sum(len(getattr(x, "handlers", ())) for x in list(logging.root.manager.loggerDict.values()) + [logging.root])
    if deep:
        d["allocated blocks"] = sys.getallocatedblocks()
        d["objects"] = len(gc.get_objects())
    return dict(d)


def tasks():
    for t in os.listdir("/proc/self/task"):
        if os.path.exists(f"/proc/self/task/{t}/children"):
            yield t


def growth(a, b, n):
    # (references held by proxies that were not deleted take one block each; and some noise)
    least = {"allocated blocks": 2.5 * n + 50, "objects": .8 * n + 10}
    return {k: b[k] - a.get(k, 0) for k in b if b[k] - a.get(k, 0) >= least.get(k[1], .8 * n)}


def measure(cycle, n, snaps, windows=3, settle=4, warm=None):
    """Run the cycle n times per window -> {what: growth per window} of all that grew in each window by (nearly) n.

    snaps: functions returning {what: number}
    """
    for _ in range(n if warm is None else warm):
        cycle()
    time.sleep(.1)

    def look():
        return {(i, k): v for i, s in enumerate(snaps) for k, v in s().items()}
    a = look()
    grown = None
    for w in range(windows):
        for _ in range(n):
            cycle()
        end = time.monotonic() + (settle if w == windows - 1 else .2)
        while True:
            b = look()
            g = growth(a, b, n)
            # ended work may take a moment to go away
            if not g or grown is not None and not g.keys() & grown.keys() or time.monotonic() > end:
                break
            time.sleep(.1)
        a = b
        grown = {k: [v] for k, v in g.items()} if grown is None else {k: grown[k] + [g[k]] for k in grown if k in g}
        if not grown:
            break
    return grown
