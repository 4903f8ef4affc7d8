"""C26: measured clock differences are right within the round-trip times."""
import random, threading, time
from vf import perturb
from vf.rpc import RPCClient, ThreadServer, LazyServer, child, uniq

TECHNIQUE = "runtime monitoring: measured clock differences compared with a known offset of the remote clock and the error bound that follows from the measured round trips"
NOTE = "Samples offsets, loads, delays and kinds of servers; each measurement is compared with its own bound."
LEVEL = "exploration"
RULE = "One evaluation = one measurement. Distinct = (kind of server, load, magnitude of offset, sign, elapsed time (bucketed))."
ASSUMPTIONS = ["Both clocks advance at the same rate.", "The bound: half of the longest round trip (not more than half of the time that the whole measurement took)."]
SCENARIOS = {
    "threads": {"quick": (2, 9), "thorough": (4, 90), "min": 100},
    "children": {"quick": (2, 10), "thorough": (4, 90), "min": 15},
}


class Clock:
    """Stands for the time module of the remote process."""

    def __init__(self, offset):
        self.offset = offset

    def perf_counter(self):
        return time.perf_counter() + self.offset


def offset(rng):
    return rng.choice([0, 1, -1]) * rng.choice([1e-4, .01, 1, 60, 3600, 1e6, 1e9]) * rng.random()


class Load(threading.Thread):
    """Other clients that keep the server busy for irregular times."""

    def __init__(self, address, rng, delay):
        super().__init__(daemon=True)
        self.address, self.rng, self.delay, self.stop = address, random.Random(rng.random()), delay, False
        self.start()

    def run(self):
        c = RPCClient(self.address)
        t = c._import("time")
        while not self.stop:
            t.sleep(self.rng.random() * self.delay, _timeout=60)
            time.sleep(self.rng.random() * self.delay)
        c.close()


def one(ctx, c, off, what, sig):
    trips = []
    send = c.send

    def timed(action, *a, **k):
        t = time.perf_counter()
        r = send(action, *a, **k)
        if action == "call_obj":
            trips.append(time.perf_counter() - t)
        return r
    c.send = timed
    try:
        t0 = time.perf_counter()
        d = c.measure_clock_diff()
        t1 = time.perf_counter()
    finally:
        del c.send
    el = t1 - t0
    bound = el / 2 if len(trips) < 5 else max(trips) / 2 + 1e-4
    bound = max(bound, abs(off) * 1e-14) + 2e-6
    ctx.ev()
    ctx.count("round trips", len(trips))
    ctx.sig(*sig, round(abs(off) or 0, 2) if abs(off) < 1 else len(str(int(abs(off)))), off > 0, int(el * 1000).bit_length())
    if abs(d - off) > bound:
        ctx.violate("wrong-offset", f"{what}: measured {d!r} for an offset of {off!r}: error {d - off:.3g} s, round trips of at most {max(trips or [el]):.3g} s")


def s_threads(ctx):
    rng = ctx.rng
    if ctx.params.get("w", 0) % 2:
        perturb.enable(ctx.seed, .02, .003)
    while ctx.more():
        kind = rng.choice(["tcp", "inproc", "ipc", "lazy"])
        with ctx.guard(90, "hangs", kind):
            s = LazyServer() if kind == "lazy" else ThreadServer(kind)
            c = RPCClient(s.address, serializer=rng.choice(["msgpack", "json"]))
            loads = [Load(s.address, rng, rng.choice([.0005, .003])) for _ in range(rng.choice([0, 0, 1, 3]))]
            for _ in range(rng.choice([1, 5])):
                off = offset(rng)
                c["clock"] = 0
                s.server["clock"] = Clock(off)
                # the remote process's "time" module is another one
                imp = c._import
                c._import = lambda name, **k: c["clock"] if name == "time" else imp(name, **k)
                try:
                    one(ctx, c, off, f"{kind} server with {len(loads)} busy clients", ("threads", kind, len(loads)))
                finally:
                    del c._import
                # the real one
                one(ctx, c, 0., f"{kind} server with {len(loads)} busy clients, same clock", ("same", kind, len(loads)))
            for x in loads:
                x.stop = True
            for x in loads:
                x.join(60)
            c.close()
            s.close()
    for k, v in perturb.disable().items():
        ctx.count("perturb_" + k, v)


def s_children(ctx):
    """Another process, whose clock is shifted there."""
    rng = ctx.rng
    while ctx.more():
        qt = rng.random() < .2
        with ctx.guard(90, "hangs", "child"):
            p = child(qt=qt)
            c = p.client
            sh = c._import("vf.inside")
            if rng.random() < .5:
                c._import("vf.perturb").enable(rng.randrange(1000), .02, .002)
            loads = [Load(c.address, rng, rng.choice([.0005, .003])) for _ in range(rng.choice([0, 0, 1, 3]))]
            for _ in range(10):
                off = offset(rng)
                sh.shift_clock(off)
                one(ctx, c, off, f"child (qt={qt}) with {len(loads)} busy clients", ("child", qt, len(loads)))
            sh.shift_clock(0)
            for x in loads:
                x.stop = True
            for x in loads:
                x.join(60)
            p.stop(timeout=40)
            c.close()
