"""A program that runs where numpy (in mode "bare" also msgpack and Qt) cannot be imported (argv: seed, seconds, mode).  Prints RESULT and a JSON object."""
import datetime, json, logging, os, random, sys, threading, time

LOST = 40


def gen(rng, depth=0):
    k = rng.randrange(11 if depth < 3 else 8)
    if k == 0:
        return rng.choice([None, True, False])
    if k == 1:
        return rng.choice([0, -1, 2**31, 2**53 + 1, -2**63, rng.randrange(-10**9, 10**9)])
    if k == 2:
        return rng.choice([0.5, -0.0, 1e300, rng.random()])
    if k in (3, 4):
        return rng.choice(["", "a", "ü€", "x" * 300]) + str(rng.randrange(100))
    if k == 5:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(6)))
    if k == 6:
        return datetime.date(2020, 1, 1 + rng.randrange(28))
    if k == 7:
        return datetime.datetime(2020, 1, 1 + rng.randrange(28), rng.randrange(24), 5, 6, rng.randrange(10**6))
    n = rng.randrange(4)
    if k == 8:
        return [gen(rng, depth + 1) for _ in range(n)]
    if k == 9:
        return tuple(gen(rng, depth + 1) for _ in range(n))
    return {str(rng.randrange(100)): gen(rng, depth + 1) for _ in range(n)}


def available(name):
    try:
        __import__(name)
        return True
    except ImportError:
        return False


def plain(v):
    """As JSON sends it."""
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


class Sink:
    """The objects at the other side."""

    def __init__(self):
        self.v = None

    def echo(self, x):
        return x

    def boom(self, tok):
        raise ValueError("boom:" + tok)

    def call(self, fn, x):
        return fn(x)

    def me(self):
        return self

    def array(self, n):
        import numpy
        return numpy.arange(n)

    def scalar(self):
        import numpy
        return numpy.float64(2.5)

    def has_numpy(self):
        try:
            import numpy
            return True
        except ImportError:
            return False


def refusals(check, teleprox, rng):
    """Without msgpack and Qt: what needs them is refused with an error, at once, and leaves nothing behind."""
    def refused(what, fn, *types):
        t0 = time.monotonic()
        try:
            r = fn()
            check(False, f"{what} without the library gave {r!r}")
        except types as e:
            check(time.monotonic() - t0 < LOST, f"{what}: refused after {time.monotonic() - t0:.1f} s")
        except Exception as e:
            check(False, f"{what} without the library: {type(e).__name__} {str(e)[-400:]}")

    def imp():
        from teleprox import qt
        return qt
    refused("import of teleprox.qt", imp, ImportError)
    s = teleprox.RPCServer()
    s.run_in_thread()
    refused("RPCClient(serializer='msgpack')", lambda: teleprox.RPCClient(s.address), ValueError)
    c = teleprox.RPCClient(s.address, serializer="json")
    check(c.ping() is not None, "client after a refused one")
    c.close_server(timeout=LOST)
    c.close()
    if rng.random() < .5:
        refused("start_process(qt=True)", lambda: teleprox.start_process(qt=True, serializer="json"), RuntimeError, ImportError, TimeoutError)


def main(seed, seconds, mode):
    fake = os.environ["VF_FAKE"]
    rng = random.Random(seed)
    end = time.monotonic() + seconds
    out = {"n": 0, "distinct": set(), "bad": []}

    def check(ok, msg):
        out["n"] += 1
        if not ok:
            out["bad"].append(str(msg)[:600])
    try:
        import numpy
        check(False, "numpy can be imported here: the scenario is void")
    except ImportError:
        pass
    bare = mode.startswith("bare")
    if bare:
        for name in ("msgpack", "PyQt5", "PyQt6", "PySide2", "PySide6"):
            check(not available(name), f"{name} can be imported here: the scenario is void")
    import teleprox
    from teleprox import RPCClient, RPCServer, RemoteCallException, ObjectProxy
    from teleprox.shmem import SharedNDArray
    for make in (lambda: SharedNDArray.zeros((2, 3), "f8"), lambda: SharedNDArray.zeros(3, int), lambda: SharedNDArray(None, None)):
        try:
            make()
            check(False, "a SharedNDArray was made without numpy")
        except ImportError:
            check(True, "")
        except Exception as e:
            check(False, f"SharedNDArray without numpy: {type(e).__name__} {e}")
    if mode == "child with numpy":
        os.environ["PYTHONPATH"] = os.pathsep.join(p for p in os.environ["PYTHONPATH"].split(os.pathsep) if p != fake)
    rounds = 0
    while time.monotonic() < end or rounds < 2:
        rounds += 1
        ser = "json" if bare else rng.choice(["msgpack", "json"])
        if bare and rounds % 3 == 1:
            refusals(check, teleprox, rng)
        if mode.endswith("thread"):
            s = RPCServer()
            s.run_in_thread()
            c = RPCClient(s.address, serializer=ser, start_local_server=True)
        else:
            p = teleprox.start_process(serializer=ser, start_local_server=True, qt=not bare and rng.random() < .2)
            c = p.client
        local = RPCServer.get_server()
        sink = c._import("vf.nonumpy").Sink()
        has = mode == "child with numpy"
        check(sink.has_numpy() is has, f"{mode}: numpy at the other side")
        stop = min(end, time.monotonic() + rng.choice([.5, 2]))
        n = 0
        while time.monotonic() < stop or n < 30:
            n += 1
            op = rng.choice(["echo", "echo", "echo", "attr", "async", "boom", "call", "me", "item", "array", "scalar", "transfer"])
            out["distinct"].add(f"{mode} {ser} {op}")
            v = gen(rng)
            want = plain(v) if ser == "json" else v
            try:
                if op == "echo":
                    r = sink.echo(v, _timeout=LOST)
                    check((plain(r) if ser == "json" else r) == want, f"{mode} {ser}: echo({v!r}) gave {r!r}")
                elif op == "attr":
                    sink.v = v
                    r = sink.v._get_value()
                    check((plain(r) if ser == "json" else r) == want, f"{mode} {ser}: attribute {v!r} gave {r!r}")
                elif op == "async":
                    futs = [(i, sink.echo(i, _sync="async")) for i in range(rng.randrange(1, 30))]
                    rng.shuffle(futs)
                    for i, fu in futs:
                        check(fu.result(timeout=LOST) == i, f"{mode} {ser}: future of {i}")
                elif op == "boom":
                    try:
                        sink.boom("t%d" % n)
                        check(False, "no error")
                    except RemoteCallException as e:
                        check("boom:t%d" % n in str(e), f"{mode} {ser}: {e}")
                elif op == "call":
                    check(sink.call(lambda x: [x, n], n) == [n, n], f"{mode} {ser}: callback")
                elif op == "me":
                    q = sink.me()
                    check(isinstance(q, ObjectProxy) and q == sink and q.echo(n) == n, f"{mode} {ser}: proxy")
                elif op == "item":
                    c["i%d" % (n % 5)] = v
                    r = c["i%d" % (n % 5)]
                    check((plain(r) if ser == "json" else r) == want, f"{mode} {ser}: item {v!r} gave {r!r}")
                elif op == "transfer":
                    q = c.transfer([n, "x"])
                    check(isinstance(q, ObjectProxy) and q[0] == n and len(q) == 2, f"{mode} {ser}: transfer")
                else:
                    # needs numpy here, or at the other side
                    try:
                        r = sink.array(3) if op == "array" else sink.scalar()
                        # (a numpy float is a float: JSON has no other way to write it)
                        check(has and op == "scalar" and r == 2.5, f"{mode} {ser}: {op} gave {r!r} without numpy")
                    except ImportError:
                        check(has, f"{mode} {ser}: {op}: ImportError here although the other side has no numpy")
                    except RemoteCallException as e:
                        check(not has and "Error" in str(e), f"{mode} {ser}: {op}: {str(e)[-300:]}")
                    if has:
                        # the object itself can be used over there
                        q = sink.array(4, _return_type="proxy")
                        check(q.sum(_return_type="proxy").item() == 6 and len(q) == 4, f"{mode} {ser}: proxied array")
                    check(sink.echo(n) == n, f"{mode} {ser}: call after {op}")
            except Exception as e:
                check(False, f"{mode} {ser}: {op} of {v!r:.200} raised {type(e).__name__} {str(e)[-400:]}")
        if mode.endswith("thread"):
            c.close_server(timeout=LOST)
        else:
            check(p.stop() == 0, f"{mode}: exit code")
        c.close()
        local.close()
    check("numpy" not in sys.modules or mode == "", "numpy got imported")
    out["distinct"] = sorted(out["distinct"])
    print("RESULT" + json.dumps(out), flush=True)
    os._exit(0)


if __name__ == "__main__":
    main(int(sys.argv[1]), float(sys.argv[2]), sys.argv[3])
