"""Qt value types sent by value; as a program: a process that has imported Qt before teleprox."""
import json, os, random, subprocess, sys, time


def make(rng):
    from PyQt5 import QtCore, QtGui
    i = lambda: rng.choice([0, 1, -1, 7, 2**31 - 1, -2**31, rng.randrange(-10**6, 10**6)])
    x = lambda: rng.choice([0., -0., 1.5, -1e300, 5e-324, rng.random(), rng.uniform(-1e6, 1e6)])
    y = lambda: rng.choice([0., 1.5, -2.25, rng.randrange(-1000, 1000) / 8])
    k = rng.choice(["QPoint", "QSize", "QRect", "QLine", "QLineF", "QPointF", "QSizeF", "QRectF", "QVector3D", "QVector4D", "QQuaternion", "QTransform"])
    if k in ("QPoint", "QSize"):
        return getattr(QtCore, k)(i(), i())
    if k in ("QRect", "QLine"):
        return getattr(QtCore, k)(*[rng.randrange(-10**6, 10**6) for _ in range(4)])
    if k in ("QPointF", "QSizeF"):
        return getattr(QtCore, k)(x(), x())
    if k in ("QLineF", "QRectF"):
        return getattr(QtCore, k)(x(), x(), x(), x())
    if k == "QVector3D":
        return QtGui.QVector3D(y(), y(), y())
    if k in ("QVector4D", "QQuaternion"):
        return getattr(QtGui, k)(y(), y(), y(), y())
    return QtGui.QTransform(*[x() for _ in range(9)])


def nest(rng, json_, depth=0):
    r = rng.random()
    if depth > 2 or r < .6:
        return make(rng)
    n = rng.randrange(4)
    if r < .75:
        return [nest(rng, json_, depth + 1) for _ in range(n)]
    if r < .85 and not json_:
        return tuple(nest(rng, json_, depth + 1) for _ in range(n))
    return {f"k{j}": nest(rng, json_, depth + 1) for j in range(n)}


def canon(v):
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + "[" + ",".join(map(canon, v)) + "]"
    if isinstance(v, dict):
        return "{" + ",".join(f"{k}:{canon(x)}" for k, x in sorted(v.items())) + "}"
    if type(v).__module__.startswith("PyQt5"):
        return f"{type(v).__name__}{v.__reduce__()[1]!r}"
    return f"{type(v).__name__} {v!r:.80}"


class Sink:
    def both(self, v, kw=None):
        return [canon(v), v, canon(kw)]

    def keep(self, v):
        self.v = v


def main(seed, seconds):
    from PyQt5 import QtWidgets
    import teleprox
    from teleprox import RPCServer, RPCClient
    rng = random.Random(seed)
    end = time.monotonic() + seconds
    p = teleprox.start_process("vfqtv", qt=True)
    srv = RPCServer()
    srv.run_in_thread()
    # a started child imports teleprox before Qt, so it returns Qt types by proxy: only what arrives there counts;
    # a program that imports Qt first sends them by value both ways
    prog = subprocess.Popen([sys.executable, "-c", "from PyQt5 import QtWidgets; import teleprox, time; s = teleprox.RPCServer(); print(s.address.decode(), flush=True); s.run_forever()"],
                            stdout=subprocess.PIPE, stdin=subprocess.DEVNULL, text=True)
    clients = {"child": p.client, "json child": None, "thread": RPCClient(srv.address), "program": RPCClient(prog.stdout.readline().strip())}
    n, bad, sigs = 0, [], set()
    p2 = teleprox.start_process("vfqtj", qt=True, serializer="json")
    clients["json child"] = p2.client
    sinks = {k: c._import("vf.qtvalues").Sink() for k, c in clients.items()}
    while time.monotonic() < end and len(bad) < 5:
        k = rng.choice(list(clients))
        v = nest(rng, "json" in k)
        want = canon(v)
        try:
            a, b, kw = sinks[k].both(v, kw=v)
            got = {"arrived": a, "keyword": kw}
            if "child" not in k:
                got["returned"] = canon(b)
            if rng.random() < .3 and "child" not in k:
                sinks[k].keep(v)
                got["attribute"] = canon(sinks[k].v._get_value())
                clients[k]["name"] = v
                got["published"] = canon(clients[k]["name"])
        except Exception as e:
            got = {"error": f"{type(e).__name__} {str(e)[-400:]}"}
        for w, g in got.items():
            n += 1
            if g != want:
                bad.append(f"{k}, {w}: sent {want:.300}, got {g:.400}")
        sigs.add(f"{k} {want[:60]}")
    p.stop()
    p2.stop()
    clients["program"].close_server()
    prog.wait(20)
    print("\nRESULT" + json.dumps({"n": n, "bad": bad[:3], "distinct": sorted(sigs)[:3000]}), flush=True)


if __name__ == "__main__":
    main(int(sys.argv[1]), float(sys.argv[2]))
