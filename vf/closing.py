"""Clients and target for the server closing monitor; used in threads and in child processes."""
import os, threading, time
from teleprox import RPCClient, RPCServer
from vf.targets import f


class Gate:
    def hit(self, token, delay):
        time.sleep(delay)


class Target:
    """Every execution is appended to a file: token and start time (CLOCK_MONOTONIC is common to all processes)."""

    def __init__(self, path):
        self.path = path
        self.fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        self.gate = threading.Event()

    def hit(self, token, delay=0):
        os.write(self.fd, f"{token} {time.monotonic():.6f}\n".encode())
        if delay:
            time.sleep(delay)
        return f(token)

    def big(self, token, n):
        os.write(self.fd, f"{token} {time.monotonic():.6f}\n".encode())
        return "x" * n

    def relay(self, token, gate, delay):
        """Meanwhile the server serves others (and may be closed)."""
        os.write(self.fd, f"{token} {time.monotonic():.6f}\n".encode())
        gate.hit(token, delay, _timeout=12)  # (the end of the gate may go unnoticed while connecting to it)
        return f(token)

    def ident(self):
        return threading.get_ident()


def target(path):
    return Target(path)


def touch(path):
    with open(path, "w"):
        pass


def outcome(fut, tok, timeout):
    try:
        v = fut.result(timeout=timeout)
        return "value" if v == f(tok) else f"wrong value {v!r:.100}"
    except TimeoutError:
        return "timeout"
    except Exception as e:
        return f"error {type(e).__name__}"


def watch(address, name, state, ready, ser="msgpack", n=5, limit=20, delay=.03):
    """Connect, get into `state`, announce it, and observe until the server has disconnected."""
    out = {"name": name, "state": state, "futures": [], "calls": [], "seen": None}
    c = RPCClient(address, serializer=ser)
    t = c["target"]
    t.hit(name + ".first")
    # everybody connects while the server is idle (connecting gives up after a second), then the load starts
    touch(ready + ".conn")
    end = time.monotonic() + limit
    while not os.path.exists(ready + ".go") and time.monotonic() < end:
        time.sleep(.002)
    end = time.monotonic() + limit
    futs = []
    if state == "outstanding":
        futs = [(f"{name}.o{i}", t.hit(f"{name}.o{i}", delay, _sync="async")) for i in range(n)]
    elif state == "bigreplies":
        [t.big(f"{name}.b{i}", 300000, _sync="async") for i in range(n)]
        futs = [(f"{name}.o{i}", t.hit(f"{name}.o{i}", 0, _sync="async")) for i in range(n)]
    elif state == "relayed":
        helper = RPCServer()
        helper["gate"] = Gate()
        helper.run_in_thread()
        hc = RPCClient(helper.address)
        gate = hc["gate"]
        futs = [(f"{name}.r{i}", t.relay(f"{name}.r{i}", gate, .3, _sync="async")) for i in range(1 + n % 3)]
    elif state == "offs":
        for i in range(n):
            t.hit(f"{name}.x{i}", delay, _sync="off")
    touch(ready)
    i = 0
    if state in ("blocked", "chatty"):
        while time.monotonic() < end:
            i += 1
            tok = f"{name}.c{i}"
            t0 = time.monotonic()
            try:
                v = t.hit(tok, delay if state == "blocked" else 0, _timeout=limit)
                if v != f(tok):
                    out["calls"].append(f"wrong value {v!r:.100}")
                if state == "chatty":
                    t.hit(tok + "off", 0, _sync="off")
                    futs.append((tok + "a", t.hit(tok + "a", 0, _sync="async")))
                    if len(futs) > 20:
                        k, fu = futs.pop(0)
                        out["futures"].append(outcome(fu, k, limit))
            except Exception as e:
                out["calls"].append(f"error {type(e).__name__}")
                break
    if state == "waiting":
        # blocked on one future that the server never completes in time
        tok = f"{name}.w"
        try:
            r = t.hit(tok, delay, _timeout=limit)
            while time.monotonic() < end:
                r = t.hit(tok, delay, _timeout=limit)
        except Exception as e:
            out["calls"].append(f"error {type(e).__name__}")
    if state == "unread":
        # the message of the server is there, but nobody has looked for it
        while not os.path.exists(ready + ".closed") and time.monotonic() < end:
            time.sleep(.01)
        time.sleep(.5)
        try:
            out["unread"] = c.close_server(sync=["async", "off", "sync"][n % 3])
        except Exception as e:
            out["unread"] = f"{type(e).__name__} {e}"
    while time.monotonic() < end:
        if c.disconnected():
            out["seen"] = time.monotonic()
            break
        time.sleep(.005)
    for tok, fu in futs:
        if not fu.done() and out["seen"] is not None:
            out["futures"].append("not done")
        out["futures"].append(outcome(fu, tok, 3))
    for k in range(3):
        t0 = time.monotonic()
        try:
            [lambda: t.hit(name + ".late"), lambda: c.ping(), lambda: c["target"]][k]()
            out["later"] = "no error"
        except Exception as e:
            out["later"] = type(e).__name__
        out["later_time"] = time.monotonic() - t0
        if out["later"] != "RuntimeError":
            break
    try:
        out["close"] = c.close_server()
    except Exception as e:
        out["close"] = f"error {type(e).__name__} {e}"
    out["still"] = c.disconnected()
    c.close()
    if state == "relayed":
        hc.close_server()
        hc.close()
    return out


def use_and_die(address, name, how, hold=None, over=None):
    """A client that never reads again."""
    c = RPCClient(address)
    t = c["target"]
    t.hit(name)
    for i in range(30):
        t.big(f"{name}.{i}", 100000, _sync="async") if how != "idle" else None
    if how == "closed":
        c.close()
    if hold is not None:
        hold.release()
        over.wait(120)  # (the identifier of an ended thread may be reused)
        c.close()
