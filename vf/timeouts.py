"""Timed waits, run in any kind of participant (thread, child process, Qt child process)."""
import random, threading, time
import teleprox
from teleprox import RPCClient, RPCServer, RemoteCallException
from vf.targets import f

LOST = 40


class Slow:
    """The remote side: waits before it replies."""

    def slow(self, token, delay):
        if delay:
            time.sleep(delay)
        return f(token)

    def fail(self, token, delay):
        if delay:
            time.sleep(delay)
        raise KeyError("boom:" + token)

    def via(self, other, token, delay):
        """Meanwhile the thread of this server serves other requests."""
        return other.slow(token, delay, _timeout=LOST)


class Quick:
    """Served by the local server of the waiting thread."""

    def __init__(self):
        self.n = 0
        self.threads = set()

    def tick(self, x):
        self.n += 1
        self.threads.add(threading.get_ident())
        return x + 1


def same(res, tok, mode):
    if mode == "fail":
        return isinstance(res, RemoteCallException) and "boom:" + tok in str(res)
    return res == f(tok)


def wait_for(fut, meth, timeout):
    """-> (outcome, elapsed): outcome is the reply, or 'TIMEOUT'"""
    t = time.perf_counter()
    try:
        if meth == "exception":
            e = fut.exception(timeout=timeout) if timeout != "default" else fut.exception()
            r = e if e is not None else fut.result(timeout=timeout if timeout != "default" else None)
        else:
            r = fut.result(timeout=timeout) if timeout != "default" else fut.result()
    except TimeoutError:
        r = "TIMEOUT"
    except RemoteCallException as e:
        r = e
    return r, time.perf_counter() - t


def attempt(c, how, mode, timeout, delay, tok, stream, flood_n):
    """One request that takes at least `delay`, waited for with `timeout`.  -> dict of observations"""
    t = c["slow"]
    other = c["other"] if stream else None
    fn = [t.fail, t.slow][mode != "fail"]
    args = (tok, delay)
    if mode == "via":
        fn, args = t.via, (other, tok, delay)
    noise = []
    out = {"problems": []}
    meth = "exception" if how == "exception" else "result"
    if how in ("sync", "option", "call_obj", "send"):
        if stream:
            # these are served while the main request waits, and their replies keep arriving
            pass
        t0 = time.perf_counter()
        try:
            if how == "sync":
                r = fn(*args, _timeout=timeout)
            elif how == "option":
                fn._set_proxy_options(timeout=timeout)
                r = fn(*args)
            elif how == "call_obj":
                r = c.call_obj(fn, args, timeout=timeout)
            else:
                r = c.send("call_obj", opts={"obj": fn, "args": args, "kwargs": {}}, timeout=timeout)
        except TimeoutError:
            r = "TIMEOUT"
        except RemoteCallException as e:
            r = e
        el = time.perf_counter() - t0
        fut = None
    elif how == "ping":
        blocker = fn(*args, _sync="async")
        t0 = time.perf_counter()
        try:
            r = c.ping(timeout=timeout)
        except TimeoutError:
            r = "TIMEOUT"
        el = time.perf_counter() - t0
        out.update(value=r if r == "TIMEOUT" else ("ok" if r == "pong" else repr(r)), elapsed=el)
        fut = blocker
    else:
        t0 = time.perf_counter()
        fut = fn(*args, _sync="async")
        if stream:
            # (a long stream of replies lasts longer than the timeout)
            pause = .002 if flood_n != 60 else .015
            noise = [(f"{tok}.n{i}", t.slow(f"{tok}.n{i}", pause, _sync="async")) for i in range(flood_n)]
        out["lag"] = time.perf_counter() - t0
        r, el = wait_for(fut, meth, timeout)
    if how != "ping":
        out.update(value="TIMEOUT" if isinstance(r, str) and r == "TIMEOUT" else ("ok" if same(r, tok, mode) else f"{r!r:.300}"), elapsed=el)
    if fut is not None and out["value"] == "TIMEOUT":
        # the same future again, with a timeout that elapses once more, and then until the reply arrives
        r2, el2 = wait_for(fut, meth, 0)
        if r2 == "TIMEOUT":
            out["again"] = el2
        r3, el3 = wait_for(fut, meth, random.choice([None, LOST, "default"]))
        if not same(r3, tok, mode):
            out["problems"].append(f"awaiting the same future again gave {r3!r:.200}")
    elif fut is not None and how != "ping":
        r3, el3 = wait_for(fut, meth, random.choice([None, 0, 5]))
        if not same(r3, tok, mode):
            out["problems"].append(f"asking the completed future again gave {r3!r:.200}")
    # later calls get their own replies
    for i in range(2):
        k = f"{tok}.later{i}"
        try:
            v = t.slow(k, 0, _timeout=None)
            if v != f(k):
                out["problems"].append(f"a later call returned {v!r:.200} instead of {f(k)}")
        except Exception as e:
            out["problems"].append(f"a later call raised {type(e).__name__} {str(e)[-200:]}")
    for k, fu in noise:
        v = fu.result(timeout=LOST)
        if v != f(k):
            out["problems"].append(f"an unrelated call returned {v!r:.200} instead of {f(k)}")
    return out


def zero(c, tok, mode):
    """timeout=0 on a future whose reply has already arrived (unless the machine is very slow)"""
    t = c["slow"]
    fut = (t.fail if mode == "fail" else t.slow)(tok, 0, _sync="async")
    end = time.perf_counter() + 20
    r = "TIMEOUT"
    n = 0
    while time.perf_counter() < end:
        r, el = wait_for(fut, "result", 0)
        if not (isinstance(r, str) and r == "TIMEOUT"):
            break
        n += 1
        time.sleep(.01)
    return {"value": "ok" if same(r, tok, mode) else f"{r!r:.200}", "polls": n}


class Participant:
    """A waiting thread of a child process (called through the child's server, so that this serves requests meanwhile)."""

    def setup(self, address, ser):
        self.c = RPCClient.get_client(address) if ser is None else RPCClient(address, serializer=ser)
        self.quick = Quick()
        RPCServer.get_server()["quick"] = self.quick

    def attempt(self, *a):
        return attempt(self.c, *a)

    def zero(self, *a):
        return zero(self.c, *a)

    def ticks(self):
        return self.quick.n

    def close(self):
        self.c.close()
