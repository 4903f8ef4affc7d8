"""C10: timeouts bound every wait and leave the client usable."""
import os, random, signal, threading, time
import teleprox
from teleprox import RemoteCallException
from vf import timeouts, wallclock
from vf.targets import f
from vf.rpc import ThreadServer, LazyServer, RPCClient, RPCServer, in_threads, child, uniq

TECHNIQUE = "runtime monitoring: outcome and elapsed time of every wait judged against the known delay of its reply, repeated waits and later calls by unique tokens; fault injection by stopping and killing the server"
NOTE = "Samples waits (ways of waiting, timeouts, delays, kinds of participants, traffic); a wait that took too long is repeated, so that only lasting delays count."
LEVEL = "exploration"
RULE = "One evaluation = one wait, repeated wait or later call judged. Distinct = (participant, way of waiting, kind of reply, timeout, delay, traffic) combinations."
ASSUMPTIONS = ["'Not much later' means 0.3 s (plus half the timeout) in at least one of four repetitions of the same wait.", "'Not before' allows 5 ms (timeouts are whole ms).",
               "A reply is 'in time' if the timeout exceeds the server's delay by 2 s, and 'late' if the delay exceeds the timeout by 0.25 s."]
SCENARIOS = {
    "threads": {"quick": (3, 13), "thorough": (6, 120), "min": 200},
    "children": {"quick": (2, 13), "thorough": (4, 120), "min": 100},
    "stopped": {"quick": (1, 12), "thorough": (3, 90), "min": 20},
    "long": {"quick": (1, 12), "thorough": (1, 14), "min": 8},
    "clock": {"quick": (1, 12), "thorough": (2, 60), "min": 50},
}
LOST = 40
HOWS = ["sync", "sync", "option", "call_obj", "send", "ping", "future", "future", "exception"]


def judge(ctx, what, how, timeout, delay, res, once_more):
    """-> False if the wait took too long (to be repeated)"""
    ctx.ev(3)
    for p in res["problems"]:
        ctx.violate("disturbed", f"{what}: {p}")
    v, el = res["value"], res["elapsed"]
    lag = res.get("lag", 0)  # time since the request was made
    if v not in ("ok", "TIMEOUT"):
        ctx.violate("wrong-reply", f"{what}: got {v}")
        return True
    if v == "TIMEOUT":
        if timeout is None:
            ctx.violate("timeout-without-timeout", f"{what}: TimeoutError after {el:.2f} s")
            return True
        if el < timeout - .005:
            ctx.violate("timeout-too-early", f"{what}: TimeoutError after {el:.4f} s")
        if timeout >= delay + 2:
            ctx.violate("timeout-despite-reply", f"{what}: TimeoutError after {el:.2f} s although the reply takes {delay} s")
        if res.get("again", 0) > 1:
            return False
        return el <= timeout + .3 + timeout / 2
    if timeout is not None and timeout + lag + .25 < delay:
        # must not have waited for the reply
        return False
    if how != "ping" and el + lag < delay - .005:
        ctx.violate("wrong-reply", f"{what}: got a reply after {el:.4f} s that takes {delay} s")
    return True


def run_waits(ctx, rng, part, pname, ready=lambda: True, hows=HOWS, traffic=""):
    """part.attempt(...) and part.zero(...) run a wait in the participant."""
    while ctx.more() and ready():
        if rng.random() < .15:
            mode = rng.choice(["slow", "fail"])
            what = f"{pname}: result(timeout=0) after the reply has arrived ({mode}) {traffic}"
            with ctx.guard(60, "hangs", what):
                r = part.zero("z" + uniq(), mode)
            ctx.sig(pname, "zero", mode, traffic)
            ctx.check(r["value"] == "ok", "timeout-despite-reply", f"{what}: {r}")
            continue
        how = rng.choice(hows)
        stream = rng.random() < .3 and how in ("future", "exception")
        mode = rng.choice(["slow", "slow", "fail"]) if not stream else "via"
        timeout = rng.choice([0, .001, .005, .02, .05, .1, .2, None, 4, 4.0, 30])
        if timeout is None or timeout >= 4:
            delay = rng.choice([0, .001, .02, .1])
        else:
            delay = rng.choice([timeout + .3, timeout + .3, timeout + .4, timeout, 0])
        flood_n = rng.choice([20, 60, 100]) if stream else 0
        if flood_n == 60 and timeout is not None and timeout < 1:
            delay = timeout + 1.2
        what = f"{pname}: {how} of {mode}, timeout {timeout}, reply after {delay} s{', replies to others keep arriving' if stream else ''} {traffic}"
        ctx.sig(pname, how, mode, timeout, delay, stream, traffic)
        slow = []
        for k in range(4):
            with ctx.guard(60, "hangs", what):
                res = part.attempt(how, mode, timeout, delay, "w" + uniq(), stream, flood_n)
            if judge(ctx, what, how, timeout, delay, res, k):
                slow = None
                break
            slow.append((res["value"], round(res["elapsed"], 3), res.get("again")))
        if slow:
            ctx.violate("timeout-too-late", f"{what}: repeatedly took too long: {slow}")
        ctx.top(f"repeats", k)


class Here:
    """A participant in a thread of this process."""

    def __init__(self, c):
        self.c = c

    def attempt(self, *a):
        return timeouts.attempt(self.c, *a)

    def zero(self, *a):
        return timeouts.zero(self.c, *a)


def publish(server, other):
    server["slow"] = timeouts.Slow()
    c = other and RPCClient.get_client(other.address)
    return server


def with_other(ctx, s, o, body):
    """Publish a target in both servers and a proxy to the second one's in the first."""
    s["slow"] = timeouts.Slow()
    o["slow"] = timeouts.Slow()
    co = RPCClient.get_client(o.address)
    c = RPCClient.get_client(s.address)
    c["other"] = co["slow"]
    body()


def s_threads(ctx):
    w = ctx.params.get("w", 0)
    kinds = ["tcp", "inproc", "ipc"]
    servers = []

    def participant(i, kind, local):
        rng = random.Random(f"{ctx.rng.random()}{i}")
        s = LazyServer() if rng.random() < .2 else ThreadServer(kind)
        o = ThreadServer("tcp")
        stop = threading.Event()
        traffic_n = [0]

        def body():
            s["slow"] = timeouts.Slow()
            o["slow"] = timeouts.Slow()
            co = RPCClient(o.address)
            c = RPCClient(s.address, reentrant=local != "not reentrant", serializer=rng.choice(["msgpack", "json"]))
            c["other"] = co["slow"]
            co.close()
            ths = []
            if local != "none":
                ls = RPCServer()
                ls.run_lazy()
                quick = timeouts.Quick()
                ls["quick"] = quick
                if local == "lazy+traffic":
                    ths = [threading.Thread(target=traffic, args=(ctx, ls.address, stop, traffic_n, k), daemon=True) for k in range(2)]
                    for t in ths:
                        t.start()
            run_waits(ctx, rng, Here(c), f"thread, {kind}", traffic=local)
            stop.set()
            if ths:
                # serve until the traffic has ended
                end = time.monotonic() + 20
                while any(t.is_alive() for t in ths) and time.monotonic() < end:
                    try:
                        c.ping()
                    except TimeoutError:
                        pass
                ctx.check(quick.threads <= {threading.get_ident()}, "served-elsewhere", "requests to the waiting thread's server were executed in another thread")
                ctx.count("requests served while waiting", quick.n)
            if local != "none":
                RPCServer.get_server().close()
            c.close()
        t = threading.Thread(target=run_box, args=(ctx, body), daemon=True)
        t.start()
        return t, s, o

    ths = [participant(i, ctx.rng.choice(kinds), l) for i, l in enumerate(["none", "lazy", "lazy+traffic", "not reentrant", "lazy+traffic"])]
    for t, s, o in ths:
        t.join(ctx.budget + 90)
    for t, s, o in ths:
        if s.error or o.error:
            ctx.violate("server-died", (s.error or o.error)[-600:])
        s.close()
        o.close()


def s_clock(ctx):
    """As above, while the wall clock is set forward and back."""
    with wallclock.stepping(ctx):
        s_threads(ctx)


def run_box(ctx, fn):
    from vf.core import Stop
    try:
        fn()
    except Stop:
        pass
    except Exception:
        import traceback
        ctx.violate("unexpected-error", traceback.format_exc()[-1200:])


def traffic(ctx, address, stop, n, k):
    """Requests to the waiting thread's own server."""
    c = None
    while c is None and not stop.is_set():
        try:
            c = RPCClient(address)
        except TimeoutError:
            pass
    if c is None:
        return
    try:
        q = c["quick"]
        while not stop.is_set():
            futs = [q.tick(i, _sync="async") for i in range(10 * k + 1)]
            for i, fu in enumerate(futs):
                v = fu.result(timeout=LOST)
                ctx.check(v == i + 1, "disturbed", f"a request to the waiting thread's server returned {v!r}")
            n[0] += len(futs)
    finally:
        c.close()


def s_children(ctx):
    """The waiting thread is the main thread of a (Qt) child process, which serves requests meanwhile."""
    rng = ctx.rng
    qt = ctx.params.get("w", 0) % 2 == 0
    s, o = ThreadServer("tcp"), ThreadServer("tcp")
    s["slow"] = timeouts.Slow()
    o["slow"] = timeouts.Slow()
    c, co = RPCClient(s.address), RPCClient(o.address)
    c["other"] = co["slow"]
    p = child(qt=qt)
    part = p.client._import("vf.timeouts").Participant()
    part.setup(s.address, rng.choice([None, "msgpack", "json"]))
    part._set_proxy_options(timeout=LOST)
    stop = threading.Event()
    n = [0]
    ths = [threading.Thread(target=traffic, args=(ctx, p.client.address, stop, n, k), daemon=True) for k in range(2)]
    for t in ths:
        t.start()
    run_waits(ctx, rng, part, "qt child" if qt else "child", traffic="with traffic")
    stop.set()
    for t in ths:
        t.join(LOST)
    ctx.check(n[0] > 0, "disturbed", "no request was served by the waiting process")
    ctx.count("requests served while waiting", n[0])
    p.stop()
    for x in (s, o):
        x.close()


def s_stopped(ctx):
    """The server is stopped or killed: every wait ends in time; after it continues, everything is replied to."""
    rng = ctx.rng
    while ctx.more():
        p = child()
        t = p.client._import("vf.timeouts").Slow()
        c = p.client
        local = rng.random() < .5
        other = None
        if local:
            ls = RPCServer()
            ls.run_lazy()
        futs = []
        for rnd in range(3):
            os.kill(p.pid, signal.SIGSTOP)
            for k in range(6):
                tok = "s" + uniq()
                timeout = rng.choice([0, .01, .05, .2, .5])
                how = rng.choice(["sync", "future", "ping", "exception", "getitem"])
                what = f"server stopped: {how} with timeout {timeout}, local server {local}"
                ctx.sig("stopped", how, timeout, local)
                slow = []
                for attempt in range(4):
                    t0 = time.perf_counter()
                    with ctx.guard(60, "hangs", what):
                        try:
                            if how == "sync":
                                r = t.slow(tok, 0, _timeout=timeout)
                            elif how == "ping":
                                r = c.ping(timeout=timeout)
                            elif how == "getitem":
                                r = c.send("get_item", opts={"name": "self"}, timeout=timeout)
                            else:
                                fu = t.slow(tok, 0, _sync="async")
                                futs.append((tok, fu))
                                t0 = time.perf_counter()
                                r = getattr(fu, "result" if how == "future" else "exception")(timeout=timeout)
                        except TimeoutError:
                            r = None
                            el = time.perf_counter() - t0
                            ctx.check(el >= timeout - .005, "timeout-too-early", f"{what}: TimeoutError after {el:.4f} s")
                        else:
                            ctx.violate("wrong-reply", f"{what}: got {r!r:.200}")
                            break
                    if el < timeout * 1.5 + .3:
                        slow = None
                        break
                    slow.append(round(el, 3))
                if slow:
                    ctx.violate("timeout-too-late", f"{what}: took {slow}")
            if rnd == 1:
                # more requests than can be queued
                with ctx.guard(60, "hangs", "server stopped: 3000 large requests with timeout 0"):
                    t0 = time.perf_counter()
                    for k in range(3000):
                        try:
                            r = t.slow("x" * 10000, 0, _timeout=0)
                            ctx.violate("wrong-reply", f"server stopped: got {r!r:.200}")
                            break
                        except TimeoutError:
                            ctx.ev()
            os.kill(p.pid, signal.SIGCONT)
            with ctx.guard(60, "hangs", "after the server continued"):
                rng.shuffle(futs)
                while futs:
                    tok, fu = futs.pop()
                    try:
                        r = fu.result(timeout=rng.choice([None, LOST]))
                    except Exception as e:
                        r = f"{type(e).__name__} {e}"
                    ctx.check(r == f(tok), "disturbed", f"a future that timed out before gave {r!r:.200} instead of {f(tok)} after the server continued")
                tok = "l" + uniq()
                r = t.slow(tok, 0, _timeout=LOST)
                ctx.check(r == f(tok), "disturbed", f"a later call returned {r!r:.200} instead of {f(tok)}")
        dead(ctx, rng, p, t, c)
        if local:
            RPCServer.get_server().close()


def dead(ctx, rng, p, t, c):
    """A killed server never disconnects: waits still end in time."""
    fu = t.slow("d" + uniq(), 5, _sync="async")
    p.kill()
    for timeout in (0, .05, .3):
        slow = []
        for k in range(4):
            t0 = time.perf_counter()
            what = f"server killed: wait with timeout {timeout}"
            ctx.sig("killed", timeout)
            with ctx.guard(60, "hangs", what):
                try:
                    r = rng.choice([lambda: t.slow("e" + uniq(), 0, _timeout=timeout), lambda: fu.result(timeout=timeout)])()
                    ctx.violate("wrong-reply", f"{what}: got {r!r:.200}")
                    return
                except (TimeoutError, RuntimeError) as e:
                    el = time.perf_counter() - t0
                    if isinstance(e, TimeoutError):
                        ctx.check(el >= timeout - .005, "timeout-too-early", f"{what}: TimeoutError after {el:.4f} s")
            if el < timeout * 1.5 + .3:
                slow = None
                break
            slow.append(round(el, 3))
        if slow:
            ctx.violate("timeout-too-late", f"{what}: took {slow}")
    c.close()


def s_long(ctx):
    """timeout None (and timeouts above the default) wait for longer than the default timeout of 10 s."""
    D = 10.7
    jobs = [
        ("sync None", "none", lambda c, t, k: t.slow(k, D, _timeout=None)),
        ("sync 60", "none", lambda c, t, k: t.slow(k, D, _timeout=60)),
        ("option None", "none", lambda c, t, k: with_option(t, None).slow(k, D)),
        ("future", "none", lambda c, t, k: t.slow(k, D, _sync="async").result()),
        ("future, timeout option", "none", lambda c, t, k: t.slow(k, D, _sync="async", _timeout=.5).result()),
        ("sync None", "lazy", lambda c, t, k: t.slow(k, D, _timeout=None)),
        ("future None", "lazy", lambda c, t, k: t.slow(k, D, _sync="async").result(timeout=None)),
        ("exception", "lazy", lambda c, t, k: (lambda fu: (fu.exception(), fu.result(0))[1])(t.slow(k, D, _sync="async"))),
        ("call_obj None", "lazy", lambda c, t, k: c.call_obj(t.slow, (k, D), timeout=None)),
    ]
    done = []

    def run(name, local, fn):
        s = ThreadServer("tcp")
        s["slow"] = timeouts.Slow()

        def body():
            c = RPCClient(s.address)
            if local == "lazy":
                RPCServer().run_lazy()
            k = "L" + uniq()
            what = f"{name}, local server {local}: reply after {D} s"
            ctx.sig(name, local)
            t0 = time.perf_counter()
            try:
                r = fn(c, c["slow"], k)
            except Exception as e:
                r = f"{type(e).__name__} after {time.perf_counter() - t0:.1f} s"
            ctx.check(r == f(k), "timeout-without-timeout", f"{what}: got {r!r:.200}")
            done.append(name)
            if local == "lazy":
                RPCServer.get_server().close()
            c.close()
        run_box(ctx, body)
        s.close()
    ths = [threading.Thread(target=run, args=j, daemon=True) for j in jobs]
    with ctx.guard(60, "hangs", f"reply after {D} s"):
        for t in ths:
            t.start()
        for t in ths:
            t.join(90)
    ctx.check(len(done) == len(jobs), "hangs", f"only {done} returned")


def with_option(t, timeout):
    t._set_proxy_options(timeout=timeout)
    return t
