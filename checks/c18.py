"""C18: timers keep interval and limit, and can be stopped and restarted."""
import logging, os, random, sys, threading, time
import teleprox
from teleprox.timer import Timer
from vf import perturb, wallclock
from vf.rpc import RPCClient, ThreadServer, ProcServer, uniq
from vf.tick import Ticker

TECHNIQUE = "runtime monitoring: times, threads and overlaps of callbacks judged against the history of start/stop, with schedule perturbation; short intervals are confirmed by repetition"
NOTE = "Samples intervals, limits, callback durations, histories of start and stop (from any thread and the callback) and kinds of callbacks."
LEVEL = "exploration"
RULE = "One evaluation = one call of a callback, or one stop, judged. Distinct = (scenario, interval, limit, durations, operations) combinations."
ASSUMPTIONS = ["start() of a running timer begins its limit and interval anew.", "A call that began late may be followed by a shorter interval; so an interval counts as short if it is less than 55 % in three repetitions of the same case.", "Limits are positive."]
SCENARIOS = {
    "interval": {"quick": (2, 13), "thorough": (4, 120), "min": 30},
    "histories": {"quick": (3, 14), "thorough": (6, 200), "min": 150},
    "proxies": {"quick": (2, 14), "thorough": (4, 150), "min": 100},
    "clock": {"quick": (1, 10), "thorough": (2, 60), "min": 10},
}
LOST = 40
threading.excepthook = lambda a: None


def wait_for(fn, limit=LOST):
    end = time.monotonic() + limit
    while not fn() and time.monotonic() < end:
        time.sleep(.005)
    return fn()


def s_interval(ctx):
    """The interval between calls, whatever the callback does."""
    rng = ctx.rng
    while ctx.more():
        iv = rng.choice([.04, .08, .15])
        n = rng.choice([3, 5, 8])
        durs = rng.choice([[0], [0], [iv * .5], [iv * 2.5, 0, 0], [0, iv * 1.4, 0, 0], [iv * 4, 0, 0, 0], [rng.random() * iv * 2 for _ in range(4)]])
        start = rng.random() < .5
        what = f"interval {iv}, limit {n}, durations {[round(d, 3) for d in durs]}"
        ctx.sig("interval", iv, n, len(durs), [d > iv for d in durs], start)
        short = None
        for attempt in range(3):
            with ctx.guard(60, "hangs", what):
                tk = Ticker()
                tk.setup(durs)
                t = Timer(tk, iv, limit=n, start=start)
                if not start:
                    time.sleep(.01)
                    ctx.check(not tk.calls, "not-started", f"{what}: called before start()")
                    t.start()
                if not wait_for(lambda: len(tk.calls) >= n and tk.calls[n - 1][1] is not None):
                    ctx.violate("too-few", f"{what}: {len(tk.calls)} calls")
                    break
                time.sleep(iv * 1.5 if attempt == 0 else 0)
                calls, over = tk.get()
                ctx.ev(len(calls))
                ctx.check(len(calls) == n, "limit", f"{what}: {len(calls)} calls")
                ctx.check(over == 0, "overlap", f"{what}: {over} overlapping calls")
                total = calls[n - 1][0] - calls[0][0]
                ctx.check(len({c[2] for c in calls}) == 1 and calls[0][2] != threading.get_ident(), "threads", f"{what}: called in threads {[c[2] for c in calls]}")
                gaps = [b[0] - a[0] for a, b in zip(calls, calls[1:])]
                if min(gaps, default=1) >= iv * .55 and total >= .9 * iv * (n - 1):
                    break
                # the whole is not subject to the delay of single calls
                short = f"intervals between calls {[round(g, 4) for g in gaps]}"
        else:
            ctx.violate("interval", f"{what}: {short}, three times in a row")
        again(ctx, rng)


def s_clock(ctx):
    """As above, while the wall clock is set forward and back."""
    with wallclock.stepping(ctx):
        s_interval(ctx)


def again(ctx, rng):
    """stop() and start(), or only start(), while the timer waits for the next call."""
    iv = rng.choice([.06, .1])
    n = rng.choice([2, 3, 5])
    stop, late = rng.random() < .6, rng.random() < .5
    what = f"interval {iv}, limit {n}, {'stop() and ' if stop else ''}start() after {'its last but one' if late else 'the first'} call"
    ctx.sig("again", iv, n, stop, late)
    with ctx.guard(60, "hangs", what):
        wrong = []
        for attempt in range(3):
            tk = Ticker()
            tk.setup([0])
            t = Timer(tk, iv, limit=n)
            t.start()
            k = n - 1 if late else 1
            if not wait_for(lambda: len(tk.calls) >= k):
                return ctx.violate("too-few", f"{what}: {len(tk.calls)} calls")
            time.sleep(iv * .3)
            if len(tk.calls) != k or tk.calls[-1][1] is None:
                continue  # (too late, this machine is busy)
            if stop:
                t.stop()
            t.start()
            t1 = time.monotonic()
            wait_for(lambda: len([c for c in tk.calls if c[0] > t1]) >= n, 5 + 3 * n * iv)
            time.sleep(iv * 1.5)
            calls, over = tk.get()
            m = len(calls) - k
            ctx.ev(m)
            ctx.count("restarts while waiting")
            ctx.check(over == 0, "overlap", f"{what}: {over} overlapping calls")
            if m < n and len(tk.calls) < n + k:
                return ctx.violate("too-few", f"{what}: {m} calls after start()")
            if m == n:
                return
            wrong.append(m)
        if len(wrong) == 3:
            ctx.violate("limit", f"{what}: {wrong} calls after start(), in three attempts")


def s_histories(ctx):
    """start() and stop() at any moment, from several threads and from the callback."""
    rng = ctx.rng
    if ctx.params.get("w", 0) % 3:
        perturb.enable(ctx.seed, .03, .004)
    while ctx.more():
        iv = rng.choice([0, .002, .01, .03])
        limit = rng.choice([None, None, 1, 2, 5, 20])
        durs = rng.choice([[0], [.001], [.02, 0], [iv * 2]])
        threads = rng.choice([1, 1, 2, 3])
        tk = Ticker()
        tk.setup(durs, rng.choice([None, None, None, 3]))
        self_op = rng.choice([None, None, "stop", "restart", "start"])
        t = Timer(tk, iv, limit)
        lock = threading.Lock()
        hist = []  # (op, t0, t1), serialized

        def op(name):
            with lock:
                t0 = time.monotonic()
                getattr(t, name)()
                hist.append((name, t0, time.monotonic()))
        if self_op:
            at = rng.choice([0, 1, 3])

            def hook(n, at=at):
                if n == at:
                    if self_op in ("stop", "restart"):
                        op("stop")
                    if self_op in ("start", "restart"):
                        op("start")
            tk.hook = hook
        what = f"interval {iv}, limit {limit}, durations {durs}, callback does {self_op}, {threads} threads"
        plan = [[(rng.choice(["start", "start", "stop", "stop", "none"]), rng.choice([0, 0, .001, .01, .04])) for _ in range(rng.choice([2, 6, 12]))] for _ in range(threads)]
        ctx.sig("history", iv, limit, durs, self_op, threads, [x for p in plan for x, _ in p][:6])
        with ctx.guard(90, "hangs", what):
            op("start")

            def run(p):
                for o, pause in p:
                    if o != "none":
                        op(o)
                    time.sleep(pause)
            ths = [threading.Thread(target=run, args=(p,), daemon=True) for p in plan]
            for th in ths:
                th.start()
            for th in ths:
                th.join()
            op("stop")
            time.sleep(iv + max(durs) + .02)
            calls, over = tk.get()
            ctx.ev(len(calls))
            ctx.count("calls", len(calls))
            ctx.count("operations", len(hist))
            ctx.check(over == 0, "overlap", f"{what}: {over} overlapping calls")
            for (o, t0, t1), nxt in zip(hist, hist[1:] + [("end", time.monotonic(), 0)]):
                late = [c for c in calls if t1 < c[0] < nxt[1]]
                if o == "stop":
                    ctx.ev()
                    if len(late) > 1:
                        ctx.violate("not-stopped", f"{what}: {len(late)} calls after stop()")
                elif limit is not None and nxt[0] != "start":
                    # (while start() runs, calls of the start before it go on; one more may have been due when it took effect)
                    n = len([c for c in calls if t1 <= c[0] < nxt[1]])
                    if n > limit + 1:
                        ctx.violate("limit", f"{what}: {n} calls after start()")
            # once more, with nothing else going on
            tk.hook = None
            before = time.monotonic()
            n = limit or rng.choice([1, 4])
            tk.raise_at = None
            if not wait_for(lambda: all(c[1] is not None for c in tk.get()[0])):
                ctx.violate("hangs", what)
            k = len(tk.calls)
            op("start")
            if not wait_for(lambda: len(tk.calls) >= k + n):
                ctx.violate("not-restarted", f"{what}: {len(tk.calls) - k} calls instead of {n} after start(), history {[h[0] for h in hist]}")
                continue
            if limit is None:
                op("stop")
                m = len(tk.calls)
            time.sleep(iv * 1.5 + max(durs) + .01)
            extra = len(tk.calls) - k - n if limit is not None else len(tk.calls) - m - 1
            ctx.check(extra <= 0, "limit" if limit is not None else "not-stopped", f"{what}: {extra} calls too many")
            ids = {c[2] for c in tk.get()[0][k:k + n]}
            ctx.check(len(ids) == 1, "threads", f"{what}: called in {len(ids)} threads")


def s_proxies(ctx):
    """Callbacks are proxies; timers live in either process."""
    rng = ctx.rng
    procs = {}
    local = None
    while ctx.more():
        kind = rng.choice(["thread", "inproc", "proc", "proc", "local"])
        form = rng.choice(["object", "method", "method", "start_timer", "remote timer", "callback here"])
        iv = rng.choice([0, .01, .03])
        limit = rng.choice([1, 3, 8, None])
        what = f"{form}, server {kind}, interval {iv}, limit {limit}"
        ctx.sig("proxies", kind, form, iv, limit)
        with ctx.guard(90, "hangs", what):
            if kind == "proc":
                if "proc" not in procs:
                    procs["proc"] = ProcServer()
                s = procs["proc"]
            else:
                s = ThreadServer("inproc" if kind == "inproc" else "tcp")
            c = RPCClient.get_client(s.address)
            tk = c._import("vf.tick").Ticker()
            ident = tk.ident()
            mine = None
            if form == "object":
                t = Timer(tk, iv, limit=limit)
            elif form == "method":
                t = Timer(tk.tick, iv, limit=limit)
            elif form == "start_timer":
                t = c["self"].start_timer(tk, iv, limit=limit, start=False)
            elif form == "remote timer":
                t = c._import("teleprox.timer").Timer(tk.tick, iv, limit=limit)
            else:
                if local is None:
                    local = ThreadServer()
                    local["tk"] = None
                mine = Ticker()
                if rng.random() < .5:
                    # a proxy in the remote process, of an object here
                    local["tk"] = mine
                    p = RPCClient.get_client(local.address)["tk"]
                else:
                    p = local.server.get_proxy(mine)
                ident = local.ident
                t = c["self"].start_timer(p, iv, limit=limit, start=False)
            target = mine if mine is not None else tk
            if form in ("object", "method") and rng.random() < .4:
                # only the timer keeps the proxy
                name = "tk" + uniq()
                c[name] = tk
                target = c[name]
                del tk
                import gc
                gc.collect()
            for round_ in range(rng.choice([1, 2, 3])):
                k = len(target.get()[0])
                n = limit or 4
                t.start()
                ok = wait_for(lambda: len(target.get()[0]) >= k + n)
                calls, over = target.get()
                if not ok:
                    ctx.violate("too-few", f"{what}: {len(calls) - k} calls instead of {n} after start() number {round_ + 1}")
                    break
                if limit is None:
                    t.stop()
                    m = len(target.get()[0])
                time.sleep(iv * 1.5 + .03)
                calls, over = target.get()
                extra = len(calls) - k - n if limit is not None else len(calls) - m - 1
                ctx.ev(len(calls) - k)
                ctx.count("calls", len(calls) - k)
                ctx.check(extra <= 0, "limit", f"{what}: {extra} calls too many")
                ctx.check(over == 0, "overlap", f"{what}: {over} overlapping calls")
                if form == "remote timer":
                    # a plain function for that timer
                    ctx.check(ident not in {x[2] for x in calls}, "wrong-thread", f"{what}: callback was executed in the server's thread")
                    continue
                ctx.check({x[2] for x in calls} == {ident}, "wrong-thread", f"{what}: callback was executed in threads { {x[2] for x in calls} }, not in its server's {ident}")
            t.stop()
            time.sleep(.01)
            if kind != "proc":
                s.close()
                c.close()
