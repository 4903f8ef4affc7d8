"""C01: every request resolves with its own result."""
import collections, logging, os, random, threading, time
from vf import perturb, targets
from vf.rpc import ThreadServer, advance, RPCClient, RPCServer, in_threads, child, uniq
from vf.targets import f, big_expected
import teleprox
from teleprox import RemoteCallException, ObjectProxy

TECHNIQUE = "runtime monitoring: token oracle over randomized concurrent workloads"
NOTE = ("Samples schedules and request mixes (perturbed with injected delays); every outcome is compared with the value its unique token determines. "
        "No claim about unexplored schedules.")
LEVEL = "exploration"
RULE = ("One evaluation = one request whose outcome was compared with the value that its unique token determines (value, error or proxy), or one "
        "poll/timeout judged. Distinct = (scenario, transport, serializer, request kind, await order, number outstanding (bucketed), outcome) combinations seen.")
ASSUMPTIONS = ["Server replies depend only on the request's unique token, so a foreign, stale or repeated reply cannot look right.",
               "A call that should take milliseconds and makes no progress for 40 s (while this process gets CPU) counts as lost."]
SCENARIOS = {
    "threads": {"quick": (3, 9), "thorough": (8, 90), "min": 500},
    "lazy": {"quick": (2, 8), "thorough": (6, 60), "min": 200},
    "procs": {"quick": (2, 8), "thorough": (6, 60), "min": 200},
    "flood": {"quick": (2, 9), "thorough": (4, 60), "min": 5000},
    "qt": {"quick": (1, 8), "thorough": (3, 60), "min": 100},
    "wide": {"quick": (1, 8), "thorough": (3, 60), "min": 60000},
    "callbacks": {"quick": (1, 8), "thorough": (3, 60), "min": 500},
}
LOST = 40


class Driver:
    """One client (one thread) issuing random requests at a Recorder proxy and judging every outcome."""

    def __init__(self, ctx, client, rec, tag, seed, slow=True, ser="msgpack", callback=None):
        self.ctx, self.c, self.rec, self.tag, self.rng = ctx, client, rec, tag, random.Random(f"{ctx.seed}/{seed}")
        self.n, self.open, self.slow, self.ser, self.callback = 0, [], slow, ser, callback
        self.sent = []

    def token(self):
        self.n += 1
        return f"{self.tag}.{self.n}"

    def make(self, tok):
        """-> (kind, call(**opts), judge(outcome))"""
        r, rec = self.rng, self.rec
        k = r.random()
        if k < .38:
            return "echo", lambda **o: rec.echo(tok, **o), ("val", f(tok))
        if k < .5:
            n = r.choice([0, 10, 300, 5000, 60000])
            return "big", lambda **o: rec.big(tok, n, **o), ("val", big_expected(tok, n))
        if k < .62:
            return "boom", lambda **o: rec.boom(tok, **o), ("err", tok)
        if k < .70:
            return "obj", lambda **o: rec.obj(tok, **o), ("obj", tok)
        if k < .76:
            return "none", lambda **o: rec.none(tok, **o), ("val", None)
        if k < .82:
            o2 = {"sync": "_sync", "timeout": "_timeout"}
            return "callobj", lambda **o: self.c.call_obj(rec.echo, args=(tok,), kwargs={"delay": 0}, **{k[1:]: v for k, v in o.items()}), ("val", f(tok))
        if k < .88:
            return "missing", lambda **o: self.c._import("no_such_mod_" + tok.replace(".", "_").replace("-", "_"), **{k[1:]: v for k, v in o.items()}), ("err", "no_such_mod_" + tok.replace(".", "_").replace("-", "_"))
        if k < .94 or not self.callback:
            return "transfer", lambda **o: self.c.transfer([tok], **{k[1:]: v for k, v in o.items()}), ("item", tok)
        return "nested", lambda **o: rec.nested(tok, self.callback, **o), ("val", [f(tok), f("cb:" + tok)])

    def judge(self, kind, want, outcome, how):
        ctx = self.ctx
        what, exp = want
        ok, got = outcome
        good = False
        if what == "val":
            good = ok and got == exp and type(got) is type(exp)
        elif what == "err":
            s = str(got)
            # the token must be followed by a non-token character: a.1 is not a.11
            good = (not ok) and isinstance(got, RemoteCallException) and any((exp + e) in s for e in ("\n", "'", '"'))
        elif what == "obj":
            good = ok and isinstance(got, ObjectProxy)
            if good:
                t = got.tok(_timeout=LOST)
                good, got = t == exp, ("proxy to", t)
        elif what == "item":
            good = ok and isinstance(got, ObjectProxy)
            if good:
                t = got[0]
                good, got = t == exp, ("proxy to", t)
        ctx.sig(ctx.scenario, self.ser, kind, how, min(len(self.open), 64) // 4, ok)
        if ctx.rng.random() < .001:
            ctx.sample({"request": kind, "expected": exp, "got": got, "how": how})
        ctx.check(good, "wrong-reply", lambda: f"request {kind} expecting {what} {str(exp)[:100]!r} got {'value' if ok else 'exception'} {type(got).__name__} {str(got)[-300:]!r}",
                  how=how, tag=self.tag, serializer=self.ser)

    def resolve(self, item, how):
        kind, want, fut = item
        self.judge(kind, want, outcome(lambda: fut.result(timeout=LOST)), how)

    def step(self):
        r, ctx = self.rng, self.ctx
        k = r.random()
        tok = self.token()
        with ctx.guard(LOST + 20, "request-lost", f"{self.tag}: a request did not resolve"):
            if k < .30:
                kind, call, want = self.make(tok)
                self.judge(kind, want, outcome(lambda: call(_sync="sync", _timeout=LOST)), "sync")
            elif k < .72:
                kind, call, want = self.make(tok)
                fut = call(_sync="async")
                self.open.append((kind, want, fut))
            elif k < .77:
                kind, call, want = self.make(tok)
                call(_sync="async")  # abandoned: its reply must disturb nobody
                ctx.count("abandoned")
            elif k < .82:
                kind, call, want = self.make(tok)
                r0 = call(_sync="off")
                ctx.check(r0 is None, "off-returns", f"no-reply request returned {r0!r}")
            elif k < .85 and self.slow:
                try:
                    v = self.rec.echo(tok, .03, _timeout=.003)
                    ctx.check(v == f(tok), "wrong-reply", f"slow echo returned {v!r} for {tok}")
                except TimeoutError:
                    ctx.count("late_replies")
                    ctx.ev()
            elif k < .9 and self.open:
                # poll: done() must become true by itself and then the result must be there
                item = r.choice(self.open)
                if item[0] == "nested":  # polling does not serve the callback this one needs
                    return
                t0 = time.monotonic()
                while not item[2].done():
                    time.sleep(.001)
                    if time.monotonic() - t0 > LOST:
                        ctx.violate("poll-never-done", f"future of {item[0]} {item[1]} is not done {LOST} s after it was sent, with only polling")
                        break
                self.open.remove(item)
                self.resolve(item, "poll")
                ctx.count("polled")
            else:
                self.drain(r.random() < .3)
            if len(self.open) > r.choice([8, 40, 150]):
                self.drain(True)

    def drain(self, everything):
        r = self.rng
        how = r.choice(["fifo", "lifo", "random"])
        n = len(self.open) if everything else r.randint(0, len(self.open))
        self.ctx.top("max_outstanding", len(self.open))
        if how == "lifo":
            self.open.reverse()
        elif how == "random":
            r.shuffle(self.open)
        part, self.open = self.open[:n], self.open[n:]
        for item in part:
            self.resolve(item, how)


def outcome(fn):
    try:
        return True, fn()
    except Exception as e:
        return False, e


def run_driver(d, ctx, rounds=None):
    n = 0
    while ctx.more() and (rounds is None or n < rounds):
        d.step()
        n += 1
    with ctx.guard(LOST + 20, "request-lost", f"{d.tag}: outstanding requests did not resolve at the end"):
        d.drain(True)


def fresh_client(addr, ser="msgpack", **kw):
    c = RPCClient(addr, serializer=ser, **kw)
    fresh[0] += 1
    if fresh[0] % 3 == 0:
        advance(c, ["next_request_id"], fresh[0] // 3)
    return c


fresh = [0]


def s_threads(ctx):
    """Clients in many threads at one or two thread servers, over tcp, ipc and inproc, with schedule perturbation."""
    while ctx.more():
        if ctx.params.get("w", 0) != 0:
            perturb.enable(ctx.rng.random(), ctx.rng.choice([0, .003, .02]), .003)
        transport = ctx.rng.choice(["tcp", "inproc", "ipc"])
        servers = [ThreadServer(transport) for _ in range(ctx.rng.choice([1, 1, 2]))]
        for s in servers:
            s["rec"] = targets.Recorder()
        nth = ctx.rng.choice([1, 2, 4, 7])
        end = min(ctx.deadline, time.monotonic() + ctx.rng.choice([1, 2.5]))
        round_no = uniq()

        def body(i):
            ser = ["msgpack", "json"][i % 2] if i else "msgpack"
            ds = []
            for k, s in enumerate(servers):
                c = fresh_client(s.address, ser)
                ds.append(Driver(ctx, c, c["rec"], f"{round_no}.{i}.{k}", f"{round_no}/{i}/{k}", ser=ser))
            while time.monotonic() < end:
                ds[ctx.rng.randrange(len(ds))].step()
            for d in ds:
                with ctx.guard(LOST + 20, "request-lost", "drain"):
                    d.drain(True)
                d.c.close()
        in_threads([lambda i=i: body(i) for i in range(nth)])
        for s in servers:
            if s.error:
                ctx.violate("server-died", s.error)
            s.close()
        ctx.count("rounds")
        if not ctx.params.get("w"):
            continue
        st = perturb.disable()
        ctx.count("switch_contexts", st.get("switches", 0))


class CallbackLog:
    """What the done-callbacks of one client's futures were given."""

    def __init__(self, ctx, d):
        self.ctx, self.d, self.calls, self.closing, self.depth = ctx, d, [], False, 0
        self.me = threading.get_ident()

    def make(self, key, fut, want, kind):
        """-> a done-callback; `kind` is what else it does"""
        ctx, d = self.ctx, self.d

        def callback(arg):
            self.calls.append(key)
            if arg is not fut or not arg.done() or threading.get_ident() != self.me:
                ctx.violate("callback-argument", f"a done-callback of {want} was given {arg!r} ({'not ' if arg is not fut else ''}its future, done: {arg.done()})")
            d.judge(*want, outcome(lambda: arg.result(timeout=LOST)), "callback")
            if kind == "raise":
                raise KeyError("raised in a done-callback of C01")
            if self.depth > 3 or self.closing:
                return
            self.depth += 1
            try:
                if kind == "call":
                    k, call, w = d.make(d.token())
                    d.judge(k, w, outcome(lambda: call(_sync="sync", _timeout=LOST)), "in callback")
                elif kind == "send":
                    k, call, w = d.make(d.token())
                    d.open.append((k, w, call(_sync="async")))
                elif kind == "await" and d.open:
                    d.resolve(d.open.pop(ctx.rng.randrange(len(d.open))), "in callback")
            finally:
                self.depth -= 1
        return callback


def s_callbacks(ctx):
    """Done-callbacks of futures: each called exactly once, with its own future, in the client's thread - however the result gets read, and also when
    callbacks issue and await requests, raise, or the server goes away."""
    r = ctx.rng
    logging.getLogger("concurrent.futures").addFilter(lambda rec: "calling callback" not in rec.getMessage())
    while ctx.more():
        remote = ThreadServer(r.choice(["tcp", "inproc", "ipc"]))
        remote["rec"] = targets.Recorder()
        c = fresh_client(remote.address, r.choice(["msgpack", "json"]))
        d = Driver(ctx, c, c["rec"], f"{uniq()}", f"{uniq()}", slow=False)
        log = CallbackLog(ctx, d)
        want, held = {}, []
        for i in range(r.randint(5, 120)):
            with ctx.guard(LOST + 20, "request-lost", "a request with done-callbacks did not resolve"):
                k, call, w = d.make(d.token())
                fut = call(_sync="async")
                ctx.check(fut.cancel() is False and not fut.cancelled(), "cancelled", "a request that was sent got cancelled")
                if r.random() < .15:
                    (fut.result if r.random() < .5 else fut.exception)(timeout=LOST) if w[0] != "err" else fut.exception(timeout=LOST)
                for j in range(r.choice([1, 1, 2, 3])):
                    key = (i, j)
                    want[key] = fut
                    fut.add_done_callback(log.make(key, fut, (k, w), r.choice(["", "", "call", "send", "await", "raise"])))
                held.append(fut)
                d.open.append((k, w, fut))
                how = r.random()
                if how < .3:
                    item = d.open.pop(r.randrange(len(d.open)))
                    d.resolve(item, "callbacks")
                elif how < .4:
                    # results are read by a call for something else
                    d.judge("echo", ("val", f("x")), outcome(lambda: d.rec.echo("x", _timeout=LOST)), "callbacks")
                elif how < .5:
                    r.choice(held).done()
        end = r.random()
        with ctx.guard(LOST + 20, "request-lost", "requests with done-callbacks did not resolve"):
            if end < .6:
                while d.open:
                    d.drain(True)
            if end >= .4:
                # requests that are outstanding when the server closes
                log.closing = True
                lost = []
                for j in range(r.randint(1, 6)):
                    fut = c.send("ping", sync="async") if r.random() < .3 else d.rec.echo("z", _sync="async")
                    fut.add_done_callback(lost.append)
                    held.append(fut)
                    want[("lost", j)] = fut
                if end < .7:
                    c.close_server(timeout=LOST)
                else:
                    remote.close()
                t0 = time.monotonic()
                while not all(x.done() for x in held) and time.monotonic() - t0 < LOST:
                    time.sleep(.01)
                ctx.check(all(x.done() for x in held), "poll-never-done", "requests that were outstanding when the server closed are not done")
                ctx.check(len(lost) == j + 1 and len(set(map(id, lost))) == j + 1, "callback-count",
                          f"{j + 1} requests were outstanding when the server closed; {len(lost)} calls of their done-callbacks")
                for k in [k for k in want if k[0] == "lost"]:
                    del want[k]
                d.open.clear()
        calls = collections.Counter(log.calls)
        odd = {k: calls[k] for k in set(want) | set(calls) if calls[k] != 1}
        ctx.check(not odd, "callback-count", f"done-callbacks not called exactly once: {dict(list(odd.items())[:5])} of {len(want)}")
        ctx.count("callbacks", len(log.calls))
        ctx.sig("callbacks", end < .6, end >= .4, len(want) // 20)
        c.close()
        if end < .4:
            remote.close()


def s_lazy(ctx):
    """The client's thread also owns a (lazy) server and is called back while its own requests are outstanding."""
    while ctx.more():
        remote = ThreadServer()
        remote["rec"] = targets.Recorder()
        stop = time.monotonic() + min(3, max(.5, ctx.time_left()))

        def body(i):
            c = RPCClient(remote.address, start_local_server=True)
            local = RPCServer.get_server()
            d = Driver(ctx, c, c["rec"], f"{uniq()}.{i}", f"{uniq()}/{i}", callback=f)
            while time.monotonic() < stop:
                d.step()
            with ctx.guard(LOST + 20, "request-lost", "drain"):
                d.drain(True)
                local.close()
                v = d.rec.echo("after-local-close")
                ctx.check(v == f("after-local-close"), "wrong-reply", f"after the local server closed: {v!r}")
            c.close()
        in_threads([lambda i=i: body(i) for i in range(ctx.rng.choice([1, 2, 3]))])
        if remote.error:
            ctx.violate("server-died", remote.error)
        remote.close()


def s_procs(ctx):
    """A child process serves; clients are threads of this process and other children (both serializers)."""
    p = child()
    if ctx.rng.random() < .5:
        p.client._import("vf.perturb").enable(ctx.seed, .003, .002)
    rec = p.client._import("vf.targets").Recorder()
    p.client["rec"] = rec

    def body(i):
        ser = ["msgpack", "json"][i % 2]
        c = fresh_client(p.client.address, ser)
        run_driver(Driver(ctx, c, c["rec"], f"p{i}", f"p{i}", ser=ser), ctx)
        c.close()
    in_threads([lambda i=i: body(i) for i in range(4)])
    p.stop()


def s_flood(ctx):
    """Long sessions: thousands of requests outstanding at once, and request counts well into the tens of thousands."""
    while ctx.more():
        transport = ctx.rng.choice(["inproc", "tcp", "ipc"])
        s = ThreadServer(transport)
        s["rec"] = targets.Recorder()
        c = fresh_client(s.address, ctx.rng.choice(["msgpack", "msgpack", "json"]))
        rec = c["rec"]
        tag = uniq()
        n = ctx.rng.choice([1100, 3000, 6000, 12000])
        size = ctx.rng.choice([0, 0, 700, 3000]) if n <= 3000 else 0
        echo, big = rec.echo, rec.big
        with ctx.guard(150, "request-lost", f"{n} outstanding requests over {transport}"):
            futs = []
            for i in range(n):
                t = f"{tag}.{i}"
                futs.append((t, big(t, size, _sync="async") if size else echo(t, _sync="async")))
            order = ctx.rng.choice(["fifo", "lifo", "random"])
            if order == "lifo":
                futs.reverse()
            elif order == "random":
                ctx.rng.shuffle(futs)
            for t, fu in futs:
                ok, v = outcome(lambda: fu.result(timeout=LOST))
                exp = big_expected(t, size) if size else f(t)
                if not ctx.check(ok and v == exp, "wrong-reply" if not isinstance(v, TimeoutError) else "request-lost",
                                 lambda: f"of {n} outstanding requests over {transport} (replies of {size} bytes), request {t} got {v!r:.200}"):
                    break
            ctx.top("max_outstanding", n)
            ctx.sig("flood", transport, n, size, order)
        ctx.sample({"outstanding": n, "transport": transport, "reply_bytes": size, "order": order})
        # a long run of small sync requests afterwards: request ids far apart
        for i in range(400):
            if not ctx.more():
                break
            t = f"{tag}.s{i}"
            ctx.check(rec.echo(t, _timeout=LOST) == f(t), "wrong-reply", f"after a flood {t}")
        c.close()
        s.close()


class Gate:
    def __init__(self):
        self.open = threading.Event()

    def hold(self, token):
        self.open.wait(300)
        return "v:" + token

    def relay(self, gate, token):
        return gate.hold(token, _timeout=400)


def s_wide(ctx):
    """More requests outstanding at once than any 16-bit counter can number, read in an arbitrary order."""
    first = True
    while first or ctx.more():
        first = False
        transport = ctx.rng.choice(["inproc", "tcp", "ipc"])
        s = ThreadServer(transport)
        c = fresh_client(s.address, ctx.rng.choice(["msgpack", "msgpack", "json"]))
        n = 66000 + ctx.rng.randrange(6000)
        base = ctx.rng.randrange(10 ** 9)
        # one request waits (for another server) while all the others are served
        other = ThreadServer("tcp")
        other["gate"], s["gate"] = Gate(), Gate()
        oc = fresh_client(other.address, "msgpack")
        held = c["gate"].relay(oc["gate"], "held", _sync="async")
        with ctx.guard(300, "request-lost", f"{n} outstanding requests over {transport}"):
            futs = [(base + i, c.send("get_obj", opts={"obj": base + i}, sync="async")) for i in range(n)]
            order = ctx.rng.choice(["fifo", "lifo", "random"])
            if order == "lifo":
                futs.reverse()
            elif order == "random":
                ctx.rng.shuffle(futs)
            bad = 0
            for t, fu in futs:
                ok, v = outcome(lambda: fu.result(timeout=LOST))
                bad += not ctx.check(ok and v == t, "wrong-reply" if not isinstance(v, TimeoutError) else "request-lost",
                                     lambda: f"of {n} outstanding requests over {transport}, the one for {t} got {v!r:.200}")
                if bad > 2:
                    break
            ctx.check(not held.done(), "wrong-reply", "a request that still waits was replied to")
            other.server["gate"].open.set()
            ok, v = outcome(lambda: held.result(timeout=LOST))
            ctx.check(ok and v == "v:held", "request-lost", f"the request that waited while {n} others were served got {v!r:.200}")
            ctx.top("max_outstanding", n)
            ctx.sig("wide", transport, order)
        c.close()
        oc.close()
        s.close()
        other.close()


def s_qt(ctx):
    """A child process with a Qt server."""
    p = child(qt=True)
    p.client["rec"] = p.client._import("vf.targets").Recorder()

    def body(i):
        ser = ["msgpack", "json"][i % 2]
        c = fresh_client(p.client.address, ser)
        run_driver(Driver(ctx, c, c["rec"], f"q{i}", f"q{i}", ser=ser), ctx)
        c.close()
    in_threads([lambda i=i: body(i) for i in range(3)])
    p.stop()
