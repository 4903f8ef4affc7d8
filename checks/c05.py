"""C05: a failing request affects nobody but its caller."""
import collections, random, sys, threading, time
import teleprox
from teleprox import RemoteCallException
from vf import faults, targets
from vf.faults import EXPECT, NO_TOKEN
from vf.rpc import ThreadServer, LazyServer, ProcServer, RPCClient, in_threads, child, uniq

TECHNIQUE = "runtime monitoring with fault injection: error oracle per faulty request, token oracle for all other requests, recorded sys.excepthook calls"
NOTE = "Samples sequences of faults against all server modes with healthy traffic beside them; every outcome is judged."
LEVEL = "exploration"
RULE = ("One evaluation = one faulty request whose error was judged, one healthy request answered correctly, or one failure without reply matched with the excepthook calls. "
        "Distinct = (server kind, serializer, sync mode, fault kind, preceding fault kind).")
ASSUMPTIONS = ["Requests are made with RPCClient (well-formed multipart messages).", "sys.excepthook itself does not raise."]
SCENARIOS = {
    "thread": {"quick": (2, 9), "thorough": (6, 90), "min": 500},
    "lazy": {"quick": (1, 7), "thorough": (3, 60), "min": 100},
    "proc": {"quick": (1, 9), "thorough": (4, 90), "min": 200},
    "qt": {"quick": (1, 9), "thorough": (3, 90), "min": 100},
}
LOST = 40
JSON_ONLY_FAIL = {"key"}
RESULTS = ["nopickle", "nopickle_in", "badload", "badload_in", "recursive", "surrogate", "key"]
LOOKUPS = ["attr", "chain", "prop", "getattr", "noncallable", "name", "module", "action", "noopts", "getitem", "setitem", "len", "add", "badarg", "toomany", "deleted", "delete2", "badload_arg", "mutecall", "mutekw", "muteself", "muteargs", "mutein", "importattr"]


def err_text(e):
    return str(e) + " " + str(getattr(e, "type_str", ""))


def judge(ctx, what, exc, typ, tok):
    """exc: what the caller got; typ: expected type name (or tuple); tok: text that must appear in the traceback (or None)."""
    if exc is None:
        ctx.violate("no-error", f"{what}: no error reached the caller")
        return
    ctx.ev()
    if not isinstance(exc, RemoteCallException):
        ctx.violate("wrong-error", f"{what}: caller got {type(exc).__name__}: {str(exc)[:300]} instead of the remote error")
        return
    if typ is not None and exc.type_str not in (typ if isinstance(typ, tuple) else (typ,)):
        ctx.violate("wrong-error-type", f"{what}: remote exception type is {exc.type_str!r}, expected {typ!r}: {str(exc)[-300:]}")
    text = str(exc)
    if tok is not None and tok not in text:
        ctx.violate("wrong-error-text", f"{what}: traceback text does not mention {tok!r}: {text[-500:]}")
    if "Traceback" not in text and "File " not in text:
        ctx.violate("no-traceback", f"{what}: no traceback in {text[-300:]}")


class Between:
    """Healthy requests made between an asynchronous faulty one and the wait for its reply."""

    def __init__(self, ctx, F, what, n):
        self.ctx, self.F, self.what, self.n = ctx, F, what, n

    def run(self):
        toks = ["b" + uniq() for i in range(self.n)]
        futs = [self.F.ok(t, _sync="async") for t in toks]
        for t, fu in zip(toks, futs):
            try:
                r = fu.result(timeout=LOST)
            except Exception as e:
                r = f"{type(e).__name__} {str(e)[-300:]}"
            self.ctx.check(r == "ok:" + t, "healthy-request-affected", f"{self.what}: a request made after it, and awaited first, gave {r!r:.300}")


def attempt(fn, mode, between=None):
    """-> (exception or None, value)"""
    try:
        r = fn({"_sync": mode, "_timeout": LOST} if mode == "sync" else {"_sync": mode})
        if mode == "async":
            if between is not None:
                between.run()
            r = r.result(timeout=LOST)
        return None, r
    except Exception as e:
        return e, None


def fault(ctx, rng, c, ser, kind, sub, mode, tok):
    """Provoke one fault; -> list of (expected hook text or None) for requests without reply."""
    F = c["faulty"]
    what = f"{ser} {mode} {kind}/{sub}"
    between = Between(ctx, F, what, rng.choice([1, 3])) if rng.random() < .6 else None
    if kind == "raise":
        e, v = attempt(lambda o: F.raises(sub, tok, **o), mode, between)
        if mode != "off":
            judge(ctx, what, e, EXPECT[sub], None if sub in NO_TOKEN else tok)
            if e is not None and isinstance(e, RemoteCallException) and "raises" not in str(e):
                ctx.violate("no-traceback", f"{what}: function name missing in {str(e)[-300:]}")
            if sub == "nested" and e is not None and ", in vf_innermost" not in str(e):
                ctx.violate("no-traceback", f"{what}: the function that raised is missing in {str(e)[-300:]}")
        elif sub not in NO_TOKEN:
            return (EXPECT[sub], tok)
        return None
    if kind == "result":
        if mode == "off":
            mode = "async"
        fails = ser == "json" or sub not in JSON_ONLY_FAIL
        if sub == "key":
            fails = True if ser == "json" else None
        if sub == "surrogate":
            fails = None if ser == "json" else True
        e, v = attempt(lambda o: F.bad_result(sub, tok, **o), mode, between)
        if fails and e is None:
            ctx.violate("no-error", f"{what}: returned {v!r:.200}")
        ctx.ev()
        if isinstance(e, TimeoutError):
            ctx.violate("no-error", f"{what}: the caller was told nothing about the failure")
        if sub.startswith("nopickle"):
            judge(ctx, what, e, "Odd", tok)
        if sub.startswith("badload") and e is not None and tok not in str(e):
            ctx.violate("wrong-error-text", f"{what}: {type(e).__name__} {str(e)[:300]}")
        return None
    # lookups and protocol errors
    ev = None
    typ, text = None, tok
    T = "x" + tok.replace(":", "_").replace("-", "_")
    send = lambda action, opts: (lambda o: c.send(action, opts=opts, sync=o["_sync"], **({"timeout": LOST} if mode == "sync" else {})))
    if sub == "attr":
        fn, typ, text = (lambda o: getattr(F, T)(**o)), "AttributeError", T
    elif sub == "chain":
        fn, typ, text = (lambda o: getattr(F.ok, T).more.again(**o)), "AttributeError", T
    elif sub in ("prop", "getattr", "getitem", "setitem", "len", "add"):
        ev = c._import("vf.faults").Evil(tok, _return_type="proxy")
        typ = "Odd"
        if sub == "prop":
            fn = lambda o: ev.prop(**o)
        elif sub == "getattr":
            fn, text = (lambda o: getattr(ev, "get_" + T)(**o)), T
        else:
            mode = "sync"
            text = T if "item" in sub else tok
            fn = {"getitem": lambda o: ev[T], "setitem": lambda o: ev.__setitem__(T, 1), "len": lambda o: len(ev), "add": lambda o: ev + 1}[sub]
    elif sub == "noncallable":
        fn, typ, text = (lambda o: F.n(**o)), "TypeError", None
    elif sub == "name":
        mode = "sync"
        fn, typ = (lambda o: c[tok]), "KeyError"
    elif sub == "module":
        fn, typ, text = (lambda o: c._import("nomod_" + T, sync=o["_sync"])), ("ModuleNotFoundError", "ImportError"), T
    elif sub == "importattr":
        fn, typ, text = (lambda o: c._import("os.nosub_" + T, sync=o["_sync"])), ("ModuleNotFoundError", "ImportError", "AttributeError"), T
    elif sub == "action":
        fn, typ, text = send("frob_" + T, {"a": 1}), None, T
    elif sub == "noopts":
        fn, typ, text = send(rng.choice(["call_obj", "get_obj", "get_item", "set_item", "delete", "import"]), rng.choice([None, {}, {"x": tok}])), ("KeyError", "TypeError"), None
    elif sub == "badarg":
        fn, typ, text = (lambda o: F.take(tok, nope=1, **o)), "TypeError", "nope"
    elif sub == "toomany":
        fn, typ, text = (lambda o: F.take(1, 2, 3, 4, **o)), "TypeError", "take"
    elif sub in ("deleted", "delete2"):
        p = c._import("vf.faults").Evil(tok, _return_type="proxy")
        p._delete()
        text = None
        if sub == "deleted":
            fn = lambda o: p.tok(**o)
        else:
            fn = lambda o: c.delete(p, sync=o["_sync"])
    elif sub.startswith("mute"):
        # objects that cannot be printed take part in the failing call
        m = c._import("vf.faults").Mute(tok, _return_type="proxy")
        typ = "Odd"
        fn = {"mutecall": lambda o: m(1, 2, **o), "mutekw": lambda o: m(1, k=m, **o), "muteself": lambda o: m(m, m, **o),
              "muteargs": lambda o: F.fail(tok, m, m, **o), "mutein": lambda o: F.fail(tok, [m, {"k": m}], **o)}[sub]
    elif sub == "badload_arg":
        fn, typ, text = (lambda o: F.take(tok, faults.BadLoad(tok), **o)), "Odd", tok
    e, v = attempt(fn, mode, between)
    if mode != "off":
        judge(ctx, f"{ser} {mode} {kind}/{sub}", e, typ, text)
        return None
    return (typ, text) if text in (tok, T, "get_" + T) else None


def all_faults():
    return [("raise", k) for k in sorted(EXPECT)] + [("result", k) for k in RESULTS] + [("lookup", k) for k in LOOKUPS]


def drive(ctx, address, kind, nclients, expected_hooks, only_ok=0):
    """nclients clients cause faults, only_ok others make healthy requests all the time."""
    stop = threading.Event()
    lock = threading.Lock()

    def faulty(i):
        rng = random.Random(f"{ctx.seed}/{i}")
        ser = ["msgpack", "json"][i % 2]
        c = RPCClient(address, serializer=ser)
        todo = all_faults()
        rng.shuffle(todo)
        prev, n = None, 0
        while ctx.more():
            if not todo:
                todo = all_faults()
                rng.shuffle(todo)
            k, sub = todo.pop()
            mode = rng.choice(["sync", "sync", "async", "off"])
            tok = f"t{i}-{n}-{uniq()}:"
            n += 1
            ctx.sig(kind, ser, mode, k, sub, prev)
            prev = sub
            with ctx.guard(LOST + 20, "no-answer", f"{kind} {ser} {mode} {k}/{sub}"):
                pend = [(t, c["faulty"].ok(t, _sync="async")) for t in (f"{tok}p{j}" for j in range(rng.choice([0, 0, 2])))]
                h = fault(ctx, rng, c, ser, k, sub, mode, tok)
                if h is not None:
                    with lock:
                        expected_hooks.append(h + (f"{kind} {ser} {k}/{sub}",))
                # the caller itself goes on
                for t, fut in pend:
                    r = fut.result(timeout=LOST)
                    ctx.check(r == "ok:" + t, "healthy-request-affected", f"{kind} {ser}: request {t} before {k}/{sub} {mode} returned {r!r:.200}")
                r = c["faulty"].ok(tok, _timeout=LOST)
                ctx.check(r == "ok:" + tok, "healthy-request-affected", f"{kind} {ser}: request {tok} after {k}/{sub} {mode} returned {r!r:.200}")
                ctx.check(not c.disconnected(), "client-disconnected", f"{kind} {ser}: client is disconnected after {k}/{sub}")
        c.close()

    def healthy(i):
        c = RPCClient(address, serializer=["msgpack", "json"][i % 2])
        o = c["faulty"]
        n = 0
        while not stop.is_set():
            tok = f"h{i}-{n}"
            n += 1
            with ctx.guard(LOST + 20, "healthy-request-affected", f"{kind}: healthy request of another client"):
                r = o.ok(tok, _timeout=LOST)
            ctx.check(r == "ok:" + tok, "healthy-request-affected", f"{kind}: other client's request {tok} returned {r!r:.200}")
            time.sleep(.002)
        c.close()
    def foreign(i):
        # a client with a serializer that the server does not know gets no answer, and disturbs nobody
        from teleprox import serializer
        with ctx.guard(LOST + 20, "no-answer", f"{kind}: a client with a foreign serializer"):
            try:
                serializer.all_serializers["vf-foreign"] = type("Foreign", (serializer.all_serializers["msgpack"],), {"type": "vf-foreign"})
                c = RPCClient(address, serializer="vf-foreign")
            except Exception as e:
                ctx.count(f"foreign serializer: {type(e).__name__}")
            else:
                ctx.violate("no-error", f"{kind}: a client whose serializer the server does not know could connect")
                c.close()
            finally:
                serializer.all_serializers.pop("vf-foreign", None)
    hs = [threading.Thread(target=lambda i=i: guarded(ctx, healthy, i), daemon=True) for i in range(only_ok)]
    hs.append(threading.Thread(target=lambda: guarded(ctx, foreign, 0), daemon=True))
    for t in hs:
        t.start()
    try:
        in_threads([lambda i=i: guarded(ctx, faulty, i) for i in range(nclients)])
    finally:
        stop.set()
        for t in hs:
            t.join(LOST)


def guarded(ctx, fn, i):
    try:
        fn(i)
    except (TimeoutError, RuntimeError, RemoteCallException) as e:
        ctx.violate("healthy-request-affected", f"client {i}: {type(e).__name__} {str(e)[-800:]}")


def check_hooks(ctx, expected, calls, kind):
    texts = [(t, m) for t, m, tb in calls]
    for typ, tok, what in expected:
        hits = [t for t, m in texts if tok in m]
        ctx.check(len(hits) == 1, "excepthook-count", f"{what} without reply: sys.excepthook was called {len(hits)} times for {tok}")
        if hits and typ is not None and hits[0] not in (typ if isinstance(typ, tuple) else (typ,)):
            ctx.violate("excepthook-type", f"{what}: excepthook got {hits[0]}, expected {typ}")
    known = {tok for _, tok, _ in expected}
    ctx.count("excepthook_calls", len(calls))


def in_process(ctx, s, kind):
    s["faulty"] = faults.Faulty()
    old = sys.excepthook
    faults.install_hook()
    exp = []
    drive(ctx, s.address, kind, 3, exp, 1)
    if s.error or not s.thread.is_alive():
        ctx.violate("server-died", f"{kind}: {s.error}")
    # everything was executed: a final request of a new client has been answered
    c = RPCClient(s.address)
    c["faulty"].ok("end")
    time.sleep(.05)
    check_hooks(ctx, exp, faults.hook_calls, kind)
    c.close()
    sys.excepthook = old
    s.close()


def s_thread(ctx):
    in_process(ctx, ThreadServer(["tcp", "ipc", "inproc"][ctx.params.get("w", 0) % 3]), "thread")


def s_lazy(ctx):
    in_process(ctx, LazyServer(), "lazy")


def process(ctx, qt):
    s = ProcServer(qt)
    m = s.proc.client._import("vf.faults")
    m.install_hook()
    s.proc.client["faulty"] = m.Faulty()
    exp = []
    drive(ctx, s.address, "qt" if qt else "proc", 3, exp, 1)
    if s.proc.poll() is not None:
        ctx.violate("server-died", f"the process ended with {s.proc.poll()}")
    check_hooks(ctx, exp, m.get_hook_calls(_timeout=LOST), "proc")
    s.close()


def s_proc(ctx):
    process(ctx, False)


def s_qt(ctx):
    process(ctx, True)
