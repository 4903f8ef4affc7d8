"""C20: a Qt server executes everything in the GUI thread and stops when closed."""
import json, os, queue, random, subprocess, sys, threading, time
from teleprox import RPCServer
from vf.rpc import RPCClient, ThreadServer, child, uniq
from vf.qtnames import f

TECHNIQUE = "runtime monitoring: requests record thread, order and nesting inside the Qt process, next to QTimer ticks; judged against what each client sent and received, and against the moment of closing"
NOTE = "Samples requests of several clients mixed with timers, signals, nested event loops, callbacks and closing; each request is judged."
LEVEL = "exploration"
RULE = "One evaluation = one request (or its absence after closing) judged. Distinct = combinations of kinds of requests, clients and moments of closing."
ASSUMPTIONS = ["PyQt5 with the offscreen platform.", "Requests are nested only in requests that wait for a callback or process events themselves.", "Order means the order in which the execution of one client's requests begins."]
SCENARIOS = {
    "mix": {"quick": (3, 15), "thorough": (5, 200), "min": 1000},
    "closing": {"quick": (2, 14), "thorough": (4, 150), "min": 100},
    "program": {"quick": (2, 14), "thorough": (4, 150), "min": 100},
}
LOST = 45
TMP = os.environ.get("VF_DIR", "/tmp")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Caller:
    """One thread that sends requests of many kinds; callbacks run in its own lazy server."""

    def __init__(self, ctx, address, rng, n, kinds, shared):
        self.ctx, self.address, self.rng, self.n, self.kinds, self.shared = ctx, address, rng, n, kinds, shared
        self.name = "c" + uniq()
        self.sent = []
        self.calls = []
        self.laters = []
        self.errors = []
        self.t = threading.Thread(target=self.run, daemon=True)

    def run(self):
        try:
            own = None
            if "call_back" in self.kinds and self.rng.random() < .6:
                own = RPCServer()
                own.run_lazy()
            c = RPCClient(self.address)
            gui = c["gui"]
            self.work(c, gui, own)
            if own is not None:
                own.close()
            c.close()
        except Exception as e:
            import traceback
            self.errors.append(f"{type(e).__name__} {str(e)[-400:]} {traceback.format_exc()[-600:]}")

    def cb(self, x):
        self.calls.append(x)
        if threading.current_thread() is self.t and self.rng.random() < .5:
            # asks the process that waits for this
            tok = f"{self.name}-in-{x}"
            self.sent.append(tok)
            self.judge("within callback", tok, f(tok), self.gui.echo(tok, 0, _timeout=LOST))
        return "cb:" + x

    def work(self, c, gui, own):
        rng, pending = self.rng, []
        self.gui = gui
        for i in range(self.n):
            kind = rng.choice(self.kinds)
            tok = f"{self.name}-{i}"
            sync = rng.choice(["sync", "async", "off"])
            if kind == "call_back" and own is None or kind == "later":
                # handled by another thread of this process
                cb = self.shared.server.get_proxy(self.cb)
            elif kind == "call_back":
                cb = self.cb
                sync = "sync" if sync == "off" else sync
            args = {"echo": lambda: (rng.choice([0, 0, .001, .01]),), "process": lambda: (rng.choice([1, 3]),), "loop": lambda: (rng.choice([0, 1, 10]),),
                    "call_back": lambda: (cb,), "later": lambda: (rng.choice([0, 1, 5]), cb)}.get(kind, tuple)()
            if kind == "until":
                rel = f"{self.name}-r{i}"
                self.sent += [tok, rel]
                a, b = gui.until(tok, LOST, _sync="async"), gui.release(rel, tok, _sync="async")
                pending += [(kind, tok, f(tok), a), (kind, rel, f(rel), b)]
                if rng.random() < .5:
                    self.settle(pending)
                continue
            if kind == "call_until":
                # the callback (in another thread) ends when a request has been executed that was sent behind the one that waits for it
                rel, ev = f"{self.name}-r{i}", threading.Event()
                self.sent += [tok, rel]
                a = gui.call_back(tok, self.shared.server.get_proxy(lambda x: x + str(ev.wait(8))), _sync="async")
                b = gui.release(rel, tok, _sync="async")
                self.settle([("released", rel, f(rel), b)])
                ev.set()
                self.settle([(kind, tok, [f(tok), "cb:" + tok + "True"], a)])
                continue
            self.sent.append(tok)
            if kind == "later":
                self.laters.append("later:" + tok)
            exp = [f(tok), "cb:cb:" + tok] if kind == "call_back" else f(tok)
            try:
                r = getattr(gui, kind)(tok, *args, _sync=sync, **({"_timeout": LOST} if sync == "sync" else {}))
            except TimeoutError:
                self.ctx.violate("no-reply", f"{kind} request {tok}: no reply within {LOST} s")
                return
            except Exception as e:
                r = e
            if sync == "sync":
                self.judge(kind, tok, exp, r)
            elif sync == "async":
                pending.append((kind, tok, exp, r))
                if len(pending) > 8 or kind == "loop":
                    self.settle(pending)
        self.settle(pending)
        # everything that was sent without reply has been executed before this
        gui.echo("end-" + self.name, 0)

    def settle(self, pending):
        for kind, tok, exp, fut in pending:
            try:
                r = fut.result(timeout=LOST)
            except TimeoutError:
                self.ctx.violate("no-reply", f"{kind} request {tok}: no reply within {LOST} s")
                return
            except Exception as e:
                r = e
            self.judge(kind, tok, exp, r)
        pending.clear()

    def judge(self, kind, tok, exp, r):
        self.ctx.ev()
        self.ctx.count(kind)
        if kind == "boom":
            if not isinstance(r, Exception) or "boom:" + tok not in str(r):
                self.ctx.violate("wrong-reply", f"{kind} {tok} gave {r!r:.300} instead of its error")
        elif r != exp:
            self.ctx.violate("wrong-reply", f"{kind} {tok} gave {r!r:.500} instead of {exp!r}")


KINDS = ["echo", "boom", "widget", "process", "loop", "call_back", "later", "emit", "until", "call_until"]


def drive(ctx, rng, address, what, shared, n_callers=None, n=None):
    """Several callers at once, then the record of the server."""
    kinds = rng.choice([KINDS, KINDS, ["echo", "echo", "emit", "widget"], ["process", "loop", "echo", "until"], ["call_until", "echo", "call_until"], ["call_back", "echo", "process"], ["call_back", "later", "loop"]])
    callers = [Caller(ctx, address, random.Random(rng.random()), n or rng.choice([5, 20, 50]), kinds, shared) for _ in range(n_callers or rng.choice([1, 2, 4]))]
    what = f"{what}, {len(callers)} clients, {callers[0].n} requests of {kinds}"
    ctx.sig("drive", tuple(kinds), len(callers), callers[0].n, what[:10])
    me = RPCClient.get_client(address)
    gui = me["gui"]
    before = gui.get()["ticks"]
    t0 = time.monotonic()
    with ctx.guard(100, "no-reply", what):
        for c in callers:
            c.t.start()
        for c in callers:
            c.t.join()
        for c in callers:
            if c.errors:
                ctx.violate("unexpected-error", f"{what}: {c.errors[0]}")
        end = time.monotonic() + 20
        while any(not set(c.laters) <= set(c.calls) for c in callers) and time.monotonic() < end:
            time.sleep(.01)
        el = time.monotonic() - t0
        d = gui.get()
        while d["depth"] and time.monotonic() < end:
            # requests without reply
            time.sleep(.01)
            d = gui.get()
    for c in callers:
        miss = [x for x in c.laters if c.calls.count(x) != 1]
        ctx.check(not miss, "callback-lost", f"{what}: {len(miss)} of {len(c.laters)} callbacks by Qt timers were not executed exactly once; errors in the Qt process: {d['errors']}")
        got = [t for t in d["log"] if t.startswith(c.name + "-")]
        ctx.ev(len(got))
        if sorted(got) != sorted(c.sent):
            ctx.violate("not-once", f"{what}: {len(got)} executions for {len(c.sent)} requests of a client")
        elif got != c.sent:
            i = next(i for i in range(len(got)) if got[i] != c.sent[i])
            ctx.violate("order", f"{what}: a client's requests were executed in another order, first {got[i:i + 3]} instead of {c.sent[i:i + 3]}")
    ctx.check(not d["bad"], "gui-thread", f"{what}: {d['bad']}")
    ctx.check(d["depth"] == 0, "gui-thread", f"{what}: requests are still being executed")
    ctx.check(not d["errors"], "callback-lost", f"{what}: callbacks failed: {d['errors']}")
    ctx.count("ticks", d["ticks"] - before)
    if el > .4:
        ctx.check(d["ticks"] - before >= 3, "events-starve", f"{what}: a 3 ms timer had {d['ticks'] - before} events in {el:.1f} s")
    gui.clear()


def s_mix(ctx):
    rng = ctx.rng
    with ctx.guard(60, "hangs", "start"):
        shared = ThreadServer()
        p = child(qt=True)
        p.client["gui"] = p.client._import("vf.qtjobs").Gui()
    while ctx.more():
        drive(ctx, rng, p.client.address, "Qt child", shared)
        t = p.client["gui"].get()["ticks"]
        end = time.monotonic() + 20
        while p.client["gui"].get()["ticks"] == t and time.monotonic() < end:
            time.sleep(.01)
        ctx.check(time.monotonic() < end, "events-starve", "Qt timers do not run any more")
    p.stop()


def flood(ctx, address, stop, out, seed, first):
    """Requests without pause; -> tokens with the times of sending and of replies."""
    rng = random.Random(seed)
    name = "f" + uniq()
    try:
        c = RPCClient(address)
        gui = c["gui"]
        first.set()
        for i in range(100000):
            if stop.is_set():
                break
            tok = f"{name}-{i}"
            t0 = time.monotonic()
            sync = rng.choice(["sync", "off", "off"])
            kind = rng.choice(["echo", "echo", "process", "emit"])
            out.append([tok, t0, None])
            r = getattr(gui, kind)(tok, _sync=sync, **({"_timeout": LOST} if sync == "sync" else {}))
            if sync == "sync":
                out[-1][2] = r
            if rng.random() < .3:
                time.sleep(rng.random() * .003)
    except Exception as e:
        out.append(e)
    finally:
        first.set()


def journal_of(path):
    out = []
    try:
        for line in open(path):
            tok, t = line.split()
            out.append((tok, float(t)))
    except FileNotFoundError:
        pass
    return out


def s_closing(ctx):
    """A child is closed while clients keep on sending."""
    rng = ctx.rng
    while ctx.more():
        n = rng.choice([1, 2, 3])
        how = rng.choice(["sync", "sync", "async", "off", "server object", "nested", "after async"])
        what = f"Qt child closed by {how} with {n} clients sending"
        path = os.path.join(TMP, "q" + uniq())
        with ctx.guard(100, "hangs", what):
            p = child(qt=True)
            p.client["gui"] = p.client._import("vf.qtjobs").Gui(path)
            stop = threading.Event()
            outs, ths = [], []
            for _ in range(n):
                outs.append([])
                first = threading.Event()
                t = threading.Thread(target=flood, args=(ctx, p.client.address, stop, outs[-1], rng.random(), first), daemon=True)
                t.start()
                ths.append(t)
                first.wait(30)
            time.sleep(rng.random() * .1)
            mine = []
            gui = p.client["gui"]
            if how == "after async":
                mine = ["m" + uniq() for _ in range(10)]
                for tok in mine:
                    gui.echo(tok, .001, _sync="off")
            ctx.sig("closing", how, n, rng.random() < .5)
            closed = None
            try:
                if how in ("sync", "after async"):
                    r = p.client.close_server(timeout=LOST)
                    ctx.check(r is True, "close-fails", f"{what}: close_server() returned {r!r}")
                    closed = time.monotonic()
                elif how == "async":
                    r = p.client.close_server(sync="async").result(timeout=LOST)
                    ctx.check(r is True, "close-fails", f"{what}: close_server() returned {r!r}")
                    closed = time.monotonic()
                elif how == "off":
                    p.client.close_server(sync="off")
                elif how == "nested":
                    # another client closes while this one waits in a nested event loop
                    fut = gui.loop("loop-x", 100, _sync="async")
                    time.sleep(.01)
                    r = p.client.close_server(timeout=LOST)
                    closed = time.monotonic()
                else:
                    # the server's own method, called by another thread of its process
                    p.client._import("vf.qtjobs").close_in_thread(p.client["self"])
            except Exception as e:
                ctx.violate("close-fails", f"{what}: {type(e).__name__} {str(e)[-300:]}")
            try:
                code = p.wait(40)
                ctx.check(code == 0, "process-end", f"{what}: exit code {code}")
            except TimeoutError:
                ctx.violate("process-end", f"{what}: the process has not ended")
                p.kill()
            stop.set()
            for t in ths:
                t.join(60)
            j = journal_of(path)
            ctx.count("executed", len(j))
            if closed is not None:
                late = [x for x in j if x[1] > closed]
                ctx.check(not late, "executed-after-close", f"{what}: {len(late)} requests were executed after close_server() had returned")
            ctx.check(len({x[0] for x in j}) == len(j), "not-once", f"{what}: requests executed twice")
            done = [x[0] for x in j]
            for out in outs:
                toks = [x[0] for x in out if isinstance(x, list)]
                ex = [x for x in done if x in set(toks)]
                ctx.ev(len(toks))
                ctx.check(ex == toks[:len(ex)], "order", f"{what}: requests of a client were skipped or reordered: {len(ex)} of {len(toks)} executed")
                for x in out:
                    if isinstance(x, list) and x[2] is not None:
                        ctx.check(x[2] == f(x[0]), "wrong-reply", f"{what}: reply {x[2]!r:.200} for {x[0]}")
                        ctx.check(x[0] in ex, "wrong-reply", f"{what}: reply to a request that was not executed")
            ctx.check([x for x in done if x in mine] == mine, "not-once", f"{what}: {len([x for x in done if x in mine])} of {len(mine)} requests sent before were executed")
            p.client.close()
            if os.path.exists(path):
                os.unlink(path)


class Program:
    """vf/qtjobs.py as a program; reads its messages."""

    def __init__(self, plan):
        self.p = subprocess.Popen([sys.executable, os.path.join(ROOT, "vf", "qtjobs.py"), json.dumps(plan)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

        self.q = queue.Queue()
        threading.Thread(target=self.read, daemon=True).start()

    def read(self):
        for line in self.p.stdout:
            self.q.put(json.loads(line))
        self.q.put({})

    def next(self, key, limit=40):
        try:
            d = self.q.get(timeout=limit)
        except queue.Empty:
            return None
        return d if key in d else None


def s_program(ctx):
    """A Qt application with several servers, one after another."""
    rng = ctx.rng
    shared = ThreadServer()
    while ctx.more():
        path = os.path.join(TMP, "q" + uniq())
        plan = {"journal": path, "servers": rng.choice([1, 2, 3]), "quit": rng.random() < .5, "after": rng.choice([1, 30, 150])}
        what = f"Qt program {({k: v for k, v in plan.items() if k != 'journal'})}"
        ctx.sig("program", plan["servers"], plan["quit"], plan["after"])
        with ctx.guard(110, "hangs", what):
            pr = Program(plan)
            for i in range(plan["servers"]):
                d = pr.next("address")
                if d is None:
                    ctx.violate("server-start", f"{what}: server {i + 1} does not start")
                    break
                address = d["address"].encode()
                c = RPCClient(address)
                drive(ctx, rng, address, what, shared, n_callers=rng.choice([1, 2]), n=10)
                stop, outs, ths = threading.Event(), [], []
                for _ in range(rng.choice([0, 1, 2])):
                    outs.append([])
                    first = threading.Event()
                    t = threading.Thread(target=flood, args=(ctx, address, stop, outs[-1], rng.random(), first), daemon=True)
                    t.start()
                    ths.append(t)
                    first.wait(30)
                time.sleep(rng.random() * .03)
                r = c.close_server(timeout=LOST)
                closed = time.monotonic()
                ctx.check(r is True, "close-fails", f"{what}: close_server() returned {r!r}")
                stop.set()
                for t in ths:
                    t.join(60)
                c.close()
                if plan["quit"] and i == plan["servers"] - 1:
                    break
                a = pr.next("closed")
                b = pr.next("ticks")
                if a is None or b is None:
                    ctx.violate("events-starve", f"{what}: the application does not go on after its server was closed ({a}, {b})")
                    break
                ctx.check(not b["bad"], "gui-thread", f"{what}: {b['bad']}")
                late = [x for x in journal_of(path) if x[1] > closed]
                ctx.check(not late, "executed-after-close", f"{what}: {len(late)} requests executed after closing")
            try:
                code = pr.p.wait(40)
                ctx.check(code == 0, "process-end", f"{what}: exit code {code}")
            except subprocess.TimeoutExpired:
                ctx.violate("process-end", f"{what}: the program has not ended")
                pr.p.kill()
                pr.p.wait()
            if os.path.exists(path):
                os.unlink(path)
