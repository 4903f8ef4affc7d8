"""C27: repeated use accumulates nothing."""
import gc, io, logging, os, threading, time
import teleprox
from teleprox import RPCServer
from teleprox.log import LogSender, LogServer, RPCLogHandler
from teleprox.timer import Timer
from vf import leaks
from vf.leaks import Token
from vf.rpc import RPCClient, ThreadServer, child, uniq

TECHNIQUE = "runtime monitoring: resource accounting (descriptors, threads, child processes, attached handlers, live objects, allocated blocks) around many repetitions of completed work, in the user's and in the serving process"
NOTE = "Samples kinds of work and their mixtures; what is counted is what the operating system and the garbage collector report."
LEVEL = "exploration"
RULE = "One evaluation = one resource compared before and after a window of repetitions. Distinct = (mixture of works, resource)."
ASSUMPTIONS = ["Clients are closed by close(), servers by close() or close_server(), children by stop(), kill() or their server's end, log senders and handlers by close(), log servers by stop(), arrays by close_all().",
               "Growth counts only if every one of three windows of n repetitions grows by at least 0.8 n (allocated blocks: 2.5 n + 50), after up to 4 s to settle."]
SCENARIOS = {
    "requests": {"quick": (2, 13), "thorough": (4, 120), "min": 200},
    "connections": {"quick": (2, 15), "thorough": (4, 120), "min": 100},
    "logs": {"quick": (1, 15), "thorough": (2, 90), "min": 100},
    "children": {"quick": (3, 16), "thorough": (4, 160), "min": 60},
}


def judge(ctx, what, cycle, n, snaps, windows=3):
    before = ctx.evaluations
    total = {}

    def watched(s, i):
        def f():
            r = s()
            for k in r:
                total[i, k] = r[k]
            return r
        return f
    with ctx.guard(240, "hang", what):
        grown = leaks.measure(cycle, n, [watched(s, i) for i, s in enumerate(snaps)], windows)
    for (i, k), v in total.items():
        ctx.ev()
        ctx.sig(what, i, k)
    ctx.count("repetitions", n * (windows + 1))
    if grown:
        ctx.violate("grows", f"{what}: {n} repetitions add " + ", ".join(f"{v} x {k[1]}{' in the other process' if k[0] else ''}" for k, v in sorted(grown.items())[:12]))


def attempt(f, *errors):
    try:
        f()
    except errors:
        pass


class Requests:
    """Works done with one client."""

    def __init__(self, rng, c, tok, local=None):
        self.rng, self.c, self.tok, self.local = rng, c, tok, local
        self.op = c._import("operator")
        self.time = c._import("time")

    def works(self):
        c, tok, op, rng = self.c, self.tok, self.op, self.rng

        def gone():
            p = tok.make(_return_type="proxy")
            p._delete()

        def auto():
            p = tok.make(_return_type="proxy")
            p._set_proxy_options(auto_delete=True)
            del p

        def deferred():
            p = tok.make(_return_type="proxy")
            p.make._undefer()._delete()
            p._delete()

        def name():
            k = "n%d" % rng.randrange(5)
            c[k] = rng.choice([1, "x", [1, 2], tok, {"a": b"y" * 1000}])
            c[k]
            c[k] = None

        def future():
            f = tok.same(5, _sync="async")
            while not f.done():
                pass
            f.result()

        def callback():
            tok.call(self.local.get_proxy(Token().same), 3)

        def given():
            tok.drop(self.local.get_proxy(Token()))
        w = {
            "call": lambda: op.add(1, 2),
            "big": lambda: tok.same(b"x" * 30000),
            "values": lambda: tok.same([1, {"a": (2.5, None)}, b"x", "y"]),
            "error": lambda: attempt(lambda: op.truediv(1, 0), Exception),
            "strange error": lambda: attempt(tok.fail, Exception),
            "no attribute": lambda: attempt(lambda: tok.nothing._undefer(), Exception),
            "no item": lambda: attempt(lambda: c["nothing"], Exception),
            "future": future,
            "dropped future": lambda: op.add(1, 2, _sync="async") and None,
            "failed future": lambda: op.truediv(1, 0, _sync="async") and None,
            "no reply": lambda: op.add(1, 2, _sync="off"),
            "failed, no reply": lambda: op.truediv(1, 0, _sync="off"),
            "timeout": lambda: attempt(lambda: self.time.sleep(.002, _timeout=.0005), TimeoutError),
            "attribute": lambda: (setattr(tok, "z", 4), tok.z._get_value()),
            "name": name,
            "deleted proxy": gone,
            "dropped proxy": auto,
            "deferred proxy": deferred,
            "same proxy": lambda: tok.same(tok),
            "ping": c.ping,
            "import": lambda: c._import("os.path"),
            "clock": c.measure_clock_diff,
        }
        if self.local is None:
            w["unserializable"] = lambda: attempt(lambda: tok.same((i for i in ())), Exception)
        else:
            w["callback"] = callback
            w["given object"] = given
        return w


COSTLY = {"timeout", "clock", "dropped proxy"}


def mixture(rng, works, k=None):
    names = rng.sample(sorted(works), k or rng.choice([1, 2, 3]))

    def cycle():
        for m in names:
            works[m]()
    return names, cycle


def s_requests(ctx):
    rng = ctx.rng
    log_off()
    kind = ["thread", "child"][ctx.seed % 1000 % 2]
    snaps = [lambda: leaks.snap(deep=True)]
    if kind == "thread":
        s = ThreadServer(rng.choice(["tcp", "inproc", "ipc"]))
        s["tok"] = Token()
        c = RPCClient(s.address, serializer=rng.choice(["msgpack", "json"]))
        end = s.close
        local = None
    else:
        p = child(qt=rng.random() < .3, start_local_server=rng.random() < .5)
        c = p.client
        theirs = c._import("vf.leaks")
        c["tok"] = theirs.Token(_return_type="proxy")
        snaps.append(lambda: theirs.snap(deep=True, _timeout=60))
        end = p.stop
        local = RPCServer.get_server()
    tok = c["tok"]
    r = Requests(rng, c, tok, local)
    works = r.works()
    order = sorted(works)
    rng.shuffle(order)
    plans = [[m] for m in order]
    while ctx.more():
        names = plans.pop() if plans else rng.sample(order, rng.choice([2, 3, 4]))
        n = 25 if COSTLY & set(names) else rng.choice([60, 120])

        def cycle():
            for m in names:
                works[m]()
        judge(ctx, f"{kind}: {' + '.join(names)}", cycle, n, snaps)
        for m in names:
            ctx.count(m)
    end()
    c.close()


def log_off():
    logging.getLogger("teleprox").setLevel(logging.CRITICAL)


def in_thread(f):
    err = []

    def run():
        try:
            f()
        except BaseException as e:
            err.append(e)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    if err:
        raise err[0]


def s_connections(ctx):
    rng = ctx.rng
    log_off()
    s = ThreadServer()
    s["tok"] = Token()
    other = ThreadServer("ipc")
    other["tok"] = Token()

    def client(addr=None, **kw):
        k = RPCClient(addr or rng.choice([s.address, other.address]), **kw)
        k["tok"].same(3)
        return k

    def server(how, addr=None):
        srv = RPCServer(addr or rng.choice(["tcp://127.0.0.1:*", f"inproc://vf-{uniq()}", f"ipc://{os.environ.get('VF_DIR', '/tmp')}/s{uniq()}"]))
        srv["tok"] = Token()
        getattr(srv, how)()
        return srv

    def closed_by_client():
        srv = server("run_in_thread")
        k = client(srv.address)
        k.close_server()
        k.close()
        srv._run_thread.join(30)

    def closed():
        srv = server("run_in_thread")
        srv.close()
        srv._run_thread.join(30)

    def closed_connected():
        srv = server("run_in_thread")
        k = client(srv.address)
        srv.close()
        srv._run_thread.join(30)
        k.close()

    def closed_several():
        srv = server("run_in_thread")
        ks = []
        in_thread(lambda: ks.append(client(srv.address)))
        k = client(srv.address)
        srv.close()
        srv._run_thread.join(30)
        k.close()
        # (forgotten by its own thread, which has ended)
        RPCClient.clients_by_thread = {a: b for a, b in RPCClient.clients_by_thread.items() if b is not ks[0]}
        ks[0]._socket.close()

    def lazy():
        def f():
            srv = server("run_lazy")
            k = client()
            k["tok"].same(srv.get_proxy(Token()))
            k.close()
            srv.close()
        in_thread(f)

    def lazy_here():
        srv = server("run_lazy")
        srv.close()

    def with_local():
        def f():
            k = client(start_local_server=True)
            RPCServer.get_server().close()
            k.close()
        in_thread(f)

    def refused():
        attempt(lambda: RPCClient("tcp://127.0.0.1:9"), ConnectionRefusedError)

    def in_use():
        def f():
            k = client(s.address)
            attempt(lambda: RPCClient(s.address), KeyError)
            k.close()
        in_thread(f)

    def refused_server():
        attempt(lambda: RPCServer("tcp://300.0.0.1:99"), Exception)

    def timer():
        t = Timer(lambda: None, .0005, limit=rng.choice([2, None]), start=True)
        time.sleep(.003)
        t.stop()

    def restarted_timer():
        t = Timer(lambda: None, .0005)
        t.start()
        t.stop()
        t.start()
        t.stop()

    def arrays():
        from teleprox.shmem import SharedNDArray, close_all
        a = SharedNDArray.zeros((5, 2), "f8")
        b = SharedNDArray.copy(a.data)
        del a, b
        gc.collect()
        close_all()
    works = {
        "client": lambda: client().close(), "client in a thread": lambda: in_thread(lambda: client().close()),
        "several clients": lambda: [k.close() for k in [client(s.address), client(other.address)]],
        "server closed by its client": closed_by_client, "server closed": closed, "connected server closed": closed_connected, "server with clients of two threads closed": closed_several,
        "lazy server": lambda: in_thread(lazy_here), "used lazy server": lazy, "client with local server": with_local, "address in use": in_use, "server that cannot be bound": refused_server,
        "timer": timer, "restarted timer": restarted_timer, "arrays": arrays, "get_client": lambda: RPCClient.get_client(s.address).close(), "refused": refused,
    }
    order = sorted(works)
    rng.shuffle(order)
    plans = [[m] for m in order]
    while ctx.more():
        names = plans.pop() if plans else rng.sample(order, rng.choice([2, 3]))
        n = 3 if "refused" in names else 12

        def cycle():
            for m in names:
                works[m]()
        judge(ctx, " + ".join(names), cycle, n, [leaks.snap])
        for m in names:
            ctx.count(m)
    s.close()
    other.close()


def s_logs(ctx):
    rng = ctx.rng
    log_off()
    lg = logging.getLogger("leaks")
    lg.propagate = False
    sink = logging.getLogger("leaks.sink")
    sink.propagate = False
    sink.addHandler(logging.NullHandler())
    server = LogServer(sink)

    def sender(moved=False):
        snd = LogSender(server.address, lg)
        for i in range(rng.randrange(4)):
            lg.warning("text %d", i)
        if moved:
            snd.connect(server.address)
            lg.warning("text")
        lg.removeHandler(snd)
        snd.close()

    def stopped():
        srv = LogServer("leaks.sink")
        snd = LogSender(srv.address, lg)
        lg.warning("text")
        lg.removeHandler(snd)
        snd.close()
        srv.stop()

    def idle():
        srv = LogServer("leaks.sink")
        srv.stop()

    def nobody():
        snd = LogSender("tcp://127.0.0.1:9", lg)
        lg.removeHandler(snd)
        snd.close()

    def unconnected():
        snd = LogSender()
        snd.handle(logging.makeLogRecord({"msg": "x"}))
        snd.close()

    def handler():
        h = RPCLogHandler(io.StringIO())
        lg.addHandler(h)
        for i in range(rng.randrange(4)):
            lg.error("text %d", i)
        lg.removeHandler(h)
        h.close()

    def named():
        def f():
            lg.error("text")
        in_thread(f)
    plain = LogSender(server.address, lg) if rng.random() < .5 else None
    works = {"sender": sender, "moved sender": lambda: sender(True), "log server": stopped, "idle log server": idle, "sender to nobody": nobody, "unconnected sender": unconnected, "handler": handler, "records of a thread": named}
    order = sorted(works)
    rng.shuffle(order)
    plans = [[m] for m in order]
    while ctx.more():
        names = plans.pop() if plans else rng.sample(order, rng.choice([2, 3]))
        n = 5 if any("log server" in m for m in names) else 12

        def cycle():
            for m in names:
                works[m]()
        judge(ctx, " + ".join(names), cycle, n, [leaks.snap])
        for m in names:
            ctx.count(m)
    server.stop()
    if plain:
        plain.close()


def s_children(ctx):
    rng = ctx.rng
    log_off()
    sink = logging.getLogger("leaks.sink")
    sink.propagate = False
    sink.addHandler(logging.NullHandler())
    server = LogServer(sink)
    addr = server.address
    ends = ["stop", "kill", "close_server", "exit", "stop without client"]
    fixed = [None]

    def run(how, **kw):
        p = child(**kw)
        pid = p.pid
        if rng.random() < .5:
            p.client._import("sys").stdout.write("text\n")
        if how == "stop without client":
            p.client.close()
            p.stop()
        elif how == "close_server":
            p.client.close_server()
            getattr(p, "wait", lambda: None)()
        elif how == "exit":
            attempt(lambda: p.client._import("os")._exit(3, _timeout=.01), Exception)
            if hasattr(p, "wait"):
                p.wait()
        else:
            getattr(p, how)()
        if not p.client._socket.closed:
            p.client.close()
        for f in (p.proc.stdout, p.proc.stderr) if hasattr(p, "proc") else ():
            if f is not None and "log_stdio" not in kw and "log_addr" not in kw:
                f.close()
        end = time.monotonic() + 20
        while os.path.exists(f"/proc/{pid}/exe") and time.monotonic() < end:
            time.sleep(.01)
        if kw.get("daemon") or kw.get("shell"):
            # its processes are orphans, which the nearest reaper (here: this one) has to take care of
            try:
                while os.waitpid(-1, os.WNOHANG)[0]:
                    pass
            except ChildProcessError:
                pass

    def one(**kw):
        return lambda: run(fixed[0] or rng.choice(ends), **kw)

    def fails(**kw):
        return lambda: attempt(lambda: teleprox.start_process(f"vf{uniq()}", **kw), Exception)
    import subprocess
    works = {
        "plain": one(), "logged output": one(log_addr=addr), "daemon": one(daemon=True), "pipes": one(stdout=subprocess.PIPE, stderr=subprocess.PIPE),
        "quiet": one(log_stdio=False, log_addr=addr), "no such program": fails(executable="/nonexistent/python"), "bad address": fails(address="tcp://300.1.1.1:9"),
        "in a thread": lambda: in_thread(one(log_addr=addr)), "shell": one(shell=True),
    }
    if ctx.tier != "quick":
        works["program that is no python"] = fails(executable="/bin/true")  # 5 s each
    order = sorted(works)
    rng.shuffle(order)
    order.remove("logged output")
    order.append("logged output")
    k = len(order) // 3
    i = ctx.seed % 1000 % 3
    order = order[-i * k:] + order[:-i * k] if i else order
    while ctx.more():
        name = order.pop() if order else rng.choice(sorted(works))
        t0 = time.monotonic()
        fixed[0] = rng.choice(ends + [None])
        judge(ctx, f"{name}, {fixed[0] or 'several ways'}", works[name], 3, [leaks.snap])
        ctx.count(f"ended by {fixed[0]}")
        ctx.top(f"seconds for {name}", round(time.monotonic() - t0, 1))
        ctx.count(name)
    server.stop()
