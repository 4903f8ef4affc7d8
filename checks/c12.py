"""C12: re-entrant call chains complete with the right results."""
import random, threading, time
import teleprox
from teleprox import RPCServer, RemoteCallException
from vf import nodes
from vf.nodes import Node, generate, interpret, height, shape, size
from vf.rpc import ThreadServer, LazyServer, RPCClient, in_threads, child, uniq

TECHNIQUE = "runtime monitoring: randomly generated distributed call programs, each result compared with a local interpreter; thread of every execution; bounded progress"
NOTE = "Samples call programs (calls, callbacks, passing third objects, parallel calls, errors) over threads, processes, lazy and Qt servers, started concurrently by several threads."
LEVEL = "exploration"
RULE = "One evaluation = one executed node of a call program. Distinct = shapes of programs (operations and participants)."
ASSUMPTIONS = ["Nesting is limited to about 60 levels per thread (Python's recursion limit).", "Each participant keeps serving as long as the round lasts."]
SCENARIOS = {
    "threads": {"quick": (3, 13), "thorough": (6, 150), "min": 1000},
    "procs": {"quick": (3, 14), "thorough": (6, 150), "min": 500},
    "replace": {"quick": (2, 12), "thorough": (4, 90), "min": 100},
    "reserved": {"quick": (1, 9), "thorough": (3, 60), "min": 50},
}
LOST = 60


def run_box(ctx, fn, *a):
    from vf.core import Stop
    try:
        fn(*a)
    except Stop:
        pass
    except Exception:
        import traceback
        ctx.violate("unexpected-error", traceback.format_exc()[-1500:])


def judge(ctx, what, me, prog, run):
    """run() executes `prog` at participant `me`."""
    try:
        want = interpret(me, prog)
    except nodes.Boom as e:
        want = ("boom", e.args[0])
    with ctx.guard(90, "hangs", what):
        try:
            got = run()
        except RemoteCallException as e:
            got = ("boom", nodes.token(e))
        except nodes.Boom as e:
            got = ("boom", e.args[0].split(":")[1])
        except Exception as e:
            got = f"{type(e).__name__} {str(e)[-500:]}"
    ctx.ev(size(prog))
    if got != want:
        ctx.violate("wrong-result", f"{what}: got {str(got)[:100]!r} ... {str(got)[-500:]!r} instead of {str(want)[:400]!r}; program {str(prog)[:500]}")


class Round:
    """Drivers that run programs and then keep serving until all have ended."""

    def __init__(self, ctx, names, table, drivers, depth, budget):
        self.ctx, self.names, self.table, self.depth, self.budget = ctx, names, table, depth, budget
        self.left = drivers
        self.lock = threading.Lock()
        self.ready = threading.Barrier(drivers)
        self.end = time.monotonic() + budget

    def driver(self, i, rng, lazy):
        ctx = self.ctx
        name = f"D{i}"
        node = Node(name, home=threading.get_ident())
        if lazy:
            s = RPCServer()
            s["node"] = node
            s.run_lazy()
            with self.lock:
                self.table[name] = s.address
        self.ready.wait(LOST)
        names = self.names + ([n for n in self.table if n[0] == "D"] if lazy else [])
        try:
            self.ready.wait(LOST)
            node.setup(self.table)
            if lazy and i == 0:
                for k in self.names:
                    node.peer(k).setup(dict(self.table))
            self.wait_all(node)
            n = 0
            while time.monotonic() < self.end and n < 60:
                n += 1
                d = rng.choice([1, 2, 4, 8, self.depth])
                start = rng.choice(names)
                prog = generate(rng, names if lazy else self.names, start, d, lambda: "t" + uniq().replace("-", "_"))
                if n == 1 and i == 0 and self.ready.parties < 3:
                    # two of them call each other, again and again
                    a, b = start, rng.choice([x for x in names if x != start] or [start])
                    k = 44 // self.ready.parties
                    prog = ["val", "t" + uniq().replace("-", "_")]
                    for j in range(k - 1, -1, -1):
                        prog = [rng.choice(["call", "call", "catch"]), [b, a][j % 2], prog]
                    ctx.count("long ladders")
                what = f"driver {name} (lazy server: {lazy}), participants {names}"
                ctx.sig(shape(prog) if size(prog) < 60 else hash(shape(prog)))
                ctx.top("depth", height(prog))
                if start == name:
                    judge(ctx, what, name, prog, lambda: node.run(prog))
                else:
                    judge(ctx, what, start, prog, lambda: node.peer(start).run(prog))
        finally:
            with self.lock:
                self.left -= 1
        # keep serving the others
        while self.left > 0:
            node.peer(self.names[0]).stats()
        ctx.check(node.wrong_thread == 0, "wrong-thread", f"requests to driver {name} were executed in another thread")
        ctx.top("max nesting in a driver", node.max_depth)
        if lazy:
            self.final(node)
            RPCServer.get_server().close()
        for a in self.table.values():
            node.close_client(a)

    def wait_all(self, node):
        """A barrier during which this thread's server serves requests."""
        with self.lock:
            self.arrived = getattr(self, "arrived", 0) + 1
            total = self.ready.parties
        while self.arrived < total:
            node.peer(self.names[0]).stats()

    def final(self, node):
        with self.lock:
            self.finished = getattr(self, "finished", 0) + 1
        while self.finished < self.ready.parties:
            node.peer(self.names[0]).stats()


def one_round(ctx, servers, names, table, drivers, lazy, depth, budget):
    rnd = Round(ctx, names, dict(table), drivers, depth, budget)
    ths = [threading.Thread(target=run_box, args=(ctx, rnd.driver, i, random.Random(ctx.rng.random()), lazy), daemon=True) for i in range(drivers)]
    for t in ths:
        t.start()
    for t in ths:
        t.join(LOST + 60)
        if t.is_alive():
            ctx.violate("hangs", f"a driver did not end: participants {names}")
            return
    # forget the clients of the drivers' servers (their addresses may be used again)
    c = None
    for k in names:
        n = RPCClient.get_client(table[k])["node"]
        for a in rnd.table.values():
            if a not in table.values():
                n.close_client(a)
        runs, dep, wrong = n.stats()
        ctx.top("max nesting in a server", dep)
        ctx.check(wrong == 0, "wrong-thread", f"requests to {k} were executed in another thread than its server's")


def s_threads(ctx):
    rng = ctx.rng
    while ctx.more():
        k = rng.choice([1, 2, 3, 5])
        servers, names, table = [], [], {}
        for i in range(k):
            s = (LazyServer if rng.random() < .3 else ThreadServer)(*([rng.choice(["tcp", "inproc", "ipc"])]))
            n = Node(f"T{i}")
            s["node"] = n
            servers.append(s)
            names.append(f"T{i}")
            table[f"T{i}"] = s.address
        for s, n in zip(servers, names):
            nd = RPCClient.get_client(s.address)["node"]
            nd.setup(table)
            nd.set_home()
            ctx.check(nd.home == s.ident, "wrong-thread", "a request was executed in another thread than the server's")
        for _ in range(rng.choice([1, 2])):
            drivers = rng.choice([1, 1, 2, 3])
            one_round(ctx, servers, names, table, drivers, rng.random() < .7, 30 // drivers, 1.2)
            if not ctx.more():
                break
        for s in servers:
            if s.error:
                ctx.violate("server-died", s.error[-600:])
            s.close()


def s_procs(ctx):
    """Participants in child processes (plain and Qt), threads and lazily served drivers."""
    w = ctx.params.get("w", 0)
    rng = ctx.rng
    names, table, procs = [], {}, []
    for i, qt in enumerate([[False, False], [True], [True, False, False]][w % 3]):
        p = child(qt=qt)
        n = p.client._import("vf.nodes").Node(f"P{i}{'q' if qt else ''}")
        p.client["node"] = n
        n.main_thread()
        procs.append((p, n))
        names.append(f"P{i}{'q' if qt else ''}")
        table[names[-1]] = p.client.address
    servers = []
    for i in range(2):
        s = ThreadServer(rng.choice(["tcp", "ipc"]))
        s["node"] = Node(f"T{i}")
        servers.append(s)
        names.append(f"T{i}")
        table[f"T{i}"] = s.address
    for k in names:
        n = RPCClient.get_client(table[k])["node"]
        n.setup(table)
        if k[0] == "T":
            n.set_home()
    while ctx.more():
        drivers = rng.choice([1, 2, 3])
        one_round(ctx, servers, names, table, drivers, rng.random() < .7, 30 // drivers, 2)
    for p, n in procs:
        p.stop()
    for s in servers:
        if s.error:
            ctx.violate("server-died", s.error[-600:])
        s.close()


def s_replace(ctx):
    """Starting, closing and replacing the local server between calls."""
    rng = ctx.rng
    qt = ctx.params.get("w", 0) % 2 == 1
    p = child(qt=qt)
    remote = p.client._import("vf.nodes").Node("P")
    s = ThreadServer("tcp")
    s["node"] = Node("T")
    clients = {"P": p.client, "T": RPCClient(s.address)}
    p.client["node"] = remote
    table = {"P": p.client.address, "T": s.address}
    for k in "PT":
        clients[k]["node"].setup(table)
    node = Node("D", table, threading.get_ident())
    local, history, olds = None, [], []
    while ctx.more():
        step = rng.choice(["start", "close", "call", "call", "call", "ping", "newclient", "start_local_server"])
        history = (history + [step + ("+" if local else "-")])[-5:]
        what = f"local server {history}"
        ctx.sig("replace", tuple(history), qt)
        with ctx.guard(60, "hangs", what):
            if step == "start" and local is None:
                local = RPCServer(rng.choice(["tcp://127.0.0.1:*", "tcp://127.0.0.1:*"]))
                local["node"] = node
                local.run_lazy()
                node.table["D"] = local.address
                clients["T"]["node"].setup({**table, "D": local.address})
                clients["P"]["node"].setup({**table, "D": local.address})
            elif step == "start_local_server" and local is None:
                k = rng.choice(["P", "T"])
                a = clients[k].address
                clients[k].close()
                clients[k] = RPCClient(a, start_local_server=True)
                node.nodes = {}
                local = RPCServer.get_server()
                local["node"] = node
                node.table["D"] = local.address
                clients["T"]["node"].setup({**table, "D": local.address})
                clients["P"]["node"].setup({**table, "D": local.address})
            elif step == "close" and local is not None:
                a = local.address
                local.close()
                ctx.check(not local.running(), "local-server", f"{what}: still running after close()")
                # this thread's and the others' clients of that server are of no use any more
                node.close_client(a)
                node.forget("D")
                for k in "PT":
                    clients[k]["node"].close_client(a)
                local = None
            elif step == "newclient":
                k = rng.choice(["P", "T"])
                a = clients[k].address
                clients[k].close()
                clients[k] = RPCClient(a)
                node.nodes = {}
            elif step == "ping":
                for k in "PT":
                    ctx.check(clients[k].ping() == "pong", "local-server", f"{what}: ping")
            elif step == "call":
                names = ["P", "T"] + (["D", "D"] if local is not None else [])
                start = rng.choice(["P", "T"])
                prog = generate(rng, names, start, rng.choice([1, 2, 3, 8, 20]), lambda: "r" + uniq().replace("-", "_"))
                n = clients[start]["node"]
                n._set_proxy_options(timeout=LOST)
                judge(ctx, what, start, prog, lambda: n.run(prog))
    ctx.check(node.wrong_thread == 0, "wrong-thread", "requests to the lazy server were executed in another thread")
    if local is not None:
        local.close()
    p.stop()
    s.close()


def s_reserved(ctx):
    """A client with reentrant=False never serves the requests of others while it waits; reentrant clients of the same thread do."""
    from vf import targets
    from vf.targets import f
    while ctx.more():
        rng = ctx.rng
        far, far2 = ThreadServer(rng.choice(["tcp", "inproc", "ipc"])), ThreadServer()
        for s in (far, far2):
            s["rec"] = targets.Recorder()
        box, over = {}, threading.Event()
        stop = time.monotonic() + min(2, max(.3, ctx.time_left()))
        sent = [0]

        def waiter():
            local = RPCServer()
            rec = targets.Recorder()
            local["rec"] = rec
            local.run_lazy()
            closed, open_ = RPCClient(far.address, reentrant=False), RPCClient(far2.address)
            crec, orec = closed["rec"], open_["rec"]
            box["addr"] = local.address
            me = threading.get_ident()
            n = 0
            while time.monotonic() < stop:
                n += 1
                tok = f"w{uniq()}"
                before = len(rec.log)
                how = rng.choice(["call", "future", "poll", "fail", "timeout", "import", "ping", "measure"])
                d = rng.choice([0, .005, .03, .06])
                with ctx.guard(LOST, "hangs", f"reentrant=False, {how}"):
                    if how == "call":
                        ctx.check(crec.echo(tok, d) == f(tok), "wrong-result", f"reentrant=False: {how}")
                    elif how == "future":
                        fut = crec.echo(tok, d, _sync="async")
                        ctx.check(fut.result(timeout=rng.choice([None, 40])) == f(tok), "wrong-result", f"reentrant=False: {how}")
                    elif how == "poll":
                        fut = crec.echo(tok, d, _sync="async")
                        while not fut.done():
                            time.sleep(.001)
                    elif how == "fail":
                        try:
                            crec.boom(tok)
                            ctx.violate("wrong-result", "reentrant=False: no error")
                        except RemoteCallException:
                            pass
                    elif how == "timeout":
                        try:
                            crec.echo(tok, .05, _timeout=.01)
                        except TimeoutError:
                            pass
                    elif how == "import":
                        closed._import("time").sleep(d)
                    elif how == "ping":
                        closed.ping()
                    else:
                        closed.measure_clock_diff()
                ctx.check(len(rec.log) == before, "served-although-not-reentrant",
                          f"{len(rec.log) - before} requests of others were served while a client with reentrant=False waited ({how})")
                if d:
                    ctx.count("reserved waits")
                if rng.random() < .4:
                    with ctx.guard(LOST, "hangs", "reentrant client beside one with reentrant=False"):
                        ctx.check(orec.echo(tok, rng.choice([.01, .04])) == f(tok), "wrong-result", "reentrant client")
                    if len(rec.log) > before:
                        ctx.count("served by reentrant waits")
                ctx.sig("reserved", how, d, len(rec.log) > before)
                others = {t for _, t in rec.log} - {me}
                ctx.check(not others, "wrong-thread", f"requests executed in {others}")
            box["end"] = True
            with ctx.guard(LOST, "hangs", "requests that waited for a reentrant wait"):
                while not over.is_set():
                    orec.echo("end", .01)
            ctx.check(len(rec.log) == sent[0], "wrong-result", f"{sent[0]} requests were sent to the waiting thread, {len(rec.log)} executed")
            local.close()
            closed.close()
            open_.close()

        def sender():
            while "addr" not in box:
                time.sleep(.002)
            c = None
            end = time.monotonic() + LOST
            while c is None:
                try:
                    c = RPCClient(box["addr"])
                except TimeoutError:  # nobody serves for longer than a second
                    if time.monotonic() > end:
                        over.set()
                        raise
            rec = c["rec"]
            while "end" not in box:
                tok = f"s{uniq()}"
                sent[0] += 1
                with ctx.guard(LOST, "hangs", "request to a thread that waits"):
                    ctx.check(rec.echo(tok, _timeout=LOST) == f(tok), "wrong-result", "request to a thread that waits")
                if rng.random() < .3:
                    time.sleep(.003)
            c.close()
            over.set()
        in_threads([waiter, sender])
        far.close()
        far2.close()
