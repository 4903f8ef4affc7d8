"""C11: one client per thread and server; connecting either works or fails cleanly."""
import os, random, socket, threading, time
import teleprox
import zmq
from teleprox import RPCServer, log
from vf import wallclock
from vf.targets import f
from vf.rpc import ThreadServer, LazyServer, RPCClient, in_threads, child, uniq

TECHNIQUE = "runtime monitoring: reference model of each thread's clients (identity, exceptions) and unique reply tokens under concurrent random histories, equal names and failing connections"
NOTE = "Samples histories of get/construct/close/use in threads and processes; each operation's outcome is compared with the model."
LEVEL = "exploration"
RULE = "One evaluation = one operation judged. Distinct = (scenario, operation, state of the model, kind of address or names) combinations, and sequences of four operations."
ASSUMPTIONS = ["Clients are closed in the thread that created them."]
SCENARIOS = {
    "registry": {"quick": (3, 12), "thorough": (6, 120), "min": 1000},
    "names": {"quick": (2, 12), "thorough": (4, 90), "min": 500},
    "connect": {"quick": (2, 13), "thorough": (4, 120), "min": 30},
    "many": {"quick": (1, 12), "thorough": (2, 60), "min": 1000},
    "ended": {"quick": (1, 10), "thorough": (3, 60), "min": 150},
    "clock": {"quick": (1, 10), "thorough": (2, 60), "min": 300},
}
LOST = 40


class Echo:
    def hit(self, token, delay=0):
        if delay:
            time.sleep(delay)
        return f(token)


def run_box(ctx, fn):
    from vf.core import Stop
    try:
        fn()
    except Stop:
        pass
    except Exception:
        import traceback
        ctx.violate("unexpected-error", traceback.format_exc()[-1500:])


def closed_port():
    """A port on which nothing listens (bound, so that nobody else takes it)."""
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    return s, s.getsockname()[1]


def listening(address):
    try:
        socket.create_connection(("127.0.0.1", int(address.rsplit(":", 1)[1])), 1).close()
        return True
    except OSError:
        return False


class Owners:
    """client -> the live thread that got it"""

    def __init__(self):
        self.lock = threading.Lock()
        self.by_client = {}

    def got(self, ctx, client, what):
        me = threading.current_thread()
        with self.lock:
            o = self.by_client.get(id(client))
            if o is not None and o[0] is client and o[1] is not me and o[1].is_alive():
                ctx.violate("client-of-other-thread", f"{what}: got the client of thread {o[1].name}")
            self.by_client[id(client)] = (client, me)

    def drop(self, client):
        with self.lock:
            self.by_client.pop(id(client), None)


def s_registry(ctx):
    servers = [LazyServer() if ctx.rng.random() < .2 else ThreadServer(k) for k in ("tcp", "inproc", "ipc", "tcp")]
    for s in servers:
        s["echo"] = Echo()
    port_socks = [closed_port() for i in range(2)]
    dead = [f"tcp://127.0.0.1:{p}".encode() for _, p in port_socks]
    owners = Owners()
    addresses = [s.address for s in servers]

    def life(rng, barrier):
        have = {}
        closed = []
        last = []

        def new(a, c, what):
            owners.got(ctx, c, what)
            have[a] = c
            ctx.check(c.address == a, "wrong-client", f"{what}: client is connected to {c.address}")
            ctx.check(not c.disconnected(), "wrong-client", f"{what}: a new client is disconnected")
        barrier.wait(LOST)
        for i in range(rng.choice([5, 30, 80])):
            if not ctx.more():
                break
            a = rng.choice(addresses)
            op = rng.choice(["get", "get", "get", "construct", "close", "use", "use", "refused", "badser", "burst", "again"])
            last = (last + [(op, a in have)])[-4:]
            what = f"{op} ({'has' if a in have else 'no'} client; before: {last})"
            ctx.sig("registry", addresses.index(a), tuple(last))
            ctx.ev()
            with ctx.guard(40, "hangs", what):
                if op == "get":
                    c = RPCClient.get_client(rng.choice([a, a.decode()]))
                    if a in have:
                        if c is not have[a]:
                            ctx.violate("different-client", f"{what}: get_client() returned another client for the same thread and address")
                    else:
                        new(a, c, what)
                elif op == "construct":
                    try:
                        c = RPCClient(rng.choice([a, a.decode()]), serializer=rng.choice(["msgpack", "json"]), reentrant=rng.random() < .8)
                    except KeyError:
                        if a not in have:
                            ctx.violate("connect-fails", f"{what}: KeyError without an existing client")
                    else:
                        if a in have:
                            ctx.violate("second-client", f"{what}: a second client was made")
                            c.close()
                        else:
                            new(a, c, what)
                elif op == "close" and a in have:
                    c = have.pop(a)
                    c.close()
                    owners.drop(c)
                    closed.append(c)
                    if rng.random() < .5:
                        # replaced at once
                        c2 = RPCClient(a) if rng.random() < .5 else RPCClient.get_client(a)
                        ctx.check(c2 is not c, "closed-client", f"{what}: got the closed client again")
                        new(a, c2, what)
                elif op == "again" and closed:
                    # an old client is closed once more; this concerns nobody else
                    rng.choice(closed[-3:]).close()
                elif op == "use" and have:
                    a = rng.choice(list(have))
                    tok = "r" + uniq() + str(rng.random())
                    r = have[a]["echo"].hit(tok, rng.choice([0, 0, .002]))
                    if r != f(tok):
                        ctx.violate("wrong-reply", f"{what}: reply {r!r:.100} to {tok}")
                elif op == "refused":
                    d = rng.choice(dead)
                    try:
                        RPCClient.get_client(d) if rng.random() < .5 else RPCClient(d)
                        ctx.violate("not-refused", f"{what}: connected to a port without a listener")
                    except ConnectionRefusedError:
                        pass
                elif op == "badser":
                    try:
                        RPCClient(a, serializer="nonsense")
                        ctx.violate("not-refused", f"{what}: made a client with an unknown serializer")
                    except KeyError:
                        if a not in have:
                            ctx.violate("connect-fails", f"{what}: KeyError without an existing client")
                    except ValueError:
                        if a in have:
                            ctx.violate("second-client", f"{what}: ValueError although there is a client already")
                elif op == "burst":
                    got = [RPCClient.get_client(x) for x in addresses for _ in range(2)]
                    for x, c, d in zip(addresses, got[::2], got[1::2]):
                        if c is not d or (x in have and c is not have[x]):
                            ctx.violate("different-client", f"{what}: get_client() returned different clients")
                        if x not in have:
                            new(x, c, what)
        for c in have.values():
            c.close()
            owners.drop(c)

    n = 0
    while ctx.more():
        n += 1
        k = ctx.rng.choice([1, 3, 6])
        barrier = threading.Barrier(k)
        ths = [threading.Thread(target=run_box, args=(ctx, lambda r=random.Random(ctx.rng.random()): life(r, barrier)), daemon=True) for _ in range(k)]
        for t in ths:
            t.start()
        for t in ths:
            t.join(90)
    for s in servers:
        if s.error:
            ctx.violate("server-died", s.error[-600:])
        s.close()


NAMES = ["n", "MainThread", "x" * 300, "\u00e4\u20ac" * 120, "a b.c:d", "tcp://127.0.0.1:5555", "", "x" * 254 + "\u20ac"]


def talk(address, host, proc, thread, n, start, seed):
    """One client among many with the same names; -> number of replies and list of wrong ones"""
    rng = random.Random(seed)
    from teleprox.log import remote
    remote.set_host_name(host)
    remote.set_process_name(proc)
    remote.set_thread_name(thread)
    bad, done = [], 0
    c = None
    for attempt in range(5):
        try:
            c = RPCClient(address, serializer=rng.choice(["msgpack", "json"]))
            break
        except TimeoutError:
            pass  # (the server is busy)
    open(start + f".{seed}.in", "w").close()
    if c is None:
        return 0, ["could not connect"]
    try:
        e = c["echo"]
        while done == 0 or not os.path.exists(start) and done < 20000:
            toks = [f"{seed}.{os.getpid()}.{done + i}" for i in range(n)]
            futs = [e.hit(t, 0, _sync="async") for t in toks]
            for t, fu in zip(toks, futs):
                done += 1
                r = fu.result(timeout=LOST)
                if r != f(t):
                    bad.append((t, r))
        if c.disconnected():
            bad.append("disconnected")
    except Exception as ex:
        bad.append(f"{type(ex).__name__} {str(ex)[-300:]}")
    finally:
        c.close()
    return done, bad[:5]


def s_clock(ctx):
    """As above, while the wall clock is set forward and back."""
    sock = zmq.Context.instance().socket(zmq.ROUTER)
    sock.bind("tcp://127.0.0.1:*")
    for step in (-1e6, 1e6, -100, .95):
        what = f"connecting to a server that does not answer while the wall clock is set by {step} s"
        took = []
        for attempt in range(3):
            with wallclock.stepping(ctx, (.3, step)), ctx.guard(30, "hangs", what):
                t = time.monotonic()
                try:
                    RPCClient(sock.last_endpoint)
                    err = None
                except Exception as e:
                    err = e
                took.append(round(time.monotonic() - t, 2))
            ctx.ev()
            ctx.check(isinstance(err, TimeoutError), "connect-error", f"{what}: {err!r}")
            if .9 < took[-1] < 3:
                break
        else:
            ctx.violate("connect-time", f"{what}: takes {took} s (the limit is 1 s)")
        ctx.sig("clock", step)
    sock.close(0)
    with wallclock.stepping(ctx):
        s_registry(ctx)


def s_names(ctx):
    """Many clients with equal names of host, process and thread."""
    peers = [child(), child(name="vfsame"), child(name="vfsame")]
    for p in peers:
        p.client._import("sys").path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    rng = ctx.rng
    old = log.get_host_name(), log.get_process_name()
    rnd = ctx.params.get("w", 0)
    while ctx.more():
        s = ThreadServer(rng.choice(["tcp", "tcp", "ipc"]))
        s["echo"] = Echo()
        host, proc, thread = rng.choice(NAMES), rng.choice(NAMES), rng.choice(NAMES)
        if rnd % 3 == 0:
            # longer than any identity can be
            proc, thread = "p" * rng.choice([100, 254, 300, 1000]), rng.choice(["t" * 300, "\u00e4\u20ac" * 120])
        rnd += 1
        k = rng.choice([1, 3, 8])
        n = rng.choice([1, 4, 20])
        over = os.path.join(os.environ.get("VF_DIR", "/tmp"), "over" + uniq())
        what = f"{k} threads and {len(peers)} processes named {host[:12]!r}[{len(host)}] {proc[:12]!r}[{len(proc)}] {thread[:12]!r}[{len(thread)}]"
        ctx.sig("names", len(host), len(proc), len(thread), k, n)
        res = []
        with ctx.guard(100, "hangs", what):
            ths = [threading.Thread(target=lambda i=i: res.append(talk(s.address, host, proc, thread, n, over, f"t{i}.{uniq()}")), daemon=True) for i in range(k)]
            for t in ths:
                t.start()
            futs = [p.client._import("checks.c11").talk(s.address, host, proc, thread, n, over, f"p{uniq()}", _sync="async", _return_type="value") for p in peers]
            # clients that come and go meanwhile
            end = time.monotonic() + rng.choice([.3, .6])
            while time.monotonic() < end:
                log.set_thread_name(thread)
                c = None
                try:
                    c = RPCClient(s.address)
                    tok = "g" + uniq()
                    r = c["echo"].hit(tok)
                    ctx.check(r == f(tok), "wrong-reply", f"{what}: a short-lived client got {r!r:.200} for {tok}")
                except TimeoutError:
                    pass
                if c:
                    c.close()
            # all of them are connected at the same time
            arrived = lambda: [x for x in os.listdir(os.path.dirname(over)) if x.startswith(os.path.basename(over) + ".")]
            end = time.monotonic() + 40
            while len(arrived()) < k + len(peers) and time.monotonic() < end:
                time.sleep(.02)
            open(over, "w").close()
            for t in ths:
                t.join(60)
            for fu in futs:
                res.append(fu.result(timeout=60))
        ctx.check(len(res) == k + len(peers), "hangs", f"{what}: only {len(res)} ended")
        for done, bad in res:
            ctx.ev(done)
            if bad:
                ctx.violate("same-names", f"{what}: {bad}")
            elif not done:
                ctx.count("clients without requests")
        if s.error:
            ctx.violate("server-died", f"{what}: {s.error[-600:]}")
        s.close()
        os.unlink(over)
        for x in arrived():
            os.unlink(os.path.join(os.path.dirname(over), x))
    log.set_host_name(old[0])
    log.set_process_name(old[1])
    for p in peers:
        p.stop()


def vanishing(ctx, rng, kind=None):
    """The server vanishes while clients are connecting."""
    kind = kind or rng.choice(["inproc", "inproc", "ipc", "tcp"])
    address = {"inproc": f"inproc://v{uniq()}", "ipc": f"ipc://{os.environ.get('VF_DIR', '/tmp')}/v{uniq()}", "tcp": "tcp://127.0.0.1:*"}[kind]
    s = Server(address)
    s["echo"] = Echo()
    a = s.address
    pause = rng.choice([.05, .1, .3, .6])
    what = f"{kind} server that vanishes {pause} s after clients began to connect"
    ctx.sig("vanishing", kind, pause)
    res = []

    def connect():
        try:
            c = RPCClient(a)
            res.append("connected")
            c.close()
        except (TimeoutError, RuntimeError, ConnectionRefusedError) as e:
            res.append("failed")
            # nothing is left
            try:
                RPCClient.get_client(a)
                res.append("connected to nobody")
            except (TimeoutError, RuntimeError, ConnectionRefusedError) as e:
                pass
            except Exception as e:
                res.append(f"then {type(e).__name__} {e}")
        except Exception as e:
            res.append(f"{type(e).__name__} {e}")
    with ctx.guard(60, "hangs", what):
        ths = [threading.Thread(target=connect, daemon=True) for i in range(3)]
        # the server is busy, and closes afterwards (before it would answer those who connect meanwhile)
        c = RPCClient(a)
        c["echo"].hit("busy", pause, _sync="off")
        c.close_server(sync="off")
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        s.thread.join(30)
        c.close()
    # (who came too late finds nobody)
    ctx.check(len(res) == 3 and set(res) <= {"failed", "connected"}, "not-refused", f"{what}: {res}")
    ctx.count("failed to connect to a vanishing server", res.count("failed"))
    ctx.check(s.error is None and not s.thread.is_alive(), "server-died", f"{what}: {s.error}")


def s_connect(ctx):
    """Failing to connect leaves no trace; reconnecting works."""
    rng = ctx.rng
    vanishing(ctx, rng, "inproc")
    while ctx.more():
        if rng.random() < .1:
            vanishing(ctx, rng)
        kind = rng.choice(["tcp", "tcp", "ipc", "inproc"])
        sock, port = None, None
        if kind == "tcp":
            sock, port = closed_port()
            a = f"tcp://127.0.0.1:{port}"
        else:
            a = f"ipc://{os.environ.get('VF_DIR', '/tmp')}/u{uniq()}" if kind == "ipc" else f"inproc://u{uniq()}"
        expect = ConnectionRefusedError if kind == "tcp" else TimeoutError
        fails = rng.choice([1, 2, 5]) if kind == "tcp" else 1
        what = f"{kind} address, {fails} failed attempts"
        local = rng.random() < .5
        ctx.sig("connect", kind, fails, local)
        if local:
            RPCServer().run_lazy()
        with ctx.guard(60, "hangs", what):
            for i in range(fails):
                t0 = time.monotonic()
                how = rng.choice(["get", "construct"])
                try:
                    RPCClient.get_client(a) if how == "get" else RPCClient(a)
                    ctx.violate("not-refused", f"{what}: {how} succeeded without a server")
                except expect:
                    ctx.ev()
                except Exception as e:
                    ctx.violate("not-refused", f"{what}: {how} raised {type(e).__name__} {e} instead of {expect.__name__}")
                ctx.check(time.monotonic() - t0 < 6, "refused-late", f"{what}: took {time.monotonic() - t0:.1f} s")
            gen = 0
            old = None
            if sock is not None:
                sock.close()
            for gen in range(rng.choice([1, 2, 3])):
                # a server appears (again, with different state) at this address
                try:
                    s = Server(a)
                except zmq.ZMQError as e:
                    ctx.count("address was taken")
                    break
                s.server["echo"] = Echo()
                s.server["gen"] = gen
                c = None
                for attempt in range(3):
                    how = rng.choice(["get", "construct"])
                    try:
                        c = RPCClient.get_client(a) if how == "get" else RPCClient(a)
                        break
                    except TimeoutError:
                        ctx.count("connection timed out")
                    except Exception as e:
                        ctx.violate("connect-fails", f"{what}: {how} raised {type(e).__name__} {e} although there is a server now (generation {gen})")
                if c is None:
                    ctx.violate("connect-fails", f"{what}: could not connect although there is a server (generation {gen})")
                    s.close()
                    break
                ctx.check(c is not old, "closed-client", f"{what}: got the closed client again")
                ctx.check(c["gen"] == gen, "wrong-client", f"{what}: connected to another server")
                for k in range(rng.choice([0, 1, 4])):
                    # replaced at once, with requests in flight
                    futs = [(t, c["echo"].hit(t, .002, _sync="async")) for t in (uniq() for _ in range(rng.choice([0, 3, 20])))]
                    c.close()
                    c = RPCClient(a) if rng.random() < .5 else RPCClient.get_client(a)
                    tok = "k" + uniq()
                    r = c["echo"].hit(tok)
                    ctx.check(r == f(tok), "wrong-reply", f"{what}: a replaced client got {r!r:.100} for {tok}")
                    ctx.check(RPCClient.get_client(a) is c, "different-client", f"{what}: get_client() does not return the new client")
                    ctx.sig("replaced", kind, len(futs), local)
                if rng.random() < .5:
                    r = c.close_server(timeout=LOST)
                else:
                    s.close()
                s.thread.join(10)
                end = time.monotonic() + 8
                while not c.disconnected() and time.monotonic() < end:
                    time.sleep(.005)
                ctx.check(c.disconnected(), "stale-client", f"{what}: not disconnected after the server closed")
                old = c
                c.close()
                # nobody there now (the port is released in the background)
                end = time.monotonic() + 8
                while kind == "tcp" and listening(a) and time.monotonic() < end:
                    time.sleep(.01)
                try:
                    RPCClient(a)
                    ctx.violate("not-refused", f"{what}: connected after the server closed")
                except (ConnectionRefusedError, TimeoutError) as e:
                    ctx.check(kind != "tcp" or isinstance(e, ConnectionRefusedError), "not-refused", f"{what}: {type(e).__name__} after the server closed")
        if local:
            RPCServer.get_server().close()


class Server(ThreadServer):
    def __init__(self, address):
        ThreadServer.__init__(self, address=address)


def s_many(ctx):
    """Thousands of failing and successful connections use up nothing."""
    s = ThreadServer("tcp")
    s["echo"] = Echo()
    sock, port = closed_port()
    dead = f"tcp://127.0.0.1:{port}"
    rng = ctx.rng
    n = collect = 0
    with ctx.guard(ctx.budget + 90, "hangs", "many connections"):
        while ctx.more() or n < 1500:
            n += 1
            op = rng.choice(["refused", "badser", "open", "open", "badaddress"])
            try:
                if op == "refused":
                    RPCClient(dead)
                elif op == "badser":
                    RPCClient(s.address, serializer="nonsense")
                elif op == "badaddress":
                    RPCClient(rng.choice(["nonsense://x", "tcp://", "", "tcp://127.0.0.1", "127.0.0.1:80"]))
                else:
                    c = RPCClient(s.address)
                    tok = "m" + str(n)
                    r = c["echo"].hit(tok)
                    ctx.check(r == f(tok), "wrong-reply", f"connection {n}: got {r!r:.100} for {tok}")
                    c.close()
                    continue
                ctx.violate("not-refused", f"connection {n}: {op} succeeded")
            except Exception as e:
                ctx.ev()
                if op == "open":
                    ctx.violate("connect-fails", f"connection {n} failed after many: {type(e).__name__} {str(e)[-300:]}")
                    break
                if op == "refused" and not isinstance(e, ConnectionRefusedError) or op == "badser" and not isinstance(e, ValueError):
                    ctx.violate("not-refused", f"connection {n}: {op} raised {type(e).__name__} {e}")
            ctx.sig("many", op, n // 200)
        ctx.count("connections", n)
    s.close()


def s_ended(ctx):
    """Threads that end without closing their clients; later threads get the same identifiers."""
    rng = ctx.rng
    while ctx.more():
        s = ThreadServer(rng.choice(["tcp", "inproc", "ipc"]))
        s["echo"] = Echo()
        left, idents = [], set()  # clients of ended threads
        for _ in range(rng.choice([5, 20])):
            k = rng.choice([1, 1, 1, 3])
            ths = [threading.Thread(target=run_box, args=(ctx, lambda: short(ctx, s, left, idents)), daemon=True) for _ in range(k)]
            for t in ths:
                t.start()
            for t in ths:
                t.join(LOST)
                ctx.check(not t.is_alive(), "hangs", "thread that connects and ends")
        # whoever was given one of these clients can go on using it
        for c in rng.sample(left, min(3, len(left))):
            tok = "e" + uniq()
            try:
                r = c.send("call_obj", opts={"obj": c["echo"].hit, "args": (tok,)})
                ctx.check(r == f(tok), "wrong-reply", f"client of an ended thread: {r!r:.100} for {tok}")
            except Exception as e:
                ctx.violate("connect-fails", f"client of an ended thread, used by another one: {type(e).__name__} {str(e)[-300:]}")
        for c in left:
            c._socket.close()
        s.close()


def short(ctx, s, left, idents):
    rng = random.Random(ctx.seed * 7919 + len(left))
    again = threading.get_ident() in idents
    ctx.count("reused identifiers", again)
    idents.add(threading.get_ident())
    how = rng.choice(["construct", "get", "get construct", "proxy"])
    ctx.sig("ended", how, again, len(left) > 3)
    what = f"new thread ({how}; identifier used before: {again})"
    if how == "construct":
        try:
            c = RPCClient(s.address)
        except Exception as e:
            ctx.violate("connect-fails", f"{what}: {type(e).__name__} {str(e)[-300:]}")
            return
    else:
        c = RPCClient.get_client(s.address)
    ctx.check(not any(c is x for x in left), "shared-client", f"{what}: got the client of an ended thread")
    ctx.check(RPCClient.get_client(s.address) is c, "other-client", f"{what}: get_client() yields another client than before")
    if how == "get construct":
        try:
            RPCClient(s.address)
            ctx.violate("second-client", f"{what}: constructed a second client")
        except KeyError:
            ctx.ev()
    tok = "e" + uniq()
    r = c["echo"].hit(tok)
    ctx.check(r == f(tok), "wrong-reply", f"{what}: {r!r:.100} for {tok}")
    if rng.random() < .8:
        left.append(c)
    else:
        c.close()
