"""C25: a thread has at most one server; everybody sees which, and whether it runs."""
import os, random, threading, time
import zmq
import teleprox
from teleprox import RPCServer
from vf import perturb
from vf.rpc import RPCClient, child, uniq

TECHNIQUE = "runtime monitoring: reference model of each thread's server (identity, running state, errors) under random histories of starting, closing and replacing, in several threads at once"
NOTE = "Samples histories of servers in threads and child processes; each operation's outcome and the state seen from inside and outside are compared with the model."
LEVEL = "exploration"
RULE = "One evaluation = one operation or observed state judged. Distinct = (kind of thread, last four operations with their states)."
ASSUMPTIONS = ["A server is started at most once.", "The address of a closed tcp server is free soon (5 s), not at once."]
SCENARIOS = {
    "lazy": {"quick": (3, 11), "thorough": (5, 150), "min": 1000},
    "loops": {"quick": (3, 11), "thorough": (5, 150), "min": 500},
    "children": {"quick": (1, 12), "thorough": (3, 120), "min": 40},
    "ended": {"quick": (1, 9), "thorough": (3, 60), "min": 150},
}
LOST = 40


def address(rng):
    return rng.choice(["tcp://127.0.0.1:*", f"inproc://vf-{uniq()}", f"ipc://{os.environ.get('VF_DIR', '/tmp')}/s{uniq()}"])


class Where:
    """An object whose method tells which server runs it."""

    def __init__(self, server):
        self.server = server

    def here(self):
        return RPCServer.get_server() is self.server, threading.get_ident(), self.server.running()


def starts_second(ctx, rng, first, what):
    """Try to start another server in a thread that has one."""
    s = RPCServer(address(rng))
    how = rng.choice(["run_lazy", "run_forever"])
    try:
        getattr(s, how)()
        ctx.violate("second-server", f"{what}: {how}() of a second server raises no error")
    except KeyError:
        pass
    ctx.check(RPCServer.get_server() is first, "wrong-server", f"{what}: a failed {how}() of another server changes get_server()")
    ctx.check(first.running(), "not-running", f"{what}: a failed {how}() of another server stops the first")
    ctx.count("second refused")
    if rng.random() < .5:
        # it may run elsewhere
        s["w"] = Where(s)
        s.run_in_thread()
        c = RPCClient(s.address)
        ok, ident, run = c["w"].here()
        ctx.check(ok and run and ident != threading.get_ident(), "wrong-server", f"{what}: a server that could not start here runs elsewhere, but get_server() there differs")
        ctx.check(c.close_server() is True, "close", f"{what}: closing it")
        c.close()
        ends(ctx, s._run_thread, what)
    else:
        s._socket.close()


def ends(ctx, thread, what):
    end = time.monotonic() + LOST
    while thread.is_alive() and time.monotonic() < end:
        thread.join(.2)
    ctx.check(not thread.is_alive(), "does-not-end", f"{what}: the loop of the closed server goes on")


def rebind(ctx, rng, addr, what):
    """Its address can be used again."""
    end = time.monotonic() + 5
    while True:
        try:
            return RPCServer(addr)
        except zmq.error.ZMQError as e:
            if time.monotonic() > end:
                ctx.violate("address-in-use", f"{what}: {addr}: {e}")
                return RPCServer()
            time.sleep(.01)


def gone(ctx, rng, s, c, what):
    """A closed server: nobody takes it for a running one."""
    ctx.check(not s.running(), "running", f"{what}: running() is true after closing")
    if c is not None:
        try:
            c.ping(timeout=LOST)
            ctx.violate("answers", f"{what}: a closed server answers")
        except RuntimeError:
            ctx.ev()
    if rng.random() < .2 and s.address.startswith(b"tcp"):
        try:
            s._read_and_process_one()
            ctx.violate("answers", f"{what}: a closed server reads requests")
        except RuntimeError:
            ctx.ev()


def life(ctx, rng, barrier):
    """One thread with lazy servers."""
    cur, last, old = None, [], None
    c = None
    barrier.wait(LOST)
    for _ in range(rng.choice([10, 30, 80])):
        if not ctx.more():
            break
        op = rng.choice(["start", "start", "second", "look", "self call", "close", "close", "close elsewhere", "again"])
        last = (last + [(op, cur is not None)])[-4:]
        what = f"thread with lazy servers: {op} (before: {last})"
        ctx.sig("lazy", tuple(last))
        ctx.ev()
        with ctx.guard(90, "hangs", what):
            if op == "start":
                if cur is not None:
                    starts_second(ctx, rng, cur, what)
                else:
                    if old is not None and rng.random() < .4 and b"inproc" not in old:
                        cur = rebind(ctx, rng, old, what)
                    else:
                        cur = RPCServer(address(rng))
                    ctx.check(RPCServer.get_server() is None, "wrong-server", f"{what}: get_server() is not None before the server is started")
                    ctx.check(cur.running(), "not-running", f"{what}: a new server is not running()")
                    cur["w"] = Where(cur)
                    cur.run_lazy()
            elif op == "second" and cur is not None:
                starts_second(ctx, rng, cur, what)
            elif op == "again" and cur is not None:
                cur.run_lazy()
            elif op == "self call" and cur is not None:
                if c is None:
                    c = RPCServer.local_client()
                    ctx.check(c is RPCServer.local_client() is RPCClient.get_client(cur.address), "wrong-client", f"{what}: local_client()")
                ctx.check(c.address == cur.address, "wrong-client", f"{what}: local_client() is connected to {c.address}")
                w = c["w"]
                ok, ident, run = w.here()
                ctx.check(ok and run and ident == threading.get_ident(), "wrong-server", f"{what}: inside a request get_server() is another, or not in this thread")
            elif op == "close" and cur is not None:
                if c is None:
                    c = RPCClient.get_client(cur.address)
                if rng.random() < .5:
                    cur.close()
                else:
                    ctx.check(c.close_server() is True, "close", f"{what}: close_server() did not return True")
                gone(ctx, rng, cur, c, what)
                c.close()
                old, cur, c = cur.address, None, None
            elif op == "close elsewhere" and cur is not None:
                # another thread closes it while this one serves
                res = []
                th = threading.Thread(target=closer, args=(cur.address, res), daemon=True)
                th.start()
                end = time.monotonic() + LOST
                while cur.running() and time.monotonic() < end:
                    if cur._socket.poll(20):
                        cur._read_and_process_one()
                th.join(LOST)
                ctx.check(res == [True], "close", f"{what}: close_server() in another thread: {res}")
                if c is not None:
                    end = time.monotonic() + LOST
                    while not c.disconnected() and time.monotonic() < end:
                        time.sleep(.001)
                    ctx.check(c.disconnected(), "answers", f"{what}: the local client is not disconnected")
                gone(ctx, rng, cur, c, what)
                if c is not None:
                    c.close()
                old, cur, c = cur.address, None, None
            ctx.check(RPCServer.get_server() is cur, "wrong-server", f"{what}: get_server() is {RPCServer.get_server()!r} instead of {cur!r}")
            if cur is not None:
                ctx.check(cur.running(), "not-running", f"{what}: running() is false")
    if cur is not None:
        c = RPCClient.get_client(cur.address)
        cur.close()
        c.close()


def closer(addr, res):
    try:
        c = RPCClient(addr)
        res.append(c.close_server(timeout=LOST))
        c.close()
    except Exception as e:
        res.append(repr(e))


def box(ctx, fn, *a):
    from vf.core import Stop
    try:
        fn(*a)
    except Stop:
        pass
    except Exception:
        import traceback
        ctx.violate("unexpected-error", traceback.format_exc()[-1500:])


def s_lazy(ctx):
    if ctx.params.get("w", 0) % 2:
        perturb.enable(ctx.seed, .01, .001)
    while ctx.more():
        n = ctx.rng.choice([1, 2, 6])
        b = threading.Barrier(n)
        ths = [threading.Thread(target=box, args=(ctx, life, ctx, random.Random(ctx.rng.random()), b)) for _ in range(n)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    for k, v in perturb.disable().items():
        ctx.count("perturb_" + k, v)


def s_loops(ctx):
    """run_forever and run_in_thread"""
    rng = ctx.rng
    if ctx.params.get("w", 0) % 2:
        perturb.enable(ctx.seed, .01, .001)
    old = None
    while ctx.more():
        n = rng.choice([1, 2, 5])
        mine = RPCServer.get_server()
        what = f"{n} servers in threads"
        servers, runs = [], {}
        with ctx.guard(90, "hangs", what):
            for _ in range(n):
                if old is not None and b"inproc" not in old and rng.random() < .3:
                    s, old = rebind(ctx, rng, old, what), None
                else:
                    s = RPCServer(address(rng))
                s["w"] = Where(s)
                servers.append(s)
                if rng.random() < .5:
                    s.run_in_thread()
                    th = s._run_thread
                else:
                    # a loop, then a second one in the same thread
                    def loop(s=s):
                        a = RPCServer.get_server()
                        s.run_forever()
                        b = RPCServer.get_server()
                        s2 = RPCServer()
                        s2.run_lazy()
                        ok = RPCServer.get_server() is s2
                        c = RPCServer.local_client()
                        r = c.ping()
                        c.close_server()
                        c.close()
                        runs[s] = (a, b, ok, r, RPCServer.get_server())
                    th = threading.Thread(target=box, args=(ctx, loop), daemon=True)
                    th.start()
                s.th = th
            clients = [RPCClient(s.address) for s in servers]
            idents = set()
            for s, c in zip(servers, clients):
                ok, ident, run = c["w"].here()
                ctx.check(ok and run and ident == s.th.ident, "wrong-server", f"{what}: inside a request get_server() is another, or the thread is")
                idents.add(ident)
            ctx.check(len(idents) == n, "wrong-server", f"{what}: several servers share a thread")
            ctx.check(RPCServer.get_server() is mine, "wrong-server", f"{what}: get_server() of this thread has changed")
            order = list(zip(servers, clients))
            rng.shuffle(order)
            for i, (s, c) in enumerate(order):
                how = rng.choice(["request", "request", "close", "by itself", "two", "off"])
                w = f"{what}, closed by {how}"
                ctx.sig("loops", n, how, i, s.address[:4])
                ctx.check(s.running(), "not-running", f"{w}: running() is false")
                if how == "request":
                    ctx.check(c.close_server() is True, "close", f"{w}: not True")
                elif how == "close":
                    s.close()
                elif how == "by itself":
                    # a request of the server closes it from another thread
                    c._import("threading")
                    t = threading.Thread(target=s.close, daemon=True)
                    t.start()
                    t.join(LOST)
                elif how == "off":
                    c.close_server(sync="off")
                    end = time.monotonic() + LOST
                    while not c.disconnected() and time.monotonic() < end:
                        time.sleep(.001)
                else:
                    res = []
                    ts = [threading.Thread(target=closer, args=(s.address, res), daemon=True) for _ in range(2)]
                    for t in ts:
                        t.start()
                    for t in ts:
                        t.join(LOST)
                    # (one of them may come too late to connect)
                    ctx.check(True in res and all(x is True or "onnect" in str(x) for x in res), "close", f"{w}: {res}")
                    end = time.monotonic() + LOST
                    while not c.disconnected() and time.monotonic() < end:
                        time.sleep(.001)
                gone(ctx, rng, s, c, w)
                c.close()
                ends(ctx, s.th, w)
                if s in runs:
                    a, b, ok, r, e = runs[s]
                    ctx.check(a is None and b is None and e is None and ok and r == "pong", "wrong-server", f"{w}: in the thread of the loop: get_server() before {a!r}, after {b!r}, after the next {e!r}; the next one works: {ok} {r}")
                    ctx.count("second in thread")
                # the others go on
                for s2, c2 in order[i + 1:]:
                    ok, ident, run = c2["w"].here()
                    ctx.check(ok and run and ident == s2.th.ident, "wrong-server", f"{w}: afterwards get_server() differs in the thread of another server")
                old = s.address
    for k, v in perturb.disable().items():
        ctx.count("perturb_" + k, v)


def s_children(ctx):
    """The main threads of (Qt) child processes."""
    rng = ctx.rng
    while ctx.more():
        qt = rng.random() < .5
        what = f"child process, qt={qt}"
        with ctx.guard(90, "hangs", what):
            p = child(qt=qt)
            c = p.client
            ins = c._import("vf.inside")
            for op in rng.sample(["main", "second", "thread", "thread", "second"], 4):
                ctx.sig("children", qt, op)
                if op == "main":
                    r = ins.main_server()
                    ctx.check(r == [True, True, True], "wrong-server", f"{what}: get_server() in its main thread, in the main thread, running: {r}")
                elif op == "second":
                    ctx.check(ins.second_server() == "KeyError", "second-server", f"{what}: a second server in the main thread is not refused")
                    ctx.check(c.ping() == "pong", "not-running", what)
                else:
                    r = ins.thread_server()
                    ctx.check(r == ["None", "same", "pong", "None"], "wrong-server", f"{what}: another thread with a server of its own: {r}")
            ctx.check(ins.main_server() == [True, True, True], "wrong-server", f"{what}: get_server() in its main thread at the end")
            p.stop(timeout=LOST)
            c.close()


def s_ended(ctx):
    """Threads that end while their (lazy) servers are open; later threads get the same identifiers."""
    rng = ctx.rng
    while ctx.more():
        left, idents = [], set()
        for _ in range(rng.choice([5, 20])):
            k = rng.choice([1, 1, 1, 3])
            ths = [threading.Thread(target=short, args=(ctx, left, idents), daemon=True) for _ in range(k)]
            for t in ths:
                t.start()
            for t in ths:
                t.join(LOST)
                ctx.check(not t.is_alive(), "hangs", "thread that starts a lazy server and ends")
        for x, c in left:
            # nobody serves these any more
            x._closed = True
            x._socket.close()
            c._socket.close()
            for k in [k for k, v in list(RPCClient.clients_by_thread.items()) if v is c]:
                RPCClient.clients_by_thread.pop(k, None)


def short(ctx, left, idents):
    rng = random.Random(ctx.seed * 7919 + len(left) + len(idents))
    again = threading.get_ident() in idents
    ctx.count("reused identifiers", again)
    idents.add(threading.get_ident())
    what = f"new thread (identifier used before: {again})"
    s = None
    try:
        ctx.check(RPCServer.get_server() is None, "wrong-server", f"{what}: get_server() is not None")
        how = rng.choice(["lazy", "lazy", "none", "lazy closed", "loop"])
        ctx.sig("ended", how, again)
        if how == "none":
            return
        s = RPCServer(address(rng))
        s["w"] = Where(s)
        if how == "loop":
            def other(res):
                try:
                    c = RPCClient(s.address)
                    res.append(c["w"].here())
                    c.close_server(timeout=LOST)
                    c.close()
                except Exception as e:
                    res.append(repr(e))
            res = []
            t = threading.Thread(target=other, args=(res,), daemon=True)
            t.start()
            s.run_forever()
            t.join(LOST)
            ctx.check(len(res) == 1 and list(res[0]) == [True, threading.get_ident(), True], "wrong-server", f"{what}: inside a request of a server that runs here: {res}")
            ctx.check(RPCServer.get_server() is None, "wrong-server", f"{what}: get_server() after the end of the loop")
            return
        s.run_lazy()
        ctx.check(RPCServer.get_server() is s, "wrong-server", f"{what}: get_server() is not the server that was started here")
        c = RPCServer.local_client()
        r = c["w"].here()
        ctx.check(list(r) == [True, threading.get_ident(), True], "wrong-server", f"{what}: inside a request: {r}")
        if how == "lazy closed":
            ctx.check(c.close_server() is True, "close", f"{what}: close_server()")
            c.close()
            ctx.check(RPCServer.get_server() is None, "wrong-server", f"{what}: get_server() after closing")
        else:
            left.append((s, c))
    except Exception as e:
        import traceback
        ctx.violate("start-fails", f"{what}: {traceback.format_exc()[-600:]}")
