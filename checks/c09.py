"""C09: closing a server disconnects every client and ends all execution."""
import os, random, signal, subprocess, sys, threading, time
import teleprox
from teleprox import RemoteCallException
from vf import closing
from vf.rpc import ThreadServer, LazyServer, ProcServer, RPCClient, RPCServer, in_threads, child, uniq

TECHNIQUE = "runtime monitoring with fault injection: outcome reports of every client plus a timestamped execution log of the server"
NOTE = "Samples closing moments, client states, closers and dead clients; every client's outcome and the complete execution log are judged."
LEVEL = "exploration"
RULE = ("One evaluation = one client, closer, pending future or executed request judged. Distinct = (server kind, way of closing, set of client states, dead clients) combinations.")
ASSUMPTIONS = ["'Soon' is judged as 6 s (of time in which the process ran), 'at once' as 2 s.", "Execution is judged by start times on the system-wide monotonic clock."]
SCENARIOS = {
    "threads": {"quick": (3, 13), "thorough": (8, 120), "min": 200},
    "procs": {"quick": (3, 14), "thorough": (6, 150), "min": 60},
    "abandoned": {"quick": (1, 10), "thorough": (2, 60), "min": 10},
    "exit": {"quick": (1, 12), "thorough": (2, 60), "min": 6},
}
LOST = 45
# (server.close() connects to the server itself first and gives up after a second if it is too busy, so that it is given less work)
LIGHT = ["idle", "chatty", "waiting", "bigreplies", "unread"]
STATES = ["idle", "outstanding", "blocked", "chatty", "offs", "bigreplies", "waiting", "waiting", "relayed", "relayed", "unread"]


def tmp(name):
    return os.path.join(os.environ.get("VF_DIR", "/tmp"), f"{name}-{uniq()}")


def wait_files(paths, limit=25):
    end = time.monotonic() + limit
    while not all(os.path.exists(p) for p in paths):
        if time.monotonic() > end:
            return False
        time.sleep(.005)
    return True


def judge_client(ctx, what, out, t_confirm):
    w = f"{what}, client {out['state']}"
    ctx.ev(3)
    if out["seen"] is None:
        ctx.violate("not-disconnected", f"{w}: never observed disconnected(): {out}")
        return
    if out["seen"] - t_confirm > 6:
        ctx.violate("not-disconnected", f"{w}: observed disconnected() {out['seen'] - t_confirm:.1f} s after the close")
    for r in out["futures"]:
        ctx.ev()
        if r not in ("value", "error RuntimeError"):
            ctx.violate("pending-future", f"{w}: pending future ended with {r}")
    for r in out["calls"]:
        ctx.ev()
        if r != "error RuntimeError":
            ctx.violate("blocked-call", f"{w}: call ended with {r}")
    if out["later"] != "RuntimeError" or out["later_time"] > 2:
        ctx.violate("later-request", f"{w}: later request gave {out['later']} after {out['later_time']:.2f} s")
    if out["close"] is not True:
        ctx.violate("close-result", f"{w}: close_server() after the server was closed returned {out['close']!r}")
    if out.get("unread", True) is not True:
        ctx.violate("close-result", f"{w}: close_server() after the server was closed (and before looking for its message) returned {out['unread']!r}")
    if out["still"] is not True:
        ctx.violate("not-disconnected", f"{w}: disconnected() became {out['still']!r} again")


def close_it(ctx, what, how, address, server, results):
    """Close the server; appends (time of confirmation or None, error text)."""
    try:
        c = RPCClient.get_client(address)
        c.ping()
        target = c["target"]
    except Exception as e:
        results["out"].append((how, time.monotonic(), None, f"could not connect: {type(e).__name__} {e}"))
        results["connected"].release()
        return
    results["connected"].release()
    results["go"].wait(LOST)
    err, t, r = None, None, None
    pending = []
    try:
        # the closer's own requests: some before, and (if closing does not block) some behind the close request
        send = lambda: pending.append((f"z{uniq()}", None)) or pending.append((pending[-1][0], target.hit(pending.pop()[0], 0, _sync="async")))
        try:
            if ctx.rng.random() < .7:
                send()
                send()
        except RuntimeError:
            pass  # another closer was faster
        if how == "sync":
            r = c.close_server(timeout=LOST)
        elif how == "async":
            r = c.close_server(sync="async")
            try:
                send()
                send()
            except RuntimeError:
                pass  # another closer was faster
            r = r.result(timeout=LOST) if r is not True else True
        elif how == "off":
            r = c.close_server(sync="off")
            try:
                send()
                send()
            except RuntimeError:
                pass
            end = time.monotonic() + 8
            while not c.disconnected() and time.monotonic() < end:
                time.sleep(.005)
            r = c.disconnected()
        elif how == "method":
            server.close()
            r = c.disconnected() or c.close_server()
        elif how == "remote-self":
            try:
                c["self"].close(_timeout=LOST)
            except RuntimeError:
                pass
            end = time.monotonic() + 8
            while not c.disconnected() and time.monotonic() < end:
                time.sleep(.005)
            r = c.disconnected()
        t = time.monotonic()
    except Exception as e:
        t = time.monotonic()
        err = f"{type(e).__name__} {str(e)[-300:]}"
        if how == "async" and isinstance(e, RuntimeError) and c.disconnected():
            err = None  # another closer was first: the pending request ends with an error
            r = True
    results["out"].append((how, t, r, err))
    for tok, fut in pending:
        o = closing.outcome(fut, tok, 5)
        ctx.check(o in ("value", "error RuntimeError"), "pending-future", f"{what}: request {tok} of the closer itself ({how}) ended with {o}")
    try:
        again = c.close_server()
    except Exception as e:
        again = repr(e)
    results["again"].append((how, again))
    c.close()


def check_log(ctx, what, path, t_confirm):
    late = []
    n = 0
    for line in open(path):
        tok, t = line.split()
        n += 1
        if float(t) > t_confirm + .0005:
            late.append((tok, float(t) - t_confirm))
    ctx.ev(n)
    if late:
        ctx.violate("executed-after-close", f"{what}: {len(late)} requests were executed after the close was confirmed: {late[:3]}")
    return n


def one_round(ctx, rng, kind, server, address, path, make_clients, closers, extra, alive=None):
    """Start clients, close, judge. make_clients: list of (state, start function -> getter of the outcome)."""
    what = f"{kind} closed by {closers} with {[s for s, _ in make_clients]} {extra}"
    ctx.sig(kind, sorted(closers), sorted(s for s, _ in make_clients), extra)
    with ctx.guard(LOST + 40, "close-hangs", what):
        getters, readies = [], []
        for state, start in make_clients:
            ready = tmp("ready")
            readies.append(ready)
            getters.append(start(ready))
        if not wait_files([r + ".conn" for r in readies]):
            ctx.violate("clients-not-ready", f"{what}: clients did not connect")
            return
        results = {"go": threading.Event(), "out": [], "again": [], "connected": threading.Semaphore(0)}
        ths = [threading.Thread(target=close_it, args=(ctx, what, how, address, server, results), daemon=True) for how in closers]
        for t in ths:
            t.start()
        for t in ths:
            results["connected"].acquire(timeout=LOST)
        for r in readies:
            closing.touch(r + ".go")
        if not wait_files(readies):
            ctx.violate("clients-not-ready", f"{what}: clients did not get ready")
            return
        time.sleep(rng.choice([0.02, .05, .1]))
        t_go = time.monotonic()
        results["go"].set()
        for t in ths:
            t.join(LOST)
        if len(results["out"]) < len(closers):
            ctx.violate("close-hangs", f"{what}: closers did not return: {results['out']}")
            return
        for r in readies:
            closing.touch(r + ".closed")
        for how, t, r, err in results["out"]:
            ctx.ev()
            if err is not None or r is not True:
                ctx.violate("close-result", f"{what}: closer {how} got {r!r} {err}")
            if t - t_go > 8:
                ctx.violate("close-delayed", f"{what}: closing by {how} took {t - t_go:.1f} s")
        for how, r in results["again"]:
            ctx.check(r is True, "close-result", f"{what}: close_server() again by {how} returned {r!r}")
        t_confirm = min(t for how, t, r, err in results["out"])
        for g in getters:
            o = g()
            if isinstance(o, dict):
                judge_client(ctx, what, o, t_confirm)
            elif o is not None:
                ctx.violate("client-failed", f"{what}: {o}")
        if alive is not None:
            alive(what)
        n = check_log(ctx, what, path, t_confirm)
    for r in readies:
        for x in ("", ".conn", ".go", ".closed"):
            os.unlink(r + x)
    os.unlink(path)


def thread_client(address, state, rng, limit=20, delays=(.005, .03, .1)):
    ser = rng.choice(["msgpack", "json"])
    delay = rng.choice(delays)

    def start(ready):
        box = []

        def run():
            try:
                box.append(closing.watch(address, "c" + uniq(), state, ready, ser, rng.choice([1, 5, 30]) if state != "outstanding" else 6, limit, delay))
            except Exception as e:
                box.append(f"{type(e).__name__}: {str(e)[-400:]}")
        t = threading.Thread(target=run, daemon=True)
        t.start()

        def get():
            t.join(LOST)
            return box[0] if box else "client thread hangs"
        return get
    return state, start


def proc_client(p, address, state, rng, limit=20, delays=(.03,)):
    """The same client in a child process; p.client is used by this thread only."""
    def start(ready):
        fut = p.client._import("vf.closing").watch(address, "p" + uniq(), state, ready, rng.choice(["msgpack", "json"]), 5, limit, delays[0], _sync="async", _return_type="value")

        def get():
            try:
                return fut.result(timeout=LOST)
            except Exception as e:
                return f"{type(e).__name__}: {str(e)[-400:]}"
        return get
    return "proc-" + state, start


def s_threads(ctx):
    w = ctx.params.get("w", 0)
    rng = ctx.rng
    while ctx.more():
        kind = rng.choice(["tcp", "tcp", "inproc", "ipc", "lazy"])
        s = LazyServer() if kind == "lazy" else ThreadServer(kind)
        path = tmp("log")
        s["target"] = closing.Target(path)
        n = rng.choice([0, 1, 2, 3, 5])
        closers = rng.choice([["sync"], ["sync"], ["async"], ["off"], ["method"], ["remote-self"], ["sync", "sync"], ["sync", "method"], ["async", "sync", "sync"], ["method", "method"]])
        light = "remote-self" in closers or "method" in closers
        clients = [thread_client(s.address, rng.choice(LIGHT if light else STATES), rng, 20, [.005] if light else [.005, .03, .1]) for _ in range(n)]
        extra = rng.choice(["", "", "forgotten client", "closed client"])
        hold, over = threading.Semaphore(0), threading.Event()
        if extra:
            t = threading.Thread(target=closing.use_and_die, args=(s.address, "d" + uniq(), extra.split()[0], hold, over), daemon=True)
            t.start()
            hold.acquire(timeout=LOST)

        def ended(what):
            s.thread.join(8)
            ctx.check(not s.thread.is_alive(), "server-loop-runs", f"{what}: the server's thread is still running")
            ctx.check(not s.server.running(), "server-loop-runs", f"{what}: running() is still true")
            if s.error:
                ctx.violate("server-died", f"{what}: {s.error[-600:]}")
        one_round(ctx, rng, kind, s.server, s.address, path, clients, closers, extra, ended)
        over.set()


def s_procs(ctx):
    """Servers in child processes, clients in threads and in other processes, killed and stopped clients."""
    rng = ctx.rng
    peers = [child(), child()]
    n = 0
    while ctx.more():
        n += 1
        qt = rng.random() < .35
        p = child(qt=qt)
        address = p.client.address
        path = tmp("log")
        p.client["target"] = p.client._import("vf.closing").Target(path)
        closers = rng.choice([["sync"], ["async"], ["off"], ["remote-self"], ["sync", "sync"], ["stop"]])
        light = "remote-self" in closers
        states, delays = (LIGHT, [.005]) if light else (STATES, [.005, .03, .1])
        kinds = [rng.choice(["thread", "thread", "proc"]) for _ in range(rng.choice([1, 2, 3, 4]))]
        clients, used = [], 0
        for k in kinds:
            if k == "proc" and used < len(peers):
                clients.append(proc_client(peers[used], address, rng.choice(states), rng, 20, delays))
                used += 1
            else:
                clients.append(thread_client(address, rng.choice(states), rng, 20, delays))
        extra = rng.choice(["", "", "killed", "stopped", "stopped"])
        victim = None
        if extra:
            victim = child()
            victim.client._import("vf.closing").use_and_die(address, "d" + uniq(), rng.choice(["idle", "busy"]), _timeout=LOST)
            os.kill(victim.pid, signal.SIGKILL if extra == "killed" else signal.SIGSTOP)
            if extra == "killed":
                victim.proc.wait()
        if closers == ["stop"]:
            closers = ["sync"]
            extra += " stop()"

        def ended(what):
            if "stop()" in extra:
                try:
                    p.stop()
                except Exception as e:
                    ctx.violate("close-result", f"{what}: stop() raised {type(e).__name__} {e}")
            try:
                p.proc.wait(25)
                ctx.check(p.proc.returncode == 0, "process-does-not-end", f"{what}: the server's process ended with {p.proc.returncode}")
            except subprocess.TimeoutExpired:
                ctx.violate("process-does-not-end", f"{what}: the server's process is still running 25 s after the close")
                p.proc.kill()
        one_round(ctx, rng, "qt" if qt else "proc", None, address, path, clients, closers, extra, ended)
        p.client.close()
        if victim is not None:
            victim.proc.kill()  # (of subprocess.Popen: does nothing when the process has ended)
            victim.proc.wait()
            victim.client.close()
    for p in peers:
        p.stop()


EXIT = r"""
import sys, threading, time, os
sys.path.insert(0, {root!r})
import logging; logging.getLogger("teleprox").setLevel(logging.CRITICAL)
import teleprox
from teleprox import RPCServer, RPCClient
from vf import closing
mode = {mode!r}
if mode == "thread":
    s = RPCServer(); s["target"] = closing.Target({path!r}); s.run_in_thread()
elif mode == "lazy":
    s = RPCServer(); s["target"] = closing.Target({path!r}); s.run_lazy()
elif mode == "child":
    p = teleprox.start_process("exitchild"); p.client["target"] = p.client._import("vf.closing").Target({path!r}); s = p.client
elif mode == "threadclient":
    s = RPCServer(); s["target"] = closing.Target({path!r}); s.run_in_thread()
    c = RPCClient(s.address); c["target"].hit("own")
open({info!r} + ".tmp", "w").write(s.address.decode() + " " + str(p.pid if mode == "child" else 0)); os.rename({info!r} + ".tmp", {info!r})
t = time.time()
while not os.path.exists({go!r}) and time.time() < t + 20:
    if mode == "lazy":
        import zmq
        if s._socket.poll(10):
            s._read_and_process_one()
    else:
        time.sleep(.01)
if {how!r} == "exc":
    raise SystemExit(3)
"""


def s_abandoned(ctx):
    """Clients that have dropped their futures see the end of the server, though many replies lie in front of its message."""
    rng = ctx.rng
    while ctx.more():
        srv = ThreadServer()
        n, keep, ask = rng.choice([0, 1, 5, 60, 400]), rng.choice([0, 0, 1, 3]), rng.choice(["disconnected", "close_server", "done", "request"])
        what = f"{n} replies nobody waits for, {keep} futures kept, closed by another client, then {ask}"
        ctx.sig("abandoned", n, keep, ask)
        with ctx.guard(90, "hangs", what):
            c = RPCClient(srv.address, serializer=rng.choice(["msgpack", "json"]))
            kept, ran = [], []
            srv.server["pong"] = lambda i: ran.append(i) or "pong"
            pong = c["pong"]
            for i in range(n):
                pong(i, _sync="async")
                if len(kept) < keep and rng.random() < .5:
                    kept.append(pong(i, _sync="async"))
            # (requests that arrive after that of the other client are not answered)
            answered = rng.random() < .7
            end = time.monotonic() + 60
            while answered and len(ran) < n + len(kept) and time.monotonic() < end:
                time.sleep(.002)

            def close():
                d = RPCClient(srv.address)
                d.close_server(timeout=LOST)
                d.close()
            th = threading.Thread(target=close, daemon=True)
            th.start()
            th.join(LOST)
            # its message is there at once, if the system is not overloaded
            gap, r = .1, None
            if ask == "done" and kept:
                kept[0].done()
            while gap < 8 and r is not True:
                time.sleep(gap)
                gap *= 2
                if ask == "close_server":
                    r = c.close_server()
                elif ask == "request":
                    try:
                        r = c.ping()
                    except RuntimeError:
                        r = True
                else:
                    r = c.disconnected()
            ctx.ev()
            ctx.check(r is True, "not-disconnected", f"{what}: not noticed in {gap:.0f} s ({r!r})")
            for f in kept:
                ok = f.done() and (isinstance(f.exception(), RuntimeError) and not answered or f.exception() is None and f.result() == "pong")
                ctx.check(ok, "pending-future", f"{what}: a reply that was sent before is lost: {f!r}")
            c.close()


def s_exit(ctx):
    """The exit hook: a process that ends without closing its server; a parent that ends without stopping its child."""
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    rng = ctx.rng
    first = True
    todo = []
    while ctx.more():
        if not todo:
            todo = [(m, h) for m in ("thread", "lazy", "child", "threadclient") for h in ("normal", "exc")]
            rng.shuffle(todo)
        mode, how = todo.pop()
        path, info, go = tmp("log"), tmp("info"), tmp("go")
        code = EXIT.format(root=root, mode=mode, path=path, info=info, go=go, how=how)
        what = f"process exit with a {mode} server ({how})"
        ctx.sig(mode, how)
        with ctx.guard(LOST + 40, "close-hangs", what):
            pr = subprocess.Popen([sys.executable, "-c", code], stderr=subprocess.PIPE)
            if not wait_files([info]):
                ctx.violate("clients-not-ready", f"{what}: {pr.poll()}")
                return
            address, cpid = open(info).read().split()
            states = rng.sample(["idle", "chatty", "offs"], 2)
            getters, readies = [], []
            for st in states:
                r = tmp("ready")
                readies.append(r)
                getters.append(thread_client(address, st, rng, 20, [.005])[1](r))
            wait_files([r + ".conn" for r in readies])
            for r in readies:
                closing.touch(r + ".go")
            wait_files(readies)
            time.sleep(.05)
            closing.touch(go)
            t = time.monotonic()
            try:
                pr.wait(20)
                ctx.ev()
            except subprocess.TimeoutExpired:
                ctx.violate("process-does-not-end", f"{what}: the process hangs at exit")
                pr.kill()
            for g in getters:
                o = g()
                if isinstance(o, dict):
                    judge_client(ctx, what, o, time.monotonic())
                else:
                    ctx.violate("client-failed", f"{what}: {o}")
            if int(cpid):
                end = time.monotonic() + 10
                while os.path.exists(f"/proc/{cpid}") and time.monotonic() < end and not zombie(cpid):
                    time.sleep(.02)
                ctx.check(not os.path.exists(f"/proc/{cpid}") or zombie(cpid), "process-does-not-end", f"{what}: child process {cpid} survives its parent")


def zombie(pid):
    try:
        return open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()[0] == "Z"
    except OSError:
        return True
